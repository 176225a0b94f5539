// Reads texts of every character type through a lexer.
#include "digits.hpp"

#include "fly/types/string/lexer.hpp"

using namespace vt;

template <typename C>
static long long unit(C c)
{
    if constexpr (sizeof(C) == 1) return (unsigned char)c;
    else return (long long)std::min<unsigned long long>((unsigned long long)(std::uint32_t)c, 1u << 30);
}
template <typename S>
static std::string units(S const &s)
{
    std::string o = "[";
    for (auto c : s) o += (o.size() > 1 ? "," : "") + std::to_string(unit(c));
    return o + "]";
}

template <typename C>
static void run(Rng &rng)
{
    std::basic_string<C> s;
    for (std::uint64_t n = rng.below(rng.chance(1, 20) ? 60 : 6); n > 0; --n)
    {
        static char const other[] = "gGxX/:@`+-. ";
        switch (rng.below(5))
        {
            case 0: s += rng.chance(1, 4) ? (C)(rng.next()) : (C)other[rng.below(12)]; break;
            case 1: s += (C)("09afAF"[rng.below(6)]); break;
            case 2: s += (C)('0'); break;
            default: for (char c : in_base(interesting(rng), rng.chance(1, 2) ? 10 : 16, rng.chance(1, 2))) s += (C)c; break;
        }
    }
    // exactly as many characters as there are
    C *data = new C[s.size()];
    std::copy(s.begin(), s.end(), data);
    fly::BasicLexer<C> lexer(std::basic_string_view<C>(data, s.size()));
    auto here = [&](Ev e) { emit(e.i("pos", (long long)std::min<std::size_t>(lexer.position(), 1000000))); };
    auto opt = [](auto const &c) { return c ? unit(*c) : -1; };
    here(Ev("open").raw("text", units(s)));
    for (std::uint64_t n = 4 + rng.below(s.size() > 100 ? 40 : 10); n > 0; --n)
    {
        begin(Ev("any"));
        switch (rng.below(8))
        {
            case 0:
            {
                bool huge = rng.chance(1, 5);
                std::size_t ahead = huge ? (std::size_t)0 - 1 - rng.below(s.size() + 3) : rng.below(rng.chance(1, 2) ? 2 : s.size() + 3);
                auto c = ahead == 0 && rng.chance(1, 2) ? lexer.peek() : lexer.peek(ahead);
                here(Ev("peek").i("ahead", huge ? 1000000 : (long long)ahead).i("c", opt(c)));
                break;
            }
            case 1: case 2: { auto c = lexer.consume(); here(Ev("consume").i("c", opt(c))); break; }
            case 3:
            {
                C c = rng.chance(1, 2) && lexer.position() < s.size() ? s[lexer.position()] : rng.chance(1, 3) ? C() : (C)('0' + rng.below(10));
                bool ok = lexer.consume_if(c);
                here(Ev("consume_if").i("c", unit(c)).b("ok", ok));
                break;
            }
            case 4: case 5: case 6:
            {
                bool hex = rng.chance(1, 2);
                auto v = hex ? lexer.consume_hex_number() : lexer.consume_number();
                here(Ev("number").i("base", hex ? 16 : 10).b("ok", v.has_value()).seq("value", v ? digits(*v) : std::vector<int>()));
                break;
            }
            default:
            {
                if (rng.chance(1, 4)) { here(Ev("view").raw("text", units(lexer.view()))); break; }
                std::size_t to = rng.below(s.size() + 4);
                lexer.set_position(to);
                here(Ev("set").i("to", (long long)to));
                break;
            }
        }
    }
    delete[] data;
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long, Rng &rng) {
        for (int k = 0; k < 4; ++k)
        {
            switch (rng.below(5))
            {
                case 0: run<char>(rng); break;
                case 1: run<wchar_t>(rng); break;
                case 2: run<char8_t>(rng); break;
                case 3: run<char16_t>(rng); break;
                case 4: run<char32_t>(rng); break;
            }
        }
    });
}
