// Works on strings of every character type with the string utilities.
#include "trace.hpp"

#include "fly/types/string/string.hpp"

using namespace vt;

template <typename C>
static long long unit(C c)
{
    if constexpr (sizeof(C) == 1) return (unsigned char)c;
    else return (long long)std::min<unsigned long long>((unsigned long long)(std::uint32_t)c, 1u << 30);
}
template <typename S>
static std::string units(S const &s)
{
    std::string o = "[";
    for (auto c : s) o += (o.size() > 1 ? "," : "") + std::to_string(unit(c));
    return o + "]";
}

template <typename C>
static C character(Rng &rng, int alphabet)
{
    static char const small[] = "ab*";
    static char const spaces[] = "a \t\n\r\v\f,";
    static char const any[] = "aAzZ09,;*x\x1f\x7f\x08\x0e\x85\xa0\xc3\xff";
    switch (alphabet)
    {
        case 0: return (C)small[rng.below(2)];
        case 1: return (C)small[rng.below(3)];
        case 2: return (C)spaces[rng.below(8)];
        case 3: return (C)(unsigned char)any[rng.below(18)];
        default: return sizeof(C) == 1 || rng.chance(1, 2) ? (C)rng.below(256) : (C)(rng.chance(1, 2) ? 0x2000 + rng.below(0x100) : 0xac00);
    }
}
template <typename C>
static std::basic_string<C> make(Rng &rng, int alphabet, std::uint64_t max)
{
    std::basic_string<C> s;
    for (std::uint64_t n = rng.below(max + 1); n > 0; --n) s += character<C>(rng, alphabet);
    return s;
}

template <typename C>
static void run(Rng &rng)
{
    using F = fly::BasicString<C>;
    using S = std::basic_string<C>;
    int alphabet = (int)rng.below(5);
    bool large = rng.chance(1, 10); // longer than what a string object holds itself
    S s = make<C>(rng, alphabet, large ? 120 : 14);
    emit(Ev("set").raw("s", units(s)));
    for (int k = 0; k < 5; ++k)
    {
        switch (rng.below(9))
        {
            case 0:
                begin(Ev("trim"));
                F::trim(s);
                emit(Ev("trim").raw("s", units(s)));
                break;
            case 1: case 2:
            {
                S pat = make<C>(rng, alphabet, rng.chance(1, 6) ? 8 : 3), by = make<C>(rng, alphabet, rng.chance(1, 12) ? 30 : 4);
                if (s.size() > (large ? 120 : 60)) break;
                if (rng.chance(1, 4) && s.size() > 3) pat = s.substr(rng.below(s.size() - 2), 1 + rng.below(large ? 20 : 4));
                begin(Ev("replace").raw("pat", units(pat)).raw("by", units(by)));
                if (by.size() == 1 && rng.chance(2, 3)) F::replace_all(s, pat, by[0]);
                else F::replace_all(s, pat, by);
                emit(Ev("replace").raw("pat", units(pat)).raw("by", units(by)).raw("s", units(s)));
                break;
            }
            case 3:
            {
                S pat = make<C>(rng, alphabet, 2);
                if (rng.chance(1, 4) && s.size() > 3) pat = s.substr(rng.below(s.size() - 2), 1 + rng.below(large ? 20 : 4));
                begin(Ev("remove").raw("pat", units(pat)));
                F::remove_all(s, pat);
                emit(Ev("remove").raw("pat", units(pat)).raw("s", units(s)));
                break;
            }
            case 4:
            {
                C d = character<C>(rng, alphabet);
                std::size_t n = rng.below(rng.chance(1, 4) ? 20 : 5);
                begin(Ev("split"));
                auto parts = n == 0 && rng.chance(1, 2) ? F::split(s, d) : F::split(s, d, n);
                std::string out = "[";
                for (auto const &p : parts) out += (out.size() > 1 ? "," : "") + units(p);
                emit(Ev("split").i("d", unit(d)).i("n", (int)n).raw("out", out + "]"));
                break;
            }
            case 5: case 6:
            {
                S pat;
                if (rng.chance(1, 2)) pat = make<C>(rng, rng.chance(1, 2) ? 1 : alphabet, 6);
                else
                {
                    // pieces of the string, in order, with wildcards between them
                    std::size_t at = 0;
                    if (rng.chance(1, 2)) pat += (C)'*';
                    while (at < s.size())
                    {
                        std::size_t n = 1 + rng.below(3);
                        if (rng.chance(1, 3)) pat += (C)'*';
                        else { pat += s.substr(at, n); if (rng.chance(1, 2)) pat += (C)'*'; }
                        at += n;
                    }
                    if (rng.chance(1, 4)) pat += s.substr(0, 1);
                }
                begin(Ev("wildcard").raw("pat", units(pat)));
                bool ok = F::wildcard_match(s, pat);
                emit(Ev("wildcard").raw("pat", units(pat)).b("ok", ok));
                break;
            }
            case 7:
            {
                begin(Ev("size"));
                bool nul = s.find(C()) != S::npos;
                std::size_t n = rng.chance(1, 2) ? F::size(s) : nul || rng.chance(1, 2) ? F::size(std::basic_string_view<C>(s)) : F::size(s.c_str());
                emit(Ev("size").i("n", (int)n));
                break;
            }
            case 8:
            {
                C d = character<C>(rng, alphabet);
                if (sizeof(C) == 1) d &= 0x7f; // a character of its own
                S a = make<C>(rng, alphabet, 3), b = make<C>(rng, alphabet, 3);
                C c = (C)('a' + rng.below(26));
                long long n = rng.chance(1, 4) ? (long long)rng.next() >> rng.below(64) : rng.range(-50, 50);
                S num;
                for (char x : std::to_string(n)) num += (C)x;
                begin(Ev("join"));
                S r;
                std::string parts;
                if (rng.chance(1, 6)) a = make<C>(rng, alphabet, 60);
                switch (rng.below(7))
                {
                    case 4: r = F::join(d, a, b, b, S(), a, c); parts = units(a) + "," + units(b) + "," + units(b) + ",[]," + units(a) + "," + units(S(1, c)); break;
                    case 5: r = F::join(d, std::basic_string_view<C>(a).substr(0, a.size() / 2), (short)-7, b.c_str()); parts = units(a.substr(0, a.size() / 2)) + ",[45,55]," + units(S(b.c_str())); break;
                    case 6: r = F::join(d, 2.5, a, (unsigned long long)n >> 1); num.clear(); for (char x : std::to_string((unsigned long long)n >> 1)) num += (C)x;
                        parts = "[50,46,53]," + units(a) + "," + units(num); break;
                    case 0: r = F::join(d, a); parts = units(a); break;
                    case 1: r = F::join(d, a, n); parts = units(a) + "," + units(num); break;
                    case 2: r = F::join(d, n, a, b); parts = units(num) + "," + units(a) + "," + units(b); break;
                    default: r = F::join(d, b, c, std::basic_string_view<C>(a), n); parts = units(b) + "," + units(S(1, c)) + "," + units(a) + "," + units(num); break;
                }
                emit(Ev("join").i("d", unit(d)).raw("parts", "[" + parts + "]").raw("out", units(r)));
                break;
            }
        }
    }
    if (rng.chance(1, 6))
    {
        std::size_t n = rng.chance(1, 10) ? 200 + rng.below(300) : rng.below(70);
        begin(Ev("random"));
        S r = F::generate_random_string(n);
        emit(Ev("random").i("n", (int)n).raw("out", units(r)));
    }
    std::string chars;
    auto base = rng.below(16) * 16;
    for (unsigned k = 0; k < 16; ++k)
    {
        std::uint64_t v = base + k;
        if (sizeof(C) > 1 && rng.chance(1, 3)) v += 256 * (1 + rng.below(255));
        if (sizeof(C) > 2 && rng.chance(1, 6)) v |= 0xffffff00;
        C c = (C)v;
        chars += std::string(chars.empty() ? "" : ",") + "{" + Ev("c").i("c", unit(c)).b("alpha", F::is_alpha(c)).b("upper", F::is_upper(c)).b("lower", F::is_lower(c))
            .b("digit", F::is_digit(c)).b("xdigit", F::is_x_digit(c)).b("space", F::is_space(c)).i("up", unit(F::to_upper(c))).i("down", unit(F::to_lower(c))).body + "}";
    }
    emit(Ev("classify").raw("chars", "[" + chars + "]"));
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long, Rng &rng) {
        hang_seconds() = 4;
        for (int k = 0; k < 4; ++k)
        {
            switch (rng.below(5))
            {
                case 0: run<char>(rng); break;
                case 1: run<wchar_t>(rng); break;
                case 2: run<char8_t>(rng); break;
                case 3: run<char16_t>(rng); break;
                case 4: run<char32_t>(rng); break;
            }
        }
    });
}
