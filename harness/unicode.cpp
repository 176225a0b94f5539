// Reads, converts and escapes text in every character type.
#include "trace.hpp"

#include "fly/types/string/string.hpp"

using namespace vt;

// exactly as many characters as there are: reading further is noticed
template <typename C>
struct Text
{
    C *data;
    std::size_t n;
    explicit Text(std::basic_string<C> const &s) : data(new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), data); }
    ~Text() { delete[] data; }
    std::basic_string_view<C> view() const { return {data, n}; }
};
template <typename C>
static long long unit(C c)
{
    unsigned long long v = (std::make_unsigned_t<std::conditional_t<std::is_same_v<C, char8_t>, char, std::conditional_t<std::is_same_v<C, char16_t>, short, std::conditional_t<std::is_same_v<C, char32_t>, int, C>>>>)c;
    return (long long)std::min<unsigned long long>(v, 1u << 30);
}
template <typename S>
static std::vector<long long> units(S const &s)
{
    std::vector<long long> v;
    for (auto c : s) v.push_back(unit(c));
    return v;
}

static std::uint32_t codepoint(Rng &rng)
{
    static std::uint32_t const edges[] = {0, 0x1f, 0x20, 0x5c, 0x7e, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff,
        0xe000, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x110000, 0x3fffff, 0x1fffff};
    switch (rng.below(5))
    {
        case 0: return edges[rng.below(sizeof(edges) / sizeof(edges[0]))] + (std::uint32_t)(rng.chance(1, 3) ? rng.below(3) - 1 : 0);
        case 1: return (std::uint32_t)rng.below(0x80);
        case 2: return (std::uint32_t)rng.below(0x10000);
        case 3: return (std::uint32_t)rng.below(0x110000);
        default: return (std::uint32_t)rng.below(0x800);
    }
}
static bool valid(std::uint32_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }

// an independent encoder, also of what must not be encoded
template <typename C>
static void put(std::basic_string<C> &s, std::uint32_t c, int size = 0)
{
    if constexpr (sizeof(C) == 4) s += (C)c;
    else if constexpr (sizeof(C) == 2)
    {
        if (c < 0x10000) s += (C)c;
        else { s += (C)(0xd800 + ((c - 0x10000) >> 10)); s += (C)(0xdc00 + ((c - 0x10000) & 0x3ff)); }
    }
    else
    {
        int n = size ? size : c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
        if (n == 1) s += (C)c;
        else
        {
            static int const lead[] = {0, 0, 0xc0, 0xe0, 0xf0};
            s += (C)(lead[n] | (c >> (6 * (n - 1))));
            for (int k = n - 2; k >= 0; --k) s += (C)(0x80 | ((c >> (6 * k)) & 0x3f));
        }
    }
}
template <typename C>
static void put_ascii(std::basic_string<C> &s, std::string const &a) { for (char c : a) s += (C)c; }

static std::string hex(Rng &rng, std::uint64_t v, int n)
{
    std::string s;
    for (int k = n - 1; k >= 0; --k) s += (rng.chance(1, 2) ? "0123456789abcdef" : "0123456789ABCDEF")[(v >> (4 * k)) & 15];
    return s;
}
static std::string escaped(Rng &rng)
{
    std::uint32_t c = codepoint(rng);
    if (rng.chance(1, 3) || (c > 0x10ffff)) return "\\U" + hex(rng, rng.chance(1, 12) ? rng.next() & 0xffffffff : c, 8);
    if (c < 0x10000) return "\\u" + hex(rng, c, 4);
    return "\\u" + hex(rng, 0xd800 + ((c - 0x10000) >> 10), 4) + "\\u" + hex(rng, 0xdc00 + ((c - 0x10000) & 0x3ff), 4);
}

template <typename C>
static std::basic_string<C> make(Rng &rng, bool escapes)
{
    std::basic_string<C> s;
    bool clean = rng.chance(1, 2);
    for (std::uint64_t n = rng.below(rng.chance(1, 25) ? 60 : 7); n > 0; --n)
    {
        std::uint32_t c = codepoint(rng);
        if (escapes && rng.chance(1, 2)) put_ascii(s, escaped(rng));
        else if (valid(c) || !clean) put(s, c & 0x1fffff, (!clean && rng.chance(1, 6)) ? 1 + (int)rng.below(4) : 0);
        if (escapes && rng.chance(1, 10)) put_ascii(s, "\\");
    }
    if (!clean)
    {
        for (std::uint64_t n = rng.below(3); n > 0 && !s.empty(); --n)
        {
            std::size_t at = rng.below(s.size());
            if (rng.chance(1, 2)) s.erase(at, 1);
            else if (escapes) s[at] = (C)(rng.below(128));
            else s[at] = (C)(sizeof(C) == 1 ? rng.next() : sizeof(C) == 2 ? (rng.chance(1, 2) ? 0xd700 + rng.below(0xa00) : rng.next()) : (rng.chance(1, 2) ? codepoint(rng) : rng.next()));
        }
    }
    return s;
}

template <typename C, typename D>
static void convert(std::basic_string_view<C> v)
{
    std::basic_string<C> s(v);
    begin(Ev("convert").i("w", sizeof(D)));
    auto r = fly::BasicString<C>::template convert<std::basic_string<D>>(s);
    emit(Ev("convert").i("w", sizeof(D)).b("ok", r.has_value()).seq("out", r ? units(*r) : std::vector<long long>()));
}

template <typename C>
static void run(Rng &rng)
{
    using F = fly::BasicString<C>;
    bool escapes = rng.chance(2, 5);
    auto s = make<C>(rng, escapes);
    Text<C> t(s);
    auto v = t.view();
    emit(Ev("open").i("w", sizeof(C)).seq("text", units(v)));
    auto optional = [](Ev e, auto const &r) { return e.b("ok", r.has_value()).seq("out", r ? units(*r) : std::vector<long long>()); };
    begin(Ev("validate"));
    bool ok = F::validate(v);
    emit(Ev("validate").b("ok", ok));
    switch (rng.below(5))
    {
        case 0: convert<C, char>(v); break;
        case 1: convert<C, wchar_t>(v); break;
        case 2: convert<C, char8_t>(v); break;
        case 3: convert<C, char16_t>(v); break;
        case 4: convert<C, char32_t>(v); break;
    }
    begin(Ev("escape"));
    if (rng.chance(1, 2)) emit(optional(Ev("escape").s("prefix", "u"), F::template escape_all_codepoints<'u'>(v)));
    else emit(optional(Ev("escape").s("prefix", "U"), F::template escape_all_codepoints<'U'>(v)));
    begin(Ev("unescape"));
    emit(optional(Ev("unescape"), F::unescape_all_codepoints(v)));

    int how = (int)rng.below(3);
    auto it = v.cbegin();
    for (bool more = true; more;)
    {
        more = it != v.cend();
        auto next = [&]() { return (int)(it - v.cbegin()) + 1; };
        int h = rng.chance(1, 6) ? (int)rng.below(3) : how;
        if (h == 0)
        {
            begin(Ev("decode"));
            auto r = F::decode_codepoint(it, v.cend());
            emit(Ev("decode").b("ok", r.has_value()).i("cp", r ? (long long)*r : -1).i("next", next()));
            more = more && r;
        }
        else if (h == 1)
        {
            bool small = rng.chance(1, 2);
            begin(Ev("escape1"));
            auto r = small ? F::template escape_codepoint<'u'>(it, v.cend()) : F::template escape_codepoint<'U'>(it, v.cend());
            emit(optional(Ev("escape1").s("prefix", small ? "u" : "U"), r).i("next", next()));
            more = more && r;
        }
        else
        {
            begin(Ev("unescape1"));
            auto r = F::unescape_codepoint(it, v.cend());
            emit(optional(Ev("unescape1"), r).i("next", next()));
            more = more && r;
        }
    }
    for (int k = 0; k < 2; ++k)
    {
        std::uint32_t c = rng.chance(1, 10) ? (std::uint32_t)rng.next() : codepoint(rng);
        begin(Ev("encode").i("cp", std::min<std::uint32_t>(c, 1u << 30)));
        auto r = F::encode_codepoint(c);
        emit(optional(Ev("encode").i("w", sizeof(C)).i("cp", std::min<std::uint32_t>(c, 1u << 30)), r));
    }
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long, Rng &rng) {
        for (int k = 0; k < 4; ++k)
        {
            switch (rng.below(5))
            {
                case 0: case 1: (rng.chance(1, 2) ? run<char>(rng) : run<char8_t>(rng)); break;
                case 2: run<char16_t>(rng); break;
                case 3: run<char32_t>(rng); break;
                case 4: run<wchar_t>(rng); break;
            }
        }
    });
}
