// Formats values of every kind with generated format strings, valid ones and damaged ones.
#define FLY_COMPILER_DISABLE_CONSTEVAL // so that format strings can be chosen at runtime
#include "digits.hpp"

#include "fly/types/string/format.hpp"
#include "fly/types/string/string.hpp"

#include <cmath>
#include <limits>

using namespace vt;

// ---------------------------------------------------------------- types of a user
struct Bare {};                    // no options
struct Own {};                     // options of its own
enum class Styled { One, Two };    // the options of strings

template <typename C>
struct fly::string::Formatter<Bare, C>
{
    template <typename X>
    void format(Bare, X &context) { fly::string::format_to(context.out(), FLY_ARR(C, "{:>3}"), FLY_STR(C, "B")); }
};
template <typename C>
struct fly::string::Formatter<Own, C>
{
    bool m_option {false};
    template <typename X>
    constexpr void parse(X &context)
    {
        if (context.lexer().consume_if(FLY_CHR(C, 'o'))) m_option = true;
        if (!context.lexer().consume_if(FLY_CHR(C, '}'))) context.on_error("bad option");
    }
    template <typename X>
    void format(Own, X &context) { fly::string::format_to(context.out(), FLY_ARR(C, "{}"), m_option); }
};
template <typename C>
struct fly::string::Formatter<Styled, C> : public fly::string::Formatter<std::basic_string_view<C>, C>
{
    template <typename X>
    void format(Styled v, X &context)
    {
        fly::string::Formatter<std::basic_string_view<C>, C>::format(v == Styled::One ? FLY_STR(C, "One") : FLY_STR(C, "Twos"), context);
    }
};

// ---------------------------------------------------------------- the values as events
template <typename S>
static std::vector<long long> units(S const &s)
{
    std::vector<long long> v;
    for (auto c : s) v.push_back(sizeof(c) == 1 ? (long long)(unsigned char)c : (long long)std::min<unsigned long long>((unsigned long long)(std::uint32_t)c, 1u << 30));
    return v;
}
template <typename C>
static constexpr int id_of() { return std::is_same_v<C, char> ? 0 : std::is_same_v<C, wchar_t> ? 1 : std::is_same_v<C, char8_t> ? 2 : std::is_same_v<C, char16_t> ? 3 : 4; }
static std::string arg(Ev const &e) { return "{" + e.body + "}"; }
static Ev kind(char const *k) { return Ev("arg").s("k", k); }

template <typename T>
struct Exact // a floating point number as digits
{
    static std::string of(T v)
    {
        Ev e = kind("float");
        e.b("neg", std::signbit(v)).s("class", std::isnan(v) ? "nan" : std::isinf(v) ? "inf" : "finite");
        std::vector<int> d, nib;
        long long exp = 0, x = 0;
        int lead = sizeof(T) > 8 ? -1 : 0; // the hexadecimal form of long double is left open
        if (std::isfinite(v))
        {
            T a = std::fabs(v);
            int places = sizeof(T) > 8 ? 400 : a < (T)1e-20 ? 1100 : 220;
            std::string s(places + 400, '\0');
            s.resize((std::size_t)std::snprintf(s.data(), s.size(), "%.*Lf", places, (long double)a));
            std::size_t dot = s.find('.');
            exp = (long long)dot;
            s.erase(dot, 1);
            while (!s.empty() && s.back() == '0') s.pop_back();
            std::size_t z = 0;
            while (z < s.size() && s[z] == '0') ++z;
            exp -= (long long)z;
            for (std::size_t k = z; k < s.size(); ++k) d.push_back(s[k] - '0');
            if (d.empty()) exp = 0;
            if constexpr (sizeof(T) <= 8)
            {
                std::uint64_t frac;
                int biased, places_hex;
                if constexpr (sizeof(T) == 8)
                {
                    std::uint64_t b;
                    std::memcpy(&b, &a, 8);
                    frac = b & ((1ull << 52) - 1), biased = (int)(b >> 52), places_hex = 13;
                    x = biased ? biased - 1023 : frac ? -1022 : 0;
                }
                else
                {
                    std::uint32_t b;
                    std::memcpy(&b, &a, 4);
                    frac = (std::uint64_t)(b & ((1u << 23) - 1)) << 1, biased = (int)(b >> 23), places_hex = 6;
                    x = biased ? biased - 127 : frac ? -126 : 0;
                }
                lead = biased ? 1 : 0;
                for (int k = places_hex - 1; k >= 0; --k) nib.push_back((int)((frac >> (4 * k)) & 15));
            }
        }
        return arg(e.seq("d", d).i("exp", exp).i("lead", lead).seq("nibbles", nib).i("x", x));
    }
};
template <typename T>
static std::string describe(T const &v)
{
    using fly::StandardCharacter;
    if constexpr (std::is_same_v<T, bool>) return arg(kind("bool").b("v", v));
    else if constexpr (fly::StandardCharacter<T>) return arg(kind("char").b("neg", v < T()).bits("bits", v < T() ? 0 - (std::uint64_t)v : (std::uint64_t)v, 64));
    else if constexpr (std::is_integral_v<T>) return arg(kind("int").b("neg", v < T()).bits("bits", v < T() ? 0 - (std::uint64_t)v : (std::uint64_t)v, 64));
    else if constexpr (std::is_floating_point_v<T>) return Exact<T>::of(v);
    else if constexpr (std::is_null_pointer_v<T>) return arg(kind("pointer").bits("bits", 0, 64));
    else if constexpr (std::is_same_v<T, Bare>) return arg(kind("plain").seq("units", std::string("  B")));
    else if constexpr (std::is_same_v<T, Own>) return arg(kind("option"));
    else if constexpr (std::is_same_v<T, Styled>) return arg(kind("styled").seq("units", std::string(v == Styled::One ? "One" : "Twos")));
    else if constexpr (requires { typename T::value_type; })
        return arg(kind("string").i("t", id_of<typename T::value_type>()).i("w", sizeof(typename T::value_type)).seq("units", units(v)));
    else if constexpr (fly::StandardStringLike<T>)
    {
        using C = fly::StandardCharacterType<T>;
        return arg(kind("string").i("t", id_of<C>()).i("w", sizeof(C)).seq("units", units(std::basic_string<C>(v))));
    }
    else return arg(kind("pointer").bits("bits", (std::uint64_t)reinterpret_cast<std::uintptr_t>((void const *)v), 64));
}

// ---------------------------------------------------------------- values
template <typename T>
static T integer(Rng &rng)
{
    std::uint64_t v = (std::uint64_t)interesting(rng);
    if (rng.chance(1, 3)) v = rng.below(130);
    if (rng.chance(1, 3)) v = 0 - v;
    return (T)v;
}
template <typename T>
static T real(Rng &rng)
{
    T v = 0;
    switch (rng.below(12))
    {
        case 0: v = (T)(long long)rng.below(2000) / (T)(1 << rng.below(12)); break;       // ends exactly, often in the middle
        case 1: v = (T)((double)rng.below(100000) / 1000.0); break;
        case 2: v = (T)std::pow(10.0, (double)rng.range(-12, 24)) * (T)(rng.chance(1, 2) ? 1 : (double)(1 + rng.below(99)) / 10); break;
        case 3: v = (T)std::nextafter(std::pow(10.0, (double)rng.range(-6, 9)), rng.chance(1, 2) ? 0.0 : 1e300); break;
        case 4: v = (T)(9.999999999999 * std::pow(10.0, (double)rng.range(-7, 9))) / (T)(rng.chance(1, 3) ? 1.00001 : 1); break;
        case 5: v = (T)std::ldexp((double)(rng.next() >> 11), (int)rng.range(-90, 20)); break;
        case 6: v = (T)rng.below(1000); break;
        case 7: v = (T)0.5 + (T)rng.below(20); break;
        case 8: v = (T)std::ldexp(1.0 + (double)rng.below(16) / 16.0 + (double)rng.below(3) / 4096, (int)rng.range(-20, 20)); break;
        case 9: v = 0; break;
        case 10:
            switch (rng.below(6))
            {
                case 0: v = std::numeric_limits<T>::infinity(); break;
                case 1: v = std::numeric_limits<T>::quiet_NaN(); break;
                case 2: v = sizeof(T) > 8 ? (T)1e90 : std::numeric_limits<T>::max(); break;
                case 3: v = sizeof(T) > 8 ? (T)1e-9 : rng.chance(1, 3) ? std::numeric_limits<T>::min() : (T)1e-30; break;
                case 4: v = (T)(sizeof(T) > 8 || rng.chance(2, 3) ? 1e-10 : std::numeric_limits<T>::denorm_min() * (T)(1 + rng.below(1000))); break;
                default: v = (T)std::ldexp((double)(rng.next() >> 11), (int)rng.range(0, 70)); break;
            }
            break;
        default: v = (T)(0.0001 * (double)(1 + rng.below(20))); break;
    }
    return rng.chance(1, 3) ? -v : v;
}
template <typename C>
static std::basic_string<C> text(Rng &rng)
{
    std::basic_string<C> s;
    bool other = rng.chance(1, 4);
    for (std::size_t n = rng.below(rng.chance(1, 20) ? 90 : 8); n > 0; --n)
    {
        if (!other || rng.chance(1, 2)) { s += (C)(rng.chance(1, 8) ? "{}:0<"[rng.below(5)] : 'a' + (int)rng.below(26)); continue; }
        static char32_t const cps[] = {0xe9, 0x7ff, 0x800, 0x4e00, 0xffff, 0x10000, 0x1f600, 0x10ffff};
        char32_t c = cps[rng.below(8)];
        if constexpr (sizeof(C) == 1)
        {
            if (c < 0x800) { s += (C)(0xc0 + (c >> 6)); s += (C)(0x80 + (c & 63)); }
            else if (c < 0x10000) { s += (C)(0xe0 + (c >> 12)); s += (C)(0x80 + ((c >> 6) & 63)); s += (C)(0x80 + (c & 63)); }
            else { s += (C)(0xf0 + (c >> 18)); s += (C)(0x80 + ((c >> 12) & 63)); s += (C)(0x80 + ((c >> 6) & 63)); s += (C)(0x80 + (c & 63)); }
        }
        else if constexpr (sizeof(C) == 2)
        {
            if (c < 0x10000) s += (C)c;
            else { s += (C)(0xd800 + ((c - 0x10000) >> 10)); s += (C)(0xdc00 + ((c - 0x10000) & 0x3ff)); }
        }
        else s += (C)c;
    }
    if (other && !s.empty() && rng.chance(1, 4)) // not valid any more, perhaps
    {
        if (sizeof(C) == 1) s[rng.below(s.size())] = (C)(0x80 + rng.below(0x80));
        else s[rng.below(s.size())] = (C)(0xd800 + rng.below(0x800));
    }
    return s;
}

// ---------------------------------------------------------------- format strings
static int limit_of[5];
struct Kind { bool integral, real, string, boolean, character, own, styled, bare; };
template <typename T>
static Kind kind_of()
{
    constexpr bool b = std::is_same_v<T, bool>, c = fly::StandardCharacter<T>;
    return {std::is_integral_v<T> && !b && !c, std::is_floating_point_v<T>, fly::StandardStringLike<T>, b, c, std::is_same_v<T, Own>, std::is_same_v<T, Styled>, std::is_same_v<T, Bare>};
}
static std::string field(Rng &rng, std::vector<Kind> const &k, bool manual, std::size_t &next)
{
    std::string s = "{";
    std::size_t at = manual || k.empty() ? rng.below(k.empty() ? 1 : k.size()) : next++;
    if (manual) s += std::to_string(at);
    if (at >= k.size()) { if (rng.chance(1, 2)) s += ":"; return s + "}"; }
    Kind const &t = k[at];
    if (rng.chance(1, 5)) return s + (rng.chance(1, 3) ? ":" : "") + "}";
    s += ":";
    if (t.bare) return s + (rng.chance(1, 8) ? "5" : "") + "}";
    if (t.own) return s + (rng.chance(1, 2) ? "o" : "") + (rng.chance(1, 10) ? "o" : "") + "}";
    bool integer_like = t.integral || t.boolean || t.character;
    std::string type;
    if (rng.chance(2, 3))
    {
        char const *of = integer_like ? (t.boolean ? "csbBodxX" : "cbBodxX") : t.real ? "aAeEfFgG" : t.string || t.styled ? "s" : "p";
        type = of[rng.below(std::strlen(of))];
        if (rng.chance(1, 25)) type = std::string("cspbBodxXaAeEfFgG")[rng.below(17)];
    }
    bool numeric = t.real || (t.integral && type != "c") || ((t.boolean || t.character) && !type.empty() && type != "c" && type != "s");
    bool align = rng.chance(2, 5);
    if (align)
    {
        if (rng.chance(1, 2)) s += rng.chance(1, 25) ? (char)(rng.chance(1, 2) ? 123 + 2 * (int)rng.below(2) : 0xc3) : "*0 _<>^+x#:."[rng.below(12)];
        s += "<>^"[rng.below(3)];
    }
    if (rng.chance(numeric ? 8 : 1, 25)) s += "+- "[rng.below(3)];
    if (rng.chance(numeric && !type.empty() && type != "d" ? 9 : t.real ? 9 : 1, 25)) s += "#";
    if (rng.chance(numeric ? 8 : 1, 25)) s += "0";
    auto number = [&](int most) { return std::to_string(rng.chance(1, 6) ? rng.below(3) : rng.below((std::uint64_t)most)); };
    auto nested = [&]() {
        std::size_t i = manual ? rng.below(k.size() + (rng.chance(1, 15) ? 1 : 0)) : next;
        for (int tries = 0; manual && tries < 4 && !(i < k.size() && k[i].integral); ++tries) i = rng.below(k.size());
        if (!manual) ++next;
        return "{" + (manual ? std::to_string(i) : "") + "}";
    };
    if (rng.chance(1, 2)) s += rng.chance(1, 4) ? nested() : number(rng.chance(1, 15) ? 400 : 14);
    if (rng.chance(t.real || t.string || t.styled ? 10 : 1, 25)) s += "." + (rng.chance(1, 4) ? nested() : number(t.real ? (rng.chance(1, 12) ? 90 : 14) : rng.chance(1, 10) ? 80 : 8));
    if (rng.chance(t.real || t.integral || t.boolean ? 2 : 1, 25)) s += "L";
    return s + type + "}";
}
static std::string pattern(Rng &rng, std::vector<Kind> const &k)
{
    std::string s;
    bool manual = rng.chance(2, 5);
    std::size_t next = 0;
    for (std::size_t n = 1 + rng.below(3); n > 0; --n)
    {
        if (rng.chance(1, 3)) s += rng.chance(1, 3) ? "{{" : rng.chance(1, 3) ? "}}" : rng.chance(1, 2) ? "a" : ":";
        if (next >= k.size() && !manual && !rng.chance(1, 12)) break;
        s += field(rng, k, rng.chance(1, 30) ? !manual : manual, next);
    }
    if (rng.chance(1, 8) && !s.empty()) // damaged
    {
        std::size_t at = rng.below(s.size());
        switch (rng.below(3))
        {
            case 0: s.erase(at, 1 + rng.below(2)); break;
            case 1: s.insert(at, 1, "{}:<^0.1Ldsx-"[rng.below(13)]); break;
            default: s[at] = "{}:<^0.1Ldsx-"[rng.below(13)]; break;
        }
    }
    if (rng.chance(1, 60)) { s.clear(); for (std::size_t n = 62 + rng.below(4); n > 0; --n) s += "{0}"; }
    return s;
}

// ---------------------------------------------------------------- the calls
static std::size_t const sizes[] = {0, 1, 2, 3, 4, 6, 9, 14, 22, 36, 200};

template <typename C, std::size_t N, typename... A>
static std::basic_string<C> with(std::basic_string<C> const &f, bool to, A &...a)
{
    C array[N];
    for (std::size_t k = 0; k < N; ++k) array[k] = k < f.size() ? f[k] : C();
    fly::string::FormatString<C, A &...> fmt(array);
    if (!to) return fly::string::format(std::move(fmt), a...);
    std::vector<C> out;
    fly::string::format_to(std::back_inserter(out), std::move(fmt), a...);
    return std::basic_string<C>(out.begin(), out.end());
}
static bool nests(std::string const &p)
{
    int depth = 0;
    for (std::size_t k = 0; k < p.size(); ++k)
    {
        if (p[k] == '{' && depth == 0 && k + 1 < p.size() && p[k + 1] == '{') { ++k; continue; }
        if (p[k] == '{' && ++depth > 1) return true;
        if (p[k] == '}' && depth > 0) --depth;
    }
    return false;
}
template <typename T>
static void shrink(T &v)
{
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool> && !fly::StandardCharacter<T>)
        if (v < T() ? v < (T)-120 : (std::uint64_t)v > 120) v = (T)(v & 15);
}
template <typename C, typename... A>
static void call(Rng &rng, A... a)
{
    std::string p = pattern(rng, {kind_of<A>()...});
    if (nests(p)) (shrink(a), ...); // widths and precisions are not large
    std::size_t which = 0;
    while (sizes[which] < p.size() && which < 10) ++which;
    if (p.size() > sizes[10]) p.resize(sizes[10]);
    while (p.size() < sizes[which]) // literal characters in front, or at the end
    {
        if (rng.chance(3, 4)) p = "." + p; else p += "-";
    }
    std::basic_string<C> f;
    for (char c : p) f += (C)c;
    if (sizeof(C) > 1)
        for (auto &c : f) if ((unsigned)c >= 0x80) c = (C)0x4e00;
    Ev e("format");
    std::string list = "[";
    ((list += (list.size() > 1 ? "," : "") + describe(a)), ...);
    e.seq("fmt", units(f)).i("t", id_of<C>()).i("w", sizeof(C)).i("limit", std::is_same_v<C, char> ? 7 : std::is_same_v<C, wchar_t> ? 31 : 8 * sizeof(C)).raw("args", list + "]");
    begin(e);
    bool to = rng.chance(1, 4);
    std::basic_string<C> out;
    switch (which)
    {
        case 0: out = with<C, 1>(f, to, a...); break;
        case 1: out = with<C, 2>(f, to, a...); break;
        case 2: out = with<C, 3>(f, to, a...); break;
        case 3: out = with<C, 4>(f, to, a...); break;
        case 4: out = with<C, 5>(f, to, a...); break;
        case 5: out = with<C, 7>(f, to, a...); break;
        case 6: out = with<C, 10>(f, to, a...); break;
        case 7: out = with<C, 15>(f, to, a...); break;
        case 8: out = with<C, 23>(f, to, a...); break;
        case 9: out = with<C, 37>(f, to, a...); break;
        default: out = with<C, 201>(f, to, a...); break;
    }
    emit(e.seq("out", units(out)));
}
template <typename C>
static void full(Rng &rng)
{
    int i = rng.chance(1, 4) ? (int)rng.range(-2, 3) : (int)rng.below(20);
    std::uint8_t j = (std::uint8_t)rng.below(20);
    static int dummy;
    switch (rng.below(21))
    {
        case 0: call<C>(rng, integer<std::int8_t>(rng), i, j); break;
        case 1: call<C>(rng, integer<std::uint16_t>(rng), i, j); break;
        case 2: call<C>(rng, integer<int>(rng), i, j); break;
        case 3: call<C>(rng, integer<std::uint64_t>(rng), i, j); break;
        case 4: call<C>(rng, integer<long long>(rng), i, j); break;
        case 5: call<C>(rng, i, real<double>(rng), j); break;
        case 6: case 7: case 8: call<C>(rng, real<double>(rng), i, j); break;
        case 9: call<C>(rng, real<float>(rng), i, j); break;
        case 10: call<C>(rng, text<C>(rng), i, j); break;
        case 11: call<C>(rng, i, text<char>(rng), text<char16_t>(rng)); break;
        case 12: call<C>(rng, rng.chance(1, 2), i, j); break;
        case 13: call<C>(rng, (C)('0' + rng.below(70)), i, (char)('a' + rng.below(26))); break;
        case 14: call<C>(rng, rng.chance(1, 2) ? (void const *)&dummy : (void const *)(rng.next() >> rng.below(64)), i, nullptr); break;
        case 15: call<C>(rng, i, Bare(), Own()); break;
        case 16: call<C>(rng, Own(), rng.chance(1, 2) ? Styled::One : Styled::Two, i); break;
        case 17: call<C>(rng, Styled::Two, i, Bare()); break;
        case 18: call<C>(rng); break;
        case 19: call<C>(rng, integer<short>(rng)); break;
        default: call<C>(rng, text<char32_t>(rng), i, L'\x4e00'); break;
    }
}
static void narrow(Rng &rng) // what only the format strings of char are tried with
{
    int i = (int)rng.below(20);
    std::string s = text<char>(rng);
    switch (rng.below(7))
    {
        case 6:
        {
            // positions of two digits
            auto n = [&rng]() { return (int)rng.range(-20, 120); };
            call<char>(rng, n(), std::string(text<char>(rng)), n(), n(), (std::uint8_t)rng.below(20), n(), n(), n(), rng.chance(1, 2), n(), (unsigned)rng.below(20), 'z', n());
            break;
        }
        case 0:
        {
            long double v = real<long double>(rng);
            if (std::isfinite(v) && std::fabs(v) > 1e60L) v = 3.5L;
            call<char>(rng, v, i, i);
            break;
        }
        case 1: call<char>(rng, (char const *)"literal", i, i); break;
        case 2: call<char>(rng, std::string_view(s), i, i); break;
        case 3: call<char>(rng, text<char8_t>(rng), text<wchar_t>(rng), i); break;
        case 4: call<char>(rng, integer<unsigned>(rng), integer<std::int64_t>(rng), integer<std::uint8_t>(rng)); break;
        default: call<char>(rng, real<float>(rng), real<double>(rng), rng.chance(1, 2)); break;
    }
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long, Rng &rng) {
        for (int k = 0; k < 10; ++k)
        {
            switch (rng.below(8))
            {
                case 0: full<wchar_t>(rng); break;
                case 1: full<char8_t>(rng); break;
                case 2: full<char16_t>(rng); break;
                case 3: full<char32_t>(rng); break;
                case 4: narrow(rng); break;
                default: full<char>(rng); break;
            }
        }
    });
}
