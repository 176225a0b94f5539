// JSON values converted to C++ types, and made from them.
#include "jsonvalue.hpp"

#include "fly/types/json/json_exception.hpp"

#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace vt;
using fly::Json;

// ---- own conversions between encodings
template <typename S>
static std::string to_utf8(S const &s)
{
    std::string o;
    for (std::size_t k = 0; k < s.size(); ++k)
    {
        if constexpr (sizeof(s[0]) == 1) o += (char)s[k];
        else
        {
            std::uint32_t c = (std::uint32_t)s[k];
            if (sizeof(s[0]) == 2 && c >= 0xd800 && c < 0xdc00 && k + 1 < s.size()) c = 0x10000 + ((c - 0xd800) << 10) + ((std::uint32_t)s[++k] - 0xdc00);
            put_utf8(o, c);
        }
    }
    return o;
}
template <typename S>
static S from_utf8(std::string const &t)
{
    S o;
    for (std::size_t k = 0; k < t.size(); ++k)
    {
        if constexpr (sizeof(o[0]) == 1) o += (typename S::value_type)t[k];
        else
        {
            unsigned char b = (unsigned char)t[k];
            std::uint32_t c = b < 0x80 ? b : b < 0xe0 ? b & 31 : b < 0xf0 ? b & 15 : b & 7;
            for (int n = b < 0xc0 ? 0 : b < 0xe0 ? 1 : b < 0xf0 ? 2 : 3; n > 0; --n) c = c << 6 | ((unsigned char)t[++k] & 63);
            if (sizeof(o[0]) == 2 && c >= 0x10000) o += (typename S::value_type)(0xd800 + ((c - 0x10000) >> 10)), o += (typename S::value_type)(0xdc00 + ((c - 0x10000) & 1023));
            else o += (typename S::value_type)c;
        }
    }
    return o;
}

// ---- C++ types: their names, their values written down, values made at random, and JSON values like them
static std::string decimal_text(unsigned __int128 v, bool neg)
{
    std::string s;
    do s.insert(s.begin(), (char)('0' + (int)(v % 10))); while (v /= 10);
    return neg ? "-" + s : s;
}
static Json digits(Rng &rng)
{
    switch (rng.below(8))
    {
        case 0: return decimal_text(interesting(rng), false);
        case 1: return decimal_text(interesting(rng), true);
        case 2: return (std::int64_t)(rng.chance(1, 2) ? (std::uint64_t)interesting(rng) : 0 - (std::uint64_t)interesting(rng));
        case 3: return (std::uint64_t)interesting(rng);
        case 4: return (long double)rng.range(-4000, 4000) / 8;
        case 5: return rng.chance(1, 2) ? (long double)(std::uint64_t)interesting(rng) : -(long double)(std::uint64_t)interesting(rng) + 0.5L;
        case 6:
        {
            static char const *const t[] = {"", "-", "1", "-1", "0", "-0", "00", "1.5", "-12.25", ".5", "5.", ".", "1e3", "1E-2", "2.5e+1", "1e", "+1", " 1", "1 ", "0x10", "1.5.5",
                                            "123456", "1234567", "1e5000", "abc", "nan", "true", "99999999999999999999", "1_000", "--1", "1-"};
            return t[rng.below(31)];
        }
        default: return (int)rng.below(200) - 50;
    }
}
static Json other(Rng &rng) { return random_json(rng, 1); }

template <typename T>
struct Type;
template <typename T>
requires std::is_integral_v<T>
struct Type<T>
{
    static std::string name() { return std::is_same_v<T, bool> ? "[\"bool\"]" : "[\"int\"," + std::to_string(8 * sizeof(T)) + (std::is_signed_v<T> ? ",true]" : ",false]"); }
    static std::string out(T v)
    {
        if (std::is_same_v<T, bool>) return v ? "[\"b\",true]" : "[\"b\",false]";
        return std::string(std::is_signed_v<T> ? "[\"i\"," : "[\"u\",") + (v < T(0) ? "true," : "false,") + list(magnitude(v)) + "]";
    }
    static T make(Rng &rng) { return rng.chance(1, 2) ? (T)rng.below(5) : (T)interesting(rng); }
    static Json like(Rng &rng) { return std::is_same_v<T, bool> ? other(rng) : digits(rng); }
};
template <typename T>
requires std::is_floating_point_v<T>
struct Type<T>
{
    static constexpr int N = sizeof(T) == 4 ? 6 : sizeof(T) == 8 ? 15 : 18;
    static std::string name() { return "[\"real\"," + std::to_string(N) + "]"; }
    static std::string out(T v)
    {
        int was = real_digits;
        real_digits = N - 1;
        auto s = real(v);
        real_digits = was;
        return s;
    }
    static T make(Rng &rng) { return (T)rng.range(-4000, 4000) / 8; }
    static Json like(Rng &rng) { return digits(rng); }
};
template <typename C>
struct Type<std::basic_string<C>>
{
    using T = std::basic_string<C>;
    static std::string name() { return "[\"text\"]"; }
    static std::string out(T const &v) { return "[\"s\"," + bytes_of(to_utf8(v)) + "]"; }
    static T make(Rng &rng)
    {
        if (rng.chance(1, 12))
        {
            static char const *const few[] = {"\\u0041", "A", "\\", "\"", "\\ud83d\\ude00", "\\ud83d", "\\n", "\n", "\\q"};
            return from_utf8<T>(few[rng.below(9)]);
        }
        return from_utf8<T>(escape_for_json(rng.chance(1, 2) ? std::string(1, (char)('a' + rng.below(3))) : plain(rng)));
    }
    static Json like(Rng &rng) { return rng.chance(1, 3) ? digits(rng) : Json(escape_for_json(plain(rng))); }
};
template <>
struct Type<Json>
{
    static std::string name() { return "[\"json\"]"; }
    static std::string out(Json const &v) { return dump(v); }
    static Json like(Rng &rng) { return other(rng); }
};
template <>
struct Type<std::nullptr_t>
{
    static std::string name() { return "[\"null\"]"; }
    static std::string out(std::nullptr_t) { return "[\"n\"]"; }
    static std::nullptr_t make(Rng &) { return nullptr; }
    static Json like(Rng &rng) { return rng.chance(1, 2) ? Json() : other(rng); }
};
template <typename L>
struct Sequence
{
    using X = typename L::value_type;
    static std::string out(L const &v)
    {
        std::string o;
        for (X const &x : v) o += (o.empty() ? "" : ",") + Type<X>::out(x);
        return "[\"a\",[" + o + "]]";
    }
    static L make(Rng &rng)
    {
        L l;
        for (std::uint64_t n = rng.below(rng.chance(1, 60) ? 50 : 4); n > 0; --n) fly::detail::json_array_append(l, Type<X>::make(rng));
        return l;
    }
    static Json like(Rng &rng)
    {
        Json j = fly::json_array_type();
        for (std::uint64_t n = rng.below(rng.chance(1, 60) ? 50 : 5); n > 0; --n) j.push_back(rng.chance(1, 20) ? other(rng) : rng.chance(1, 4) && !j.empty() ? Json(j[0]) : Type<X>::like(rng));
        return j;
    }
    static std::string named(char const *n) { return std::string("[\"") + n + "\"," + Type<X>::name() + "]"; }
};
#define SEQUENCE(template_, kind)                                                                                      \
    template <typename X>                                                                                              \
    struct Type<template_<X>> : Sequence<template_<X>>                                                                 \
    {                                                                                                                  \
        static std::string name() { return Sequence<template_<X>>::named(kind); }                                      \
    };
SEQUENCE(std::vector, "list")
SEQUENCE(std::list, "list")
SEQUENCE(std::deque, "list")
SEQUENCE(std::forward_list, "list")
SEQUENCE(std::set, "set")
SEQUENCE(std::unordered_set, "set")
SEQUENCE(std::multiset, "bag")
SEQUENCE(std::unordered_multiset, "bag")
template <typename X, std::size_t N>
struct Type<std::array<X, N>>
{
    static std::string name() { return "[\"fixed\"," + Type<X>::name() + "," + std::to_string(N) + "]"; }
    static std::string out(std::array<X, N> const &v) { return Type<std::vector<X>>::out(std::vector<X>(v.begin(), v.end())); }
    static std::array<X, N> make(Rng &rng)
    {
        std::array<X, N> a;
        for (auto &x : a) x = Type<X>::make(rng);
        return a;
    }
    static Json like(Rng &rng) { return Type<std::vector<X>>::like(rng); }
};
template <typename M>
struct Mapping
{
    using K = typename M::key_type;
    using X = typename M::mapped_type;
    static std::string name() { return "[\"map\"," + Type<X>::name() + "]"; }
    static std::string out(M const &v, bool sorted = true)
    {
        std::multimap<std::string, std::string> s;
        std::string o;
        for (auto const &[k, x] : v)
        {
            auto one = "[" + bytes_of(to_utf8(k)) + "," + Type<X>::out(x) + "]";
            if (sorted) s.emplace(to_utf8(k), one);
            else o += (o.empty() ? "" : ",") + one;
        }
        for (auto const &[k, one] : s) o += (o.empty() ? "" : ",") + one;
        return "[\"o\",[" + o + "]]";
    }
    static M make(Rng &rng)
    {
        M m;
        for (std::uint64_t n = rng.below(rng.chance(1, 60) ? 50 : 4); n > 0; --n) m.emplace(Type<K>::make(rng), Type<X>::make(rng));
        return m;
    }
    static Json like(Rng &rng)
    {
        Json j = fly::json_object_type();
        for (std::uint64_t n = rng.below(rng.chance(1, 60) ? 50 : 4); n > 0; --n) j[escape_for_json(plain(rng))] = rng.chance(1, 20) ? other(rng) : Type<X>::like(rng);
        return j;
    }
};
#define MAPPING(template_) template <typename K, typename X> struct Type<template_<K, X>> : Mapping<template_<K, X>> {};
MAPPING(std::map)
MAPPING(std::multimap)
MAPPING(std::unordered_map)
MAPPING(std::unordered_multimap)

// ---- the events
template <typename T>
static void as(Rng &rng)
{
    Json j = rng.chance(1, 8) ? other(rng) : Type<T>::like(rng);
    auto v = dump(j);
    constexpr bool movable = std::is_same_v<T, std::string> || std::is_same_v<T, fly::json_object_type> || std::is_same_v<T, fly::json_array_type>;
    bool moved = movable && rng.chance(1, 2), threw = false;
    begin(Ev("as").raw("t", Type<T>::name()).raw("v", v));
    std::string x = "[\"n\"]";
    try
    {
        if constexpr (movable)
        {
            if (moved) x = Type<T>::out(static_cast<T>(std::move(j)));
            else x = Type<T>::out(static_cast<T>(j));
        }
        else x = Type<T>::out(static_cast<T>(j));
    }
    catch (fly::JsonException const &) { threw = true; }
    emit(Ev("as").raw("t", Type<T>::name()).raw("v", v).b("moved", moved).b("threw", threw).raw("x", x).raw("after", dump(j)));
}
template <typename T>
static void from(Rng &rng)
{
    T x = Type<T>::make(rng);
    std::string text;
    if constexpr (requires { Type<T>::out(x, false); }) text = Type<T>::out(x, false);
    else text = Type<T>::out(x);
    begin(Ev("from").raw("x", text));
    bool ok = true;
    Json j;
    try
    {
        if (rng.chance(1, 2)) j = Json(x);
        else j = Json(std::move(x));
    }
    catch (fly::JsonException const &) { ok = false; }
    emit(Ev("from").raw("x", text).b("ok", ok).raw("v", dump(j)));
}
using Act = void (*)(Rng &);
#define BOTH(...) as<__VA_ARGS__>, from<__VA_ARGS__>
static Act const acts[] = {
    BOTH(std::nullptr_t), BOTH(bool), BOTH(char), BOTH(signed char), BOTH(unsigned char), BOTH(short), BOTH(unsigned short), BOTH(int), BOTH(unsigned int), BOTH(long), BOTH(unsigned long),
    BOTH(long long), BOTH(unsigned long long), BOTH(float), BOTH(double), BOTH(long double), BOTH(std::string), BOTH(std::wstring), BOTH(std::u8string), BOTH(std::u16string),
    BOTH(std::u32string), BOTH(std::vector<int>), BOTH(std::vector<std::string>), BOTH(std::list<std::u16string>), BOTH(std::deque<double>), BOTH(std::forward_list<unsigned char>),
    BOTH(std::forward_list<std::string>), BOTH(std::set<int>), BOTH(std::set<std::string>), BOTH(std::multiset<int>), BOTH(std::unordered_set<std::string>),
    BOTH(std::unordered_multiset<short>), BOTH(std::array<int, 3>), BOTH(std::array<std::string, 2>), BOTH(std::array<bool, 2>), BOTH(std::array<double, 1>), BOTH(std::map<std::string, int>),
    BOTH(std::map<std::u16string, std::string>), BOTH(std::multimap<std::u32string, int>), BOTH(std::unordered_map<std::string, double>),
    BOTH(std::unordered_multimap<std::wstring, std::string>), BOTH(std::vector<std::vector<int>>), BOTH(std::map<std::u8string, std::vector<std::string>>),
    BOTH(std::vector<std::map<std::string, int>>), as<fly::json_object_type>, as<fly::json_array_type>, as<std::map<std::u16string, Json>>, as<std::list<Json>>, as<std::array<Json, 2>>, as<std::vector<bool>>,
};

int main(int argc, char **argv)
{
    real_digits = 24;
    return main_loop(argc, argv, [](long, Rng &rng) {
        for (int k = 0; k < 10; ++k) acts[rng.below(std::size(acts))](rng);
    });
}
