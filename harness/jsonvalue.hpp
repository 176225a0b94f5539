// JSON values: written down for the specification, and made at random.
#pragma once
#include "digits.hpp"

#include "fly/types/json/json.hpp"

#include <cmath>

namespace vt {

inline std::string list(std::vector<int> const &v)
{
    std::string o = "[";
    for (int x : v) o += (o.size() > 1 ? "," : "") + std::to_string(x);
    return o + "]";
}
inline std::string bytes_of(std::string_view s)
{
    std::string o = "[";
    for (unsigned char x : s) o += (o.size() > 1 ? "," : "") + std::to_string((int)x);
    return o + "]";
}
// as <<"f", negative, digits, exponent>>
inline int real_digits = 17;
inline std::string real(long double v)
{
    bool neg = std::signbit(v);
    v = std::fabs(v);
    if (std::isnan(v)) return "[\"nan\"]";
    if (std::isinf(v)) return "[\"inf\"]";
    char buf[64];
    std::snprintf(buf, sizeof buf, "%.*Le", real_digits, v);
    std::vector<int> d;
    for (char *c = buf; *c != 'e'; ++c)
        if (*c != '.') d.push_back(*c - '0');
    int e = std::atoi(std::strchr(buf, 'e') + 1) - real_digits;
    while (!d.empty() && d.back() == 0) d.pop_back(), ++e;
    if (d.empty()) e = 0;
    return std::string("[\"f\",") + (neg ? "true," : "false,") + list(d) + "," + std::to_string(e) + "]";
}
inline std::string dump(fly::Json const &j)
{
    if (j.is_null()) return "[\"n\"]";
    if (j.is_boolean()) return static_cast<bool>(j) ? "[\"b\",true]" : "[\"b\",false]";
    if (j.is_signed_integer())
    {
        auto v = static_cast<std::int64_t>(j);
        return std::string("[\"i\",") + (v < 0 ? "true," : "false,") + list(magnitude(v)) + "]";
    }
    if (j.is_unsigned_integer()) return "[\"u\",false," + list(magnitude(static_cast<std::uint64_t>(j))) + "]";
    if (j.is_float()) return real(static_cast<long double>(j));
    if (j.is_string()) return "[\"s\"," + bytes_of(static_cast<std::string>(j)) + "]";
    std::string o;
    if (j.is_array())
    {
        for (auto const &x : j) o += (o.empty() ? "" : ",") + dump(x);
        return "[\"a\",[" + o + "]]";
    }
    for (auto it = j.cbegin(); it != j.cend(); ++it) o += (o.empty() ? "" : ",") + std::string("[") + bytes_of(it.key()) + "," + dump(it.value()) + "]";
    return "[\"o\",[" + o + "]]";
}

inline void put_utf8(std::string &s, std::uint32_t c)
{
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) s += (char)(0xc0 | c >> 6), s += (char)(0x80 | (c & 63));
    else if (c < 0x10000) s += (char)(0xe0 | c >> 12), s += (char)(0x80 | (c >> 6 & 63)), s += (char)(0x80 | (c & 63));
    else s += (char)(0xf0 | c >> 18), s += (char)(0x80 | (c >> 12 & 63)), s += (char)(0x80 | (c >> 6 & 63)), s += (char)(0x80 | (c & 63));
}
inline std::uint32_t scalar(Rng &rng)
{
    static std::uint32_t const edge[] = {0, 1, 8, 9, 10, 12, 13, 31, 32, 34, 47, 92, 126, 127, 128, 255, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd,
                                         0xffff, 0x10000, 0x1f600, 0x10ffff};
    switch (rng.below(6))
    {
        case 0: case 1: return 'a' + (std::uint32_t)rng.below(4);
        case 2: case 3: return edge[rng.below(26)];
        case 4: return 32 + (std::uint32_t)rng.below(95);
        default: { std::uint32_t c = (std::uint32_t)rng.below(0x110000); return c >= 0xd800 && c < 0xe000 ? 0x263a : c; }
    }
}
// characters as they are, and as they have to be written to construct the string from
inline std::string plain(Rng &rng)
{
    std::string s;
    for (std::uint64_t n = rng.chance(1, 200) ? rng.below(300) : rng.below(5); n > 0; --n) put_utf8(s, scalar(rng));
    return s;
}
inline std::string escape_for_json(std::string const &s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') o += '\\', o += (char)c;
        else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
inline long double number(Rng &rng)
{
    char buf[64];
    static int const places[] = {0, 1, 2, 3, 5, 6, 7, 10, 20, -2, -4, -5, -6, -9, 40, -40, 300, -300, 4000, -4000};
    std::string d = rng.chance(1, 8) ? "999999" : rng.chance(1, 8) ? "1000005" : std::to_string(rng.below(rng.chance(1, 2) ? 100 : 10000000000ull));
    std::snprintf(buf, sizeof buf, "%s%se%d", rng.chance(1, 4) ? "-" : "", d.c_str(), places[rng.below(20)] - (int)rng.below(3));
    return std::strtold(buf, nullptr);
}
inline fly::Json random_json(Rng &rng, int depth)
{
    switch (rng.below(depth > 0 ? 11 : 7))
    {
        case 0: return nullptr;
        case 1: return rng.chance(1, 2);
        case 2: return (std::int64_t)(rng.chance(1, 2) ? (std::uint64_t)interesting(rng) : 0 - (std::uint64_t)interesting(rng));
        case 3: return (std::uint64_t)interesting(rng);
        case 4: return number(rng);
        case 5: case 6: return fly::Json(escape_for_json(plain(rng)));
        case 7: case 8:
        {
            fly::Json j = fly::json_array_type();
            for (std::uint64_t n = depth == 3 && rng.chance(1, 20) ? rng.below(40) : rng.below(4); n > 0; --n) j.push_back(random_json(rng, depth - 1));
            return j;
        }
        default:
        {
            fly::Json j = fly::json_object_type();
            for (std::uint64_t n = depth == 3 && rng.chance(1, 20) ? rng.below(40) : rng.below(4); n > 0; --n) j[escape_for_json(plain(rng))] = random_json(rng, depth - 1);
            return j;
        }
    }
}

} // namespace vt
