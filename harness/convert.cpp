// Converts strings of every character type to integers of every type.
#include "digits.hpp"

#include "fly/types/string/string.hpp"

#include <cmath>
#include <limits>

using namespace vt;

template <typename S>
static std::vector<long long> units(S const &s)
{
    std::vector<long long> v;
    for (auto c : s) v.push_back(sizeof(c) == 1 ? (long long)(unsigned char)c : (long long)std::min<unsigned long long>((unsigned long long)(std::uint32_t)c, 1u << 30));
    return v;
}

template <typename C, typename T>
static void one(std::basic_string<C> const &s)
{
    Ev e("convert");
    e.seq("text", units(s)).i("bits", 8 * sizeof(T)).b("signed", std::is_signed_v<T>);
    begin(e);
    auto r = fly::BasicString<C>::template convert<T>(s);
    emit(e.b("ok", r.has_value()).b("neg", r && *r < 0).seq("value", r ? magnitude(*r) : std::vector<int>()));
}

template <typename C>
static void run(Rng &rng)
{
    std::string a = in_base(interesting(rng), 10);
    if (rng.chance(1, 2)) a = "-" + a;
    if (rng.chance(1, 5)) a.insert(a[0] == '-' ? 1 : 0, std::string(1 + rng.below(3), '0'));
    std::basic_string<C> s;
    for (char c : a) s += (C)c;
    if (rng.chance(1, 4))
    {
        static char const other[] = "+- ax.:/\t\n0";
        std::size_t at = rng.below(s.size() + 1);
        C c = rng.chance(1, 8) ? (C)rng.next() : rng.chance(1, 10) ? C() : (C)other[rng.below(11)];
        switch (rng.below(3))
        {
            case 0: s.insert(rng.chance(1, 2) ? 0 : at, 1, c); break;
            case 1: s += c; break;
            default: s.erase(at, rng.chance(1, 3) ? std::basic_string<C>::npos : 1); break;
        }
    }
    switch (rng.below(9))
    {
        case 0: one<C, std::int8_t>(s); break;
        case 1: one<C, std::uint8_t>(s); break;
        case 2: one<C, std::int16_t>(s); break;
        case 3: one<C, std::uint16_t>(s); break;
        case 4: one<C, std::int32_t>(s); break;
        case 5: one<C, std::uint32_t>(s); break;
        case 6: one<C, std::int64_t>(s); break;
        case 7: one<C, std::uint64_t>(s); break;
        default: one<C, long long>(s); one<C, unsigned long long>(s); break;
    }
}

// m * 2^x in decimal: the digits from the first which is not zero to the last, and the power of ten of the first
static void decimal(Ev &e, std::string const &name, unsigned __int128 m, int x)
{
    std::vector<int> d; // the last digit first
    for (; m; m /= 10) d.push_back((int)(m % 10));
    int shift = 0;
    auto times = [&](int by) {
        int carry = 0;
        for (auto &k : d) { carry += k * by; k = carry % 10; carry /= 10; }
        for (; carry; carry /= 10) d.push_back(carry % 10);
    };
    for (; x > 0; --x) times(2);
    for (; x < 0; ++x, --shift) times(5);
    std::size_t zeros = 0;
    while (zeros < d.size() && d[zeros] == 0) ++zeros;
    int top = (int)d.size() - 1 + shift;
    d.erase(d.begin(), d.begin() + (long)zeros);
    e.seq((name + "_ds").c_str(), std::vector<int>(d.rbegin(), d.rend())).i((name + "_x").c_str(), d.empty() ? 0 : top);
}

template <typename C, typename T>
static void real(std::basic_string<C> const &s)
{
    using L = std::numeric_limits<T>;
    Ev e("real");
    e.seq("text", units(s)).i("precision", L::digits);
    begin(e);
    auto r = fly::BasicString<C>::template convert<T>(s);
    e.b("ok", r.has_value());
    T v = r.value_or(T());
    e.b("neg", std::signbit(v) && !std::isnan(v)).s("class", std::isnan(v) ? "nan" : std::isinf(v) ? "inf" : v == 0 ? "zero" : "finite");
    bool even = true;
    unsigned __int128 m = 0;
    int x = 0;
    if (std::isfinite(v) && v != 0)
    {
        T f = std::frexp(std::fabs(v), &x); // [0.5, 1)
        x -= L::digits;
        m = (unsigned __int128)std::ldexp(f, L::digits);
        for (; x < L::min_exponent - L::digits; ++x) m >>= 1; // subnormal: fewer bits
        even = m % 2 == 0;
    }
    // half way to its neighbours
    bool edge = m == (unsigned __int128)1 << (L::digits - 1) && x > L::min_exponent - L::digits;
    decimal(e, "low", m == 0 ? 0 : edge ? m * 4 - 1 : m * 4 - 2, x - 2);
    decimal(e, "high", m == 0 ? 0 : m * 2 + 1, x - 1);
    emit(e.b("even", even));
}

static std::string number(Rng &rng)
{
    static char const *const fixed[] = {"inf", "INF", "Infinity", "infinity", "nan", "NaN", "infinit", "na", "0", "0.0", ".0", "0e5", "00.00e-7", ".", "e5", ".e1", "-", "",
        "340282346638528859811704183484516925440", "340282356779733661637539395458142568447", "340282356779733661637539395458142568448", "340282346638528859811704183484516925441",
        "179769313486231570814527423731704356798070e267", "1.7976931348623158e308", "1.7976931348623159e308", "1.18973149535723176502e4932", "1.18973149535723176508e4932", "1e39", "1e309", "1e4933", "1e5000",
        "1e-38", "1e-45", "1e-46", "1e-308", "2.2250738585072014e-308", "4.9e-324", "2e-324", "1e-4931", "1e-5000", "9007199254740993", "9007199254740992.99", "16777217", "16777219", "16777217.0000001",
        "36893488147419103233", "0x10", "0x1p3", "1e", "1e+", "1e+5", "1E-5", "1e5.5", "1d5", "1,5", "1_000", "+1", " 1", "1 ", "--1", "1.2.3", "1f", "1.5L", "0.1", "0.5", "5e-1", "1e0", "1e00", "1e007"};
    if (rng.chance(1, 4)) return fixed[rng.below(sizeof(fixed) / sizeof(*fixed))];
    std::string s;
    if (rng.chance(1, 4))
    {
        // a value, or half way between two
        int bits = rng.chance(1, 3) ? 25 : rng.chance(1, 2) ? 54 : 65;
        unsigned __int128 v = ((unsigned __int128)1 << (bits - 1)) + (rng.next() & (((unsigned __int128)1 << (bits - 1)) - 1));
        v |= 1;
        for (std::size_t k = rng.below(50); k-- > 0;) v <<= 1;
        s = in_base(v, 10);
        if (rng.chance(1, 2)) s += rng.chance(1, 2) ? ".0" : rng.chance(1, 2) ? ".000000000000000000000000000001" : ".";
        else if (rng.chance(1, 3)) s.back() = (char)('0' + rng.below(10));
        return s;
    }
    std::size_t n = rng.below(4), longer = rng.chance(1, 4) ? 30 : rng.chance(1, 20) ? 900 : 8;
    for (std::size_t k = rng.below(n == 0 ? longer : 6); k-- > 0;) s += (char)('0' + rng.below(10));
    if (rng.chance(2, 3))
    {
        s += '.';
        for (std::size_t k = rng.below(n == 1 ? longer : 6); k-- > 0;) s += rng.chance(1, 5) ? '0' : (char)('0' + rng.below(10));
    }
    if (rng.chance(1, 2))
    {
        s += rng.chance(1, 2) ? "e" : "E";
        if (rng.chance(1, 2)) s += rng.chance(2, 3) ? "-" : "+";
        s += std::to_string(rng.below(rng.chance(1, 2) ? 20 : rng.chance(2, 3) ? 60 : 330));
    }
    return s;
}

template <typename C>
static void run_real(Rng &rng)
{
    std::string a = number(rng);
    if (rng.chance(1, 3)) a = "-" + a;
    std::basic_string<C> s;
    for (char c : a) s += (C)c;
    if (rng.chance(1, 6))
    {
        static char const other[] = "+- .ex5infp\t\n0";
        std::size_t at = rng.below(s.size() + 1);
        C c = rng.chance(1, 8) ? (C)rng.next() : rng.chance(1, 8) ? C() : (C)other[rng.below(13)];
        switch (rng.below(3))
        {
            case 0: s.insert(rng.chance(1, 2) ? 0 : at, 1, c); break;
            case 1: s += c; break;
            default: s.erase(at, rng.chance(1, 3) ? std::basic_string<C>::npos : 1); break;
        }
    }
    switch (rng.below(3))
    {
        case 0: real<C, float>(s); break;
        case 1: real<C, double>(s); break;
        default: real<C, long double>(s); break;
    }
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long, Rng &rng) {
        for (int k = 0; k < 12; ++k)
        {
            switch (rng.below(5))
            {
                case 0: run<char>(rng); break;
                case 1: run<wchar_t>(rng); break;
                case 2: run<char8_t>(rng); break;
                case 3: run<char16_t>(rng); break;
                case 4: run<char32_t>(rng); break;
            }
            if (rng.chance(1, 2)) continue;
            switch (rng.below(5))
            {
                case 0: run_real<char>(rng); break;
                case 1: run_real<wchar_t>(rng); break;
                case 2: run_real<char8_t>(rng); break;
                case 3: run_real<char16_t>(rng); break;
                case 4: run_real<char32_t>(rng); break;
            }
        }
    });
}
