// JSON values compared, sorted, and put into sets.
#include "jsonvalue.hpp"

#include <algorithm>
#include <set>
#include <unordered_set>

using namespace vt;
using fly::Json;

static Json as_number(Rng &rng, bool neg, std::uint64_t m)
{
    for (;;)
    {
        switch (rng.below(3))
        {
            case 0:
                if (m <= (std::uint64_t)INT64_MAX || (neg && m == (std::uint64_t)1 << 63)) return (std::int64_t)(neg ? 0 - m : m);
                break;
            case 1:
                if (!neg || m == 0) return m;
                break;
            default:
                return neg ? -(long double)m : (long double)m;
        }
    }
}
static Json num(Rng &rng)
{
    switch (rng.below(8))
    {
        case 0: return (long double)rng.range(-20, 20) / 4;
        case 1: return as_number(rng, rng.chance(1, 2), (std::uint64_t)interesting(rng));
        case 2: return as_number(rng, rng.chance(1, 2), (std::uint64_t)-(std::int64_t)rng.below(3) + ((std::uint64_t)rng.below(2) << 63));
        case 3: return rng.chance(1, 2) ? std::ldexp(1.0L, 64) : -std::ldexp(1.0L, (int)rng.range(62, 65));
        case 4: return rng.chance(1, 2) ? 1e300L : -3e4000L;
        default: return as_number(rng, rng.chance(1, 3), rng.below(4));
    }
}
static bool s_large = false; // values of many elements, which differ late
static std::string text(Rng &rng)
{
    if (s_large && rng.chance(1, 2)) return rng.chance(1, 2) ? std::string(rng.below(90), 'x') + "y" : std::string(40, 'z') + std::to_string(rng.below(40));
    static char const *const few[] = {"", "a", "b", "ab", "B", "\xc3\xa9", "a\xc3\xa9", "\xf0\x9f\x98\x80", "aa"};
    return few[rng.below(9)];
}
static Json make(Rng &rng, int depth)
{
    auto many = [&] { return s_large && depth == 2 ? 10 + rng.below(40) : rng.below(4); };
    int const inside = s_large && depth == 2 ? 0 : depth - 1;
    switch (rng.below(depth > 0 ? 12 : 7))
    {
        case 0: return nullptr;
        case 1: return rng.chance(1, 2);
        case 2: return text(rng);
        case 7: case 8: case 9:
        {
            Json j = fly::json_array_type();
            for (std::uint64_t n = many(); n > 0; --n) j.push_back(make(rng, inside));
            return j;
        }
        case 10: case 11:
        {
            Json j = fly::json_object_type();
            for (std::uint64_t n = many(); n > 0; --n) j[text(rng)] = make(rng, inside);
            return j;
        }
        default: return num(rng);
    }
}
// a value like it: numbers in other types, or a small difference
static Json like(Rng &rng, Json const &v, int &changes)
{
    bool hit = changes > 0 && rng.chance(1, s_large ? 30 : 3);
    if (hit) --changes;
    if (v.is_signed_integer())
    {
        auto i = static_cast<std::int64_t>(v);
        if (hit && i < INT64_MAX) ++i;
        return as_number(rng, i < 0, i < 0 ? 0 - (std::uint64_t)i : (std::uint64_t)i);
    }
    if (v.is_unsigned_integer())
    {
        auto u = static_cast<std::uint64_t>(v);
        return as_number(rng, hit && rng.chance(1, 2) && u < 9, hit && u ? u - 1 : u);
    }
    if (v.is_float())
    {
        auto f = static_cast<long double>(v);
        if (hit) f = -f;
        if (f == std::floor(f) && std::fabs(f) < 18446744073709551616.0L) return as_number(rng, f < 0, (std::uint64_t)std::fabs(f));
        return f;
    }
    if (v.is_array())
    {
        Json j = fly::json_array_type();
        for (auto const &x : v) j.push_back(like(rng, x, changes));
        if (hit) j.push_back(num(rng));
        return j;
    }
    if (v.is_object())
    {
        Json j = fly::json_object_type();
        for (auto it = v.begin(); it != v.end(); ++it) j[it.key()] = like(rng, it.value(), changes);
        if (hit) j[text(rng)] = nullptr;
        return j;
    }
    return hit ? make(rng, 1) : v;
}

int main(int argc, char **argv)
{
    real_digits = 24;
    return main_loop(argc, argv, [](long, Rng &rng) {
        std::vector<Json> pool;
        s_large = rng.chance(1, 25);
        for (std::uint64_t n = 3 + rng.below(5); n > 0; --n)
        {
            if (pool.empty() || rng.chance(1, 3)) pool.push_back(make(rng, 2));
            else
            {
                int changes = (int)rng.below(3);
                auto next = like(rng, pool[rng.below(pool.size())], changes);
                pool.push_back(next);
            }
        }
        std::hash<Json> hasher;
        for (int k = 0; k < 6; ++k)
        {
            auto const &a = pool[rng.below(pool.size())], &b = pool[rng.below(pool.size())];
            begin(Ev("compare"));
            emit(Ev("compare").raw("a", dump(a)).raw("b", dump(b)).b("lt", a < b).b("gt", a > b).b("eq", a == b).b("ne", a != b).b("le", a <= b).b("ge", a >= b)
                     .b("hash", hasher(a) == hasher(b)));
        }
        auto all = [](std::vector<Json> const &v) {
            std::string s;
            for (auto const &x : v) s += (s.empty() ? "[" : ",") + dump(x);
            return s.empty() ? "[]" : s + "]";
        };
        auto sorted = pool;
        std::sort(sorted.begin(), sorted.end());
        emit(Ev("sort").raw("vs", all(pool)).raw("sorted", all(sorted)));
        std::set<Json> s(pool.begin(), pool.end());
        std::unordered_set<Json> h(pool.begin(), pool.end());
        emit(Ev("sets").raw("vs", all(pool)).i("ordered", (int)s.size()).i("hashed", (int)h.size()));
        for (int k = 0; k < 2; ++k)
        {
            int changes = k;
            Json v = like(rng, pool[rng.below(pool.size())], changes);
            emit(Ev("find").raw("vs", all(pool)).raw("v", dump(v)).b("ordered", s.count(v) > 0).b("hashed", h.count(v) > 0));
        }
    });
}
