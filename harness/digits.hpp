// Numbers as sequences of decimal digits, and texts which look like numbers.
#pragma once
#include "trace.hpp"

namespace vt {

// digits of the absolute value
inline std::vector<int> digits(unsigned __int128 v)
{
    std::vector<int> d;
    do { d.insert(d.begin(), (int)(v % 10)); v /= 10; } while (v);
    return d;
}
template <typename T>
inline std::vector<int> magnitude(T v) { return digits(v < 0 ? (unsigned __int128)0 - (unsigned __int128)(__int128)v : (unsigned __int128)v); }

inline std::string in_base(unsigned __int128 v, int base, bool upper = false)
{
    std::string s;
    do { s.insert(s.begin(), (upper ? "0123456789ABCDEF" : "0123456789abcdef")[(int)(v % (unsigned)base)]); v /= (unsigned)base; } while (v);
    return s;
}
// values around the bounds of the integer types, and others
inline unsigned __int128 interesting(Rng &rng)
{
    static int const bits[] = {7, 8, 15, 16, 31, 32, 63, 64, 65, 66, 80};
    switch (rng.below(6))
    {
        case 0: case 1: case 2:
        {
            unsigned __int128 v = (unsigned __int128)1 << bits[rng.below(rng.chance(1, 6) ? 11 : 8)];
            return v + rng.below(rng.chance(1, 2) ? 3 : 12) - rng.below(3);
        }
        case 3: return rng.below(300);
        case 4: return rng.next() >> rng.below(64);
        default: return ((unsigned __int128)(1 + rng.below(4)) << 64) + rng.below(300);
    }
}

} // namespace vt
