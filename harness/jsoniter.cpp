// Iterators over JSON documents: forward, reverse, constant or not.
#include "jsonvalue.hpp"

#include "fly/types/json/json_exception.hpp"

#include <limits>

using namespace vt;
using fly::Json;

template <typename F>
static char const *raised(F const &f)
{
    try { f(); }
    catch (fly::NullJsonException const &) { return "null"; }
    catch (fly::OutOfRangeJsonException const &) { return "range"; }
    catch (fly::BadJsonComparisonException const &) { return "compare"; }
    catch (fly::JsonIteratorException const &) { return "iterator"; }
    return "fine";
}
static bool fine(char const *e) { return !std::strcmp(e, "fine"); }

template <typename It>
struct Run
{
    static constexpr bool reverse = std::is_same_v<It, Json::reverse_iterator> || std::is_same_v<It, Json::const_reverse_iterator>;
    static constexpr bool constant = std::is_same_v<It, Json::const_iterator> || std::is_same_v<It, Json::const_reverse_iterator>;
    Rng &rng;
    Json docs[2];
    It its[4];

    explicit Run(Rng &r) : rng(r) { }

    It make(Json &j, bool first)
    {
        if constexpr (std::is_same_v<It, Json::iterator>) return first ? j.begin() : j.end();
        else if constexpr (std::is_same_v<It, Json::reverse_iterator>) return first ? j.rbegin() : j.rend();
        else if constexpr (std::is_same_v<It, Json::const_iterator>)
        {
            if (rng.chance(1, 3)) return first ? std::as_const(j).begin() : std::as_const(j).end();
            if (rng.chance(1, 2)) return first ? j.begin() : j.end();
            return first ? j.cbegin() : j.cend();
        }
        else
        {
            if (rng.chance(1, 2)) return first ? std::as_const(j).rbegin() : std::as_const(j).rend();
            return first ? j.crbegin() : j.crend();
        }
    }
    long long n_of(Json const &j) { return static_cast<std::int64_t>(j); }
    std::string elements(Json const &j)
    {
        std::vector<int> v;
        if (j.is_array()) for (std::size_t k = 0; k < j.size(); ++k) v.push_back((int)n_of(j[k]));
        if (j.is_object()) for (std::size_t k = 0; k < j.size(); ++k) v.push_back((int)n_of(j[std::string{'k', (char)('0' + k)}]));
        return list(v);
    }
    std::int64_t offset()
    {
        if (rng.chance(1, 25))
        {
            static std::int64_t const far[] = {std::numeric_limits<std::int64_t>::max(), std::numeric_limits<std::int64_t>::min(),
                                               std::numeric_limits<std::int64_t>::min() + 1, 1ll << 32, -(1ll << 32), 1ll << 60, -(1ll << 59)};
            return far[rng.below(7)];
        }
        return rng.chance(1, 8) ? rng.range(-40, 40) : rng.range(-5, 5);
    }
    // offsets beyond any document are all alike to the specification
    static int clip(std::int64_t n) { return n > 1000 ? 1000 : n < -1000 ? -1000 : (int)n; }

    void run()
    {
        emit(Ev("direction").b("rev", reverse));
        int next = 1;
        for (int d = 0; d < 2; ++d)
        {
            char const *kind = "a";
            std::uint64_t const many = rng.chance(1, 15) ? 40 : 5;
            switch (rng.below(8))
            {
                case 0:
                {
                    Json const others[] = {nullptr, true, 3, 4u, 1.5, "text"};
                    docs[d] = others[rng.below(6)];
                    kind = "x";
                    break;
                }
                case 1: case 2: case 3:
                    kind = "o";
                    docs[d] = fly::json_object_type();
                    for (std::uint64_t n = 0, m = rng.below(many); n < m; ++n) docs[d][std::string{'k', (char)('0' + n)}] = next++;
                    break;
                default:
                    docs[d] = fly::json_array_type();
                    for (std::uint64_t n = rng.below(many); n > 0; --n) docs[d].push_back(next++);
            }
            emit(Ev("load").i("d", d + 1).s("kind", kind).raw("el", elements(docs[d])));
        }
        int steps = 15 + (int)rng.below(25);
        for (int k = 0; k < steps; ++k)
        {
            int s = (int)rng.below(3), t = (int)rng.below(3);
            It &a = its[s];
            switch (k < 3 ? 0 : rng.below(20))
            {
                case 0: case 1:
                {
                    if (k < 3) s = k;
                    int d = rng.chance(1, 4) ? 1 : 0;
                    bool first = rng.chance(1, 2);
                    begin(Ev("make"));
                    char const *e = raised([&] { its[s] = make(docs[d], first); });
                    emit(Ev("make").i("s", s + 1).i("d", d + 1).b("first", first).s("err", e));
                    break;
                }
                case 2:
                    if (rng.chance(1, 3)) { a = It(); emit(Ev("clear").i("s", s + 1)); }
                    else { a = its[t]; emit(Ev("copy").i("s", s + 1).i("t", t + 1)); }
                    break;
                case 3: case 4:
                {
                    long long v = -1;
                    int how = (int)rng.below(4);
                    begin(Ev("deref"));
                    char const *e = raised([&] {
                        if (how == 0) v = n_of(*a);
                        else if (how == 1) v = n_of(a.value());
                        else if (how == 2) v = n_of(*a.operator->());
                        else if constexpr (std::is_same_v<It, Json::iterator>)
                        {
                            Json::const_iterator c(a);
                            Json::const_iterator c2;
                            c2 = a;
                            v = n_of(*c);
                            if (c != c2) v = -2;
                        }
                        else v = n_of(*a);
                    });
                    emit(Ev("deref").i("s", s + 1).s("err", e).i("v", v));
                    break;
                }
                case 5:
                {
                    int key = -1;
                    begin(Ev("key"));
                    char const *e = raised([&] { key = 1 + (a.key().at(1) - '0'); });
                    emit(Ev("key").i("s", s + 1).s("err", e).i("k", key));
                    break;
                }
                case 6: case 7:
                {
                    std::int64_t n = offset();
                    long long v = -1;
                    begin(Ev("index").i("n", clip(n)));
                    char const *e = raised([&] { v = n_of(a[n]); });
                    emit(Ev("index").i("s", s + 1).i("n", clip(n)).s("err", e).i("v", v));
                    break;
                }
                case 8:
                    if constexpr (!constant)
                    {
                        int v = next++;
                        begin(Ev("write"));
                        char const *e = raised([&] {
                            if (rng.chance(1, 2)) *a = v;
                            else if (rng.chance(1, 2)) a.value() = v;
                            else *a.operator->() = v;
                        });
                        emit(Ev("write").i("s", s + 1).s("err", e).i("v", v));
                    }
                    break;
                case 9: case 10: case 11:
                {
                    bool up = rng.chance(1, 2);
                    begin(Ev("walk"));
                    char const *e = raised([&] { if (up) ++a; else --a; });
                    emit(Ev("walk").i("s", s + 1).i("n", up ? 1 : -1).s("err", e));
                    break;
                }
                case 12:
                {
                    bool up = rng.chance(1, 2);
                    int into = 3;
                    begin(Ev("walk_after"));
                    char const *e = raised([&] { if (up) its[into] = a++; else its[into] = a--; });
                    emit(Ev("walk_after").i("s", s + 1).i("n", up ? 1 : -1).i("t", into + 1).s("err", e));
                    if (rng.chance(1, 2)) { its[t] = its[into]; emit(Ev("copy").i("s", t + 1).i("t", into + 1)); }
                    break;
                }
                case 13: case 14: case 15:
                {
                    std::int64_t n = offset(), m = n;
                    int how = (int)rng.below(5);
                    if (n == std::numeric_limits<std::int64_t>::min() && (how == 1 || how == 3)) m = std::numeric_limits<std::int64_t>::max();
                    begin(Ev("jump").i("n", clip(n)).i("how", how));
                    char const *e = raised([&] {
                        switch (how)
                        {
                            case 0: a += n; t = s; break;
                            case 1: t = s; a -= (n == m ? -n : std::numeric_limits<std::int64_t>::min()); break;
                            case 2: its[t] = a + n; break;
                            case 3: its[t] = a - (n == m ? -n : std::numeric_limits<std::int64_t>::min()); break;
                            default:
                                if constexpr (reverse) its[t] = a + n;
                                else its[t] = n + a;
                        }
                    });
                    if (how < 2) t = s;
                    emit(Ev("jump").i("s", s + 1).i("n", how == 1 || how == 3 ? clip(m) : clip(n)).i("t", t + 1).s("err", e));
                    break;
                }
                case 16: case 17:
                {
                    bool eq = false, ne = false;
                    begin(Ev("same"));
                    char const *e = raised([&] { eq = a == its[t]; });
                    char const *e2 = raised([&] { ne = a != its[t]; });
                    emit(Ev("same").i("s", s + 1).i("t", t + 1).s("err", std::strcmp(e, e2) ? "differ" : e).b("eq", eq).b("ne", ne));
                    break;
                }
                case 18:
                {
                    bool lt = false, le = false, gt = false, ge = false;
                    begin(Ev("order"));
                    char const *e = raised([&] { lt = a < its[t]; });
                    for (char const *x : {raised([&] { le = a <= its[t]; }), raised([&] { gt = a > its[t]; }), raised([&] { ge = a >= its[t]; })})
                        if (std::strcmp(e, x)) e = "differ";
                    emit(Ev("order").i("s", s + 1).i("t", t + 1).s("err", e).b("lt", lt).b("le", le).b("gt", gt).b("ge", ge));
                    break;
                }
                default:
                {
                    long long n = 0;
                    begin(Ev("difference"));
                    char const *e = raised([&] { n = a - its[t]; });
                    emit(Ev("difference").i("s", s + 1).i("t", t + 1).s("err", e).i("n", n));
                }
            }
        }
        emit(Ev("docs").raw("el", "[" + elements(docs[0]) + "," + elements(docs[1]) + "]"));
    }
};

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long, Rng &rng) {
        switch (rng.below(4))
        {
            case 0: Run<Json::iterator>(rng).run(); break;
            case 1: Run<Json::const_iterator>(rng).run(); break;
            case 2: Run<Json::reverse_iterator>(rng).run(); break;
            default: Run<Json::const_reverse_iterator>(rng).run();
        }
    });
}
