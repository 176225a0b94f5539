// Two JSON values, and random operations on them.
#include "jsonvalue.hpp"

#include "fly/types/json/json_exception.hpp"

#include <list>
#include <map>
#include <unordered_map>

using namespace vt;
using fly::Json;

static Json j, o;
static Rng *R;

template <typename F>
static bool threw(F const &f)
{
    try { f(); } catch (fly::JsonException const &) { return true; }
    return false;
}
static void done(Ev e) { emit(e.raw("j", dump(j)).raw("o", dump(o))); }
static Json value()
{
    switch (R->below(8))
    {
        case 0: return nullptr;
        case 1: return random_json(*R, 1);
        case 2: return random_json(*R, 2);
        default: return (int)R->below(50);
    }
}
static std::string key()
{
    static char const *const k[] = {"a", "b", "c", "ab", "", "b\xc3\xa9", "\"", "\\", "\n", "\xf0\x9f\x98\x80", "A", "zz"};
    return R->chance(4, 5) ? k[R->below(12)] : plain(*R);
}
// a key as any type of string; const char* where that is possible
template <typename F>
static void with_key(std::string const &raw, F const &f)
{
    std::string e = escape_for_json(raw);
    switch (R->below(6))
    {
        case 0: f(e.c_str()); break;
        case 1: f(fly::String::convert<std::u16string>(e)->c_str()); break;
        case 2: f(*fly::String::convert<std::u16string>(e)); break;
        case 3: f(*fly::String::convert<std::u32string>(e)); break;
        default: f(e); break;
    }
}
static bool container(Json const &x) { return x.is_array() || x.is_object(); }
static Json::const_iterator at(Json const &x, std::size_t i)
{
    auto it = x.cbegin();
    for (; i > 0; --i) ++it;
    return it;
}
// how far an iterator is from the start
static int place(Json::const_iterator const &it)
{
    int n = 0;
    for (auto k = j.cbegin(); k != it && n < 1000; ++k) ++n;
    return n;
}
static int place(Json::iterator const &it)
{
    int n = 0;
    for (auto k = j.begin(); k != it && n < 1000; ++k) ++n;
    return n;
}
static std::string dumps(std::vector<Json> const &v)
{
    std::string s;
    for (auto const &x : v) s += (s.empty() ? "" : ",") + dump(x);
    return "[" + s + "]";
}
template <typename T>
static T mapped(Json const &x)
{
    T m;
    for (auto it = x.cbegin(); it != x.cend(); ++it) m.emplace(escape_for_json(it.key()), *it);
    return m;
}
template <typename T>
static Json unmapped(T const &m, bool escape)
{
    Json x = fly::json_object_type();
    for (auto const &it : m) x.insert(escape ? escape_for_json(it.first) : it.first, it.second);
    return x;
}
template <typename T>
static bool swap_as_array()
{
    T t = static_cast<T>(o);
    bool bad = threw([&] { j.swap(t); });
    o = fly::json_array_type();
    for (auto const &x : t) o.push_back(x);
    return bad;
}
template <typename T>
static bool swap_as_object()
{
    T t = mapped<T>(o);
    bool bad = threw([&] { j.swap(t); });
    o = unmapped(t, !bad);
    return bad;
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long, Rng &rng) {
        R = &rng;
        j = nullptr;
        o = nullptr;
        bool const large = rng.chance(1, 50);
        auto container_of = [&](int k) {
            bool const many = large && rng.chance(2, 3);
            Json x;
            if (k == 0) x = fly::json_array_type();
            else x = fly::json_object_type();
            for (std::uint64_t n = many ? 20 + rng.below(50) : rng.below(5); n > 0; --n)
            {
                if (many) k == 0 ? x.push_back((int)rng.below(50)) : (void)(x["m" + std::to_string(rng.below(90))] = (int)rng.below(50));
                else if (k == 0) x.push_back(value());
                else x[escape_for_json(key())] = value();
            }
            return x;
        };
        auto fresh = [&]() -> Json {
            switch (rng.below(6))
            {
                case 0: return random_json(rng, 1);
                case 1: return nullptr;
                case 2: case 3: return container_of(0);
                default: return container_of(1);
            }
        };
        int steps = 6 + (int)rng.below(14);
        for (int k = 0; k < steps; ++k)
        {
            auto sz = j.size();
            std::size_t i = rng.below(sz + 2);
            std::string ky = key();
            Ev e("none");
            switch (k == 0 ? 0 : rng.below(36))
            {
                case 0: case 1:
                    j = fresh();
                    o = fresh();
                    e = Ev("set");
                    break;
                case 2:
                    e = Ev("copy");
                    if (rng.chance(1, 2)) j = o;
                    else { Json c(o); j = std::move(c); }
                    break;
                case 3:
                    e = Ev("move");
                    j = std::move(o);
                    break;
                case 4:
                    e = Ev("swap");
                    if (rng.chance(1, 2)) j.swap(o);
                    else o.swap(j);
                    break;
                case 5:
                {
                    if (rng.chance(1, 2))
                    {
                        bool object = j.is_object() != rng.chance(1, 6);
                        std::vector<int> numbers;
                        std::map<std::string, int> members;
                        for (std::uint64_t n = rng.below(4); n > 0; --n)
                        {
                            numbers.push_back((int)rng.below(90));
                            members[escape_for_json(key())] = (int)rng.below(90);
                        }
                        // keys are given escaped, and come back as they are
                        Json v = numbers;
                        if (object) v = unmapped(members, false);
                        begin(e = Ev("swap_numbers").s("tag", object ? "o" : "a").raw("v", dump(v)));
                        bool bad = threw([&] { object ? j.swap(members) : j.swap(numbers); });
                        Json w = numbers;
                        if (object) w = unmapped(members, !bad);
                        e.b("threw", bad).raw("w", dump(w));
                        break;
                    }
                    begin(e = Ev("swap_typed"));
                    if (o.is_array())
                        e.b("threw", rng.chance(1, 2) ? swap_as_array<std::vector<Json>>() : swap_as_array<std::list<Json>>());
                    else if (o.is_object())
                        e.b("threw", rng.chance(1, 2) ? swap_as_object<std::map<std::string, Json>>() : swap_as_object<std::unordered_map<std::string, Json>>());
                    else if (o.is_string())
                    {
                        std::string t = escape_for_json(static_cast<std::string>(o));
                        bool bad = threw([&] { j.swap(t); });
                        o = bad ? t : escape_for_json(t);
                        e.b("threw", bad);
                    }
                    else continue;
                    break;
                }
                case 6:
                    begin(e = Ev("take").i("i", (int)i));
                    e.b("threw", threw([&] {
                        if (j.is_object() && i < sz) { auto it = j.begin(); while (i--) ++it; j = rng.chance(1, 2) ? *it : std::move(*it); }
                        else if (rng.chance(1, 2)) j = j.at(i);
                        else j = std::move(j.at(i));
                    }));
                    break;
                case 7:
                {
                    begin(e = Ev("at_key").bytes("key", ky));
                    Json v;
                    bool bad = threw([&] { with_key(ky, [&](auto const &q) {
                        if (rng.chance(1, 2)) v = std::as_const(j).at(q);
                        else if (rng.chance(1, 2)) v = j.at(q);
                        else v = std::as_const(j)[q];
                    }); });
                    e.b("threw", bad).raw("v", dump(v));
                    break;
                }
                case 8:
                {
                    begin(e = Ev("at_index").i("i", (int)i));
                    Json v;
                    bool bad = threw([&] {
                        if (rng.chance(1, 2)) v = std::as_const(j).at(i);
                        else if (rng.chance(1, 2)) v = j.at(i);
                        else v = std::as_const(j)[i];
                    });
                    e.b("threw", bad).raw("v", dump(v));
                    break;
                }
                case 9: case 10:
                {
                    bool f = rng.chance(1, 2);
                    begin(e = Ev(f ? "front" : "back"));
                    Json v;
                    bool bad = threw([&] {
                        if (rng.chance(1, 2)) v = f ? j.front() : j.back();
                        else v = f ? std::as_const(j).front() : std::as_const(j).back();
                    });
                    e.b("threw", bad).raw("v", dump(v));
                    break;
                }
                case 11: case 12:
                {
                    Json v = value(), old;
                    begin(e = Ev("put_key").bytes("key", ky).raw("v", dump(v)));
                    bool bad = threw([&] { with_key(ky, [&](auto const &q) { auto &r = j[q]; old = r; r = v; }); });
                    e.b("threw", bad).raw("old", dump(old));
                    break;
                }
                case 13:
                {
                    Json v = value(), old;
                    i = rng.below(sz + 4);
                    begin(e = Ev("put_index").i("i", (int)i).raw("v", dump(v)));
                    bool bad = threw([&] { auto &r = j[i]; old = r; r = v; });
                    e.b("threw", bad).raw("old", dump(old));
                    break;
                }
                case 14:
                {
                    static char const *const wrong[] = {"\x01", "a\"b", "\\", "\\x", "\\ud800", "\xff", "\\u12", "\n"};
                    std::string q = wrong[rng.below(8)];
                    begin(e = Ev("bad_key"));
                    auto kind = rng.below(9);
                    e.b("threw", threw([&] {
                        switch (kind)
                        {
                            case 0: (void)j.at(q); break;
                            case 1: j[q] = 1; break;
                            case 2: j.insert(q, Json(1)); break;
                            case 3: j.insert_or_assign(q, Json(1)); break;
                            case 4: j.emplace(q, 1); break;
                            case 5: (void)j.erase(q); break;
                            case 6: (void)j.count(q); break;
                            case 7: (void)j.contains(q); break;
                            default: (void)j.find(q);
                        }
                    }));
                    break;
                }
                case 15:
                    begin(e = Ev("measure"));
                    e.i("size", (long long)j.size()).b("empty", j.empty()).i("capacity", (long long)j.capacity());
                    break;
                case 16:
                {
                    std::size_t n = rng.below(sz + 3);
                    if (j.is_string())
                    {
                        auto s = static_cast<std::string>(j);
                        while (n < s.size() && (s[n] & 0xc0) == 0x80) ++n; // not within a character
                    }
                    begin(e = Ev("resize").i("n", (int)n));
                    e.b("threw", threw([&] { j.resize(n); }));
                    break;
                }
                case 17:
                {
                    std::size_t n = rng.below(60);
                    begin(e = Ev("reserve").i("n", (int)n));
                    bool bad = threw([&] { j.reserve(n); });
                    e.b("threw", bad).i("capacity", (long long)j.capacity());
                    break;
                }
                case 18:
                    begin(e = Ev("clear"));
                    j.clear();
                    break;
                case 19: case 20:
                {
                    bool own = j.is_array() && sz && rng.chance(1, 4);
                    std::size_t x = rng.below(sz ? sz : 1);
                    Json v = own ? j[x] : value();
                    begin(e = Ev("push").raw("v", dump(v)));
                    int how = (int)rng.below(3);
                    e.b("threw", threw([&] {
                        if (own) j.push_back(j[x]);
                        else if (how == 0) j.push_back(v);
                        else if (how == 1) j.push_back(std::move(v));
                        else (void)j.emplace_back(v);
                    }));
                    break;
                }
                case 21:
                    begin(e = Ev("pop"));
                    e.b("threw", threw([&] { j.pop_back(); }));
                    break;
                case 22: case 23: case 24:
                {
                    bool own = container(j) && !(container(o) && rng.chance(1, 8));
                    if (own && i > sz) i = sz;
                    Json::const_iterator it;
                    if (own) it = at(j, i);
                    else if (container(o)) { it = o.cbegin(); i = 0; }
                    else i = 0;
                    bool alias = j.is_array() && sz && rng.chance(1, 6);
                    std::size_t x = rng.below(sz ? sz : 1);
                    Json v = alias ? j[x] : value(), v2 = value();
                    int how = alias ? 0 : (int)rng.below(5);
                    std::size_t count = how == 2 ? rng.below(4) : 1;
                    std::vector<Json> vs(count, v);
                    if (how == 3) vs.push_back(v2);
                    if (how == 4) vs.clear();
                    begin(e = Ev("insert_at").i("i", (int)i).raw("vs", dumps(vs)).b("own", own));
                    Json::iterator got;
                    bool bad = threw([&] {
                        switch (how)
                        {
                            case 0: got = alias ? j.insert(it, std::as_const(j)[x]) : j.insert(it, v); break;
                            case 1: got = j.insert(it, std::move(v)); break;
                            case 2: got = j.insert(it, count, v); break;
                            case 3: got = j.insert(it, {v, v2}); break;
                            default: got = j.insert(it, std::initializer_list<Json> {}); break;
                        }
                    });
                    e.b("threw", bad).i("at", bad ? -1 : place(got));
                    break;
                }
                case 25:
                {
                    if (!container(o) || !container(j)) continue;
                    bool self = rng.chance(1, 8), other = rng.chance(1, 8);
                    Json const &from = self ? j : o;
                    std::size_t a = rng.below(from.size() + 1), b = a + rng.below(from.size() + 1 - a);
                    if (i > sz) i = sz;
                    Json::const_iterator it = at(j, i);
                    if (other) it = o.cbegin(), i = 0;
                    Json::const_iterator first = at(from, a), last = at(from, b);
                    bool mixed = rng.chance(1, 10);
                    if (mixed) last = (self ? o : j).cend();
                    begin(e = Ev("insert_range").i("i", (int)i).i("from", (int)a).i("to", (int)b).b("own", !self && !other && !mixed));
                    Json::iterator got;
                    bool bad = threw([&] { got = j.insert(it, first, last); });
                    e.b("threw", bad).i("at", bad ? -1 : place(got));
                    break;
                }
                case 26:
                    begin(e = Ev("erase_index").i("i", (int)i));
                    e.b("threw", threw([&] { j.erase(i); }));
                    break;
                case 27: case 28:
                {
                    bool own = container(j) && !(container(o) && rng.chance(1, 8));
                    if (own && i > sz) i = sz;
                    Json::const_iterator it;
                    if (own) it = at(j, i);
                    else if (container(o)) { it = o.cbegin(); i = 0; }
                    else i = 0;
                    begin(e = Ev("erase_at").i("i", (int)i).b("own", own));
                    Json::iterator got;
                    bool bad = threw([&] { got = j.erase(it); });
                    e.b("threw", bad).i("at", bad ? -1 : place(got));
                    break;
                }
                case 29:
                {
                    if (i > sz) i = sz;
                    std::size_t b = i + rng.below(sz + 1 - i);
                    int mine = container(j) ? 2 : 0;
                    Json::const_iterator first, last;
                    if (mine) first = at(j, i), last = at(j, b);
                    if (container(o) && rng.chance(1, 6)) first = o.cbegin(), mine = 0;
                    if (container(o) && rng.chance(1, 6)) last = o.cend(), mine = 0;
                    begin(e = Ev("erase_range").i("from", (int)i).i("to", (int)b).b("own", mine == 2));
                    Json::iterator got;
                    bool bad = threw([&] { got = j.erase(first, last); });
                    e.b("threw", bad).i("at", bad ? -1 : place(got));
                    break;
                }
                case 30: case 31: case 32:
                {
                    Json v = value();
                    int how = (int)rng.below(3);
                    begin(e = Ev(how == 0 ? "insert_key" : how == 1 ? "assign_key" : "emplace_key").bytes("key", ky).raw("v", dump(v)));
                    std::pair<Json::iterator, bool> got {};
                    bool copy = rng.chance(1, 2);
                    bool bad = threw([&] { with_key(ky, [&](auto const &q) {
                        if (how == 0) got = copy ? j.insert(q, v) : j.insert(q, std::move(v));
                        else if (how == 1) got = j.insert_or_assign(q, std::move(v));
                        else got = j.emplace(q, v);
                    }); });
                    e.b("threw", bad).i("at", bad ? -1 : place(got.first)).b("fresh", got.second);
                    break;
                }
                case 33:
                {
                    if (!container(o)) continue;
                    std::size_t a = rng.below(o.size() + 1), b = a + rng.below(o.size() + 1 - a);
                    Json::const_iterator first = at(o, a), last = at(o, b);
                    int const bad = rng.chance(1, 6) ? (int)rng.below(4) : 4; // which are not of the other one
                    if (bad < 3 && !container(j) && bad != 0) continue;
                    if (bad == 0) first = last = Json::const_iterator();
                    else if (bad == 1) first = std::as_const(j).cbegin();
                    else if (bad == 2) last = std::as_const(j).cend();
                    else if (bad == 3) last = Json::const_iterator();
                    begin(e = Ev("insert_members").i("from", (int)a).i("to", (int)b).b("own", bad == 4));
                    e.b("threw", threw([&] { j.insert(first, last); }));
                    break;
                }
                case 34:
                {
                    if (rng.chance(1, 2))
                    {
                        begin(e = Ev("erase_key").bytes("key", ky));
                        std::size_t n = 0;
                        bool bad = threw([&] { with_key(ky, [&](auto const &q) { n = j.erase(q); }); });
                        e.b("threw", bad).i("n", (long long)n);
                        break;
                    }
                    begin(e = Ev("lookup").bytes("key", ky));
                    std::size_t n = 0;
                    bool has = false;
                    int where = -1;
                    bool bad = threw([&] { with_key(ky, [&](auto const &q) {
                        n = j.count(q);
                        has = j.contains(q);
                        where = rng.chance(1, 2) ? place(j.find(q)) : place(std::as_const(j).find(q));
                    }); });
                    e.b("threw", bad).i("n", (long long)n).b("has", has).i("at", where);
                    break;
                }
                default:
                {
                    if (rng.chance(1, 3))
                    {
                        auto n = rng.below(4);
                        std::vector<Json> vs;
                        for (std::uint64_t m = 0; m < n; ++m)
                        {
                            Json x = value();
                            if (rng.chance(2, 3)) 
                            {
                                x = fly::json_array_type();
                                auto len = rng.chance(5, 6) ? 2 : rng.below(4);
                                if (len > 0) x.push_back(rng.chance(9, 10) ? Json(escape_for_json(key())) : value());
                                for (std::uint64_t y = 1; y < len; ++y) x.push_back(value());
                            }
                            vs.push_back(x);
                        }
                        begin(e = Ev("init").raw("vs", dumps(vs)));
                        using L = std::initializer_list<Json>;
                        if (n == 0) j = Json(L {});
                        else if (n == 1) j = Json(L {vs[0]});
                        else if (n == 2) j = Json(L {vs[0], vs[1]});
                        else j = Json(L {vs[0], vs[1], vs[2]});
                        break;
                    }
                    int how = (int)rng.below(4);
                    bool kept = how != 1 && how != 3;
                    if (how >= 2 && !o.is_object()) continue;
                    begin(e = Ev("merge").b("kept", kept));
                    bool bad = false;
                    if (how == 0) bad = threw([&] { j.merge(o); });
                    else if (how == 1) { bad = threw([&] { j.merge(std::move(o)); }); if (!bad) o = nullptr; }
                    else
                    {
                        auto run = [&](auto m) {
                            bad = threw([&] { if (how == 2) j.merge(m); else j.merge(std::move(m)); });
                            if (!bad) { if (how == 2) o = unmapped(m, false); else o = nullptr; }
                        };
                        if (rng.chance(1, 2)) run(mapped<std::map<std::string, Json>>(o));
                        else run(mapped<std::unordered_map<std::string, Json>>(o));
                    }
                    e.b("threw", bad);
                    break;
                }
            }
            done(e);
        }
        Json const &x = j;
        char const *tag = x.is_null() ? "n" : x.is_boolean() ? "b" : x.is_signed_integer() ? "i" : x.is_unsigned_integer() ? "u" : x.is_float() ? "f" : x.is_string() ? "s" : x.is_array() ? "a" : x.is_object() ? "o" : "?";
        done(Ev("types").s("tag", tag).i("kinds", x.is_null() + x.is_boolean() + x.is_signed_integer() + x.is_unsigned_integer() + x.is_float() + x.is_string() + x.is_array() + x.is_object()));
    });
}
