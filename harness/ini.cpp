// Parses INI texts which are right, nearly right, or wrong.
#include "jsonvalue.hpp"

#include "fly/parser/ini_parser.hpp"


using namespace vt;

static std::string word(Rng &rng)
{
    static char const *const w[] = {"a", "b", "name", "x y", "a.b", "\xc3\xa9", "\\u0041", "A", "\\n", "k-1", "\xf0\x9f\x98\x80", "a;b", "#", "a[0", "1"};
    if (rng.chance(1, 80)) return std::string(20 + rng.below(300), 'n') + w[rng.below(15)];
    return w[rng.below(15)];
}
static std::string blank(Rng &rng)
{
    static char const *const b[] = {"", "", "", " ", "\t", "  ", " \r", "\v", "\f "};
    return b[rng.below(9)];
}
static std::string value(Rng &rng)
{
    static char const *const v[] = {"1", "abc", "a=b", "=", "==", "x=", "dGVzdA==", "=x", "a; b", "it's", "c:\\\\d", "\\\"q\\\"", "[1,2] ", "a]b", "\\ud83d\\ude00", "\"", "'", "\\x", "\\",
                                    "x\"y", "\xff", "{}", "null", "true", "\xc3\xa9", "a\tb", "''", "\"\""};
    std::string s = v[rng.below(28)];
    if (rng.chance(1, 80)) s += std::string(20 + rng.below(300), "v ="[rng.below(3)]) + "w";
    if (rng.chance(1, 4)) s += " " + std::string(v[rng.below(28)]);
    switch (rng.below(5))
    {
        case 0: return "\"" + s + "\"";
        case 1: return "'" + blank(rng) + s + blank(rng) + "'";
        default: return s;
    }
}
// Much of everything, mostly right.
static std::string much(Rng &rng)
{
    std::string t = "[first]\n";
    std::uint64_t lines = 20 + rng.below(120), sections = rng.chance(1, 2) ? 1 : 1 + rng.below(60);
    for (std::uint64_t n = 0; n < lines; ++n)
    {
        if (sections > 1 && rng.chance(1, 2)) t += "[s" + std::to_string(rng.below(sections)) + "]\n";
        t += "n" + std::to_string(rng.below(lines)) + "=" + (rng.chance(1, 10) ? value(rng) : std::to_string(n)) + "\n";
    }
    return t;
}
static std::string text(Rng &rng)
{
    std::string t;
    if (rng.chance(1, 100)) return much(rng);
    for (std::uint64_t n = rng.below(rng.chance(1, 30) ? 80 : 9); n > 0; --n)
    {
        t += blank(rng);
        std::uint64_t what = rng.below(12);
        if (n > 1 && t.find('[') == std::string::npos && rng.chance(7, 8)) what = 0;
        if (what < 3) t += "[" + blank(rng) + word(rng) + blank(rng) + "]";
        else if (what < 9) t += word(rng) + blank(rng) + "=" + blank(rng) + value(rng);
        else if (what < 10) t += ";" + word(rng) + "=" + value(rng);
        else if (what < 11 && rng.chance(1, 4))
        {
            static char const *const bad[] = {"name", "=v", "name=", "[a", "a]", "[\"a\"]", "'a'=1", "\"=1", "[]", "[ ]", "[[a]]", "a==", "=", "[", "]", "[']", "\"a=1", "a\"=1"};
            t += bad[rng.below(18)];
        }
        t += blank(rng);
        if (n > 1 || rng.chance(1, 2)) t += "\n";
    }
    return t;
}
static std::string damage(Rng &rng, std::string t)
{
    static char const few[] = "[]=;'\"\n\\ a\xff\0";
    for (std::uint64_t n = 1 + rng.below(2); n > 0 && !t.empty(); --n)
    {
        std::size_t at = rng.below(t.size());
        switch (rng.below(3))
        {
            case 0: t.erase(at, 1); break;
            case 1: t.insert(at, 1, few[rng.below(12)]); break;
            default: t[at] = few[rng.below(12)]; break;
        }
    }
    return t;
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long, Rng &rng) {
        fly::parser::IniParser parser;
        for (int k = 0; k < 4; ++k)
        {
            auto t = text(rng);
            if (rng.chance(1, 4)) t = damage(rng, t);
            begin(Ev("ini").bytes("text", t));
            std::optional<fly::Json> v;
            std::optional<std::u16string> wide;
            if (rng.chance(1, 4)) wide = fly::String::convert<std::u16string>(t);
            if (wide) v = parser.parse_string(*wide);
            else v = parser.parse_string(t);
            emit(Ev("ini").bytes("text", t).b("ok", v.has_value()).raw("v", v ? dump(*v) : "[\"n\"]"));
        }
    });
}
