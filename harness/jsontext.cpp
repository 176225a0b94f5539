// Parses JSON texts which are right, nearly right, or wrong; and writes JSON values.
#include "jsonvalue.hpp"

#include "fly/parser/json_parser.hpp"
#include "fly/types/json/json_exception.hpp"
#include "fly/types/string/format.hpp"

using namespace vt;
using Features = fly::parser::JsonParser::Features;

// Now and then one thing is much larger than usual.
enum class Large { No, Strings, Elements, Depth, Blanks, Numerals };
static Large s_large = Large::No;

static std::string blank(Rng &rng, bool comments)
{
    std::string s;
    if (rng.chance(2, 3)) return s;
    for (std::uint64_t n = s_large == Large::Blanks ? 1 + rng.below(40) : 1 + rng.below(2); n > 0; --n)
    {
        if (comments && s_large == Large::Blanks && rng.chance(1, 20)) s += "/*" + std::string(rng.below(200), "*/ x\n"[rng.below(3) * 2]) + "*/";
        if (comments && rng.chance(1, 2))
        {
            static char const *const c[] = {"/**/", "/***/", "/* / */", "/*\"*/", "// x\n", "//\n", "/*//*/", "/*\n*/", "///*\n"};
            s += c[rng.below(9)];
        }
        else s += " \t\n\r"[rng.below(4)];
    }
    return s;
}
static std::string quoted(Rng &rng)
{
    std::string o = "\"";
    std::uint64_t n = rng.below(5);
    if (s_large == Large::Strings && rng.chance(1, 3))
    {
        n = rng.below(300);
        if (rng.chance(1, 2)) o += std::string(n, 'z'), n = 0;
    }
    for (; n > 0; --n)
    {
        std::uint32_t c = scalar(rng);
        char b[16];
        bool esc = c < 32 || c == '"' || c == '\\';
        static char const two[] = "\"\\/bfnrt", of[] = "\"\\/\b\f\n\r\t";
        char const *t = c < 128 && c ? std::strchr(of, (int)c) : nullptr;
        if (t && (rng.chance(1, 2))) o += '\\', o += two[t - of];
        else if (esc || rng.chance(1, 4))
        {
            char const *f = rng.chance(1, 2) ? "\\u%04x" : "\\u%04X";
            if (c > 0xffff) { std::snprintf(b, sizeof b, f, 0xd800 + ((c - 0x10000) >> 10)); o += b; c = 0xdc00 + (c & 0x3ff); }
            std::snprintf(b, sizeof b, f, c);
            o += b;
        }
        else put_utf8(o, c);
    }
    if (rng.chance(1, 30))
    {
        static char const *const bad[] = {"\\ud800", "\\udc00", "\\ud83d\\u0041", "\\u12g4", "\\x41", "\\U0001f600", "\\", "\x01", "\xc3", "\xed\xa0\x80", "\xff", "\\u", "\\ud83d\\", "\t", "\xf4\x90\x80\x80"};
        o += bad[rng.below(15)];
    }
    return o + "\"";
}
static std::string numeral(Rng &rng)
{
    std::string s = rng.chance(1, 3) ? "-" : "";
    if (rng.chance(1, 2)) return s + in_base(interesting(rng), 10);
    if (s_large == Large::Numerals)
    {
        static char const *const ones[] = {"9", "1", "5", "18446744073709551616"};
        for (std::uint64_t n = 1 + rng.below(40); n > 0; --n) s += rng.chance(1, 2) ? ones[rng.below(4)] : "0";
        if (s.starts_with("0") || s.starts_with("-0")) s.insert(s.find('0'), "7");
        if (rng.chance(1, 2)) s += "." + std::string(rng.below(60), '0') + std::to_string(rng.below(1000));
        return rng.chance(1, 3) ? s + "e-" + std::to_string(rng.below(100)) : s;
    }
    s += rng.chance(1, 3) ? "0" : std::to_string(rng.below(rng.chance(1, 2) ? 20 : 100000));
    if (rng.chance(1, 12)) s += ".";
    else if (rng.chance(1, 2)) s += "." + std::string(rng.below(3), '0') + std::to_string(rng.below(rng.chance(1, 2) ? 20 : 10000));
    if (rng.chance(1, 2))
    {
        static char const *const sign[] = {"", "", "+", "-", "-"};
        s += rng.chance(1, 2) ? "e" : "E";
        s += sign[rng.below(5)];
        if (!rng.chance(1, 12)) s += std::to_string(rng.below(rng.chance(1, 10) ? 4000 : 20)) + (rng.chance(1, 40) ? "00000" : "");
    }
    return s;
}
static std::string text(Rng &rng, int depth, bool comments, bool trailing)
{
    auto ws = [&] { return blank(rng, comments); };
    auto many = [&] { return s_large == Large::Depth && depth > 3 ? 1 : s_large == Large::Elements && depth == 3 ? rng.below(120) : rng.below(4); };
    switch (s_large == Large::Depth && depth > 3 ? 5 + rng.below(4) : s_large == Large::Elements && depth == 3 ? 5 + rng.below(4) : s_large == Large::Elements ? rng.below(4) : rng.below(depth > 0 ? 9 : 5))
    {
        case 0: return rng.chance(1, 2) ? "true" : "false";
        case 1: return rng.chance(1, 8) ? std::vector<std::string>{"nul", "True", "nan", "inf", "+1", ".5", "0x10", "01", "-01", "1.e5", "--1", "'a'", "undefined"}[rng.below(13)] : "null";
        case 2: case 3: return numeral(rng);
        case 4: return quoted(rng);
        case 5: case 6:
        {
            std::string o = "[" + ws();
            std::uint64_t n = many();
            for (std::uint64_t k = 0; k < n; ++k) o += (k ? "," + ws() : "") + text(rng, depth - 1, comments, trailing) + ws();
            if (n && trailing && rng.chance(1, 3)) o += "," + ws();
            return o + "]";
        }
        default:
        {
            std::string o = "{" + ws();
            std::uint64_t n = many();
            for (std::uint64_t k = 0; k < n; ++k)
                o += (k ? "," + ws() : "") + (rng.chance(1, 3) ? std::string("\"a\"") : quoted(rng)) + ws() + ":" + ws() + text(rng, depth - 1, comments, trailing) + ws();
            if (n && trailing && rng.chance(1, 3)) o += "," + ws();
            return o + "}";
        }
    }
}
static std::string damage(Rng &rng, std::string s)
{
    static char const hot[] = "{}[],:\"\\/*0123456789-+.eEtfnu \t\n\r\v\f\x80\xff";
    for (std::uint64_t n = 1 + rng.below(2); n > 0; --n)
    {
        std::size_t at = rng.below(s.size() + 1);
        switch (rng.below(4))
        {
            case 0: if (at < s.size()) s.erase(at, 1); break;
            case 1: s.insert(at, 1, hot[rng.below(sizeof hot - 1)]); break;
            case 2: if (at < s.size()) s[at] = hot[rng.below(sizeof hot - 1)]; break;
            default: if (rng.chance(1, 2)) s.resize(at); else if (at < s.size()) s.insert(at, 1, s[at]); break;
        }
    }
    return s;
}

int main(int argc, char **argv)
{
    std::string mode = argc > 1 && argv[1][0] != '-' ? argv[1] : "";
    bool write = false;
    for (int k = 1; k < argc; ++k)
        if (!std::strcmp(argv[k], "--write")) write = true;
    return main_loop(argc, argv, [write](long, Rng &rng) {
        for (int k = 0; k < 6; ++k)
        {
            if (write)
            {
                begin(Ev("write"));
                fly::Json j = random_json(rng, 3);
                std::string out = rng.chance(1, 2) ? j.serialize() : fly::string::format("{}", j);
                emit(Ev("write").raw("v", dump(j)).bytes("text", out));
                begin(Ev("parse"));
                fly::parser::JsonParser parser(Features::AllowAnyType);
                auto back = parser.parse_string(out);
                emit(Ev("parse").b("comments", false).b("trailing", false).b("any", true).bytes("text", out).b("ok", back.has_value())
                         .raw("v", back ? dump(*back) : "[\"n\"]"));
                continue;
            }
            int f = (int)rng.below(8);
            Features features = Features::Strict;
            if (f & 1) features = features | Features::AllowComments;
            if (f & 2) features = features | Features::AllowTrailingComma;
            if (f & 4) features = features | Features::AllowAnyType;
            if (f == 7 && rng.chance(1, 2)) features = Features::AllFeatures;
            std::string t;
            if (rng.chance(1, 8))
            {
                // any short text of a few symbols
                static char const few[] = "[]{},:\"1a0-.e/*\n ";
                for (std::uint64_t n = rng.below(9); n > 0; --n) t += few[rng.below(17)];
            }
            else
            {
                bool loose = rng.chance(1, 4);
                bool c = loose ? rng.chance(1, 2) : f & 1, tr = loose ? rng.chance(1, 2) : f & 2;
                s_large = rng.chance(1, 25) ? (Large)(1 + rng.below(5)) : Large::No;
                t = blank(rng, c) + text(rng, s_large == Large::Depth ? 3 + (int)rng.below(60) : 3, c, tr) + blank(rng, c);
                s_large = Large::No;
                if (rng.chance(2, 5)) t = damage(rng, t);
            }
            if (rng.chance(1, 4))
            {
                // the text of a string, as values are constructed from it
                std::string s = quoted(rng);
                s = s.substr(1, s.size() - 2);
                if (rng.chance(1, 4)) s = damage(rng, s);
                begin(Ev("string"));
                bool ok = true;
                std::string v;
                try { fly::Json j(s); v = static_cast<std::string>(j); } catch (fly::JsonException const &) { ok = false; }
                emit(Ev("string").bytes("text", s).b("ok", ok).bytes("v", v));
            }
            begin(Ev("parse").bytes("text", t));
            fly::parser::JsonParser parser(features);
            std::optional<fly::Json> v;
            auto wide = fly::String::convert<std::u16string>(t);
            auto wider = fly::String::convert<std::u32string>(t);
            switch (rng.below(6))
            {
                case 0: if (wide) { v = parser.parse_string(*wide); break; } [[fallthrough]];
                case 1: if (wider) { v = parser.parse_string(*wider); break; } [[fallthrough]];
                default:
                    if (rng.chance(1, 8)) (void)parser.parse_string(std::string("[\"")); // a parser can be used again
                    v = parser.parse_string(t);
            }
            emit(Ev("parse").b("comments", f & 1).b("trailing", f & 2).b("any", f & 4).bytes("text", t).b("ok", v.has_value())
                     .raw("v", v ? dump(*v) : "[\"n\"]"));
        }
    });
}
