// Parses files in every encoding, damaged ones, and ones which cannot be read.
#include "jsonvalue.hpp"

#include "fly/parser/ini_parser.hpp"
#include "fly/parser/json_parser.hpp"

#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>

using namespace vt;

static int target = 0;      // reads of other files are left alone
static int reads_left = -1; // as many reads succeed, if not negative
static bool failed = false;
static long chunk = 0;      // reads are cut to this size, if it is not 0

extern "C" ssize_t read(int fd, void *buf, size_t n)
{
    if (target && fd > 2)
    {
        if (reads_left == 0)
        {
            failed = true;
            errno = EIO;
            return -1;
        }
        if (reads_left > 0) --reads_left;
        if (chunk > 0 && n > (size_t)chunk) n = (size_t)chunk;
    }
    return ::syscall(SYS_read, fd, buf, n);
}

static std::string json_source(Rng &rng)
{
    static char const *const t[] = {"{}", "[]", "[1]", "{\"a\":1}", " [true, null]", "{\"\xc3\xa9\":\"\xf0\x9f\x98\x80\"}", "[\"\xef\xbb\xbf\"]", "[1,]", "[/**/]", "1", "\"x\"", "", "[",
                                    "{\"a\":[{},[]]}", "[\"\\ud83d\\ude00\"]", "\xef\xbb\xbf[]", "[\"\xc4\x80\xe4\xb8\x80\"]"};
    std::string s = t[rng.below(17)];
    if (rng.chance(1, 6)) s = "[\"" + std::string(1 + rng.below(3), 'x') + "\", \"" + plain(rng) + "\"]";
    return s;
}
static std::string ini_source(Rng &rng)
{
    static char const *const t[] = {"[a]\nb=c\n", "[a]\r\nb=1=2\r\n[c]\nd='e'", "[\xc3\xa9]\nx=\xf0\x9f\x98\x80\n", "", "a=b", "[a]\n;c\nb", "[a]", "\n\n[a]\nb=c", "[a]\nb=\xe4\xb8\x80\n"};
    return t[rng.below(9)];
}
static std::string encode(Rng &rng, std::string const &t)
{
    int kind = (int)rng.below(7);
    if (kind <= 1) return t;
    if (kind == 2) return "\xef\xbb\xbf" + t;
    bool big = kind & 1;
    std::string o;
    auto unit = [&](std::uint32_t u, int w) {
        for (int k = 0; k < w; ++k) o += (char)(u >> 8 * (big ? w - 1 - k : k));
    };
    int w = kind < 5 ? 2 : 4;
    unit(0xfeff, w);
    for (std::size_t k = 0; k < t.size(); ++k)
    {
        unsigned char b = (unsigned char)t[k];
        std::uint32_t c = b < 0x80 ? b : b < 0xe0 ? b & 31 : b < 0xf0 ? b & 15 : b & 7;
        for (int n = b < 0xc0 ? 0 : b < 0xe0 ? 1 : b < 0xf0 ? 2 : 3; n > 0 && k + 1 < t.size(); --n) c = c << 6 | ((unsigned char)t[++k] & 63);
        if (w == 2 && c >= 0x10000) unit(0xd800 + ((c - 0x10000) >> 10), 2), unit(0xdc00 + ((c - 0x10000) & 1023), 2);
        else unit(c, w);
    }
    return o;
}
static std::string damage(Rng &rng, std::string t)
{
    static char const few[] = {(char)0xff, (char)0xfe, 0, (char)0xef, (char)0xbb, (char)0xbf, (char)0xd8, (char)0xdc, 'a', ' '};
    switch (rng.below(5))
    {
        case 0: return t.substr(0, rng.below(t.size() + 1));
        case 1: return t + few[rng.below(10)];
        case 2: return few[rng.below(10)] + t;
        default:
            if (t.empty()) return t;
            t[rng.below(rng.chance(1, 2) ? t.size() : std::min<std::size_t>(t.size(), 4))] = few[rng.below(10)];
            return t;
    }
}

int main(int argc, char **argv)
{
    char dir[] = "/tmp/parserfile-XXXXXX";
    if (!::mkdtemp(dir)) std::abort();
    std::filesystem::path at(dir);
    int rc = main_loop(argc, argv, [&at](long, Rng &rng) {
        fly::parser::IniParser ini;
        bool loose = rng.chance(1, 2);
        using F = fly::parser::JsonParser::Features;
        fly::parser::JsonParser json(loose ? F::AllFeatures : F::Strict);
        for (int k = 0; k < 4; ++k)
        {
            bool is_json = rng.chance(2, 3);
            auto bytes = encode(rng, is_json ? json_source(rng) : ini_source(rng));
            if (rng.chance(1, 3)) bytes = damage(rng, bytes);
            auto path = at / "file";
            std::filesystem::remove_all(path);
            bool unreadable = false;
            switch (rng.below(12))
            {
                case 0: unreadable = true; break;
                case 1: unreadable = std::filesystem::create_directory(path); break;
                case 2: unreadable = true, path = at / "missing" / "file"; break;
                default: std::ofstream(path, std::ios::binary) << bytes; break;
            }
            reads_left = rng.chance(1, 5) ? (int)rng.below(3) : -1;
            chunk = rng.chance(1, 3) ? 1 + (long)rng.below(4) : 0;
            begin(Ev("file").bytes("bytes", bytes));
            failed = false;
            target = 1;
            auto v = is_json ? json.parse_file(path) : ini.parse_file(path);
            target = 0;
            emit(Ev("file").bytes("bytes", bytes).s("kind", is_json ? "json" : "ini").b("loose", loose).b("unreadable", unreadable || failed).b("ok", v.has_value())
                     .raw("v", v ? dump(*v) : "[\"n\"]"));
        }
    });
    std::filesystem::remove_all(at);
    return rc;
}
