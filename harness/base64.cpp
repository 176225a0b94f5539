// Drives fly::coders::Base64Coder through strings and files, small and larger than its buffers.
#include "trace.hpp"
#include "scratch.hpp"

#include "fly/coders/base64/base64_coder.hpp"

#include <memory>

using namespace vt;

static char const *const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string random_bytes(Rng &rng, std::size_t n)
{
    std::string s;
    int style = (int)rng.below(4);
    for (std::size_t k = 0; k < n; ++k)
        s.push_back(style == 0 ? (char)(rng.chance(1, 2) ? 0xff : 0x00) :
                    style == 1 ? (char)(rng.next() | 0x80) : (char)rng.next());
    return s;
}
static std::string random_symbols(Rng &rng, std::size_t n)
{
    std::string s;
    for (std::size_t k = 0; k < n; ++k) s.push_back(alphabet[rng.below(64)]);
    return s;
}
static char bad_symbol(Rng &rng)
{
    char const *edge = "@[`{/:*,.-_ =";
    switch (rng.below(3))
    {
        case 0: return edge[rng.below(13)];
        case 1: return (char)(0x80 | rng.next());
        default: return (char)rng.next();
    }
}
static std::string random_text(Rng &rng)
{
    std::string t = random_symbols(rng, rng.chance(5, 6) ? 4 * rng.below(7) : rng.below(20));
    int pads = (int)rng.below(5);
    if (pads < 4) for (int k = 0; k < pads && k < (int)t.size(); ++k) t[t.size() - 1 - (std::size_t)k] = '=';
    if (!t.empty() && rng.chance(1, 3)) t[rng.below(t.size())] = bad_symbol(rng);
    if (!t.empty() && rng.chance(1, 8)) t[rng.below(t.size())] = '=';
    return t;
}

// Write `out` as `unit` repeated `n` times and a tail.
static void factor(Ev &e, std::string const &out, std::size_t unit_size)
{
    std::string unit = out.substr(0, std::min(unit_size, out.size()));
    std::size_t n = 0, pos = 0;
    while (!unit.empty() && out.compare(pos, unit.size(), unit) == 0 && pos + unit.size() <= out.size()) { ++n; pos += unit.size(); }
    std::string tail = out.substr(pos);
    if (tail.size() > 4000) tail.resize(4000);
    e.bytes("out_unit", unit).i("out_n", (long long)n).bytes("out_tail", tail);
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long id, Rng &rng) {
        static auto coder = std::make_unique<fly::coders::Base64Coder>();
        if (id % 40 == 39)
        {
            std::size_t unit_size = 3 * (1 + rng.below(64));
            bool exact = rng.chance(1, 2);
            if (exact) unit_size = 3 * (1u << rng.below(5));
            std::string unit = random_bytes(rng, unit_size);
            // the buffers hold 192 KiB of bytes and 256 KiB of symbols
            std::size_t buffer = 192 * 1024;
            std::size_t n = exact ? buffer / unit_size * (1 + rng.below(2)) : rng.below(3 * buffer / unit_size);
            if (exact && rng.chance(1, 2) && n) n -= 1 + rng.below(2);
            std::string tail = random_bytes(rng, rng.below(unit_size));
            if (exact && n && rng.chance(1, 2)) tail = random_bytes(rng, unit_size - 1 - rng.below(2));
            if (tail.size() >= 3) tail[0] = (char)(unit[0] ^ 0x55);
            std::string in;
            for (std::size_t k = 0; k < n; ++k) in += unit;
            in += tail;
            Ev e("encode_big");
            e.bytes("unit", unit).i("n", (long long)n).bytes("tail", tail);
            begin(e);
            std::string out;
            bool ok = coder->encode_string(in, out);
            e.b("ok", ok);
            if (n == 0) { Ev f("encode"); f.bytes("in", in).b("ok", ok).bytes("out", out); emit(f); return; }
            factor(e, out, unit_size / 3 * 4);
            emit(e);

            // decode: the same text, perhaps with one symbol damaged
            std::string tunit = random_symbols(rng, unit_size / 3 * 4);
            std::string ttail = random_symbols(rng, 4 * rng.below(unit_size / 3));
            if (exact && rng.chance(1, 2)) ttail = random_symbols(rng, tunit.size());
            if (!ttail.empty())
            {
                ttail[0] = tunit[0] == 'A' ? 'B' : 'A';
                for (int k = 0, p = (int)rng.below(3); k < p; ++k) ttail[ttail.size() - 1 - (std::size_t)k] = '=';
                if (rng.chance(1, 4)) ttail[rng.below(ttail.size())] = bad_symbol(rng);
            }
            std::size_t tn = n;
            if (exact && ttail.size() == tunit.size() && rng.chance(3, 4)) tn = 256 * 1024 / tunit.size() * (1 + rng.below(2)) - 1;
            std::string text;
            for (std::size_t k = 0; k < tn; ++k) text += tunit;
            text += ttail;
            Ev d("decode_big");
            d.bytes("unit", tunit).i("n", (long long)tn).bytes("tail", ttail);
            begin(d);
            std::string dec;
            bool dok = coder->decode_string(text, dec);
            d.b("ok", dok);
            if (tn == 0 || !dok) { d.bytes("out_unit", "").i("out_n", 0).bytes("out_tail", ""); if (tn == 0) return; }
            else factor(d, dec, tunit.size() / 4 * 3);
            emit(d);
            return;
        }
        int steps = 1 + (int)rng.below(4);
        for (int s = 0; s < steps; ++s)
        {
            bool file = rng.chance(1, 12);
            if (rng.chance(1, 2))
            {
                std::string in = random_bytes(rng, rng.below(rng.chance(1, 4) ? 70 : 10)), out = "unset";
                bool ok;
                Ev e("encode");
                e.bytes("in", in);
                begin(e);
                if (file)
                {
                    Scratch dir;
                    dir.write("a", in);
                    ok = coder->encode_file(dir.path("a"), dir.path("b"));
                    out = dir.read("b");
                }
                else ok = coder->encode_string(in, out);
                emit(e.b("ok", ok).bytes("out", out));
                if (!ok) continue;
                Ev d("decode");
                d.bytes("in", out).bytes("before", "before");
                begin(d);
                std::string back = "before";
                ok = coder->decode_string(out, back);
                emit(d.b("ok", ok).bytes("out", back));
            }
            else
            {
                std::string in = random_text(rng), out = "before";
                bool ok;
                Ev d(file ? "decode_file" : "decode");
                d.bytes("in", in).bytes("before", "before");
                begin(d);
                if (file)
                {
                    Scratch dir;
                    dir.write("a", in);
                    ok = coder->decode_file(dir.path("a"), dir.path("b"));
                    out = dir.read("b");
                }
                else ok = coder->decode_string(in, out);
                emit(d.b("ok", ok).bytes("out", out));
            }
        }
    });
}
