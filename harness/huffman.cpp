// Drives fly::coders::HuffmanEncoder / HuffmanDecoder.
#include "trace.hpp"
#include "scratch.hpp"

#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/coders/huffman/huffman_encoder.hpp"

#include <memory>

using namespace vt;

struct Cfg : fly::coders::CoderConfig
{
    Cfg(std::uint16_t kb, std::uint8_t limit)
    {
        m_default_huffman_encoder_chunk_size_kb = kb;
        m_default_huffman_encoder_max_code_length = limit;
    }
};

static std::string random_input(Rng &rng, std::size_t n)
{
    std::string s;
    int style = (int)rng.below(6);
    int alphabet = 1 + (int)rng.below(style == 0 ? 4 : style == 1 ? 16 : 256);
    char base = (char)rng.next();
    for (std::size_t k = 0; k < n; ++k)
    {
        switch (style)
        {
            case 2: // frequencies which double, for long codes
            {
                int b = 0;
                while (b < 14 && rng.chance(1, 2)) ++b;
                s.push_back((char)(base + b));
                break;
            }
            case 3: s.push_back(base); break;
            default: s.push_back((char)(base + (char)rng.below((unsigned)alphabet))); break;
        }
    }
    if (style == 2)
    {
        // Fibonacci frequencies give the deepest trees
        s.clear();
        std::size_t a = 1, b = 1;
        for (int sym = 0; s.size() + a <= std::max<std::size_t>(n, 3) && sym < 18; ++sym)
        {
            s.append(a, (char)(base + sym));
            std::size_t c = a + b;
            a = b;
            b = c;
        }
        for (std::size_t k = s.size(); k > 1; --k) std::swap(s[k - 1], s[rng.below(k)]);
    }
    return s;
}

static void decode(fly::coders::HuffmanDecoder &decoder, std::string const &file, bool via_file)
{
    Ev e("decode");
    e.bytes("file", file).bytes("before", "?");
    begin(e);
    std::string out = "?";
    bool ok;
    if (via_file)
    {
        Scratch dir;
        dir.write("a", file);
        ok = decoder.decode_file(dir.path("a"), dir.path("b"));
        if (ok) out = dir.read("b");
    }
    else ok = decoder.decode_string(file, out);
    emit(e.b("ok", ok).bytes("out", out));
}

struct BitSink
{
    std::string bytes {std::string(1, '\0')};
    int used {8};
    void put(unsigned v, int n)
    {
        for (int k = n - 1; k >= 0; --k)
        {
            if (used == 8) { bytes.push_back('\0'); used = 0; }
            if ((v >> k) & 1) bytes.back() = (char)(bytes.back() | (0x80 >> used));
            ++used;
        }
    }
    std::string done()
    {
        bytes[0] = (char)((0x1a << 3) | (8 - used));
        return bytes;
    }
};

// Inputs of hundreds of kilobytes, given as runs of equal symbols. The counts are near powers of
// two, at which counters of a limited width would turn over.
static void long_input(Rng &rng)
{
    std::vector<std::pair<int, std::uint32_t>> runs;
    std::uint32_t total = 0, most = rng.chance(1, 3) ? 1100000 : 300000;
    int n = 1 + (int)rng.below(rng.chance(1, 4) ? 40 : 6);
    for (int k = 0; k < n && total < most; ++k)
    {
        std::uint32_t count = (1u << rng.below(rng.chance(1, 2) ? 18 : 8)) * (rng.chance(1, 4) ? 3 : 1);
        if (rng.chance(1, 3)) count = 65536u * (1 + (std::uint32_t)rng.below(3));
        count += (std::uint32_t)rng.below(3) - (rng.chance(1, 2) ? 1 : 0);
        if (rng.chance(1, 3)) count = 1 + (std::uint32_t)rng.below(20);
        // symbols return, and their runs add up
        int symbol = (int)rng.below(256);
        if (!runs.empty() && rng.chance(1, 5)) symbol = runs[rng.below(runs.size())].first;
        bool known = false;
        for (auto &r : runs) known = known || r.first == symbol;
        if (known && !rng.chance(1, 2)) continue;
        if (count == 0) continue;
        runs.emplace_back(symbol, count);
        total += count;
    }
    std::uint16_t kb = (std::uint16_t)(rng.chance(1, 2) ? 256 : rng.chance(1, 2) ? 64 + rng.below(70) : 1100);
    std::uint8_t limit = (std::uint8_t)(rng.chance(1, 2) ? 11 : 1 + rng.below(15));
    std::string in, file, back, text = "[";
    for (auto &r : runs)
    {
        in.append(r.second, (char)r.first);
        text += (text.size() > 1 ? "," : "") + ("[" + std::to_string(r.first) + "," + std::to_string(r.second) + "]");
    }
    Ev e("runs");
    e.raw("runs", text + "]").i("kb", kb).i("limit", limit);
    begin(e);
    auto encoder = std::make_unique<fly::coders::HuffmanEncoder>(std::make_shared<Cfg>(kb, limit));
    fly::coders::HuffmanDecoder decoder;
    bool ok = encoder->encode_string(in, file);
    bool decoded = ok && decoder.decode_string(file, back);
    emit(e.b("ok", ok).b("decoded", decoded).b("same", decoded && back == in).bytes("head", file.substr(0, 620)).i("size", (long)file.size()));
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long id, Rng &rng) {
        if (id % 40 == 7)
        {
            long_input(rng);
            return;
        }
        fly::coders::HuffmanDecoder decoder;
        int rounds = 1 + (int)rng.below(2);
        if (id % 3 == 2)
        {
            // hand-made code tables, mostly almost right
            for (int r = 0; r < rounds + 1; ++r)
            {
                BitSink b;
                b.put(rng.chance(1, 30) ? (unsigned)rng.below(4) : 1, 8);
                b.put(rng.chance(1, 30) ? (unsigned)rng.below(3) : 1, 16);
                unsigned limit = rng.chance(1, 20) ? (unsigned)rng.below(18) : 1 + (unsigned)rng.below(6);
                b.put(limit, 8);
                int chunks = 1;
                for (int c = 0; c < chunks; ++c)
                {
                    unsigned lens = rng.chance(1, 12) ? (unsigned)rng.below(limit + 3) : 2 + (unsigned)rng.below(limit ? limit : 1);
                    b.put(lens, 8);
                    unsigned total = 0, room = 1;
                    for (unsigned k = 0; k < lens; ++k)
                    {
                        room = k ? room * 2 : 1;
                        unsigned n = k == 0 ? (rng.chance(1, 15) ? 1 : 0) :
                                     k + 1 == lens && rng.chance(1, 2) ? room : (unsigned)rng.below(std::min(room, 5u) + (rng.chance(1, 12) ? 3 : 1));
                        if (rng.chance(1, 60)) n = 257;
                        if (n > 40 && n != 257) n = 40;
                        b.put(n, 16);
                        total += n;
                        room = n <= room ? room - n : 0;
                    }
                    for (unsigned k = 0; k < total; ++k) b.put((unsigned)rng.next() & 255, 8);
                }
                for (std::size_t k = rng.below(60); k > 0; --k) b.put((unsigned)rng.below(2), 1);
                decode(decoder, b.done(), false);
            }
            return;
        }
        for (int r = 0; r < rounds; ++r)
        {
            std::uint16_t kb = rng.chance(1, 30) ? 0 : (std::uint16_t)(rng.chance(1, 2) ? 1 : 1 + rng.below(300));
            std::uint8_t limit = (std::uint8_t)(rng.chance(1, 10) ? rng.below(20) : rng.chance(1, 2) ? 11 : 2 + rng.below(9));
            std::size_t n = rng.chance(1, 3) ? rng.below(8) : rng.chance(1, 12) ? rng.below(2600) : rng.below(150);
            if (rng.chance(1, 30)) { n = 1024; kb = 1; }
            std::string in = random_input(rng, n), file;
            auto encoder = std::make_unique<fly::coders::HuffmanEncoder>(std::make_shared<Cfg>(kb, limit));
            int again = rng.chance(1, 4) ? 2 : 1;
            for (int a = 0; a < again; ++a)
            {
                if (a) { in = random_input(rng, rng.below(60)); file.clear(); }
                bool via_file = rng.chance(1, 12);
                Ev e("encode");
                e.bytes("in", in).i("kb", kb).i("limit", limit);
                begin(e);
                bool ok;
                if (via_file)
                {
                    Scratch dir;
                    dir.write("a", in);
                    ok = encoder->encode_file(dir.path("a"), dir.path("b"));
                    if (ok) file = dir.read("b");
                }
                else ok = encoder->encode_string(in, file);
                emit(e.b("ok", ok).bytes("file", file));
                if (!ok) continue;
                std::string back = "?";
                begin(Ev("back"));
                bool dok = decoder.decode_string(file, back);
                emit(Ev("back").b("ok", dok).b("same", back == in).i("kraft", limit <= 15 ? decoder.compute_kraft_mcmillan_constant() : 0));
                if (file.size() > 400) continue;
                // damaged copies
                for (int d = 0, m = (int)rng.below(3); d < m; ++d)
                {
                    std::string bad = file;
                    switch (rng.below(4))
                    {
                        case 0: bad.resize(rng.below(bad.size() + 1)); break;
                        case 1: bad[rng.below(bad.size())] ^= (char)(1u << rng.below(8)); break;
                        case 2: bad[rng.below(std::min<std::size_t>(bad.size(), 12))] = (char)rng.next(); break;
                        default: bad.insert(rng.below(bad.size() + 1), 1, (char)rng.next()); break;
                    }
                    decode(decoder, bad, rng.chance(1, 12));
                }
            }
        }
    });
}
