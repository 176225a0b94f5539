// Drives fly::BitStreamWriter / fly::BitStreamReader with random sequences of calls.
#include "trace.hpp"

#include "fly/types/bit_stream/bit_stream_reader.hpp"
#include "fly/types/bit_stream/bit_stream_writer.hpp"

#include <sstream>

#include <stdexcept>

using namespace vt;

// A stream which takes, or gives, no more than so many bytes.
struct Limited : std::streambuf
{
    std::string data;
    std::size_t limit, pos = 0;
    bool refused = false;
    int once; // it fails only so often, if not negative
    std::size_t width;
    char piece[4];
    Limited(std::string d, std::size_t l, int o, std::size_t w) : data(std::move(d)), limit(l), once(o), width(w) { }
    bool fails(std::size_t at)
    {
        if (at < limit || once == 0) return false;
        if (once > 0) --once;
        return refused = true;
    }
    int_type overflow(int_type c) override
    {
        if (fails(pos)) return traits_type::eof();
        if (pos < data.size()) data[pos] = (char)c;
        else data.push_back((char)c);
        ++pos;
        return c;
    }
    pos_type seekpos(pos_type p, std::ios::openmode) override
    {
        pos = (std::size_t)(std::streamoff)p;
        return p;
    }
    int_type underflow() override
    {
        if (fails(pos)) throw std::runtime_error("broken");
        std::size_t n = std::min({width, data.size() - pos, limit > pos ? limit - pos : width});
        if (n == 0) return traits_type::eof();
        std::memcpy(piece, data.data() + pos, n);
        pos += n;
        setg(piece, piece, piece + n);
        return (unsigned char)piece[0];
    }
};

void read_broken(Rng &rng, std::string const &data)
{
    Limited buf(data, rng.below(data.size() + 1), rng.chance(1, 2) ? -1 : 1, 1 + rng.below(4));
    std::istream in(&buf);
    begin(Ev("bopen"));
    fly::BitStreamReader r(in);
    emit(Ev("bopen").b("ok", !in.fail()));
    for (int k = 0; k < 60; ++k)
    {
        int size = (int)rng.below(33);
        bool peek = rng.chance(1, 4);
        begin(Ev("bread").i("size", size).b("peek", peek));
        std::uint32_t v = 0;
        int n = peek ? r.peek_bits(v, (fly::byte_type)size) : r.read_bits(v, (fly::byte_type)size);
        emit(Ev("bread").i("size", size).i("n", n).bits("value", v, 32).b("peek", peek));
        if (rng.chance(1, 3) && buf.refused)
        {
            begin(Ev("bconsumed"));
            emit(Ev("bconsumed").b("result", r.fully_consumed()));
        }
    }
}

template <typename T>
void do_write(fly::BitStreamWriter &w, std::uint64_t v, int size)
{
    Ev e("write");
    e.i("size", size).bits("value", (T)v, (int)sizeof(T) * 8);
    begin(e);
    w.write_bits((T)v, (fly::byte_type)size);
    emit(e);
}

template <typename T>
void do_read(fly::BitStreamReader &r, int size)
{
    Ev e("read");
    e.i("size", size);
    begin(e);
    T v = 0;
    int n = r.read_bits(v, (fly::byte_type)size);
    emit(e.i("n", n).bits("value", v, (int)sizeof(T) * 8));
}

template <typename T>
int do_peek(fly::BitStreamReader &r, int size)
{
    Ev e("peek");
    e.i("size", size);
    begin(e);
    T v = 0;
    int n = r.peek_bits(v, (fly::byte_type)size);
    emit(e.i("n", n).bits("value", v, (int)sizeof(T) * 8));
    return n;
}

void read_back(Rng &rng, std::string const &data, int style, std::size_t total)
{
    std::istringstream in(data);
    begin(Ev("open"));
    fly::BitStreamReader r(in);
    bool ok = in.good() || (in.eof() && !in.fail());
    emit(Ev("open").b("ok", !in.fail()).i("header", r.header()));
    (void)ok;
    int idle = 0;
    std::size_t budget = total / 3 + 12;
    for (std::size_t k = 0; k < budget && idle < 3; ++k)
    {
        int before = 0;
        switch (rng.below(9))
        {
            case 0: { int s = (int)rng.below(9); do_read<std::uint8_t>(r, s); break; }
            case 1: { int s = (int)rng.below(17); do_read<std::uint16_t>(r, s); break; }
            case 2: { int s = (int)rng.below(33); do_read<std::uint32_t>(r, s); break; }
            case 3: { int s = style == 2 ? 64 : (int)rng.below(65); do_read<std::uint64_t>(r, s); break; }
            case 4:
            {
                fly::byte_type v = 0;
                begin(Ev("whole"));
                std::uint8_t x = 0;
                bool res = r.read_byte(x);
                v = x;
                // a short read still consumes what was left
                if (res) emit(Ev("whole").i("size", 8).i("n", 8).bits("value", v, 8).b("ok", true));
                else emit(Ev("short").i("size", 8));
                break;
            }
            case 5:
            {
                fly::word_type v = 0;
                begin(Ev("whole"));
                bool res = r.read_word(v);
                int w = (int)sizeof(v) * 8;
                if (res) emit(Ev("whole").i("size", w).i("n", w).bits("value", v, w).b("ok", true));
                else emit(Ev("short").i("size", w));
                break;
            }
            default:
            {
                int s = (int)rng.below(33);
                int n = rng.chance(1, 2) ? do_peek<std::uint32_t>(r, s) :
                                           do_peek<std::uint16_t>(r, s % 17);
                if (rng.chance(3, 4) && n > 0)
                {
                    int d = (int)rng.below((unsigned)n + 1);
                    begin(Ev("discard"));
                    r.discard_bits((fly::byte_type)d);
                    emit(Ev("discard").i("n", d));
                }
                if (n == 0) ++idle;
                break;
            }
        }
        (void)before;
        if (rng.chance(1, 4))
        {
            begin(Ev("consumed"));
            emit(Ev("consumed").b("result", r.fully_consumed()));
        }
    }
    // drain what is left
    for (int k = 0; k < 40; ++k)
    {
        begin(Ev("read"));
        std::uint32_t v = 0;
        int n = r.read_bits(v, 29);
        emit(Ev("read").i("size", 29).i("n", n).bits("value", v, 32));
        if (n == 0) break;
    }
    begin(Ev("consumed"));
    emit(Ev("consumed").b("result", r.fully_consumed()));
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long id, Rng &rng) {
        if (id % 5 == 4)
        {
            // malformed or foreign streams
            std::string bytes;
            std::size_t n = rng.below(14);
            for (std::size_t k = 0; k < n; ++k) bytes.push_back((char)rng.next());
            if (n && rng.chance(3, 4)) bytes[0] = (char)((0x1a << 3) | rng.below(8));
            emit(Ev("inject").bytes("file", bytes));
            read_back(rng, bytes, 0, n * 8);
            return;
        }
        std::ostringstream good;
        Limited bad("", rng.below(40), rng.chance(1, 2) ? -1 : 1, 1);
        std::ostream worse(&bad);
        bool broken = id % 7 == 3;
        std::ostream &out = broken ? worse : good;
        std::size_t total = 0;
        std::string file;
        {
            fly::BitStreamWriter w(out);
            int style = (int)(id % 4);
            int ops = (int)rng.below(style == 0 ? 6 : 24);
            for (int k = 0; k < ops; ++k)
            {
                std::uint64_t v = rng.next();
                if (rng.chance(1, 6)) v = 0;
                if (rng.chance(1, 6)) v = ~0ull;
                bool clean = rng.chance(1, 2);
                int which = (int)rng.below(style == 2 ? 7 : 6);
                int size = 0;
                auto mask = [&](int bits) { return (clean && bits < 64) ? (v & ((1ull << bits) - 1)) : v; };
                switch (which)
                {
                    case 0: size = (int)rng.below(9); do_write<std::uint8_t>(w, mask(size), size); break;
                    case 1: size = (int)rng.below(17); do_write<std::uint16_t>(w, mask(size), size); break;
                    case 2: size = (int)rng.below(33); do_write<std::uint32_t>(w, mask(size), size); break;
                    case 3: size = (int)rng.below(65); do_write<std::uint64_t>(w, mask(size), size); break;
                    case 4:
                    {
                        size = 8;
                        Ev e("write");
                        e.i("size", 8).bits("value", (std::uint8_t)v, 8);
                        begin(e);
                        w.write_byte((fly::byte_type)v);
                        emit(e);
                        break;
                    }
                    case 5:
                    {
                        size = (int)sizeof(fly::word_type) * 8;
                        Ev e("write");
                        e.i("size", size).bits("value", (fly::word_type)v, size);
                        begin(e);
                        w.write_word((fly::word_type)v);
                        emit(e);
                        break;
                    }
                    default: size = 64; do_write<std::uint64_t>(w, v, 64); break;
                }
                total += (std::size_t)size;
            }
            int finishes = rng.chance(1, 5) ? 2 : 1;
            for (int k = 0; k < finishes; ++k)
            {
                begin(Ev("finish"));
                bool ok = w.finish();
                file = broken ? bad.data : good.str();
                emit(Ev("finish").b("ok", ok).b("refused", bad.refused).bytes("file", file));
            }
        }
        if (bad.refused) return;
        if (rng.chance(1, 5)) read_broken(rng, file);
        read_back(rng, file, (int)(id % 4), total);
        if (rng.chance(1, 3)) read_back(rng, file, 1, total);
    });
}
