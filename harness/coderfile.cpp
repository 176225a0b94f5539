// Encodes and decodes from file to file, with reads and writes which fail.
#include "scratch.hpp"
#include "trace.hpp"

#include "fly/coders/base64/base64_coder.hpp"
#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/coders/huffman/huffman_encoder.hpp"

#include <sys/syscall.h>
#include <sys/uio.h>

#include <cerrno>
#include <memory>
#include <optional>

using namespace vt;

struct Fault
{
    bool on = false;
    int reads = -1, writes = -1; // as many succeed, if not negative
    bool again = false;          // only one of them fails
    std::size_t chunk = 0;       // they move at most so much, if not 0
    bool failed = false;
};
static Fault fault;
static bool fails(int &left)
{
    if (left < 0) return false;
    if (left > 0) return --left, false;
    if (fault.again) left = -1;
    return fault.failed = true;
}

extern "C" ssize_t read(int fd, void *buf, size_t n)
{
    if (fault.on && fd > 2)
    {
        if (fails(fault.reads)) return errno = EIO, -1;
        if (fault.chunk && n > fault.chunk) n = fault.chunk;
    }
    return ::syscall(SYS_read, fd, buf, n);
}
extern "C" ssize_t write(int fd, void const *buf, size_t n)
{
    if (fault.on && fd > 2)
    {
        if (fails(fault.writes)) return errno = ENOSPC, -1;
        if (fault.chunk && n > fault.chunk) n = fault.chunk;
    }
    return ::syscall(SYS_write, fd, buf, n);
}
extern "C" ssize_t writev(int fd, struct iovec const *v, int n)
{
    if (fault.on && fd > 2)
    {
        for (int k = 0; k < n; ++k)
            if (v[k].iov_len > 0) return write(fd, v[k].iov_base, v[k].iov_len);
    }
    return ::syscall(SYS_writev, fd, v, n);
}

struct Cfg : fly::coders::CoderConfig
{
    Cfg(std::uint16_t kb, std::uint8_t limit)
    {
        m_default_huffman_encoder_chunk_size_kb = kb;
        m_default_huffman_encoder_max_code_length = limit;
    }
};

using Text = std::optional<std::string>;
static std::vector<long> print(Text const &t)
{
    if (!t) return {};
    std::uint64_t h = 14695981039346656037ull, g = 7;
    for (unsigned char c : *t)
    {
        h = (h ^ c) * 1099511628211ull;
        g = (g * 1000003 + c) % 2147483629;
    }
    return {(long)t->size(), (long)((h >> 20) & 0x3fffffff), (long)(g & 0x3fffffff)};
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long, Rng &rng) {
        Scratch dir;
        static char const *const names[] = {"a", "b", "c", "d"};
        std::string kinds[4] = {"none", "none", "none", "none"};
        int pipes[4] = {-1, -1, -1, -1};
        std::uint16_t kb = (std::uint16_t)(rng.chance(1, 2) ? 1 : 1 + rng.below(40));
        std::uint8_t limit = (std::uint8_t)(rng.chance(1, 2) ? 11 : 3 + rng.below(9));
        auto config = std::make_shared<Cfg>(kb, limit);
        fly::coders::Base64Coder base64;
        fly::coders::HuffmanEncoder encoder(config);
        fly::coders::HuffmanDecoder decoder;

        auto text = [&] {
            std::size_t n = rng.chance(1, 8) ? 0 : rng.chance(1, 2) ? rng.below(40) : rng.chance(1, 3) ? rng.below(60000) : rng.below(9000);
            // sizes at which buffers of files and of the coders end
            if (rng.chance(1, 4)) n = (std::size_t)(1 + rng.below(3)) * (rng.chance(1, 2) ? 8191 : rng.chance(1, 2) ? 1024 : 3072) + rng.below(3) - 1;
            std::string s;
            unsigned alphabet = 1 + (unsigned)rng.below(rng.chance(1, 3) ? 256 : 6);
            for (std::size_t k = 0; k < n; ++k) s.push_back((char)('a' + rng.below(alphabet)));
            return s;
        };
        // what a file holds, by other means than the library
        auto content = [&](int f) -> Text {
            if (kinds[f] == "file") return dir.read(names[f]);
            if (kinds[f] == "null") return "";
            return {};
        };
        auto put = [&](int f, std::string const &kind, std::string const &data) {
            std::error_code ec;
            if (pipes[f] >= 0) ::close(pipes[f]), pipes[f] = -1;
            std::filesystem::remove_all(dir.path(names[f]), ec);
            Text t;
            if (kind == "file") dir.write(names[f], data), t = data;
            else if (kind == "dir") std::filesystem::create_directory(dir.path(names[f]));
            else if (kind == "full") std::filesystem::create_symlink("/dev/full", dir.path(names[f]));
            else if (kind == "null") std::filesystem::create_symlink("/dev/null", dir.path(names[f]));
            else if (kind == "pipe")
            {
                if (::mkfifo(dir.path(names[f]).c_str(), 0600) != 0) std::abort();
                pipes[f] = ::open(dir.path(names[f]).c_str(), O_RDONLY | O_NONBLOCK);
                ::fcntl(pipes[f], F_SETPIPE_SZ, 1 << 20);
                t = "";
            }
            kinds[f] = kind;
            emit(Ev("put").s("path", names[f]).s("kind", kind).seq("text", print(t)));
        };
        auto look = [&](int f) {
            Text t = content(f);
            if (kinds[f] == "null") t.reset();
            if (kinds[f] == "pipe")
            {
                t = "";
                char buf[65536];
                for (ssize_t n; (n = ::syscall(SYS_read, pipes[f], buf, sizeof buf)) > 0;) t->append(buf, (std::size_t)n);
                // what was read is no longer there
                emit(Ev("look").s("path", names[f]).s("kind", kinds[f]).seq("text", print(t)));
                emit(Ev("put").s("path", names[f]).s("kind", "pipe").seq("text", print(std::string())));
                return;
            }
            emit(Ev("look").s("path", names[f]).s("kind", kinds[f]).seq("text", print(t)));
        };
        auto code = [&](int in, int out, int what) {
            static char const *const whats[] = {"base64-encode", "base64-decode", "huffman-encode", "huffman-decode"};
            Text from = content(in);
            bool can = false;
            std::string result;
            if (from)
            {
                // a coder which has done nothing else
                fly::coders::Base64Coder b;
                if (what == 0) can = b.encode_string(*from, result);
                else if (what == 1) can = b.decode_string(*from, result);
                else if (what == 2) can = fly::coders::HuffmanEncoder(config).encode_string(*from, result);
                else can = fly::coders::HuffmanDecoder().decode_string(*from, result);
            }
            if (!can) result.clear();
            fault = Fault {};
            if (rng.chance(1, 4)) fault.reads = (int)rng.below(rng.chance(1, 2) ? 2 : 6);
            if (rng.chance(1, 4)) fault.writes = (int)rng.below(rng.chance(1, 2) ? 2 : 6);
            fault.again = rng.chance(1, 2);
            if (rng.chance(1, 4)) fault.chunk = rng.chance(1, 2) ? 1 + rng.below(7) : 500 + rng.below(9000);
            if (fault.chunk && fault.chunk < 100 && ((from && from->size() > 20000) || result.size() > 20000)) fault.chunk = 0;
            Ev e("code");
            e.s("what", whats[what]).s("from", names[in]).s("to", names[out]).seq("text", print(from)).b("can", can)
                .seq("result", print(result)).b("empty", can && result.empty()).b("seeks", what == 2);
            begin(e);
            bool ok = false, threw = false;
            auto a = dir.path(names[in]), b = dir.path(names[out]);
            fault.on = true;
            try
            {
                if (what == 0) ok = base64.encode_file(a, b);
                else if (what == 1) ok = base64.decode_file(a, b);
                else if (what == 2) ok = encoder.encode_file(a, b);
                else ok = decoder.decode_file(a, b);
            }
            catch (...)
            {
                threw = true;
            }
            fault.on = false;
            emit(e.b("failed", fault.failed).b("ok", ok).b("threw", threw));
            if (kinds[out] == "none" || kinds[out] == "file") kinds[out] = std::filesystem::exists(b) ? "file" : "none";
            look(out);
            return ok;
        };

        for (int step = 0, steps = 3 + (int)rng.below(6); step < steps; ++step)
        {
            int f = (int)rng.below(4);
            if (step == 0 || rng.chance(1, 4))
            {
                int pick = (int)rng.below(20);
                char const *kind = pick < 12 ? "file" : pick < 14 ? "none" : pick < 15 ? "dir" : pick < 16 ? "full" : pick < 17 ? "null" : "pipe";
                auto data = text();
                if (rng.chance(1, 4))
                {
                    std::string made;
                    if (rng.chance(1, 2)) fly::coders::Base64Coder().encode_string(data, made);
                    else fly::coders::HuffmanEncoder(config).encode_string(data, made);
                    data = made;
                    if (!data.empty() && rng.chance(1, 4)) data[rng.below(data.size())] ^= (char)(1 << rng.below(8));
                    if (rng.chance(1, 8)) data.resize(rng.below(data.size() + 1));
                }
                put(f, kind, data);
                continue;
            }
            int in = f;
            for (int tries = 0; tries < 6 && kinds[in] != "file"; ++tries) in = (int)rng.below(4);
            if (kinds[in] == "pipe" || kinds[in] == "full") continue;
            int out = (in + 1 + (int)rng.below(3)) % 4;
            int what = (int)rng.below(4);
            bool ok = code(in, out, what);
            // and back
            if (ok && what % 2 == 0 && kinds[out] == "file" && rng.chance(2, 3))
            {
                int back = (out + 1 + (int)rng.below(3)) % 4;
                code(out, back, what + 1);
            }
            if (rng.chance(1, 3)) look(in);
        }
        for (int p : pipes)
            if (p >= 0) ::close(p);
    });
}
