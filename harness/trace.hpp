// Recording kit shared by every conformance driver.
//
// A driver executes many independent *traces* against the real library.  A trace is a list of
// events, one per call (or per observable effect), written as one JSON line:
//
//     {"id": 17, "ev": [{"op":"push","x":1}, ...]}
//
// Only small integers, strings of plain ASCII, and arrays of those are written, because TLC's
// integers are 32 bit; anything wider is split by the driver into digits, bits or bytes.
//
// If the code under test crashes or hangs in the middle of a call, the partial trace is written
// with a final event {"op":"crash"/"hang", "during":<op>}, which no specification action accepts.
#pragma once

#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" __attribute__((weak)) const char *__asan_default_options()
{
    return "detect_leaks=0:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=1024:"
           "detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:print_summary=0";
}
extern "C" __attribute__((weak)) const char *__ubsan_default_options()
{
    return "print_stacktrace=0:halt_on_error=1:exitcode=99";
}
#endif

namespace vt {

// ---------------------------------------------------------------- random numbers (splitmix64)
struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed) { next(); }
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    std::int64_t range(std::int64_t a, std::int64_t b) { return a + (std::int64_t)below((std::uint64_t)(b - a + 1)); }
    bool chance(int num, int den) { return below((std::uint64_t)den) < (std::uint64_t)num; }
    template <typename T>
    T const &pick(std::vector<T> const &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- JSON building
inline std::string quote(std::string_view s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", c);
            o += b;
        }
        else o += (char)c;
    }
    return o + "\"";
}

struct Ev
{
    std::string op;
    std::string body;
    explicit Ev(std::string_view name) : op(name) { body = "\"op\":" + quote(name); }
    Ev &i(char const *k, long long v)
    {
        body += ",\"" + std::string(k) + "\":" + std::to_string(v);
        return *this;
    }
    Ev &b(char const *k, bool v) { body += ",\"" + std::string(k) + "\":" + (v ? "true" : "false"); return *this; }
    Ev &s(char const *k, std::string_view v) { body += ",\"" + std::string(k) + "\":" + quote(v); return *this; }
    // raw JSON text
    Ev &raw(char const *k, std::string_view v) { body += ",\"" + std::string(k) + "\":" + std::string(v); return *this; }
    template <typename Seq>
    Ev &seq(char const *k, Seq const &v)
    {
        body += ",\"" + std::string(k) + "\":[";
        bool first = true;
        for (auto const &x : v)
        {
            if (!first) body += ',';
            first = false;
            body += std::to_string((long long)x);
        }
        body += "]";
        return *this;
    }
    // bytes of a (char) string as integers 0..255
    Ev &bytes(char const *k, std::string_view v)
    {
        body += ",\"" + std::string(k) + "\":[";
        bool first = true;
        for (unsigned char x : v)
        {
            if (!first) body += ',';
            first = false;
            body += std::to_string((int)x);
        }
        body += "]";
        return *this;
    }
    Ev &bits(char const *k, std::uint64_t v, int width)
    {
        body += ",\"" + std::string(k) + "\":[";
        for (int n = width - 1; n >= 0; --n)
        {
            body += ((v >> n) & 1) ? '1' : '0';
            if (n) body += ',';
        }
        body += "]";
        return *this;
    }
    template <typename Seq>
    Ev &strs(char const *k, Seq const &v)
    {
        body += ",\"" + std::string(k) + "\":[";
        bool first = true;
        for (auto const &x : v)
        {
            if (!first) body += ',';
            first = false;
            body += quote(x);
        }
        body += "]";
        return *this;
    }
};

struct Recorder
{
    int fd {-1};
    long id {0};
    std::string line;
    char const *pending {nullptr};
    std::string pending_body;
    bool any {false};
    bool dying {false};
    static Recorder &get() { static Recorder r; return r; }

    void start(long tid)
    {
        id = tid;
        line = "{\"id\":" + std::to_string(tid) + ",\"ev\":[";
        any = false;
        pending = nullptr;
    }
    void emit(Ev const &e)
    {
        pending = nullptr;
        if (any) line += ",\n";
        any = true;
        line += "{" + e.body + "}";
        // a scenario has a bounded number of events, unless the code under test misleads it
        if (line.size() > (4u << 20) && !dying) { die("runaway"); _exit(98); }
    }
    // announce a call that may crash or hang
    void begin(Ev const &e)
    {
        pending_body = e.body;
        static std::string keep;
        keep = e.op;
        pending = keep.c_str();
    }
    void finish()
    {
        line += "]}";
        for (auto &c : line) if (c == '\n') c = ' ';
        line += '\n';
        write_all();
        line.clear();
    }
    void write_all()
    {
        char const *p = line.data();
        std::size_t n = line.size();
        while (n)
        {
            ssize_t w = ::write(fd, p, n);
            if (w <= 0) break;
            p += w;
            n -= (std::size_t)w;
        }
    }
    void die(char const *how)
    {
        static bool once = false;
        if (once) return;
        once = true;
        dying = true;
        if (line.empty()) return;
        Ev e(how);
        e.s("during", pending ? pending : "none");
        if (pending) e.raw("call", "{" + pending_body + "}");
        emit(e);
        finish();
    }
};

inline void emit(Ev const &e) { Recorder::get().emit(e); }
inline void begin(Ev const &e) { Recorder::get().begin(e); }

inline void on_signal(int sig)
{
    Recorder::get().die(sig == SIGALRM ? "hang" : "crash");
    _exit(98);
}

// Budget, in seconds, for one trace before it counts as a hang.
inline int &hang_seconds() { static int s = 30; return s; }

// With `isolate`, every trace runs in a process of its own with a fixed address layout, so that it
// depends on nothing but its seed.
inline int main_loop(int argc, char **argv, std::function<void(long id, Rng &rng)> const &scenario, bool isolate = false)
{
    if (isolate)
    {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned)p | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    std::uint64_t seed = 1;
    long from = 0, to = 1;
    std::string out;
    for (int n = 1; n < argc; ++n)
    {
        auto arg = [&]() { return std::string(argv[++n]); };
        std::string a = argv[n];
        if (a == "--seed") seed = std::stoull(arg());
        else if (a == "--from") from = std::stol(arg());
        else if (a == "--to") to = std::stol(arg());
        else if (a == "--out") out = arg();
    }
    auto &r = Recorder::get();
    r.fd = ::open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (r.fd < 0) { std::perror("open"); return 3; }

#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback([]() { Recorder::get().die("crash"); });
#else
    static char stack[1 << 16];
    stack_t ss {};
    ss.ss_sp = stack;
    ss.ss_size = sizeof(stack);
    sigaltstack(&ss, nullptr);
    for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
    {
        struct sigaction sa {};
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK;
        sigaction(sig, &sa, nullptr);
    }
#endif
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sigaction(SIGALRM, &sa, nullptr);

    for (long id = from; id < to; ++id)
    {
        Rng rng(seed * 1000003ull + (std::uint64_t)id * 7919ull + 12345ull);
        r.start(id);
        if (isolate)
        {
            static int abnormal = 0;
            pid_t child = fork();
            if (child < 0) { std::perror("fork"); return 3; }
            if (child > 0)
            {
                int st = 0;
                while (waitpid(child, &st, 0) < 0) { }
                bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
                if (!ok && !(WIFEXITED(st) && WEXITSTATUS(st) == 98))
                {
                    r.emit(Ev("crash").s("during", "unknown").i("status", st));
                    r.finish();
                }
                if (!ok && ++abnormal > 20) break;
                continue;
            }
        }
        alarm((unsigned)hang_seconds());
        scenario(id, rng);
        alarm(0);
        r.finish();
        if (isolate) _exit(0);
    }
    r.line.clear();
    return 0;
}

} // namespace vt
