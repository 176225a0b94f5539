// Drives fly::system: the signal handler, error texts and the local time.
#include "trace.hpp"

#include "fly/system/system.hpp"

#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>

#include <cerrno>
#include <csignal>
#include <memory>
#include <system_error>
#include <vector>

using namespace vt;

// The real-time clock, as set by the scenario.
static bool g_fake_clock = false;
static timespec g_clock;
extern "C" int clock_gettime(clockid_t id, timespec *ts) noexcept
{
    if (g_fake_clock && id == CLOCK_REALTIME)
    {
        *ts = g_clock;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

// The scenario runs in a process of its own, which may end by a signal; its events come through a
// pipe.
static int g_pipe = -1;
static void tell(Ev const &e)
{
    std::string line = e.body + "\n";
    ssize_t w = ::write(g_pipe, line.data(), line.size());
    (void)w;
}

struct Act { bool raises; int what; };
static std::vector<std::vector<Act>> g_scripts;
static std::vector<int> g_drops;
static int g_calls = 0, g_setting = 0;
static int const s_max_scripts = 6;

static void set(int h);
static void raise_signal(int s)
{
    tell(Ev("raise").i("s", s));
    ::raise(s);
}

// Part of each handler. A signal may arrive when it is dropped.
struct Token
{
    int h;
    std::vector<char> memory;
    explicit Token(int id) : h(id), memory(64, 'x') { }
    ~Token()
    {
        memory.assign(memory.size(), 'y');
        if (int s = g_drops[(std::size_t)h - 1]; s != 0)
        {
            tell(Ev("arrive").i("s", s));
            ::raise(s);
        }
    }
};

static void set(int h)
{
    tell(Ev("set").i("h", h));
    ++g_setting;
    if (h == 0) fly::system::set_signal_handler(nullptr);
    else
    {
        // only what is installed holds the token when this returns
        auto token = std::make_shared<Token>(h);
        fly::system::SignalHandler handler = [token = std::move(token)](int sig) {
            int const id = token->h;
            tell(Ev("call").i("h", id).i("s", sig));
            if (g_calls++ < s_max_scripts && g_setting == 0)
            {
                for (auto const &a : g_scripts[(std::size_t)id - 1])
                {
                    if (a.raises) raise_signal(a.what);
                    else set(a.what);
                }
            }
            // what the handler has captured is still there
            if (token->h != id || token->memory[5] != 'x') tell(Ev("spoiled").i("h", id));
            tell(Ev("return").i("h", id));
        };
        fly::system::set_signal_handler(std::move(handler));
    }
    --g_setting;
    tell(Ev("isset"));
}

static std::vector<int> const s_caught {SIGINT, SIGTERM, SIGILL, SIGFPE, SIGABRT, SIGSEGV, SIGSYS, SIGBUS};
static std::vector<int> const s_others {SIGHUP, SIGQUIT, SIGUSR1, SIGUSR2, SIGPIPE, SIGTRAP};

static int some_signal(Rng &rng)
{
    return rng.chance(1, 25) ? s_others[rng.below(s_others.size())] : s_caught[rng.below(s_caught.size())];
}

static void times_and_errors(Rng &rng)
{
    for (int n = 0; n < 3; ++n)
    {
        int code = rng.chance(1, 2) ? (int)rng.below(140) : rng.chance(1, 3) ? -(int)rng.below(1000) : (int)rng.below(1u << 31);
        std::string message = std::system_category().message(code);
        begin(Ev("error").i("code", code));
        std::string text;
        if (rng.chance(1, 2)) text = fly::system::get_error_string(code);
        else
        {
            errno = code;
            text = fly::system::get_error_string();
        }
        emit(Ev("error").i("code", code).bytes("message", message).bytes("text", text));
    }
    for (int n = 0; n < 3; ++n)
    {
        long days = rng.chance(1, 3) ? (long)rng.below(22000) : (long)rng.below(106000);
        if (rng.chance(1, 2))
        {
            // around the ends of February and of the year
            long year = 1970 + (long)rng.below(290);
            days = (long)((double)(year - 1970) * 365.2425) + (rng.chance(1, 2) ? 57 : 363) + (long)rng.below(5);
        }
        long seconds = rng.chance(1, 3) ? (long)(rng.chance(1, 2) ? 86399 - rng.below(3) : rng.below(3)) : (long)rng.below(86400);
        int offset = rng.chance(1, 3) ? 0 : (int)rng.below(26 * 60) - 12 * 60;
        if (days < 2) days = 2;
        int west = -offset;
        char zone[64];
        std::snprintf(zone, sizeof(zone), "XYZ%c%02d:%02d", west < 0 ? '-' : '+', std::abs(west) / 60, std::abs(west) % 60);
        ::setenv("TZ", zone, 1);
        ::tzset();
        g_clock.tv_sec = days * 86400 + seconds;
        g_clock.tv_nsec = (long)rng.below(1000000000);
        begin(Ev("time").i("days", days));
        g_fake_clock = true;
        std::string text = fly::system::local_time();
        g_fake_clock = false;
        emit(Ev("time").i("days", days).i("seconds", seconds).i("offset", offset).bytes("text", text));
    }
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long id, Rng &rng) {
        if (id % 4 == 3)
        {
            times_and_errors(rng);
            return;
        }
        int handlers = 1 + (int)rng.below(3);
        g_scripts.clear();
        g_drops.clear();
        std::string scripts;
        for (int h = 0; h < handlers; ++h)
        {
            std::vector<Act> script;
            std::string text;
            for (std::size_t n = rng.chance(1, 2) ? 0 : 1 + rng.below(3); n > 0; --n)
            {
                Act a {rng.chance(1, 2), 0};
                a.what = a.raises ? some_signal(rng) : (int)rng.below((unsigned)handlers + 1);
                text += (text.empty() ? "" : ",") + std::string(a.raises ? "[\"raise\"," : "[\"set\",") + std::to_string(a.what) + "]";
                script.push_back(a);
            }
            g_scripts.push_back(script);
            g_drops.push_back(rng.chance(1, 5) ? some_signal(rng) : 0);
            scripts += (h ? ",[" : "[") + text + "]";
        }
        emit(Ev("setup").raw("scripts", "[" + scripts + "]"));
        std::vector<Act> acts;
        for (std::size_t n = 2 + rng.below(8); n > 0; --n)
        {
            Act a {rng.chance(2, 3), 0};
            a.what = a.raises ? some_signal(rng) : rng.chance(1, 8) ? 0 : 1 + (int)rng.below((unsigned)handlers);
            acts.push_back(a);
        }
        if (!rng.chance(1, 10)) acts.insert(acts.begin(), Act {false, 1 + (int)rng.below((unsigned)handlers)});

        begin(Ev("scenario"));
        int fds[2];
        if (::pipe(fds) != 0) _exit(3);
        pid_t child = ::fork();
        if (child == 0)
        {
            Recorder::get().fd = -1;
            ::close(fds[0]);
            g_pipe = fds[1];
            struct rlimit none {0, 0};
            ::setrlimit(RLIMIT_CORE, &none);
            // whatever this program was started with
            for (int s = 1; s < NSIG; ++s) std::signal(s, SIG_DFL);
            sigset_t nothing;
            ::sigemptyset(&nothing);
            ::sigprocmask(SIG_SETMASK, &nothing, nullptr);
            alarm(10);
            g_calls = 0;
            for (auto const &a : acts)
            {
                if (a.raises) raise_signal(a.what);
                else set(a.what);
            }
            tell(Ev("ended"));
            // without the destructors of what is still installed
            for (int s : s_caught) std::signal(s, SIG_IGN);
            _exit(0);
        }
        ::close(fds[1]);
        std::string all;
        char buffer[4096];
        ssize_t n;
        while ((n = ::read(fds[0], buffer, sizeof(buffer))) != 0)
        {
            if (n > 0) all.append(buffer, (std::size_t)n);
            else if (errno != EINTR) break;
        }
        ::close(fds[0]);
        int st = 0;
        while (::waitpid(child, &st, 0) < 0) { }
        std::size_t at = 0;
        while (at < all.size())
        {
            std::size_t end = all.find('\n', at);
            if (end == std::string::npos) break;
            Ev e("x");
            e.body = all.substr(at, end - at);
            emit(e);
            at = end + 1;
        }
        if (WIFSIGNALED(st)) emit(Ev("died").i("s", WTERMSIG(st)));
        else if (WEXITSTATUS(st) != 0) emit(Ev("crash").i("status", WEXITSTATUS(st)));
    });
}
