// Drives SystemMonitor under controlled schedules; what the system reports is made up.
#include "vtrace.hpp"
#include "digits.hpp"
#include "scratch.hpp"

#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "fly/system/system_config.hpp"
#include "fly/system/system_monitor.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/sysinfo.h>
#include <sys/times.h>

#include <atomic>
#include <cmath>
#include <memory>
#include <thread>

using namespace vt;
using fly::system::SystemMonitor;

struct NullSink : fly::logger::Sink
{
    bool initialize() override { return true; }
    bool stream(fly::logger::Log &&) override { return true; }
};

struct Settings : fly::system::SystemConfig
{
    long ms {100};
    std::chrono::milliseconds poll_interval() const override { return std::chrono::milliseconds(ms); }
};

struct World
{
    std::string stat, status;   // where the made-up files are
    bool stat_fails {false}, status_fails {false};
    std::size_t chunk {0};
    bool times_ok {true}, info_ok {true};
    struct tms tms {};
    clock_t now {0};
    struct sysinfo info {};
    int reads {0};
};
static World *W = nullptr;

// -------------------------------------------------------------------- stand-ins for the system
static char const *redirect(char const *path)
{
    if (!W) return path;
    std::string p = path;
    if (p == "/proc/stat") { ++W->reads; return W->stat.c_str(); }
    if (p == "/proc/self/status" || p == "/proc/" + std::to_string(::getpid()) + "/status") { ++W->reads; return W->status.c_str(); }
    return path;
}
extern "C" {
FILE *fopen(char const *path, char const *mode)
{
    static auto real = (FILE *(*)(char const *, char const *))dlsym(RTLD_NEXT, "fopen");
    return real(redirect(path), mode);
}
FILE *fopen64(char const *path, char const *mode)
{
    static auto real = (FILE *(*)(char const *, char const *))dlsym(RTLD_NEXT, "fopen64");
    return real(redirect(path), mode);
}
int open(char const *path, int flags, ...)
{
    static auto real = (int (*)(char const *, int, ...))dlsym(RTLD_NEXT, "open");
    va_list a;
    va_start(a, flags);
    int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0;
    va_end(a);
    return real(redirect(path), flags, mode);
}
clock_t times(struct tms *t)
{
    if (!W) return 0;
    ++W->reads;
    if (!W->times_ok) { errno = EFAULT; return (clock_t)-1; }
    *t = W->tms;
    return W->now;
}
int sysinfo(struct sysinfo *i) noexcept
{
    if (!W) return -1;
    ++W->reads;
    if (!W->info_ok) { errno = EFAULT; return -1; }
    *i = W->info;
    return 0;
}
}

static bool fault(vs::Call &c)
{
    if (!W || std::strcmp(c.name, "read") != 0) return false;
    char link[64], name[512];
    std::snprintf(link, sizeof(link), "/proc/self/fd/%d", c.fd);
    ssize_t n = ::readlink(link, name, sizeof(name) - 1);
    if (n <= 0) return false;
    name[n] = 0;
    bool stat = W->stat == name, status = W->status == name;
    if (!stat && !status) return false;
    if ((stat && W->stat_fails) || (status && W->status_fails)) { c.result = -1; c.err = EIO; return true; }
    if (W->chunk && c.size > W->chunk) c.size = W->chunk;
    return false;
}

// -------------------------------------------------------------------- scenario
struct Source
{
    Rng rng;
    Scratch &scratch;
    std::uint64_t base[4];
    long c[4] {1, 2, 3, 4};
    long now {1}, ut {0}, st {0};
    int cpus {1};
    Source(Rng r, Scratch &s) : rng(r), scratch(s)
    {
        for (auto &b : base) b = rng.chance(1, 3) ? 0 : rng.below(1ull << (4 + rng.below(57)));
        cpus = 1 + (int)rng.below(rng.chance(1, 4) ? 40 : 4);
    }
    static std::string seq(std::vector<int> const &d)
    {
        std::string s = "[";
        for (int x : d) s += (s.size() > 1 ? "," : "") + std::to_string(x);
        return s + "]";
    }
    // The system reports something new.
    void change(bool good)
    {
        vs::Atomic a;
        World &w = *W;
        w.chunk = rng.chance(1, 2) ? 0 : 1 + rng.below(60); bool vast = w.chunk == 0 && rng.chance(1, 3);
        // processors
        bool steps = rng.chance(9, 10);
        if (steps)
            for (auto &x : c) x += rng.chance(1, 3) ? 0 : (long)rng.below(rng.chance(1, 2) ? 5 : 400);
        else if (rng.chance(1, 2))
        {
            auto &x = c[rng.below(4)];
            x = (long)rng.below((std::uint64_t)x + 1);
        }
        if (rng.chance(1, 8)) cpus = 1 + (int)rng.below(8);
        int n = cpus;
        std::string cpu = "[]", stat;
        int form = good ? 0 : (int)rng.below(14);
        w.stat_fails = false;
        char line[200];
        if (form == 1) { n = 0; w.stat_fails = true; stat = "cpu  1 2 3 4\ncpu0 1 2 3 4\n"; }
        else if (form == 2) { n = 0; stat = ""; }
        else if (form == 3) { n = 0; } // no file
        else
        {
            std::string rest = rng.chance(1, 2) ? " 7 8 9 0 0 0" : "";
            if (form == 4) { std::snprintf(line, sizeof(line), "cpu %ld %ld %ld", c[0], c[1], c[2]); }
            else if (form == 5) { std::snprintf(line, sizeof(line), "cpu %ld %ld x %ld", c[0], c[1], c[2]); }
            else if (form == 6) { std::snprintf(line, sizeof(line), "page %ld %ld %ld %ld", c[0], c[1], c[2], c[3]); }
            else
            {
                std::snprintf(line, sizeof(line), "cpu%s %llu %llu %llu %llu", rng.chance(1, 2) ? " " : "", (unsigned long long)(base[0] + c[0]),
                              (unsigned long long)(base[1] + c[1]), (unsigned long long)(base[2] + c[2]), (unsigned long long)(base[3] + c[3]));
                cpu = "[" + std::to_string(c[0]) + "," + std::to_string(c[1]) + "," + std::to_string(c[2]) + "," + std::to_string(c[3]) + "]";
            }
            stat = line + (form == 4 ? std::string() : rest) + "\n";
            if (form == 7) n = 0;
            for (int k = 0; k < n; ++k)
                stat += "cpu" + std::to_string(k) + " " + std::to_string(rng.below(99)) + " 0 5 6" + rest + "\n";
            stat += "intr " + std::to_string(rng.below(1000));
            for (int k = vast ? 3000 : 2; k > 0; --k) stat += rng.chance(1, 2) ? " 0" : " 1234";
            stat += "\nctxt 17\nbtime 5\nprocesses 3\n";
        }
        if (form == 3) ::unlink(w.stat.c_str());
        else scratch.write("stat", stat);
        // time of the process
        w.times_ok = good || rng.chance(9, 10);
        if (rng.chance(1, 10)) { if (rng.chance(1, 2)) ut = (long)rng.below((std::uint64_t)ut + 1); else st = (long)rng.below((std::uint64_t)st + 1); }
        long dt = rng.chance(1, 8) ? 0 : (long)rng.below(60);
        now += dt;
        long room = dt * cpus; bool busy = rng.chance(1, 6);
        long du = busy ? room : room ? (long)rng.below((std::uint64_t)std::min(room, 500l)) : 0, ds = room - du > 0 ? (long)rng.below((std::uint64_t)std::min(room - du, 500l)) : 0;
        ut += du;
        st += ds;
        w.now = now;
        w.tms.tms_utime = ut;
        w.tms.tms_stime = st;
        w.tms.tms_cutime = 1234;
        w.tms.tms_cstime = 4321;
        std::string proc = w.times_ok ? "[" + std::to_string(now) + "," + std::to_string(ut) + "," + std::to_string(st) + "]" : "[]";
        // memory
        w.info_ok = good || rng.chance(9, 10);
        unsigned unit = rng.chance(1, 2) ? 1 : rng.chance(1, 2) ? 4096 : 1 + (unsigned)rng.below(100);
        std::uint64_t total = rng.below(1ull << (1 + rng.below(50))), fr = rng.chance(1, 8) ? total : rng.below(total + 1);
        w.info = {};
        w.info.totalram = total;
        w.info.freeram = fr;
        w.info.mem_unit = unit;
        w.info.sharedram = 5;
        w.info.bufferram = 7;
        w.info.totalswap = 11;
        w.info.freeswap = 3;
        // resident memory
        w.status_fails = false;
        std::string rss = "[]", status = "Name:\tprogram\nState:\tR (running)\nVmPeak:\t  999999 kB\nVmSize:\t  888888 kB\nVmHWM:\t  55 kB\n";
        form = good ? 0 : (int)rng.below(14);
        if (form == 1) w.status_fails = true;
        else if (form == 2) status = "";
        else if (form != 3 && form != 4)
        {
            std::uint64_t kb = form == 5 ? 0 : rng.below(1ull << (1 + rng.below(50)));
            status += "VmRSS:\t " + std::string(rng.below(8), ' ') + std::to_string(kb) + " kB\n";
            rss = seq(digits(kb));
        }
        else if (form == 4) status += "VmRSS:\t lots\n";
        if (form != 2) status += "RssAnon:\t 77 kB\nThreads:\t3\n";
        if (form == 3) ::unlink(w.status.c_str());
        else scratch.write("status", status);
        emit(Ev("sample").i("cpus", n).raw("cpu", cpu).raw("proc", proc).b("mem", w.info_ok).raw("total", seq(digits(total)))
                 .raw("used", seq(digits(total - fr))).i("unit", unit).raw("rss", rss));
    }
};

static long long percent(double v)
{
    if (!(v >= 0)) return -1;
    return v > 1000.0 ? 1000000 : std::llround(v * 1000.0);
}
static void look(SystemMonitor const &m, int which)
{
    vs::Atomic a;
    switch (which)
    {
        case 0: emit(Ev("look").s("m", "count").i("v", m.get_system_cpu_count())); break;
        case 1: emit(Ev("look").s("m", "cpu").i("v", percent(m.get_system_cpu_usage()))); break;
        case 2: emit(Ev("look").s("m", "proc").i("v", percent(m.get_process_cpu_usage()))); break;
        case 3: emit(Ev("look").s("m", "total").seq("v", digits(m.get_total_system_memory()))); break;
        case 4: emit(Ev("look").s("m", "used").seq("v", digits(m.get_system_memory_usage()))); break;
        default: emit(Ev("look").s("m", "rss").seq("v", digits(m.get_process_memory_usage()))); break;
    }
}
static void observe(SystemMonitor const &m, bool settled)
{
    vs::Atomic a;
    emit(Ev("observe").i("count", m.get_system_cpu_count()).i("cpu", percent(m.get_system_cpu_usage())).i("proc", percent(m.get_process_cpu_usage()))
             .seq("total", digits(m.get_total_system_memory())).seq("used", digits(m.get_system_memory_usage()))
             .seq("rss", digits(m.get_process_memory_usage())).b("settled", settled));
}

static void scenario(long, Rng &rng)
{
    Scratch scratch;
    World w;
    w.stat = scratch.path("stat");
    w.status = scratch.path("status");
    W = &w;
    vs::fault = fault;
    Source source(Rng(rng.next()), scratch);
    auto tasks = fly::task::TaskManager::create(1 + (std::uint32_t)rng.below(3));
    auto runner = fly::task::SequencedTaskRunner::create(tasks);
    auto settings = std::make_shared<Settings>();
    settings->ms = rng.chance(1, 2) ? 1 + (long)rng.below(50) : 100 * (1 + (long)rng.below(20));
    bool runs = rng.chance(19, 20);
    source.change(rng.chance(9, 10));
    if (!runs) { tasks->stop(); tasks.reset(); }
    auto monitor = SystemMonitor::create(runner, settings);
    vemit(Ev("create").b("runs", runs).b("ok", monitor != nullptr));
    std::weak_ptr<SystemMonitor> weak = monitor;
    if (monitor)
    {
        int rounds = 1 + (int)rng.below(8);
        for (int k = 0; k < rounds; ++k)
        {
            bool settled = rng.chance(2, 3);
            if (rng.chance(1, 3)) vs::sleep_ns(rng.below((std::uint64_t)settings->ms * 1500000ull));
            if (rng.chance(1, 2)) look(*monitor, (int)rng.below(6));
            if (rng.chance(1, 12)) { tasks->stop(); look(*monitor, (int)rng.below(6)); tasks->start(); }
            if (settled)
            {
                vs::calm(true);
                vs::sleep_ns((std::uint64_t)settings->ms * 2000000ull + 50000000ull);
                vs::calm(false);
            }
            // between two polls
            std::atomic<bool> done {false};
            runner->post_task(FROM_HERE, [&]() {
                observe(*monitor, settled);
                source.change(false);
                done = true;
            });
            while (!done)
            {
                if (rng.chance(1, 3)) look(*monitor, (int)rng.below(6));
                vs::sleep_ns(1000000);
            }
        }
        if (rng.chance(1, 2)) vs::sleep_ns(rng.below((std::uint64_t)settings->ms * 1500000ull));
        vemit(Ev("release"));
        monitor.reset();
        vs::calm(true);
        vs::sleep_ns(60000000);
        vs::calm(false);
        {
            vs::Atomic a;
            w.reads = 0;
        }
        vs::calm(true);
        vs::sleep_ns((std::uint64_t)settings->ms * 3000000ull + 50000000ull);
        vs::calm(false);
        vemit(Ev("after").i("reads", w.reads).b("expired", weak.expired()));
    }
    if (tasks) tasks->stop();
    runner.reset();
    tasks.reset();
    vs::fault = nullptr;
    W = nullptr;
}

int main(int argc, char **argv)
{
    auto quiet = fly::logger::Logger::create("quiet", std::make_shared<fly::logger::LoggerConfig>(), std::make_unique<NullSink>());
    fly::logger::Logger::set_default_logger(quiet);
    return main_loop(argc, argv, [](long id, Rng &rng) {
        std::uint64_t seed = rng.next();
        episode(seed, vs::random_policy(seed), [&]() { scenario(id, rng); });
    }, true);
}
