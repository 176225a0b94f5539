// Drives PathMonitor under controlled schedules on real directories (inotify).
#include "vtrace.hpp"
#include "scratch.hpp"

#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "fly/path/path_config.hpp"
#include "fly/path/path_monitor.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <fcntl.h>
#include <sys/inotify.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <memory>
#include <thread>

using namespace vt;
namespace fs = std::filesystem;
using fly::path::PathEvent;
using fly::path::PathMonitor;

// A watch must not be removed through a descriptor which is closed (it may be someone else's by then).
extern "C" int inotify_rm_watch(int fd, int wd)
{
    long r = syscall(SYS_inotify_rm_watch, fd, wd);
    if (r == -1 && errno == EBADF) vemit(Ev("watch_removed_on_closed_descriptor"));
    return (int)r;
}

struct NullSink : fly::logger::Sink
{
    bool initialize() override { return true; }
    bool stream(fly::logger::Log &&) override { return true; }
};

struct Config : fly::path::PathConfig
{
    explicit Config(int ms) { m_default_poll_interval = ms; }
};

struct World
{
    std::shared_ptr<PathMonitor> monitor;
    fs::path root;
    int dirs {1}, files {2};
    int next_handler {1};
    Rng rng {1};
    std::vector<std::vector<bool>> exists;
    bool rmdirs {false};
};
static World *W = nullptr;

static fs::path dir(int d) { return W->root / ("d" + std::to_string(d)); }
static fs::path file(int d, int f) { return dir(d) / ("f" + std::to_string(f)); }

static std::function<void(fs::path, PathEvent)> handler(int h)
{
    if (!h) return nullptr;
    return [h](fs::path p, PathEvent e) {
        {
            vs::Atomic a;
            int d = -1, f = -1;
            for (int x = 1; x <= W->dirs; ++x)
                for (int y = 1; y <= W->files; ++y)
                    if (p == file(x, y)) { d = x; f = y; }
            emit(Ev("callback").i("h", h).i("d", d).i("f", f)
                     .s("kind", e == PathEvent::Created ? "created" : e == PathEvent::Deleted ? "deleted" : e == PathEvent::Changed ? "changed" : "none"));
        }
        vs::yield();
    };
}

static void api(int t, int which = -1, int dd = 0)
{
    std::string fn;
    int d, f, h = 0;
    {
        vs::Atomic a;
        auto &r = W->rng;
        d = dd ? dd : 1 + (int)r.below((unsigned)W->dirs);
        f = 1 + (int)r.below((unsigned)W->files);
        std::uint64_t w = which >= 0 ? (unsigned)which : r.below(16);
        fn = w < 4 ? "add_path" : w < 9 ? "add_file" : w < 11 ? "remove_path" : w < 15 ? "remove_file" : "remove_all";
        if (w < 9 && !r.chance(1, 12)) h = W->next_handler++;
        emit(Ev("call").i("t", t).s("fn", fn).i("d", d).i("f", f).i("h", h));
    }
    bool ok = true;
    if (fn == "add_path") ok = W->monitor->add_path(dir(d), handler(h));
    else if (fn == "add_file") ok = W->monitor->add_file(file(d, f), handler(h));
    else if (fn == "remove_path") ok = W->monitor->remove_path(dir(d));
    else if (fn == "remove_file") ok = W->monitor->remove_file(file(d, f));
    else W->monitor->remove_all_paths();
    vemit(Ev("ret").i("t", t).b("ok", ok));
}

static void touch(int dd = 0)
{
    vs::Atomic a;
    auto &r = W->rng;
    int d = dd ? dd : 1 + (int)r.below((unsigned)W->dirs), f = 1 + (int)r.below((unsigned)W->files);
    auto ev = [](int x, int y, char const *k) { emit(Ev("fs").i("d", x).i("f", y).s("kind", k)); };
    auto there = [&](int x, int y) { return W->exists[(std::size_t)x][(std::size_t)y]; };
    if (W->rmdirs && !dd && r.chance(1, 4))
    {
        // remove an empty directory, or make it again
        if (::mkdir(dir(d).c_str(), 0755) == 0) emit(Ev("mkdir").i("d", d));
        else if (::rmdir(dir(d).c_str()) == 0) emit(Ev("rmdir").i("d", d));
        return;
    }
    if (!there(d, f))
    {
        int fd = ::open(file(d, f).c_str(), O_CREAT | O_WRONLY | O_EXCL, 0644);
        if (fd < 0) return;
        ::syscall(SYS_close, fd);
        W->exists[(std::size_t)d][(std::size_t)f] = true;
        ev(d, f, "created");
        return;
    }
    std::uint64_t w = r.below(10);
    if (w < 5)
    {
        int fd = ::open(file(d, f).c_str(), O_WRONLY | O_APPEND);
        if (::write(fd, "x", 1) != 1) return;
        ::syscall(SYS_close, fd);
        ev(d, f, "changed");
    }
    else if (w < 8)
    {
        ::unlink(file(d, f).c_str());
        W->exists[(std::size_t)d][(std::size_t)f] = false;
        ev(d, f, "deleted");
    }
    else
    {
        int d2 = 1 + (int)r.below((unsigned)W->dirs), f2 = 1 + (int)r.below((unsigned)W->files);
        if (d2 == d && f2 == f) return;
        // replacing a file by renaming does not delete it
        if (::rename(file(d, f).c_str(), file(d2, f2).c_str()) != 0) return;
        W->exists[(std::size_t)d][(std::size_t)f] = false;
        W->exists[(std::size_t)d2][(std::size_t)f2] = true;
        ev(d, f, "deleted");
        ev(d2, f2, "created");
    }
}

static void actor(int t, int steps)
{
    for (int k = 0; k < steps; ++k)
    {
        std::uint64_t w;
        {
            vs::Atomic a;
            w = W->rng.below(10);
        }
        if (w < 4) api(t);
        else if (w < 9) touch();
        else vs::sleep_ns(7000000);
        vs::yield();
    }
}

static void quiesce()
{
    vs::calm(true);
    vs::sleep_ns(300000000ull);
    vs::calm(false);
    vemit(Ev("quiet"));
}

// How many descriptors of the process watch the file system.
static int watching()
{
    vs::Atomic a;
    int n = 0;
    for (int fd = 0; fd < 256; ++fd)
    {
        char link[64], name[64];
        std::snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
        ssize_t r = ::readlink(link, name, sizeof(name) - 1);
        if (r > 0 && std::string(name, (std::size_t)r).find("inotify") != std::string::npos) ++n;
    }
    return n;
}

static void scenario(long id, Rng &rng)
{
    Scratch scratch;
    World w;
    W = &w;
    w.rng = Rng(rng.next());
    w.root = scratch.root;
    w.dirs = 1 + (int)rng.below(3);
    w.files = 1 + (int)rng.below(3);
    if (id % 64 == 63) { w.dirs = 1; }
    w.rmdirs = rng.chance(1, 4);
    w.exists.assign((std::size_t)w.dirs + 1, std::vector<bool>((std::size_t)w.files + 1, false));
    for (int d = 1; d <= w.dirs; ++d) fs::create_directory(dir(d));
    static int const polls[] = {1, 5, 20, 50};
    auto manager = fly::task::TaskManager::create(1 + (std::uint32_t)rng.below(2));
    auto runner = fly::task::SequencedTaskRunner::create(manager);
    auto config = std::make_shared<Config>(polls[rng.below(4)]);
    int const before = watching();
    w.monitor = PathMonitor::create(runner, config);
    emit(Ev("new").i("dirs", w.dirs));
    if (id % 64 == 63)
    {
        // a monitored directory goes away and comes back, and is registered again
        api(0, 0, 1);
        touch(1);
        quiesce();
        {
            vs::Atomic a;
            for (int f = 1; f <= w.files; ++f)
                if (w.exists[1][(std::size_t)f])
                {
                    ::unlink(file(1, f).c_str());
                    w.exists[1][(std::size_t)f] = false;
                    emit(Ev("fs").i("d", 1).i("f", f).s("kind", "deleted"));
                }
        }
        quiesce();
        ::rmdir(dir(1).c_str());
        vemit(Ev("rmdir").i("d", 1));
        quiesce();
        ::mkdir(dir(1).c_str(), 0755);
        vemit(Ev("mkdir").i("d", 1));
        api(0, 0, 1);
        touch(1);
        quiesce();
    }
    else
    {
        int rounds = 1 + (int)rng.below(3);
        for (int k = 0; k < rounds; ++k)
        {
            if (rng.chance(1, 2)) api(0, (int)rng.below(9));
            std::vector<std::thread> threads;
            int extra = (int)rng.below(3);
            for (int t = 1; t <= extra; ++t) threads.emplace_back([t, n = 2 + (int)rng.below(4)]() { actor(t, n); });
            actor(0, 2 + (int)rng.below(extra ? 5 : 9));
            for (auto &t : threads) t.join();
            if (rng.chance(3, 4)) quiesce();
        }
    }
    if (rng.chance(1, 2)) touch();
    std::weak_ptr<PathMonitor> weak = w.monitor;
    vemit(Ev("release"));
    w.monitor.reset();
    if (rng.chance(1, 2)) touch();
    if (rng.chance(1, 2)) quiesce();
    manager->stop();
    runner.reset();
    manager.reset();
    vemit(Ev("gone").b("expired", weak.expired()).i("left", watching() - before));
    W = nullptr;
}

int main(int argc, char **argv)
{
    auto quiet = fly::logger::Logger::create("quiet", std::make_shared<fly::logger::LoggerConfig>(), std::make_unique<NullSink>());
    fly::logger::Logger::set_default_logger(quiet);
    return main_loop(argc, argv, [](long id, Rng &rng) {
        std::uint64_t seed = rng.next();
        episode(seed, vs::random_policy(seed), [&]() { scenario(id, rng); });
    }, true);
}
