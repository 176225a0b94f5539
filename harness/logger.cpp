// Drives fly::logger under controlled schedules with a sink which records what it is given.
#include "vtrace.hpp"

#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <cerrno>
#include <cstring>
#include <memory>
#include <thread>

using namespace vt;
namespace fl = fly::logger;

struct Config : fl::LoggerConfig
{
    explicit Config(std::uint32_t n) { m_default_max_message_size = n; }
    void set(std::uint32_t n) { m_default_max_message_size = n; }
};

static std::string text(int id, int len)
{
    std::string s;
    for (int k = 0; k < len; ++k) s += (char)('a' + (id * 7 + k * (1 + id % 3)) % 26);
    return s;
}

struct World
{
    struct L
    {
        std::shared_ptr<fl::Logger> logger;
        std::shared_ptr<Config> config;
        bool async {false};
    };
    std::vector<L> loggers;
    std::vector<int> lens;
    std::vector<std::string> ends; // what is added to the text
    Rng rng {1};
    int next_id {0};
};
static World *W = nullptr;
// the record which this thread logs, if it does so without saying where, or with a macro
static thread_local int unnamed = -1;
static thread_local fl::Trace place;

struct TestSink : fl::Sink
{
    int k;
    bool good;
    int fail_at, count {0};
    TestSink(int k_, bool good_, int fail) : k(k_), good(good_), fail_at(fail) { }
    ~TestSink() override { vemit(Ev("sink_gone").i("k", k)); }
    bool initialize() override { return good; }
    bool stream(fl::Log &&given) override
    {
        // sinks may keep records
        fl::Log log(std::move(given));
        if (log.m_index % 2)
        {
            fl::Log other;
            other = std::move(log);
            log = std::move(other);
        }
        int id = unnamed >= 0 ? unnamed : (int)log.m_trace.m_line;
        fl::Trace at {"file.cpp", "func", (std::uint32_t)id};
        if (unnamed >= 0) at = place;
        {
            vs::Atomic a;
            int len = id < (int)W->lens.size() && id >= 0 ? W->lens[(std::size_t)id] : -1;
            std::string const want = (id < (int)W->ends.size() && id >= 0 ? text(id, len - (int)W->ends[(std::size_t)id].size()) + W->ends[(std::size_t)id] : "").substr(0, log.m_message.size());
            bool same = len >= 0 && log.m_message == want && log.m_trace.m_file == at.m_file && log.m_trace.m_function == at.m_function && log.m_trace.m_line == at.m_line;
            emit(Ev("sink").i("k", k).i("idx", (long long)log.m_index).i("level", (int)log.m_level).i("id", id)
                     .i("len", (long long)log.m_message.size()).b("same", same).i("t", (long long)(log.m_time * 1000 + 0.5)));
        }
        std::uint64_t r;
        {
            vs::Atomic a;
            r = W->rng.below(8);
        }
        if (r == 0) vs::sleep_ns(3000000);
        else if (r < 4) vs::yield();
        bool ok = ++count != fail_at;
        vemit(Ev("sink_done").i("k", k).b("ok", ok));
        return ok;
    }
};

static void log_one(int k)
{
    int id, len, level, how, own;
    int const error = EACCES;
    std::shared_ptr<fl::Logger> lg;
    {
        vs::Atomic a;
        lg = W->loggers[(std::size_t)k].logger;
        if (!lg) return;
        id = W->next_id++;
        static int const lens[] = {0, 1, 4, 9, 10, 11, 30, 99, 100, 101, 400};
        len = lens[W->rng.below(11)];
        level = (int)W->rng.below(4);
        // 0: with the place, 1: without, 2: by macro, 3: by macro with the error
        how = !W->loggers[(std::size_t)k].async ? (int)W->rng.below(4) : 0;
        if (how == 3) level = (int)fl::Level::Warn;
        W->ends.push_back(how == 3 ? ": (" + std::to_string(error) + ") " + std::strerror(error) : "");
        own = len;
        len += (int)W->ends.back().size();
        W->lens.push_back(len);
        emit(Ev("log").i("id", id).i("k", k).i("level", level).i("len", len).i("at", now_us()));
    }
    std::string const t = text(id, own);
    std::string const x = t.substr(0, t.size() / 2), y = t.substr(t.size() / 2);
    fl::Trace trace {"file.cpp", "func", (std::uint32_t)id};
    if (how != 0)
    {
        unnamed = id;
        place = {};
        if (how > 1)
        {
            fl::Logger::set_default_logger(lg);
            place = {__FILE__, __FUNCTION__, 0};
        }
        #define AT(stmt) do { place.m_line = how > 1 ? __LINE__ : 0; stmt; } while (0)
        switch (how == 3 ? 10 : how == 2 ? 5 + level : level)
        {
            case 0: AT(lg->debug("{}{}", x, y)); break;
            case 1: AT(lg->info("{}{}", x, y)); break;
            case 2: AT(lg->warn("{}{}", x, y)); break;
            case 3: AT(lg->error("{}{}", x, y)); break;
            case 5: AT(LOGD("{}{}", x, y)); break;
            case 6: AT(LOGI("{}{}", x, y)); break;
            case 7: AT(LOGW("{}{}", x, y)); break;
            case 8: AT(LOGE("{}{}", x, y)); break;
            default: AT(errno = error; LOGS("{}{}", x, y)); break;
        }
        if (how > 1) fl::Logger::set_default_logger(nullptr);
        unnamed = -1;
    }
    else switch (level)
    {
        case 0: lg->debug(std::move(trace), "{}{}", x, y); break;
        case 1: lg->info(std::move(trace), "{}{}", x, y); break;
        case 2: lg->warn(std::move(trace), "{}{}", x, y); break;
        default: lg->error(std::move(trace), "{}{}", x, y); break;
    }
    vemit(Ev("logged").i("id", id).i("at", now_us()));
}

static void quiesce(int ms)
{
    vs::calm(true);
    vs::sleep_ns((std::uint64_t)ms * 1000000ull);
    vs::calm(false);
}

static void scenario(long id, Rng &rng)
{
    World w;
    W = &w;
    w.rng = Rng(rng.next());
    auto manager = fly::task::TaskManager::create(1 + (std::uint32_t)rng.below(3));
    int n = 1 + (int)rng.below(3);
    std::shared_ptr<fly::task::SequencedTaskRunner> shared = fly::task::SequencedTaskRunner::create(manager);
    std::string const pre = std::to_string(id) + "-" + std::to_string(rng.below(1000)) + "-";
    for (int k = 0; k < n; ++k)
    {
        World::L l;
        static int const maxes[] = {0, 5, 10, 100};
        int max = maxes[rng.below(4)];
        l.config = std::make_shared<Config>((std::uint32_t)max);
        l.async = rng.chance(2, 3);
        bool good = rng.chance(9, 10);
        int fail = rng.chance(1, 4) ? 1 + (int)rng.below(6) : 0;
        auto sink = std::make_unique<TestSink>(k, good, fail);
        std::shared_ptr<fly::task::SequencedTaskRunner> runner;
        if (l.async) runner = rng.chance(1, 2) ? shared : fly::task::SequencedTaskRunner::create(manager);
        vs::Atomic a;
        long long ta = now_us();
        if (!good) sink->k = 100 + k; // its end is of no interest
        l.logger = fl::Logger::create(pre + std::to_string(k), runner, l.config, std::move(sink));
        emit(Ev("create").i("k", k).b("async", l.async).i("max", max).b("good", good).b("ok", l.logger != nullptr).i("ta", ta).i("tb", now_us()));
        w.loggers.push_back(l);
    }
    int rounds = 1 + (int)rng.below(2);
    for (int r = 0; r < rounds; ++r)
    {
        std::vector<std::thread> threads;
        int extra = (int)rng.below(3);
        for (int t = 0; t < extra; ++t)
        {
            std::vector<int> targets;
            for (int s = 1 + (int)rng.below(5); s > 0; --s)
            {
                int k = (int)rng.below((unsigned)n);
                if (w.loggers[(std::size_t)k].async) targets.push_back(k);
            }
            threads.emplace_back([targets]() { for (int k : targets) log_one(k); });
        }
        for (int s = (int)rng.below(rng.chance(1, 30) ? 120 : 6); s > 0; --s) log_one((int)rng.below((unsigned)n));
        int dropped = -1;
        if (rng.chance(1, 5)) dropped = (int)rng.below((unsigned)n);
        if (dropped >= 0)
        {
            std::shared_ptr<fl::Logger> lg;
            {
                vs::Atomic a;
                lg = std::move(w.loggers[(std::size_t)dropped].logger);
                if (lg) emit(Ev("release").i("k", dropped));
            }
            lg.reset();
        }
        for (auto &t : threads) t.join();
        if (rng.chance(2, 3))
        {
            quiesce(500);
            vemit(Ev("quiet"));
            int k = (int)rng.below((unsigned)n);
            if (rng.chance(1, 2))
            {
                int max = (int)rng.below(14);
                w.loggers[(std::size_t)k].config->set((std::uint32_t)max);
                vemit(Ev("set_max").i("k", k).i("max", max));
            }
        }
    }
    if (rng.chance(1, 3))
    {
        manager->stop();
        vemit(Ev("stopped"));
        for (int s = (int)rng.below(4); s > 0; --s)
        {
            int k = (int)rng.below((unsigned)n);
            log_one(k);
        }
        vs::sleep_ns(30000000);
    }
    else
    {
        quiesce(500);
        vemit(Ev("quiet"));
        manager->stop();
        vemit(Ev("stopped"));
    }
    for (auto &l : w.loggers) l.logger.reset();
    shared.reset();
    manager.reset();
    W = nullptr;
}

int main(int argc, char **argv)
{
    // the registry is set up outside the controlled part
    fl::Logger::get_default_logger();
    return main_loop(argc, argv, [](long id, Rng &rng) {
        std::uint64_t seed = rng.next();
        episode(seed, vs::random_policy(seed), [&]() { scenario(id, rng); });
    }, true);
}
