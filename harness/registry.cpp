// Drives the registry of loggers from several threads.
#include "vtrace.hpp"

#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"

#include <map>
#include <memory>
#include <thread>

using namespace vt;
namespace fl = fly::logger;

static std::shared_ptr<fl::LoggerConfig> config;
static std::map<void *, int> addresses;
static std::vector<std::string> names;

struct TestSink : fl::Sink
{
    bool good;
    explicit TestSink(bool g) : good(g) { }
    bool initialize() override { vs::yield(); return good; }
    bool stream(fl::Log &&) override { return true; }
    ~TestSink() override { vs::yield(); }
};

static int addr(std::shared_ptr<fl::Logger> const &l)
{
    vs::Atomic a;
    if (!l) return 0;
    auto it = addresses.find(l.get());
    if (it == addresses.end()) it = addresses.emplace(l.get(), (int)addresses.size() + 1).first;
    return it->second;
}

static int name_of(std::shared_ptr<fl::Logger> const &l)
{
    if (!l) return 0;
    for (std::size_t n = 0; n < names.size(); ++n) if (names[n] == l->name()) return (int)n;
    return -1;
}

static int next_logger;

static void actor(int t, std::uint64_t seed, int steps)
{
    Rng rng(seed);
    std::vector<std::shared_ptr<fl::Logger>> held;
    auto drop = [&](std::size_t k) {
        std::shared_ptr<fl::Logger> l = std::move(held[k]);
        held.erase(held.begin() + (long)k);
        vemit(Ev("drop").i("t", t).i("p", addr(l)));
        l.reset();
        vemit(Ev("dropped").i("t", t));
    };
    for (int s = 0; s < steps; ++s)
    {
        std::uint64_t what = rng.below(10);
        std::size_t n = rng.below(names.size());
        if (what < 4)
        {
            bool good = rng.chance(3, 4);
            int k;
            {
                vs::Atomic a;
                k = ++next_logger;
                emit(Ev("create").i("t", t).i("k", k).i("n", (int)n).b("good", good));
            }
            auto l = fl::Logger::create(names[n], config, std::make_unique<TestSink>(good));
            int p = addr(l);
            vemit(Ev("created").i("t", t).i("p", p));
            if (l) held.push_back(std::move(l));
        }
        else if (what < 7)
        {
            vemit(Ev("get").i("t", t).i("n", (int)n));
            auto l = fl::Logger::get(names[n]);
            int p = addr(l);
            vemit(Ev("got").i("t", t).i("p", p).i("n", l ? name_of(l) : (int)n));
            if (l) held.push_back(std::move(l));
        }
        else if (!held.empty()) drop(rng.below(held.size()));
    }
    while (!held.empty()) drop(0);
}

static fl::Logger *initial;

static void defaults(Rng &rng)
{
    // one thread uses the default logger
    std::vector<std::shared_ptr<fl::Logger>> held;
    int t = 9;
    for (int s = 0; s < 8; ++s)
    {
        std::uint64_t what = rng.below(10);
        std::size_t n = rng.below(names.size());
        if (what < 3)
        {
            int k = ++next_logger;
            emit(Ev("create").i("t", t).i("k", k).i("n", (int)n).b("good", true));
            auto l = fl::Logger::create(names[n], config, std::make_unique<TestSink>(true));
            emit(Ev("created").i("t", t).i("p", addr(l)));
            if (l) held.push_back(std::move(l));
        }
        else if (what < 5 && !held.empty())
        {
            std::shared_ptr<fl::Logger> l = std::move(held.back());
            held.pop_back();
            emit(Ev("drop").i("t", t).i("p", addr(l)));
            l.reset();
            emit(Ev("dropped").i("t", t));
        }
        else if (what < 7)
        {
            std::shared_ptr<fl::Logger> l;
            if (!held.empty() && rng.chance(2, 3)) l = held[rng.below(held.size())];
            fl::Logger::set_default_logger(l);
            emit(Ev("set_default").i("p", addr(l)));
        }
        else if (what < 8)
        {
            emit(Ev("get").i("t", t).i("n", (int)n));
            auto l = fl::Logger::get(names[n]);
            emit(Ev("got").i("t", t).i("p", addr(l)).i("n", l ? name_of(l) : (int)n));
            if (l) held.push_back(std::move(l));
        }
        else
        {
            fl::Logger *d = fl::Logger::get_default_logger();
            int p = d == initial ? 0 : addresses.count(d) ? addresses[d] : -1;
            emit(Ev("get_default").i("p", p));
        }
    }
    fl::Logger::set_default_logger(nullptr);
    emit(Ev("set_default").i("p", 0));
    while (!held.empty())
    {
        std::shared_ptr<fl::Logger> l = std::move(held.back());
        held.pop_back();
        emit(Ev("drop").i("t", t).i("p", addr(l)));
        l.reset();
        emit(Ev("dropped").i("t", t));
    }
}

static void scenario(long id, Rng &rng)
{
    names.clear();
    addresses.clear();
    next_logger = 0;
    int nn = 1 + (int)rng.below(3);
    for (int n = 0; n < nn; ++n) names.push_back(std::string(n == 2 ? "" : "logger") + std::to_string(n));
    initial = fl::Logger::get_default_logger();
    if (id % 3 == 0) defaults(rng);
    else
    {
        int others = (int)rng.below(3);
        std::vector<std::thread> threads;
        for (int t = 1; t <= others; ++t)
        {
            std::uint64_t s = rng.next();
            int steps = 2 + (int)rng.below(4);
            threads.emplace_back([t, s, steps]() { actor(t, s, steps); });
        }
        actor(0, rng.next(), 2 + (int)rng.below(others ? 4 : 12));
        for (auto &t : threads) t.join();
        if (rng.chance(1, 2)) actor(0, rng.next(), 3);
    }
}

int main(int argc, char **argv)
{
    fl::Logger::get_default_logger();
    config = std::make_shared<fl::LoggerConfig>();
    return main_loop(argc, argv, [](long id, Rng &rng) {
        std::uint64_t seed = rng.next();
        episode(seed, vs::random_policy(seed), [&]() { scenario(id, rng); });
    }, true);
}
