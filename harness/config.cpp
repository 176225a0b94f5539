// Drives ConfigManager under controlled schedules on real files.
#include "vtrace.hpp"
#include "scratch.hpp"

#include "fly/config/config.hpp"
#include "fly/config/config_manager.hpp"
#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <thread>

using namespace vt;
namespace fs = std::filesystem;
using fly::config::ConfigFileType;
using fly::config::ConfigManager;

struct NullSink : fly::logger::Sink
{
    bool initialize() override { return true; }
    bool stream(fly::logger::Log &&) override { return true; }
};

struct Base : fly::config::Config
{
    int get_int(std::string const &k, int d) const { return get_value<int>(k, d); }
    std::string get_str(std::string const &k, std::string const &d) const { return get_value<std::string>(k, d); }
};
struct Alpha : Base { static constexpr char const *identifier = "alpha"; };
struct Beta : Base { static constexpr char const *identifier = "beta"; };
struct Alpha2 : Base { static constexpr char const *identifier = "alpha"; };

struct World
{
    std::shared_ptr<ConfigManager> manager;
    fs::path path, tmp;
    bool json {true};
    Rng rng {1};
    std::map<void *, int> ids;
    int next {1};
};
static World *W = nullptr;

static int id_of(Base *b)
{
    if (!b) return -1;
    auto it = W->ids.find(b);
    return it == W->ids.end() ? -2 : it->second;
}

static void write_file()
{
    vs::Atomic a;
    auto &r = W->rng;
    std::string data, form = "sections", secs = "[";
    std::uint64_t what = r.below(12);
    if (what == 0) form = "none";
    else if (what == 1) { form = "bad"; data = W->json ? "{\"alpha\": {\"a\": 1}" : "a=1\n[alpha]\n"; }
    else if (what == 2 && W->json) { form = "other"; data = r.chance(1, 2) ? "[1, 2]" : "[{\"alpha\": {\"a\": 5}}]"; }
    else
    {
        std::string body;
        for (char const *sec : {"alpha", "beta", "gamma"})
        {
            if (r.chance(1, 4)) continue;
            if (W->json && r.chance(1, 8)) { body += std::string(body.empty() ? "" : ", ") + "\"" + sec + "\": 5"; continue; }
            std::string keys, kv;
            for (char const *k : {"a", "b", "c"})
            {
                if (r.chance(1, 3)) continue;
                int n = (int)r.below(900);
                bool str = r.chance(1, 2);
                std::string v = str ? "x" + std::to_string(n) : std::to_string(n);
                if (W->json) kv += std::string(kv.empty() ? "" : ", ") + "\"" + k + "\": " + (str ? "\"" + v + "\"" : v);
                else kv += std::string(k) + " = " + (str && r.chance(1, 2) ? "\"" + v + "\"" : v) + "\n";
                keys += std::string(keys.empty() ? "" : ",") + "{" + Ev("k").s("k", k).s("kind", str ? "str" : "int").s("v", v).body + "}";
            }
            if (W->json) body += std::string(body.empty() ? "" : ", ") + "\"" + sec + "\": {" + kv + "}";
            else body += std::string("[") + sec + "]\n" + kv;
            secs += std::string(secs.size() > 1 ? "," : "") + "{" + Ev("s").s("name", sec).raw("keys", "[" + keys + "]").body + "}";
        }
        data = W->json ? "{" + body + "}" : body;
    }
    secs += "]";
    // a file written in place may be read half old, half new, which JSON always notices
    bool replace = !W->json || r.chance(1, 2);
    if (form == "none") ::unlink(W->path.c_str());
    else
    {
        int fd = ::open(replace ? W->tmp.c_str() : W->path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        if (::write(fd, data.data(), data.size()) != (ssize_t)data.size()) std::abort();
        ::syscall(SYS_close, fd);
        if (replace) ::rename(W->tmp.c_str(), W->path.c_str());
    }
    emit(Ev("write").s("form", form).b("torn", !replace && form != "none").raw("secs", secs));
}

static void actor(int t, std::uint64_t seed, int steps, bool writes)
{
    Rng rng(seed);
    std::vector<std::shared_ptr<Base>> held;
    for (int s = 0; s < steps; ++s)
    {
        std::uint64_t what = rng.below(12);
        if (what < 3)
        {
            int type = (int)rng.below(5), neu;
            std::shared_ptr<ConfigManager> m;
            {
                vs::Atomic a;
                m = W->manager;
                neu = W->next++;
                if (m) emit(Ev("create").i("t", t).s("sec", type == 1 ? "beta" : "alpha").i("type", type == 1 ? 1 : type == 2 ? 2 : 0).i("new", neu));
            }
            if (!m) continue;
            std::shared_ptr<Base> c;
            if (type == 1) c = m->create_config<Beta>();
            else if (type == 2) c = m->create_config<Alpha2>();
            else c = m->create_config<Alpha>();
            {
                vs::Atomic a;
                if (c && !W->ids.count(c.get())) W->ids[c.get()] = neu;
                emit(Ev("created").i("t", t).i("id", id_of(c.get())));
            }
            if (c) held.push_back(std::move(c));
            m.reset();
        }
        else if (what < 7 && !held.empty())
        {
            auto &c = held[rng.below(held.size())];
            std::string key(1, (char)('a' + rng.below(4)));
            vs::Atomic a;
            if (rng.chance(1, 2))
            {
                int v = c->get_int(key, 7777);
                emit(Ev("get").i("id", id_of(c.get())).s("key", key).s("kind", "int").s("def", "7777").s("val", std::to_string(v)));
            }
            else
            {
                // numbers are not asked for as text
                std::string v = c->get_str(key, "none");
                if (v == "none" || v[0] == 'x')
                    emit(Ev("get").i("id", id_of(c.get())).s("key", key).s("kind", "str").s("def", "none").s("val", v));
            }
        }
        else if (what < 8 && !held.empty())
        {
            vs::Atomic a;
            std::size_t k = rng.below(held.size());
            emit(Ev("drop").i("id", id_of(held[k].get())));
            held.erase(held.begin() + (long)k);
        }
        else if (what < 10)
        {
            if (writes) write_file();
        }
        else vs::yield();
        if (rng.chance(1, 4)) vs::sleep_ns(3000000);
    }
    vs::Atomic a;
    while (!held.empty())
    {
        emit(Ev("drop").i("id", id_of(held.back().get())));
        held.pop_back();
    }
}

static void quiesce()
{
    vs::calm(true);
    vs::sleep_ns(3000000000ull);
    vs::calm(false);
    vemit(Ev("quiet"));
}

static void scenario(long, Rng &rng)
{
    Scratch scratch;
    World w;
    W = &w;
    w.rng = Rng(rng.next());
    w.json = rng.chance(1, 2);
    bool good = rng.chance(19, 20);
    fs::create_directory(scratch.path("d"));
    w.path = good ? scratch.path("d") / "config" : scratch.path("nowhere") / "config";
    w.tmp = scratch.path("tmp");
    auto tasks = fly::task::TaskManager::create(1 + (std::uint32_t)rng.below(3));
    auto runner = fly::task::SequencedTaskRunner::create(tasks);
    w.manager = ConfigManager::create(runner, w.json ? ConfigFileType::Json : ConfigFileType::Ini, w.path);
    emit(Ev("new").b("good", good).b("ok", w.manager != nullptr));
    std::weak_ptr<ConfigManager> weak = w.manager;
    if (w.manager)
    {
        std::vector<std::shared_ptr<Base>> held;
        int rounds = 1 + (int)rng.below(3);
        for (int k = 0; k < rounds; ++k)
        {
            if (rng.chance(2, 3))
            {
                // these stay across the rounds
                int neu = w.next++;
                bool beta = rng.chance(1, 2);
                vemit(Ev("create").i("t", 0).s("sec", beta ? "beta" : "alpha").i("type", beta ? 1 : 0).i("new", neu));
                std::shared_ptr<Base> c;
                if (beta) c = w.manager->create_config<Beta>();
                else c = w.manager->create_config<Alpha>();
                vs::Atomic a;
                if (c && !w.ids.count(c.get())) w.ids[c.get()] = neu;
                emit(Ev("created").i("t", 0).i("id", id_of(c.get())));
                if (c) held.push_back(c);
            }
            std::vector<std::thread> threads;
            int extra = (int)rng.below(3);
            for (int t = 1; t <= extra; ++t)
                threads.emplace_back([t, s = rng.next(), n = 2 + (int)rng.below(4)]() { actor(t, s, n, t == 1); });
            actor(0, rng.next(), 2 + (int)rng.below(6), extra == 0);
            for (auto &t : threads) t.join();
            if (rng.chance(2, 3))
            {
                quiesce();
                for (auto &c : held)
                    for (char const *key : {"a", "b", "c"})
                    {
                        vs::Atomic a;
                        int v = c->get_int(key, 7777);
                        emit(Ev("get").i("id", id_of(c.get())).s("key", key).s("kind", "int").s("def", "7777").s("val", std::to_string(v)));
                    }
                std::size_t n = w.manager->prune();
                vemit(Ev("pruned").i("n", (long long)n));
            }
        }
        if (rng.chance(1, 2)) write_file();
        if (rng.chance(1, 2)) vs::sleep_ns(2000000);
        std::shared_ptr<ConfigManager> m;
        {
            vs::Atomic a;
            emit(Ev("release"));
            m = std::move(w.manager);
        }
        m.reset();
        if (rng.chance(1, 2)) { write_file(); quiesce(); }
        vs::Atomic a;
        while (!held.empty())
        {
            emit(Ev("drop").i("id", id_of(held.back().get())));
            held.pop_back();
        }
    }
    tasks->stop();
    runner.reset();
    tasks.reset();
    vemit(Ev("gone").b("expired", weak.expired()));
    W = nullptr;
}

int main(int argc, char **argv)
{
    auto quiet = fly::logger::Logger::create("quiet", std::make_shared<fly::logger::LoggerConfig>(), std::make_unique<NullSink>());
    fly::logger::Logger::set_default_logger(quiet);
    return main_loop(argc, argv, [](long id, Rng &rng) {
        std::uint64_t seed = rng.next();
        episode(seed, vs::random_policy(seed), [&]() { scenario(id, rng); });
    }, true);
}
