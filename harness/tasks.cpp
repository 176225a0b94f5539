// Drives fly::task under controlled schedules: posts of every kind from several threads and from
// within tasks, replies, owners and runners which disappear, and stopping and restarting.
#include "vtrace.hpp"

#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <chrono>
#include <memory>
#include <thread>

using namespace vt;
using fly::task::TaskRunner;

static fly::task::TaskLocation const here0 {"file", "function", 1};
static fly::task::TaskLocation here() { return fly::task::TaskLocation(here0); }

struct Owner
{
    int id;
    explicit Owner(int n) : id(n) { }
    ~Owner() { vemit(Ev("owner_gone").i("o", id).i("at", now_us())); }
};

struct World
{
    std::shared_ptr<fly::task::TaskManager> manager;
    std::vector<std::shared_ptr<TaskRunner>> runners;
    std::vector<std::shared_ptr<Owner>> owners;
    Rng rng {1};
    int next_id {1};
    int outstanding {0};
    bool punctual {false};
    int longest {0};
    int far {0}; // those whose delay outlasts the waiting
    int budget {12};
    bool open {true};
};
static World *W = nullptr;
static bool prefer_sequenced = false, prefer_lifetime = false;

static std::uint64_t pick(std::uint64_t n)
{
    vs::Atomic a;
    return W->rng.below(n);
}

static void post(int depth);

// counts a task down when its closure is destroyed, run or not; only used to know when to stop waiting
struct Token
{
    bool far;
    explicit Token(bool f) : far(f) { vs::Atomic a; ++W->outstanding; W->far += far; }
    ~Token() { vs::Atomic a; if (W) { --W->outstanding; W->far -= far; } }
};

struct Body
{
    int id;
    int depth;
    int sleep_ms;
    int nested;
    std::shared_ptr<Token> token;

    void run(int arg) const
    {
        vemit(Ev("run").i("id", id).i("arg", arg).i("at", now_us()));
        if (sleep_ms) vs::sleep_ns((std::uint64_t)sleep_ms * 1000000ull);
        for (int k = 0; k < nested; ++k) post(depth + 1);
        vs::yield();
        vemit(Ev("end").i("id", id).i("at", now_us()));
    }
};

static Body make_body(int id, int depth, bool far)
{
    vs::Atomic a;
    auto &r = W->rng;
    return Body {id, depth, r.chance(1, 5) ? 1 + (int)r.below(25) : 0,
                 depth < 2 && r.chance(1, 4) ? 1 + (int)r.below(2) : 0, std::make_shared<Token>(far)};
}

static void post(int depth)
{
    int id, reply = 0, rn, on, delay, kind;
    bool result, late;
    std::shared_ptr<TaskRunner> runner;
    std::weak_ptr<Owner> owner;
    bool owned = false;
    {
        vs::Atomic a;
        if (W->budget <= 0) return;
        --W->budget;
        auto &r = W->rng;
        rn = (int)r.below(W->runners.size());
        runner = W->runners[(std::size_t)rn];
        if (!runner) return;
        id = W->next_id++;
        late = r.chance(1, 3);
        static int const delays[] = {0, 1, 5, 10, 11, 25, 40};
        delay = late ? delays[r.below(7)] : 0;
        if (late && W->punctual) delay = 100 * (1 + (int)r.below(5));
        else if (late && r.chance(1, 6)) delay = 6000;
        W->longest = std::max(W->longest, delay);
        if (r.chance(1, 3)) reply = W->next_id++;
        result = r.chance(1, 2);
        on = -1;
        if (!W->owners.empty() && r.chance(prefer_lifetime ? 2 : 1, 3))
        {
            on = (int)r.below(W->owners.size());
            if (W->owners[(std::size_t)on]) { owner = W->owners[(std::size_t)on]; owned = true; }
            else on = -1;
        }
        kind = (late ? 4 : 0) + (reply ? 2 : 0) + (owned ? 1 : 0);
    }
    Body t = make_body(id, depth, delay > 1000);
    vemit(Ev("post").i("id", id).i("r", rn).b("late", late).i("us", delay * 1000).i("o", on).i("reply", reply)
              .b("res", reply && result).i("at", now_us()));
    auto d = std::chrono::milliseconds(delay);
    bool ok = false;
    auto f0 = [t]() { t.run(0); };
    auto f0r = [t, id]() { t.run(0); return id; };
    auto f1 = [t](std::shared_ptr<Owner> o) { t.run(0); };
    auto f1r = [t, id](std::shared_ptr<Owner> o) { t.run(0); return id; };
    Body y = reply ? make_body(reply, depth + 1, delay > 1000) : t;
    t.token.reset();
    auto g0 = [y]() { y.run(0); };
    auto g0r = [y](int v) { y.run(v); };
    auto g1 = [y](std::shared_ptr<Owner> o) { y.run(0); };
    auto g1r = [y](int v, std::shared_ptr<Owner> o) { y.run(v); };
    y.token.reset();
    switch (kind)
    {
        case 0: ok = result ? runner->post_task(here(), std::move(f0r)) : runner->post_task(here(), std::move(f0)); break;
        case 1: ok = runner->post_task(here(), owner, std::move(f1)); break;
        case 2:
            ok = result ? runner->post_task_with_reply(here(), std::move(f0r), std::move(g0r)) :
                          runner->post_task_with_reply(here(), std::move(f0), std::move(g0));
            break;
        case 3:
            ok = result ? runner->post_task_with_reply(here(), owner, std::move(f1r), std::move(g1r)) :
                          runner->post_task_with_reply(here(), owner, std::move(f1), std::move(g1));
            break;
        case 4: ok = runner->post_task_with_delay(here(), d, std::move(f0)); break;
        case 5: ok = runner->post_task_with_delay(here(), owner, d, std::move(f1)); break;
        case 6:
            ok = result ? runner->post_task_with_delay_and_reply(here(), d, std::move(f0r), std::move(g0r)) :
                          runner->post_task_with_delay_and_reply(here(), d, std::move(f0), std::move(g0));
            break;
        default:
            ok = result ? runner->post_task_with_delay_and_reply(here(), owner, d, std::move(f1r), std::move(g1r)) :
                          runner->post_task_with_delay_and_reply(here(), owner, d, std::move(f1), std::move(g1));
            break;
    }
    vemit(Ev("posted").i("id", id).b("ok", ok).i("at", now_us()));
}

static void actor(int steps)
{
    for (int k = 0; k < steps; ++k)
    {
        std::uint64_t what = pick(20);
        if (what < 14) post(0);
        else if (what < 16) vs::sleep_ns(1000000ull * (1 + pick(12)));
        else if (what < 17)
        {
            // the last driver reference of an owner goes away
            std::shared_ptr<Owner> o;
            int n = -1;
            {
                vs::Atomic a;
                if (!W->owners.empty()) { n = (int)W->rng.below(W->owners.size()); o = std::move(W->owners[(std::size_t)n]); }
                if (o) emit(Ev("drop_owner").i("o", n).i("at", now_us()));
            }
        }
        else vs::yield();
    }
}

static void quiesce()
{
    vs::calm(true);
    for (int k = 0; k < 60; ++k)
    {
        vs::sleep_ns(20000000ull);
        vs::Atomic a;
        if (W->outstanding == W->far) break;
    }
    vs::sleep_ns(25000000ull);
    vs::calm(false);
    vemit(Ev("quiet").i("at", now_us()));
}

// Left alone, a task begins as soon as its delay is over and those before it have ended.
static void punctual(Rng &rng)
{
    vs::calm(true);
    int count = 1 + (int)rng.below(2);
    W->punctual = true;
    W->longest = 0;
    W->budget = count;
    for (int k = 0; k < count; ++k) post(2);
    vs::sleep_ns((std::uint64_t)(W->longest + 25 + count * 2 * 27) * 1000000ull);
    W->punctual = false;
    vs::calm(false);
    vemit(Ev("quiet").i("at", now_us()));
}

static bool stop_manager()
{
    vemit(Ev("stop").i("at", now_us()));
    bool ok = W->manager->stop();
    vemit(Ev("stopped").b("ok", ok).i("at", now_us()));
    return ok;
}

static void scenario(long id, Rng &rng)
{
    World w;
    W = &w;
    w.rng = Rng(rng.next());
    int workers = 1 + (int)rng.below(3);
    int nr = 1 + (int)rng.below(3), no = (int)rng.below(3);
    w.budget = 4 + (int)rng.below(14);
    if (prefer_sequenced) { workers = 2 + (int)rng.below(3); nr = 1 + (int)rng.below(2); w.budget += 8; }
    if (prefer_lifetime) { no = 1 + (int)rng.below(3); }
    bool many = !prefer_lifetime && rng.chance(1, 50);
    if (many) { w.budget = 40 + (int)rng.below(60); no = 0; } // without anything that hides in them
    w.manager = fly::task::TaskManager::create((std::uint32_t)workers);
    std::string kinds = "[";
    bool mostly_sequenced = prefer_sequenced || rng.chance(2, 3);
    for (int k = 0; k < nr; ++k)
    {
        bool seq = mostly_sequenced ? rng.chance(4, 5) : rng.chance(1, 3);
        if (seq) w.runners.push_back(fly::task::SequencedTaskRunner::create(w.manager));
        else w.runners.push_back(fly::task::ParallelTaskRunner::create(w.manager));
        kinds += std::string(k ? "," : "") + (seq ? "\"sequenced\"" : "\"parallel\"");
    }
    kinds += "]";
    emit(Ev("new").raw("runners", kinds).i("owners", no).i("at", now_us()));
    for (int k = 0; k < no; ++k) w.owners.push_back(std::make_shared<Owner>(k));

    int phases = rng.chance(1, 3) ? 2 : 1;
    for (int p = 0; p < phases; ++p)
    {
        if (p) w.budget = 2 + (int)rng.below(6);
        int extra = (int)rng.below(3);
        bool abrupt = prefer_sequenced ? rng.chance(1, 8) : rng.chance(1, prefer_lifetime ? 2 : 3); // stop without waiting
        {
            std::vector<std::thread> threads;
            for (int k = 0; k < extra; ++k) threads.emplace_back([n = 2 + (int)rng.below(6)]() { actor(n); });
            actor(many ? 80 : 2 + (int)rng.below(8));
            if (abrupt && rng.chance(1, 2)) stop_manager();
            for (auto &t : threads) t.join();
        }
        if (!abrupt && rng.chance(1, 5))
        {
            // a runner goes away
            int n = (int)rng.below((unsigned)nr);
            std::shared_ptr<TaskRunner> r;
            {
                vs::Atomic a;
                r = std::move(w.runners[(std::size_t)n]);
                if (r) emit(Ev("drop_runner").i("r", n).i("at", now_us()));
            }
            r.reset();
        }
        if (!abrupt)
        {
            quiesce();
            if (rng.chance(1, 5)) punctual(rng);
        }
        stop_manager();
        if (rng.chance(1, 4)) stop_manager();
        if (rng.chance(1, 3)) { actor(2); vs::sleep_ns(50000000ull); }
        if (p + 1 < phases || rng.chance(1, 4))
        {
            vemit(Ev("start").i("at", now_us()));
            bool ok = w.manager->start();
            vemit(Ev("started").b("ok", ok).i("at", now_us()));
            if (rng.chance(1, 3))
            {
                vemit(Ev("start").i("at", now_us()));
                ok = w.manager->start();
                vemit(Ev("started").b("ok", ok).i("at", now_us()));
            }
            if (p + 1 == phases) { quiesce(); stop_manager(); }
        }
    }
    // the manager is gone: nothing is accepted any more
    {
        std::weak_ptr<fly::task::TaskManager> weak = w.manager;
        w.manager.reset();
        vemit(Ev("manager_gone").b("expired", weak.expired()).i("at", now_us()));
    }
    if (rng.chance(1, 2)) { w.budget = 2; actor(3); }
    w.runners.clear();
    w.owners.clear();
    emit(Ev("done").i("left", w.outstanding).i("at", now_us()));
    W = nullptr;
}

int main(int argc, char **argv)
{
    for (int n = 1; n + 1 < argc; ++n)
    {
        if (std::string(argv[n]) != "--mode") continue;
        prefer_sequenced = std::string(argv[n + 1]) == "sequenced";
        prefer_lifetime = std::string(argv[n + 1]) == "lifetime";
    }
    return main_loop(argc, argv, [](long id, Rng &rng) {
        std::uint64_t seed = rng.next();
        episode(seed, vs::random_policy(seed), [&]() { scenario(id, rng); });
    }, true);
}
