// Drives fly::ConcurrentQueue / fly::ConcurrentStack from several threads under controlled schedules.
#include "vtrace.hpp"

#include "fly/types/concurrency/concurrent_queue.hpp"
#include "fly/types/concurrency/concurrent_stack.hpp"

#include <chrono>
#include <memory>
#include <thread>

using namespace vt;

struct Item
{
    int a {-1};
    int b {-1};
    Item() = default;
    explicit Item(int v) : a(v), b(v) { }
    Item(Item &&o) : a(o.a), b(o.b) { o.a = -2; o.b = -3; }
    Item &operator=(Item &&o)
    {
        a = o.a;
        b = o.b;
        o.a = -2;
        o.b = -3;
        return *this;
    }
    int value() const { return a == b ? a : -9; }
};

struct Op
{
    int kind; // 0 push, 1 pop, 2 timed pop, 3 size, 4 empty, 5 pause
    int arg;
};

template <typename C>
static void run(int t, C &c, std::vector<Op> const &ops)
{
    for (auto const &o : ops)
    {
        switch (o.kind)
        {
            case 0:
            {
                vemit(Ev("inv").i("t", t).s("f", "push").i("x", o.arg));
                c.push(Item(o.arg));
                vemit(Ev("ret").i("t", t).i("r", 0));
                break;
            }
            case 1:
            {
                vemit(Ev("inv").i("t", t).s("f", "pop").i("x", 0));
                Item it;
                c.pop(it);
                vemit(Ev("ret").i("t", t).i("r", it.value()));
                break;
            }
            case 2:
            {
                vemit(Ev("inv").i("t", t).s("f", "timed").i("x", o.arg));
                long long t0 = now_us();
                Item it(777);
                bool ok = o.arg % 2 ? c.pop(it, std::chrono::milliseconds(o.arg)) : c.pop(it, std::chrono::microseconds(o.arg * 1000));
                long long dt = now_us() - t0;
                if (ok) vemit(Ev("ret").i("t", t).i("r", it.value()));
                else vemit(Ev("late").i("t", t).i("us", dt).i("r", it.value()));
                break;
            }
            case 3:
            {
                vemit(Ev("inv").i("t", t).s("f", "size").i("x", 0));
                auto n = c.size();
                vemit(Ev("ret").i("t", t).i("r", (int)n));
                break;
            }
            case 4:
            {
                vemit(Ev("inv").i("t", t).s("f", "empty").i("x", 0));
                bool e = c.empty();
                vemit(Ev("ret").i("t", t).i("r", e));
                break;
            }
            default: vs::sleep_ns((std::uint64_t)o.arg * 1000000ull); break;
        }
    }
}

template <typename C>
static void scenario(Rng &rng, char const *kind)
{
    int nt = 2 + (int)rng.below(3);
    int budget = 9 + (int)rng.below(8);
    std::vector<std::vector<Op>> ops((std::size_t)nt);
    int pushes = 0, next = 1;
    int style = (int)rng.below(3);
    // pushes (and observations) first in every thread, so that total pops <= total pushes never starves
    for (int k = 0; k < budget / 2; ++k)
    {
        int t = style == 0 ? (int)rng.below((unsigned)std::max(1, nt / 2)) : (int)rng.below((unsigned)nt);
        if (rng.chance(1, 6)) ops[(std::size_t)t].push_back({3 + (int)rng.below(3), 1 + (int)rng.below(3)});
        ops[(std::size_t)t].push_back({0, next++});
        ++pushes;
    }
    int pops = 0;
    for (int k = 0; k < budget / 2 + 1; ++k)
    {
        int t = style == 0 ? nt - 1 - (int)rng.below((unsigned)std::max(1, nt / 2)) : (int)rng.below((unsigned)nt);
        int what = (int)rng.below(8);
        int kind_of = what < 4 ? 1 : what < 6 ? 2 : 3 + (int)rng.below(3);
        if (kind_of <= 2 && pops == pushes) kind_of = style == 2 ? 2 : 3;
        if (kind_of <= 2) ++pops;
        ops[(std::size_t)t].push_back({kind_of, (int)rng.below(4)});
    }
    // with more pops than pushes only timed ones may be left over
    if (pops > pushes)
        for (auto &v : ops) for (auto &o : v) if (o.kind == 1) { o.kind = 2; o.arg = (int)rng.below(4); }

    bool calm = false;
    if (rng.chance(1, 40))
    {
        // many items, most of them there at once
        nt = 2;
        ops.assign(2, {});
        int there = 0, most = 30 + (int)rng.below(300);
        for (int k = 0; k < 2 * most; ++k)
        {
            bool in = k < most ? !rng.chance(1, 6) : rng.chance(1, 6);
            if (in) { ops[0].push_back({0, next++}); ++there; }
            else if (there > 0) { ops[0].push_back({rng.chance(1, 3) ? 2 : 1, 1}); --there; }
            if (rng.chance(1, 30)) ops[0].push_back({3 + (int)rng.below(2), 0});
        }
        for (int k = (int)rng.below(6); k > 0; --k) ops[1].push_back({3 + (int)rng.below(3), 1});
    }
    else if (rng.chance(1, 12))
    {
        // items which others take from under a thread that waits for them
        nt = 3 + (int)rng.below(2);
        calm = true; // time does not pass while a thread could run
        ops.assign((std::size_t)nt, {});
        ops[0].push_back({2, 300});
        for (int k = 0; k < 2; ++k)
        {
            ops[1].push_back({5, 150});
            for (int n = 1 + (int)rng.below(2); n > 0; --n) ops[1].push_back({0, next++});
            for (int t = 2; t < nt; ++t) { ops[(std::size_t)t].push_back({5, 150}); ops[(std::size_t)t].push_back({2, 0}); }
        }
    }
    C c;
    emit(Ev("new").s("kind", kind).i("threads", nt));
    if (calm) vs::calm(true);
    {
        std::vector<std::thread> threads;
        for (int t = 1; t < nt; ++t) threads.emplace_back([t, &c, &ops]() { run(t, c, ops[(std::size_t)t]); });
        run(0, c, ops[0]);
        for (auto &t : threads) t.join();
    }
    if (calm) vs::calm(false);
    // what is left
    run(0, c, {{3, 0}});
    std::size_t left = c.size();
    for (std::size_t k = 0; k <= left; ++k) run(0, c, {{2, 0}});
    run(0, c, {{4, 0}});
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long id, Rng &rng) {
        std::uint64_t seed = rng.next();
        episode(seed, vs::random_policy(seed), [&]() {
            if (id % 2) scenario<fly::ConcurrentStack<Item>>(rng, "stack");
            else scenario<fly::ConcurrentQueue<Item>>(rng, "queue");
        });
    });
}
