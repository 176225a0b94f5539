// Recording under the controlled scheduler.
#pragma once
#include "trace.hpp"
#include "vsched/vsched.hpp"

#include <sched.h>

#include <cstdlib>

namespace vt {

// Only one thread runs at a time: staying on one processor costs nothing, and keeps what is sent
// over the loopback network in the order in which it is sent.
inline void stay_here()
{
    static bool const once = [] {
        char const *which = std::getenv("LIBFLY_CPU");
        cpu_set_t all, one;
        if (!which || sched_getaffinity(0, sizeof(all), &all) != 0 || CPU_COUNT(&all) == 0) return true;
        int k = std::atoi(which) % CPU_COUNT(&all), cpu = 0;
        while (!CPU_ISSET(cpu, &all) || k-- > 0) ++cpu;
        CPU_ZERO(&one);
        CPU_SET(cpu, &one);
        sched_setaffinity(0, sizeof(one), &one);
        return true;
    }();
    (void)once;
}

inline void vfailed(char const *what)
{
    Recorder::get().die(what);
    _exit(98);
}

// An event appended without being preempted.
inline void vemit(Ev const &e)
{
    vs::Atomic a;
    Recorder::get().emit(e);
}

// Run one controlled episode of a scenario.
inline void episode(std::uint64_t seed, vs::Policy const &p, std::function<void()> const &body)
{
    stay_here();
    vs::on_failure(vfailed);
    vs::start(seed, p);
    body();
    int alive = vs::stop();
    if (alive)
    {
        Recorder::get().die("leaked_threads");
        _exit(98);
    }
}

inline long long now_ms() { return (long long)(vs::now_ns() / 1000000ull); }
inline long long now_us() { return (long long)(vs::now_ns() / 1000ull); }

} // namespace vt
