// A controlled scheduler for real code.  See vsched.cpp.
#pragma once
#include <cstddef>
#include <cstdint>

namespace vs {

struct Policy
{
    // 0: switch with probability num/den at every preemption point; 1: priorities with change points (PCT)
    int kind {0};
    unsigned num {1}, den {20};
    unsigned changes {3};
    std::uint64_t horizon {5000};
    // chance (in 1/1000) that a timed wait expires early although other threads could run, at a switch
    unsigned early_timeout {30};
    unsigned spurious {10};
};

// Begin a controlled episode with the given seed; the calling thread becomes the only live thread.
void start(std::uint64_t seed, Policy const &policy);
Policy random_policy(std::uint64_t seed);
// End it: no more preemption; returns the number of other threads which are still alive.
int stop();
// Called with "deadlock", "hang", "use-after-free", "double-free", ...; must not return.
void on_failure(void (*handler)(char const *what));
// Limits per episode.
void limits(std::uint64_t max_steps, std::uint64_t max_virtual_ns);

std::uint64_t now_ns();          // virtual time since start
void sleep_ns(std::uint64_t ns); // virtual sleep of the calling thread
void yield();                    // a preemption point
int self();                      // id of the calling thread
std::uint64_t steps();
// While on: every thread makes progress, and time passes only when nobody can run.
void calm(bool on);

// No preemption while alive (does not prevent blocking).
struct Atomic
{
    Atomic();
    ~Atomic();
};

// Fault injection: consulted before the real call when set.  Return true to take `result`/`err` instead.
struct Call
{
    char const *name;      // "send", "sendto", "recv", "recvfrom", "accept", "connect", "select", "poll", "read",
                           // "inotify_add_watch"
    int fd;
    std::size_t size;      // may be lowered to force a short transfer
    long result;
    int err;
};
extern bool (*fault)(Call &call);
// Observation after the real call.
extern void (*observe)(char const *name, int fd, long result);
// Called when time jumps forward.
} // namespace vs
