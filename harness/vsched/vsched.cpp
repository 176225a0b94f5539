// A controlled scheduler for real, unmodified code.
//
// The library is compiled with -fsanitize=thread, but the instrumentation calls land here instead
// of in the ThreadSanitizer runtime: every memory access and every atomic operation is a possible
// preemption point.  pthread mutexes, condition variables, rwlocks, futexes, sleeping, polling and
// clocks are interposed.  Exactly one thread runs at any time; which one is decided here from a
// seed, and time is virtual: it moves only when nothing can run (or, sometimes, when a timed wait
// is made to win a race).  A state in which nothing can ever run again is reported as a deadlock.
//
// operator new/delete are replaced as well: memory freed during an episode is not reused before
// its end, and any instrumented access to it is reported.
#include "vsched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <new>

#define REAL(name) reinterpret_cast<decltype(&::name)>(real_sym(#name))

namespace {

void *real_sym(char const *name)
{
    return dlsym(RTLD_NEXT, name);
}

long raw_futex(int *addr, int op, int val)
{
    long r;
    register long r10 __asm__("r10") = 0;
    __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(addr), "S"(op), "d"(val), "r"(r10) : "rcx", "r11", "memory");
    return r;
}

struct Sem
{
    int v {0};
    void wait()
    {
        for (int spin = 0; spin < 200; ++spin)
        {
            int one = 1;
            if (__atomic_compare_exchange_n(&v, &one, 0, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) return;
            __builtin_ia32_pause();
        }
        for (;;)
        {
            int one = 1;
            if (__atomic_compare_exchange_n(&v, &one, 0, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) return;
            raw_futex(&v, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
        }
    }
    void post()
    {
        __atomic_store_n(&v, 1, __ATOMIC_RELEASE);
        raw_futex(&v, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
    }
};

enum class St { Free, Runnable, Blocked, Done };
enum class Why { None, Mutex, RwLock, Cond, Futex, Join, Sleep, Poll, Select, Guard, Once };

constexpr int MaxThreads = 64;
constexpr std::int64_t Never = INT64_MAX;

struct Th
{
    int id {0};
    St st {St::Free};
    Why why {Why::None};
    void *obj {nullptr};
    std::int64_t deadline {Never};
    bool timed_out {false};
    bool woken {false};
    Sem sem;
    pthread_t real {};
    bool joined {false};
    bool detached {false};
    void *(*fn)(void *) {nullptr};
    void *arg {nullptr};
    void *ret {nullptr};
    long prio {0};
    int nopreempt {0};
    // poll and select
    struct pollfd *pfds {nullptr};
    nfds_t npfds {0};
    int nsel {0};
    fd_set *rd {nullptr}, *wr {nullptr};
};

Th threads[MaxThreads];
int nthreads = 0;
Th *current = nullptr;
bool active = false;     // preemption enabled
std::int64_t vnow = 0;   // virtual nanoseconds
std::int64_t vstart = 0;
std::uint64_t nsteps = 0, max_steps = 50000000ull, max_ns = 3600ull * 1000000000ull;
std::uint64_t rng_state = 1;
vs::Policy policy;
std::uint64_t change_at[16];
long low_prio = 0;
void (*failure)(char const *) = nullptr;

__thread Th *tself = nullptr;
__thread bool tgone = false;

std::uint64_t rnd()
{
    std::uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

void fail(char const *what)
{
    active = false;
    if (failure) failure(what);
    fprintf(stderr, "vsched: %s\n", what);
    if (getenv("VS_ABORT")) abort();
    _exit(97);
}

Th *me()
{
    if (!tself && !tgone)
    {
        if (nthreads == 0)
        {
            Th &t = threads[0];
            nthreads = 1;
            t.id = 0;
            t.st = St::Runnable;
            t.real = pthread_self();
            tself = &t;
            current = &t;
        }
        else return nullptr;
    }
    return tself;
}

// -------------------------------------------------------------------- picking the next thread
bool poll_ready(Th &t)
{
    if (t.why == Why::Poll)
    {
        static auto real = REAL(poll);
        struct pollfd copy[64];
        memcpy(copy, t.pfds, sizeof(struct pollfd) * t.npfds);
        return real(copy, t.npfds, 0) != 0;
    }
    static auto real = REAL(select);
    fd_set r, w;
    FD_ZERO(&r);
    FD_ZERO(&w);
    if (t.rd) r = *t.rd;
    if (t.wr) w = *t.wr;
    struct timeval tv {0, 0};
    return real(t.nsel, &r, &w, nullptr, &tv) != 0;
}

void wake(Th &t, bool timed_out)
{
    t.timed_out = timed_out;
    t.woken = !timed_out;
    t.st = St::Runnable;
    t.why = Why::None;
    t.obj = nullptr;
    t.deadline = Never;
}

Th *earliest()
{
    Th *best = nullptr;
    for (int n = 0; n < nthreads; ++n)
    {
        Th &t = threads[n];
        if (t.st == St::Blocked && t.deadline != Never && (!best || t.deadline < best->deadline)) best = &t;
    }
    return best;
}

void expire(Th &t)
{
    if (t.deadline > vnow) vnow = t.deadline;
    if ((std::uint64_t)(vnow - vstart) > max_ns) fail("hang");
    wake(t, true);
}

Th *pick()
{
    for (int round = 0;; ++round)
    {
        Th *cand[MaxThreads];
        int n = 0;
        for (int k = 0; k < nthreads; ++k)
        {
            Th &t = threads[k];
            if (t.st == St::Blocked && t.deadline <= vnow) wake(t, true);
            else if (t.st == St::Blocked && (t.why == Why::Poll || t.why == Why::Select) && (round > 0 || rnd() % 3 == 0))
            {
                if (poll_ready(t)) wake(t, false);
            }
            else if (active && t.st == St::Blocked && t.why == Why::Cond && policy.spurious && rnd() % 1000 < policy.spurious)
                wake(t, false);
            if (t.st == St::Runnable) cand[n++] = &t;
        }
        if (n == 0)
        {
            if (round == 0) continue; // look at every poller
            Th *t = earliest();
            if (!t)
            {
                bool poller = false;
                for (int k = 0; k < nthreads; ++k)
                    poller |= threads[k].st == St::Blocked && (threads[k].why == Why::Poll || threads[k].why == Why::Select);
                if (poller && round < 200) { usleep(1000); continue; }
                fail("deadlock");
            }
            expire(*t);
            continue;
        }
        if (active && policy.early_timeout && rnd() % 1000 < policy.early_timeout)
        {
            if (Th *t = earliest())
            {
                expire(*t);
                return t;
            }
        }
        if (!active || policy.kind == 0) return cand[rnd() % (unsigned)n];
        Th *best = cand[0];
        for (int k = 1; k < n; ++k) if (cand[k]->prio > best->prio) best = cand[k];
        return best;
    }
}

// Hand over to `next`; the caller waits unless it is gone for good.
void hand_over(Th *self, Th *next, bool wait)
{
    if (next == self) return;
    current = next;
    next->sem.post();
    if (wait) self->sem.wait();
}

void reschedule()
{
    Th *self = me();
    hand_over(self, pick(), true);
}

// Block the calling thread; returns true when the wait timed out.
bool block(Why why, void *obj, std::int64_t deadline)
{
    Th *self = me();
    self->st = St::Blocked;
    self->why = why;
    self->obj = obj;
    self->deadline = deadline;
    self->timed_out = false;
    reschedule();
    return self->timed_out;
}

void wake_all(Why why, void *obj)
{
    for (int n = 0; n < nthreads; ++n)
    {
        Th &t = threads[n];
        if (t.st == St::Blocked && t.why == why && t.obj == obj) wake(t, false);
    }
}

void wake_one(Why why, void *obj)
{
    Th *cand[MaxThreads];
    int n = 0;
    for (int k = 0; k < nthreads; ++k)
    {
        Th &t = threads[k];
        if (t.st == St::Blocked && t.why == why && t.obj == obj) cand[n++] = &t;
    }
    if (n) wake(*cand[rnd() % (unsigned)n], false);
}

inline void point()
{
    if (!active) return;
    Th *self = tself;
    if (!self || self != current || self->nopreempt) return;
    ++nsteps;
    if (nsteps > max_steps) fail("hang");
    if (policy.kind == 0)
    {
        if (rnd() % policy.den >= policy.num) return;
    }
    else
    {
        bool change = false;
        for (unsigned k = 0; k < policy.changes; ++k) change |= change_at[k] == nsteps;
        // an unfair schedule must not starve a thread that is being spun for
        if (nsteps % 20000 == 0) change = true;
        if (!change) return;
        self->prio = --low_prio;
    }
    reschedule();
}

std::int64_t abs_deadline(clockid_t clock, struct timespec const *ts);

// -------------------------------------------------------------------- objects: mutexes and the like
struct Obj
{
    void *addr;
    int owner;      // thread id + 1, 0: free
    int count;      // recursion or number of readers
    Obj *next;
};
Obj *table[4096];
Obj *free_objs = nullptr;

unsigned hash_of(void *p)
{
    auto x = (std::uintptr_t)p;
    return (unsigned)((x >> 3) ^ (x >> 15)) & 4095u;
}
Obj *find(void *addr, bool create)
{
    Obj **slot = &table[hash_of(addr)];
    for (Obj *o = *slot; o; o = o->next) if (o->addr == addr) return o;
    if (!create) return nullptr;
    Obj *o = free_objs;
    if (o) free_objs = o->next;
    else o = (Obj *)calloc(1, sizeof(Obj));
    o->addr = addr;
    o->owner = 0;
    o->count = 0;
    o->next = *slot;
    *slot = o;
    return o;
}
void drop(void *addr)
{
    Obj **slot = &table[hash_of(addr)];
    for (; *slot; slot = &(*slot)->next)
    {
        if ((*slot)->addr == addr)
        {
            Obj *o = *slot;
            *slot = o->next;
            o->next = free_objs;
            free_objs = o;
            return;
        }
    }
}

// -------------------------------------------------------------------- memory
// All of operator new lives in one reserved region with one state byte per 16 bytes.
constexpr std::size_t Region = 1ull << 36;
char *region = nullptr;
unsigned char *state = nullptr;   // 0: never used or recycled, 1: live, 2: freed
std::size_t region_used = 0;
int mem_lock = 0;
struct FreeBlock { FreeBlock *next; std::size_t size; };
constexpr int Classes = 40;
FreeBlock *ready[Classes];
FreeBlock *quarantine = nullptr;
// block header: 16 bytes before the payload
struct Head { std::size_t size; std::size_t pad; };

void lock_mem() { while (__atomic_exchange_n(&mem_lock, 1, __ATOMIC_ACQUIRE)) __builtin_ia32_pause(); }
void unlock_mem() { __atomic_store_n(&mem_lock, 0, __ATOMIC_RELEASE); }

int class_of(std::size_t n)
{
    int c = 0;
    std::size_t s = 16;
    while (s < n) { s <<= 1; ++c; }
    return c;
}

void *get_mem(std::size_t n)
{
    lock_mem();
    if (!region)
    {
        region = (char *)mmap(nullptr, Region, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        state = (unsigned char *)mmap(nullptr, Region / 16, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (region == MAP_FAILED || state == MAP_FAILED) { fprintf(stderr, "vsched: no memory region\n"); _exit(96); }
    }
    int c = class_of(n ? n : 1);
    std::size_t size = 16ull << c;
    char *p;
    if (ready[c])
    {
        p = (char *)ready[c] ;
        ready[c] = ready[c]->next;
    }
    else
    {
        if (region_used + size + 32 > Region) { unlock_mem(); return nullptr; }
        // 16 bytes of header and, after the block, an unused gap
        p = region + region_used + 16;
        region_used += size + 32;
    }
    Head *h = (Head *)(p - 16);
    h->size = size;
    h->pad = n;
    memset(state + (std::size_t)(p - region) / 16, 1, size / 16);
    unlock_mem();
    memset(p, 0xa5, size < 4096 ? size : 4096);
    return p;
}

void put_mem(void *ptr)
{
    if (!ptr) return;
    char *p = (char *)ptr;
    if (!region || p < region || p >= region + Region) { free(ptr); return; }
    lock_mem();
    unsigned char &s = state[(std::size_t)(p - region) / 16];
    if (s != 1)
    {
        unlock_mem();
        fail("double-free");
        return;
    }
    Head *h = (Head *)(p - 16);
    memset(&s, 2, h->size / 16);
    memset(p, 0xdd, h->size < 4096 ? h->size : 4096);
    FreeBlock *b = (FreeBlock *)p;
    b->next = quarantine;
    b->size = h->size;
    quarantine = b;
    unlock_mem();
}

void recycle()
{
    lock_mem();
    while (quarantine)
    {
        FreeBlock *b = quarantine;
        quarantine = b->next;
        int c = class_of(b->size);
        memset(state + (std::size_t)((char *)b - region) / 16, 0, b->size / 16);
        b->next = ready[c];
        ready[c] = b;
    }
    unlock_mem();
}

inline void check(void *addr)
{
    std::size_t off = (std::size_t)((char *)addr - region);
    if (off < Region && active && state[off / 16] == 2 && tself && !tself->nopreempt)
    {
        fail("use-after-free");
    }
}

std::int64_t ts_ns(struct timespec const *ts) { return (std::int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec; }
constexpr std::int64_t RealBase = 1700000000ll * 1000000000ll;

std::int64_t abs_deadline(clockid_t clock, struct timespec const *ts)
{
    std::int64_t ns = ts_ns(ts);
    if (clock == CLOCK_REALTIME) ns -= RealBase;
    return ns;
}

void *trampoline(void *p)
{
    Th *t = (Th *)p;
    tself = t;
    t->sem.wait();
    t->ret = t->fn(t->arg);
    t->st = St::Done;
    wake_all(Why::Join, t);
    tself = nullptr;
    tgone = true;
    Th *next = pick();
    current = next;
    next->sem.post();
    return t->ret;
}

void lock_obj(void *m, Why why, bool recursive)
{
    Th *self = me();
    if (!self) return;
    point();
    for (;;)
    {
        Obj *o = find(m, true);
        if (o->owner == 0) { o->owner = self->id + 1; o->count = 1; return; }
        if (recursive && o->owner == self->id + 1) { ++o->count; return; }
        block(why, m, Never);
    }
}

bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

void unlock_obj(void *m, Why why)
{
    Obj *o = find(m, false);
    Th *self = me();
    if (!o || !self || o->owner != self->id + 1)
    {
        if (self && active) fail("unlock-not-owned");
        return;
    }
    if (--o->count == 0)
    {
        o->owner = 0;
        wake_all(why, m);
        bool waiting = false;
        (void)waiting;
        drop(m);
    }
}

} // namespace

// -------------------------------------------------------------------- driver interface
namespace vs {

bool (*fault)(Call &) = nullptr;
void (*observe)(char const *, int, long) = nullptr;

Policy random_policy(std::uint64_t seed)
{
    std::uint64_t z = seed * 0x9e3779b97f4a7c15ull + 77;
    z ^= z >> 31;
    z *= 0xbf58476d1ce4e5b9ull;
    z ^= z >> 29;
    Policy p;
    if (z % 3 == 2)
    {
        p.kind = 1;
        p.changes = 1 + (unsigned)((z >> 8) % 6);
        static std::uint64_t const h[] = {300, 1000, 3000, 10000, 30000};
        p.horizon = h[(z >> 16) % 5];
    }
    else
    {
        static unsigned const d[] = {2, 5, 20, 60, 200, 1000};
        p.den = d[(z >> 16) % 6];
    }
    static unsigned const e[] = {0, 10, 60, 200};
    p.early_timeout = e[(z >> 24) % 4];
    p.spurious = (z >> 30) % 3 == 0 ? 20 : 0;
    return p;
}

void start(std::uint64_t seed, Policy const &p)
{
    Th *self = me();
    recycle();
    // forget threads which ended
    while (nthreads > 1 && threads[nthreads - 1].st == St::Done) { threads[nthreads - 1] = Th(); --nthreads; }
    rng_state = seed;
    policy = p;
    nsteps = 0;
    low_prio = 0;
    self->prio = (long)(rnd() % 1000) + 1;
    for (unsigned k = 0; k < 16; ++k) change_at[k] = 1 + rnd() % (p.horizon ? p.horizon : 1);
    vstart = vnow;
    active = true;
}

int stop()
{
    active = false;
    int alive = 0;
    for (int n = 1; n < nthreads; ++n) alive += threads[n].st != St::Done && threads[n].st != St::Free;
    return alive;
}

void calm(bool on)
{
    static Policy saved;
    if (on) { saved = policy; policy.kind = 0; policy.num = 1; policy.den = 4; policy.early_timeout = 0; }
    else policy = saved;
}

void on_failure(void (*h)(char const *)) { failure = h; }
void limits(std::uint64_t s, std::uint64_t ns) { max_steps = s; max_ns = ns; }
std::uint64_t now_ns() { return (std::uint64_t)(vnow - vstart); }
std::uint64_t steps() { return nsteps; }
void sleep_ns(std::uint64_t ns) { block(Why::Sleep, nullptr, vnow + (std::int64_t)ns); }
void yield() { if (me() && active && !tself->nopreempt) reschedule(); }
int self() { return me() ? tself->id : -1; }
Atomic::Atomic() { if (me()) ++tself->nopreempt; }
Atomic::~Atomic() { if (me()) --tself->nopreempt; }

} // namespace vs

// -------------------------------------------------------------------- memory
void *operator new(std::size_t n) { void *p = get_mem(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](std::size_t n) { void *p = get_mem(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(std::size_t n, std::nothrow_t const &) noexcept { return get_mem(n); }
void *operator new[](std::size_t n, std::nothrow_t const &) noexcept { return get_mem(n); }
void operator delete(void *p) noexcept { put_mem(p); }
void operator delete[](void *p) noexcept { put_mem(p); }
void operator delete(void *p, std::size_t) noexcept { put_mem(p); }
void operator delete[](void *p, std::size_t) noexcept { put_mem(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { put_mem(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { put_mem(p); }

extern "C" {

// -------------------------------------------------------------------- threads
int pthread_create(pthread_t *out, pthread_attr_t const *attr, void *(*fn)(void *), void *arg)
{
    static auto real = REAL(pthread_create);
    Th *self = me();
    if (!self) return real(out, attr, fn, arg);
    int id = -1;
    for (int n = 1; n < nthreads; ++n)
        if (threads[n].st == St::Free || (threads[n].st == St::Done && (threads[n].joined || threads[n].detached))) { id = n; break; }
    if (id < 0)
    {
        if (nthreads == MaxThreads) return EAGAIN;
        id = nthreads++;
    }
    Th &t = threads[id];
    t = Th();
    t.id = id;
    t.fn = fn;
    t.arg = arg;
    t.prio = (long)(rnd() % 1000) + 1;
    t.st = St::Blocked;
    t.why = Why::Once;
    int rc = real(&t.real, attr, trampoline, &t);
    if (rc != 0) { t.st = St::Free; return rc; }
    *out = t.real;
    t.st = St::Runnable;
    t.why = Why::None;
    point();
    return 0;
}

static Th *by_handle(pthread_t h)
{
    for (int n = 0; n < nthreads; ++n)
        if (threads[n].st != St::Free && !threads[n].joined && pthread_equal(threads[n].real, h)) return &threads[n];
    return nullptr;
}

int pthread_join(pthread_t h, void **ret)
{
    static auto real = REAL(pthread_join);
    Th *self = me();
    Th *t = self ? by_handle(h) : nullptr;
    if (!t) return real(h, ret);
    point();
    while (t->st != St::Done) block(Why::Join, t, Never);
    t->joined = true;
    return real(h, ret);
}

int pthread_detach(pthread_t h)
{
    static auto real = REAL(pthread_detach);
    if (Th *t = by_handle(h)) t->detached = true;
    return real(h);
}

int sched_yield() { vs::yield(); return 0; }

int pthread_once(pthread_once_t *once, void (*fn)())
{
    Th *self = me();
    if (!self) { static auto real = REAL(pthread_once); return real(once, fn); }
    // 0: not run, 1: running, 2: done
    int *v = (int *)once;
    point();
    while (*v == 1) block(Why::Once, once, Never);
    if (*v == 2) return 0;
    *v = 1;
    try { fn(); }
    catch (...) { *v = 0; wake_all(Why::Once, once); throw; }
    *v = 2;
    wake_all(Why::Once, once);
    return 0;
}

// guards of function-local statics
int __cxa_guard_acquire(long long *g)
{
    char *b = (char *)g;
    if (b[0]) return 0;
    if (!me()) { return b[0] ? 0 : 1; }
    while (b[1] && !b[0]) block(Why::Guard, g, Never);
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long *g)
{
    char *b = (char *)g;
    b[1] = 0;
    b[0] = 1;
    if (me()) wake_all(Why::Guard, g);
}
void __cxa_guard_abort(long long *g)
{
    char *b = (char *)g;
    b[1] = 0;
    if (me()) wake_all(Why::Guard, g);
}

// -------------------------------------------------------------------- mutexes
int pthread_mutex_init(pthread_mutex_t *m, pthread_mutexattr_t const *a)
{
    static auto real = REAL(pthread_mutex_init);
    drop(m);
    return real(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t *m) { drop(m); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
    check(m);
    lock_obj(m, Why::Mutex, is_recursive(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    Th *self = me();
    if (!self) return 0;
    check(m);
    point();
    Obj *o = find(m, true);
    if (o->owner == 0) { o->owner = self->id + 1; o->count = 1; return 0; }
    if (is_recursive(m) && o->owner == self->id + 1) { ++o->count; return 0; }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    check(m);
    unlock_obj(m, Why::Mutex);
    point();
    return 0;
}

// -------------------------------------------------------------------- reader/writer locks: owner = writer, count = readers
int pthread_rwlock_init(pthread_rwlock_t *m, pthread_rwlockattr_t const *) { memset(m, 0, sizeof(*m)); drop(m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *m) { drop(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    Th *self = me();
    if (!self) return 0;
    point();
    for (;;)
    {
        Obj *o = find(m, true);
        if (o->owner == 0 && o->count == 0) { o->owner = self->id + 1; return 0; }
        block(Why::RwLock, m, Never);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    Th *self = me();
    if (!self) return 0;
    point();
    for (;;)
    {
        Obj *o = find(m, true);
        if (o->owner == 0) { ++o->count; return 0; }
        block(Why::RwLock, m, Never);
    }
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
    Th *self = me();
    if (!self) return 0;
    Obj *o = find(m, true);
    if (o->owner == 0 && o->count == 0) { o->owner = self->id + 1; return 0; }
    return EBUSY;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
    if (!me()) return 0;
    Obj *o = find(m, true);
    if (o->owner == 0) { ++o->count; return 0; }
    return EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    Th *self = me();
    if (!self) return 0;
    Obj *o = find(m, false);
    if (!o) { if (active) fail("unlock-not-owned"); return 0; }
    if (o->owner == self->id + 1) o->owner = 0;
    else if (o->count > 0) --o->count;
    else if (active) fail("unlock-not-owned");
    if (o->owner == 0 && o->count == 0) drop(m);
    wake_all(Why::RwLock, m);
    point();
    return 0;
}

// -------------------------------------------------------------------- condition variables
int pthread_cond_init(pthread_cond_t *c, pthread_condattr_t const *) { memset(c, 0, sizeof(*c)); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, std::int64_t deadline)
{
    Th *self = me();
    if (!self) return 0;
    check(c);
    point();
    unlock_obj(m, Why::Mutex);
    bool late = block(Why::Cond, c, deadline);
    lock_obj(m, Why::Mutex, false);
    return late ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, Never); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, struct timespec const *ts)
{
    return cond_wait(c, m, abs_deadline(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clock, struct timespec const *ts)
{
    return cond_wait(c, m, abs_deadline(clock, ts));
}
int pthread_cond_signal(pthread_cond_t *c)
{
    if (!me()) return 0;
    check(c);
    point();
    wake_one(Why::Cond, c);
    point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!me()) return 0;
    check(c);
    point();
    wake_all(Why::Cond, c);
    point();
    return 0;
}

// -------------------------------------------------------------------- futexes (std::future, std::atomic::wait)
long syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (int k = 0; k < 6; ++k) a[k] = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && me())
    {
        int op = (int)a[1] & 127 & ~FUTEX_CLOCK_REALTIME;
        int *addr = (int *)a[0];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            point();
            if (*(int volatile *)addr != (int)a[2]) { errno = EAGAIN; return -1; }
            std::int64_t deadline = Never;
            if (a[3])
            {
                auto *ts = (struct timespec const *)a[3];
                deadline = op == FUTEX_WAIT ? vnow + ts_ns(ts) :
                           abs_deadline((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            if (block(Why::Futex, addr, deadline)) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            wake_all(Why::Futex, addr);
            point();
            return 1;
        }
    }
    static auto real = REAL(syscall);
    return real(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// -------------------------------------------------------------------- time
int clock_gettime(clockid_t clock, struct timespec *ts)
{
    if (!me()) { static auto real = REAL(clock_gettime); return real(clock, ts); }
    vnow += 100;
    std::int64_t ns = vnow + (clock == CLOCK_REALTIME ? RealBase : 0);
    ts->tv_sec = ns / 1000000000ll;
    ts->tv_nsec = ns % 1000000000ll;
    return 0;
}
time_t time(time_t *out)
{
    time_t t = (vnow + RealBase) / 1000000000ll;
    if (out) *out = t;
    return t;
}
int nanosleep(struct timespec const *ts, struct timespec *)
{
    if (!me()) { static auto real = REAL(nanosleep); return real(ts, nullptr); }
    block(Why::Sleep, nullptr, vnow + ts_ns(ts));
    return 0;
}
int clock_nanosleep(clockid_t clock, int flags, struct timespec const *ts, struct timespec *)
{
    if (!me()) return 0;
    block(Why::Sleep, nullptr, (flags & TIMER_ABSTIME) ? abs_deadline(clock, ts) : vnow + ts_ns(ts));
    return 0;
}

// -------------------------------------------------------------------- waiting for descriptors
static bool faulted(vs::Call &c)
{
    if (!vs::fault || !active) return false;
    vs::Atomic a;
    if (!vs::fault(c)) return false;
    errno = c.err;
    if (vs::observe) vs::observe(c.name, c.fd, c.result);
    errno = c.err;
    return true;
}
static long seen(char const *name, int fd, long r)
{
    if (vs::observe && active)
    {
        int e = errno;
        vs::Atomic a;
        vs::observe(name, fd, r);
        errno = e;
    }
    return r;
}

int poll(struct pollfd *fds, nfds_t n, int timeout)
{
    static auto real = REAL(poll);
    Th *self = me();
    if (!self || n > 64) return real(fds, n, timeout);
    vs::Call c {"poll", n ? fds[0].fd : -1, 0, 0, 0};
    if (faulted(c)) return (int)c.result;
    point();
    int r = real(fds, n, 0);
    if (r != 0 || timeout == 0) return r;
    self->pfds = fds;
    self->npfds = n;
    block(Why::Poll, fds, timeout < 0 ? Never : vnow + timeout * 1000000ll);
    return real(fds, n, 0);
}

int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    static auto real = REAL(select);
    Th *self = me();
    if (!self) return real(n, r, w, x, tv);
    vs::Call c {"select", -1, 0, 0, 0};
    if (faulted(c)) return (int)c.result;
    point();
    fd_set r0, w0;
    FD_ZERO(&r0);
    FD_ZERO(&w0);
    if (r) r0 = *r;
    if (w) w0 = *w;
    struct timeval zero {0, 0};
    int rc = real(n, r, w, x, &zero);
    if (rc != 0 || (tv && tv->tv_sec == 0 && tv->tv_usec == 0)) return rc;
    if (r) *r = r0;
    if (w) *w = w0;
    self->nsel = n;
    self->rd = r;
    self->wr = w;
    block(Why::Select, r, tv ? vnow + tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll : Never);
    zero = {0, 0};
    return real(n, r, w, x, &zero);
}

// A blocking descriptor is waited for in virtual time.
static void wait_fd(int fd, short events)
{
    Th *self = me();
    if (!self) return;
    int fl = fcntl(fd, F_GETFL, 0);
    if (fl < 0 || (fl & O_NONBLOCK)) { point(); return; }
    struct pollfd p {fd, events, 0};
    static auto real = REAL(poll);
    point();
    while (real(&p, 1, 0) == 0)
    {
        self->pfds = &p;
        self->npfds = 1;
        block(Why::Poll, &p, Never);
    }
}

ssize_t send(int fd, void const *buf, size_t n, int flags)
{
    static auto real = REAL(send);
    vs::Call c {"send", fd, n, 0, 0};
    if (faulted(c)) return c.result;
    if (c.size) wait_fd(fd, POLLOUT);
    return seen("send", fd, real(fd, buf, c.size, flags));
}
ssize_t sendto(int fd, void const *buf, size_t n, int flags, struct sockaddr const *a, socklen_t l)
{
    static auto real = REAL(sendto);
    vs::Call c {"sendto", fd, n, 0, 0};
    if (faulted(c)) return c.result;
    point();
    return seen("sendto", fd, real(fd, buf, c.size, flags, a, l));
}
ssize_t recv(int fd, void *buf, size_t n, int flags)
{
    static auto real = REAL(recv);
    vs::Call c {"recv", fd, n, 0, 0};
    if (faulted(c)) return c.result;
    wait_fd(fd, POLLIN);
    return seen("recv", fd, real(fd, buf, c.size, flags));
}
ssize_t recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *a, socklen_t *l)
{
    static auto real = REAL(recvfrom);
    vs::Call c {"recvfrom", fd, n, 0, 0};
    if (faulted(c)) return c.result;
    wait_fd(fd, POLLIN);
    return seen("recvfrom", fd, real(fd, buf, c.size, flags, a, l));
}
int accept(int fd, struct sockaddr *a, socklen_t *l)
{
    static auto real = REAL(accept);
    vs::Call c {"accept", fd, 0, 0, 0};
    if (faulted(c)) return (int)c.result;
    wait_fd(fd, POLLIN);
    return (int)seen("accept", fd, real(fd, a, l));
}
int connect(int fd, struct sockaddr const *a, socklen_t l)
{
    static auto real = REAL(connect);
    vs::Call c {"connect", fd, 0, 0, 0};
    if (faulted(c)) return (int)c.result;
    point();
    return (int)seen("connect", fd, real(fd, a, l));
}
int socket(int d, int t, int p)
{
    static auto real = REAL(socket);
    return (int)seen("socket", -1, real(d, t, p));
}
int close(int fd)
{
    static auto real = REAL(close);
    if (me()) point();
    return (int)seen("close", fd, real(fd));
}
ssize_t read(int fd, void *buf, size_t n)
{
    static auto real = REAL(read);
    if (me() && active)
    {
        vs::Call c {"read", fd, n, 0, 0};
        if (faulted(c)) return c.result;
        n = c.size;
    }
    return real(fd, buf, n);
}

// -------------------------------------------------------------------- instrumentation
#define ACCESS(name) void __tsan_##name(void *a) { check(a); point(); }
ACCESS(read1) ACCESS(read2) ACCESS(read4) ACCESS(read8) ACCESS(read16)
ACCESS(write1) ACCESS(write2) ACCESS(write4) ACCESS(write8) ACCESS(write16)
ACCESS(unaligned_read2) ACCESS(unaligned_read4) ACCESS(unaligned_read8) ACCESS(unaligned_read16)
ACCESS(unaligned_write2) ACCESS(unaligned_write4) ACCESS(unaligned_write8) ACCESS(unaligned_write16)
ACCESS(volatile_read1) ACCESS(volatile_read2) ACCESS(volatile_read4) ACCESS(volatile_read8) ACCESS(volatile_read16)
ACCESS(volatile_write1) ACCESS(volatile_write2) ACCESS(volatile_write4) ACCESS(volatile_write8) ACCESS(volatile_write16)
ACCESS(unaligned_volatile_read2) ACCESS(unaligned_volatile_read4) ACCESS(unaligned_volatile_read8)
ACCESS(unaligned_volatile_write2) ACCESS(unaligned_volatile_write4) ACCESS(unaligned_volatile_write8)
void __tsan_init() { }
void __tsan_func_entry(void *) { }
void __tsan_func_exit() { }
void __tsan_read_range(void *a, unsigned long) { check(a); point(); }
void __tsan_write_range(void *a, unsigned long) { check(a); point(); }
void __tsan_vptr_update(void **a, void *) { check(a); point(); }
void __tsan_vptr_read(void **a) { check(a); point(); }
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) { }

#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(T const volatile *a, int) { check((void *)a); point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(T volatile *a, T v, int) { check((void *)a); point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(T volatile *a, T v, int) { check((void *)a); point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(T volatile *a, T v, int) { check((void *)a); point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(T volatile *a, T v, int) { check((void *)a); point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(T volatile *a, T v, int) { check((void *)a); point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(T volatile *a, T v, int) { check((void *)a); point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(T volatile *a, T v, int) { check((void *)a); point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(T volatile *a, T v, int) { check((void *)a); point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(T volatile *a, T *e, T v, int, int) { check((void *)a); point(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(T volatile *a, T *e, T v, int, int) { check((void *)a); point(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(T volatile *a, T e, T v, int, int) { check((void *)a); point(); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

} // extern "C"
