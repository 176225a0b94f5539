// Drives SocketService directly: requests on many sockets, from several threads and from answers,
// with sockets closed, released and reopened (reusing descriptors), and interrupted polling.
#include "net.hpp"

#include <set>

using Endpoint = fly::net::Endpoint<fly::net::IPv4Address>;
using Udp = fly::net::UdpSocket<Endpoint>;

struct Slot
{
    int s {0};
    int fd {-1};
    sockaddr_in where {};
    std::shared_ptr<Udp> socket;
    std::map<int, int> asking; // requests being made, by socket: a socket is not closed meanwhile
};

struct World
{
    std::shared_ptr<SocketService> service;
    std::vector<Slot> slots;
    int next_socket {1}, next_request {1};
    int budget {30};
    int intr {0};
    int sender {-1};
    std::set<int> closed; // also while they are being closed, which takes a while
    Rng rng {1};
};
static World *W = nullptr;

static std::uint64_t pick(std::uint64_t n)
{
    vs::Atomic a;
    return W->rng.below(n);
}

static bool inject(vs::Call &c)
{
    if (W && !strcmp(c.name, "select") && W->rng.chance(W->intr, 1000))
    {
        c.result = -1;
        c.err = EINTR;
        return true;
    }
    return false;
}

static void open_slot(std::size_t k)
{
    std::shared_ptr<Udp> socket;
    std::shared_ptr<SocketService> service;
    {
        vs::Atomic a;
        if (W->slots[k].socket || !W->service) return;
        service = W->service;
    }
    socket = service->create_socket<Udp>();
    vs::Atomic a;
    auto &slot = W->slots[k];
    if (slot.socket) return;
    if (!socket->bind(Endpoint(fly::net::IPv4Address::in_addr_loopback(), 0), fly::net::BindMode::AllowReuse)) std::abort();
    slot.s = W->next_socket++;
    slot.fd = socket->handle();
    socklen_t l = sizeof(slot.where);
    ::getsockname(slot.fd, (sockaddr *)&slot.where, &l);
    slot.socket = std::move(socket);
    emit(Ev("open").i("s", slot.s));
}

static void take(int s, std::shared_ptr<Udp> const &socket)
{
    char b[8];
    long n = ::syscall(SYS_recvfrom, socket->handle(), b, sizeof(b), MSG_DONTWAIT, nullptr, nullptr);
    emit(Ev("take").i("s", s).b("ok", n > 0));
}

static void act(int depth);

static void request(std::size_t k)
{
    std::shared_ptr<Udp> socket;
    std::shared_ptr<SocketService> service;
    int r, s;
    bool read;
    {
        vs::Atomic a;
        if (W->budget <= 0 || !W->slots[k].socket || !W->service) return;
        --W->budget;
        socket = W->slots[k].socket;
        service = W->service;
        s = W->slots[k].s;
        if (!socket->is_open() || W->closed.count(s)) return;
        r = W->next_request++;
        ++W->slots[k].asking[s];
        read = W->rng.chance(2, 3);
        emit(Ev("request").i("r", r).i("s", s).s("kind", read ? "read" : "write"));
    }
    Udp *expected = socket.get();
    auto answer = [r, s, expected, read](std::shared_ptr<Udp> given) {
        {
            vs::Atomic a;
            emit(Ev("begin").i("r", r).b("right", given.get() == expected));
            // Readiness is only promised until somebody reads, so nobody else does.
            if (read && given && given->is_open() && !W->closed.count(s) && W->rng.chance(2, 3)) take(s, given);
        }
        vs::yield();
        if (pick(3) == 0) act(1);
        given.reset();
        vemit(Ev("end").i("r", r));
    };
    if (read) service->notify_when_readable(socket, std::move(answer));
    else service->notify_when_writable(socket, std::move(answer));
    {
        vs::Atomic a;
        emit(Ev("requested").i("r", r));
        --W->slots[k].asking[s];
    }
}

static void act(int depth)
{
    std::size_t k = pick(W->slots.size());
    std::uint64_t what = pick(20);
    if (what < 10) request(k);
    else if (what < 15)
    {
        vs::Atomic a;
        auto &slot = W->slots[k];
        if (!slot.socket || !slot.socket->is_open() || W->closed.count(slot.s)) return;
        emit(Ev("arrive").i("s", slot.s));
        char x = 'x';
        if (::syscall(SYS_sendto, W->sender, &x, 1, 0, &slot.where, sizeof(slot.where)) != 1) std::abort();
    }
    else if (what < 16)
    {
        std::shared_ptr<Udp> socket;
        {
            vs::Atomic a;
            auto &slot = W->slots[k];
            if (!slot.socket || !slot.socket->is_open() || W->closed.count(slot.s) || slot.asking[slot.s] > 0) return;
            socket = slot.socket;
            W->closed.insert(slot.s);
            emit(Ev("close").i("s", slot.s));
            socket->close();
        }
        std::shared_ptr<Udp> last;
        {
            vs::Atomic a;
            if (W->rng.chance(1, 2) && W->slots[k].socket == socket)
            {
                emit(Ev("release").i("s", W->slots[k].s));
                last = std::move(W->slots[k].socket);
            }
        }
    }
    else if (what < 18)
    {
        std::shared_ptr<Udp> socket;
        std::weak_ptr<Udp> weak;
        int s;
        {
            vs::Atomic a;
            auto &slot = W->slots[k];
            if (!slot.socket) return;
            s = slot.s;
            emit(Ev("release").i("s", s));
            socket = std::move(slot.socket);
            weak = socket;
        }
        socket.reset();
        vs::Atomic a;
        if (weak.expired()) emit(Ev("dead").i("s", s));
    }
    else open_slot(k);
    if (depth == 0 && pick(4) == 0) vs::sleep_ns(3000000);
}

static void quiesce()
{
    vs::calm(true);
    vs::sleep_ns(400000000ull);
    vs::calm(false);
    vemit(Ev("quiet"));
}

static void scenario(long, Rng &rng)
{
    World w;
    W = &w;
    w.rng = Rng(rng.next());
    w.budget = 6 + (int)rng.below(20);
    w.intr = rng.chance(1, 3) ? 150 : 0;
    w.sender = ::socket(AF_INET, SOCK_DGRAM, 0);
    auto tasks = fly::task::TaskManager::create(1 + (std::uint32_t)rng.below(3));
    auto runner = fly::task::SequencedTaskRunner::create(tasks);
    w.service = SocketService::create(runner, std::make_shared<Config>(64, 10000));
    w.slots.resize(1 + rng.below(4));
    for (std::size_t k = 0; k < w.slots.size(); ++k) open_slot(k);
    vs::fault = inject;
    int rounds = 1 + (int)rng.below(2);
    for (int n = 0; n < rounds; ++n)
    {
        std::vector<std::thread> threads;
        int extra = (int)rng.below(3);
        for (int t = 0; t < extra; ++t) threads.emplace_back([c = 2 + rng.below(8)]() { for (std::uint64_t k = 0; k < c; ++k) act(0); });
        for (std::uint64_t c = 4 + rng.below(16); c > 0; --c) act(0);
        for (auto &t : threads) t.join();
        if (rng.chance(3, 4)) quiesce();
    }
    if (rng.chance(1, 3)) act(0);
    std::weak_ptr<SocketService> weak = w.service;
    std::shared_ptr<SocketService> last;
    {
        vs::Atomic a;
        emit(Ev("release_service"));
        last = std::move(w.service);
    }
    last.reset();
    if (rng.chance(1, 2)) quiesce();
    tasks->stop();
    vemit(Ev("service_gone").b("expired", weak.expired()));
    for (auto &slot : w.slots) slot.socket.reset();
    runner.reset();
    tasks.reset();
    vs::fault = nullptr;
    ::syscall(SYS_close, w.sender);
    W = nullptr;
}

int main(int argc, char **argv)
{
    no_logging();
    return main_loop(argc, argv, [](long id, Rng &rng) {
        std::uint64_t seed = rng.next();
        episode(seed, vs::random_policy(seed), [&]() {
            if (rng.chance(1, 20)) crowd();
            int before = descriptors();
            scenario(id, rng);
            emit(Ev("descriptors").i("left", descriptors() - before));
        });
    }, true);
}
