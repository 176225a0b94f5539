// Drives TcpSocket and ListenSocket over loopback under controlled schedules, with injected
// short transfers, errors and interruptions.
#include "net.hpp"

#include <mutex>

static unsigned char content(int p, bool from_client, std::size_t k)
{
    return (unsigned char)(33 + (k * 7 + k / 61 + (std::size_t)p * 13 + (from_client ? 5 : 0)) % 90);
}

// what is shared with the hooks
struct Net
{
    std::map<int, int> fds;   // descriptor -> socket
    std::map<int, int> ports; // local port -> client
    Rng rng {1};
    int hard {0}, shorter {0}, block {0}, intr {0}; // chances in 1000
    bool on {false};
};
static Net N;

static bool inject(vs::Call &c)
{
    if (!N.on) return false;
    std::string name(c.name);
    if (name == "select")
    {
        if (!N.rng.chance(N.intr, 1000)) return false;
        c.result = -1;
        c.err = EINTR;
        return true;
    }
    auto it = N.fds.find(c.fd);
    if (it == N.fds.end()) return false;
    bool io = name == "send" || name == "recv";
    if ((io || name == "accept" || name == "connect") && N.rng.chance(name == "connect" ? N.hard * 2 : N.hard, 1000))
    {
        emit(Ev("fault").i("s", it->second));
        c.result = -1;
        c.err = name == "accept" ? EMFILE : name == "connect" ? EHOSTUNREACH : ECONNRESET;
        return true;
    }
    bool nonblocking = ::fcntl(c.fd, F_GETFL, 0) & O_NONBLOCK;
    if (nonblocking && (io || name == "accept") && N.rng.chance(N.block, 1000))
    {
        c.result = -1;
        c.err = EWOULDBLOCK;
        return true;
    }
    if (io && c.size > 1 && N.rng.chance(N.shorter, 1000)) c.size = 1 + N.rng.below(c.size - 1);
    return false;
}

static void observed(char const *name, int fd, long result)
{
    if (!strcmp(name, "connect"))
    {
        auto it = N.fds.find(fd);
        int port = port_of(fd, false);
        if (it != N.fds.end() && port > 0) N.ports[port] = it->second;
    }
    else if (!strcmp(name, "close")) N.fds.erase(fd);
}

template <typename Address>
struct Run
{
    using Endpoint = fly::net::Endpoint<Address>;
    using Listen = fly::net::ListenSocket<Endpoint>;
    using Tcp = fly::net::TcpSocket<Endpoint>;

    struct End
    {
        std::recursive_mutex use; // a socket is used by one thread at a time
        int s {0}, p {0};
        bool client {false}, async {false};
        std::shared_ptr<Tcp> socket;
        std::vector<std::size_t> sends; // planned
        std::size_t next {0};
        std::size_t expect {0}, received {0}, sent {0};
        int extra {0};          // receives beyond what is expected
        int close_after {-1};   // close after this many completed operations
        int release_after {-1};
        int done {0};
        bool receiving {false}, sending {false}, full {true};
        std::string message;
    };
    struct Plan { std::vector<std::size_t> up, down; };

    Rng &rng;
    std::shared_ptr<NetworkConfig> config;
    std::shared_ptr<SocketService> service;
    std::shared_ptr<Listen> listener;
    int ls {0};
    int next_id {1}, next_op {1};
    std::uint16_t port {0};
    std::size_t packet;
    bool small {false};
    std::map<int, Plan> plans;
    std::vector<std::shared_ptr<End>> ends;
    std::vector<std::thread> threads;
    int accepts_left {0};
    bool server_async {true};
    static inline Run *R = nullptr;

    explicit Run(Rng &r) : rng(r) { }

    static std::size_t sum(std::vector<std::size_t> const &v) { std::size_t t = 0; for (auto x : v) t += x; return t; }

    void plan_end(std::shared_ptr<End> const &e)
    {
        Plan &pl = plans[e->p];
        e->sends = e->client ? pl.up : pl.down;
        e->expect = sum(e->client ? pl.down : pl.up);
        e->extra = e->async ? (int)rng.below(2) : 0;
        if (e->async && rng.chance(1, 5)) e->close_after = (int)rng.below(5);
        else if (e->async && rng.chance(1, 6)) e->release_after = (int)rng.below(5);
        ends.push_back(e);
        if (e->socket)
        {
            // the kernel must not wait for real time to pass
            int one = 1;
            ::setsockopt(e->socket->handle(), IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
        }
        if (small && e->socket)
        {
            int size = 2048;
            ::setsockopt(e->socket->handle(), SOL_SOCKET, SO_SNDBUF, &size, sizeof(size));
        }
    }

    int start(char const *kind, int s, std::size_t m, bool sync)
    {
        int o = next_op++;
        emit(Ev("start").i("o", o).s("kind", kind).i("s", s).i("m", (long long)m).b("sync", sync));
        return o;
    }
    void is_open(End &e) { emit(Ev("is_open").i("s", e.s).b("open", e.socket && e.socket->is_open())); }

    void fill(End &e)
    {
        e.message.clear();
        for (std::size_t k = 0; k < e.sends[e.next]; ++k) e.message += (char)content(e.p, e.client, e.sent + k);
        ++e.next;
    }
    void got(End &e, int o, std::string const &data)
    {
        bool same = true;
        for (std::size_t k = 0; k < data.size(); ++k)
            if ((unsigned char)data[k] != content(e.p, !e.client, e.received + k)) same = false;
        e.received += data.size();
        emit(Ev("recv_end").i("o", o).i("n", (long long)data.size()).b("same", same).i("limit", (long long)packet));
    }

    // ---------------------------------------------------------------- asynchronous ends
    // After a completion, on the service's sequence or on the thread which began it.
    void wind_up(std::shared_ptr<End> const &e)
    {
        std::lock_guard<std::recursive_mutex> use(e->use);
        bool drop = false;
        {
            vs::Atomic a;
            ++e->done;
            if (e->socket && e->done == e->close_after)
            {
                emit(Ev("close").i("s", e->s));
                e->socket->close();
                is_open(*e);
            }
            drop = e->socket && e->done == e->release_after;
            if (drop) emit(Ev("release").i("s", e->s));
        }
        if (drop)
        {
            std::shared_ptr<Tcp> gone;
            {
                vs::Atomic a;
                gone = std::move(e->socket);
            }
            gone.reset();
        }
    }
    void pump(std::shared_ptr<End> const &e)
    {
        std::lock_guard<std::recursive_mutex> use(e->use);
        for (int k = 0; k < 2; ++k)
        {
            std::shared_ptr<Tcp> socket;
            bool send = k == 0;
            int o = 0;
            {
                vs::Atomic a;
                socket = e->socket;
                if (!socket) return;
                bool open = socket->is_open();
                // an operation on a closed socket now and then
                if (!open && !N.rng.chance(1, 8)) return;
                if (send && !e->sending && e->next < e->sends.size() && (e->full || !e->receiving))
                {
                    fill(*e);
                    e->sending = true;
                    o = start("send", e->s, e->message.size(), false);
                }
                else if (!send && !e->receiving && (e->received < e->expect || e->extra > 0))
                {
                    if (e->received >= e->expect) --e->extra;
                    e->receiving = true;
                    o = start("recv", e->s, 0, false);
                }
                else continue;
            }
            bool ok;
            if (send)
                ok = socket->send_async(e->message, [this, e, o](std::size_t n) {
                    {
                        vs::Atomic a;
                        e->sent += n;
                        e->sending = false;
                        emit(Ev("send_end").i("o", o).i("n", (long long)n));
                        is_open(*e);
                    }
                    wind_up(e);
                    pump(e);
                });
            else
                ok = socket->receive_async([this, e, o](std::string data) {
                    {
                        vs::Atomic a;
                        e->receiving = false;
                        got(*e, o, data);
                        is_open(*e);
                    }
                    wind_up(e);
                    if (!data.empty()) pump(e);
                });
            if (!ok) vemit(Ev("refused").i("o", o));
        }
    }

    void add_server_end(int o, std::shared_ptr<Tcp> socket)
    {
        std::shared_ptr<End> e;
        {
            vs::Atomic a;
            e = std::make_shared<End>();
            e->s = next_id++;
            e->async = server_async;
            int p = -1;
            if (auto it = N.ports.find(port_of(socket->handle(), true)); it != N.ports.end()) p = it->second;
            else if (auto r = socket->remote_endpoint(); r) { if (auto i2 = N.ports.find(r->port()); i2 != N.ports.end()) p = i2->second; }
            if (p == -1)
            {
                // the other end is gone already: there is no telling which connection this was
                p = unknown();
            }
            e->p = p;
            e->socket = socket;
            N.fds[socket->handle()] = e->s;
            emit(Ev("accept_end").i("o", o).i("p", p).i("s", e->s));
            plan_end(e);
            is_open(*e);
        }
        if (e->async) pump(e);
        else
        {
            vs::Atomic a;
            threads2.emplace_back([this, e]() { talk(e); });
        }
    }
    std::vector<std::thread> threads2;
    int unknown()
    {
        // the client which tried and has no accepted end yet, if there is just one
        int found = -1;
        for (auto &[p, pl] : plans)
        {
            bool has = false;
            for (auto &e : ends) if (!e->client && e->p == p) has = true;
            if (!has) found = p;
        }
        return found;
    }

    void accept_next()
    {
        std::shared_ptr<Listen> l;
        int o;
        {
            vs::Atomic a;
            if (accepts_left <= 0 || !listener || !listener->is_open()) return;
            --accepts_left;
            l = listener;
            o = start("accept", ls, 0, false);
        }
        bool ok = l->accept_async([this, o](std::shared_ptr<Tcp> socket) {
            if (!socket) vemit(Ev("accept_end").i("o", o).i("p", 0).i("s", 0));
            else add_server_end(o, socket);
            accept_next();
        });
        if (!ok) vemit(Ev("refused").i("o", o));
    }

    // ---------------------------------------------------------------- synchronous ends
    void talk(std::shared_ptr<End> const &e)
    {
        while (e->socket->is_open() && e->next < e->sends.size())
        {
            int o;
            {
                vs::Atomic a;
                fill(*e);
                o = start("send", e->s, e->message.size(), true);
            }
            std::size_t n = e->socket->send(e->message);
            vs::Atomic a;
            e->sent += n;
            emit(Ev("send_end").i("o", o).i("n", (long long)n));
            is_open(*e);
            if (n < e->message.size()) e->next = e->sends.size();
        }
        while (e->socket->is_open() && e->received < e->expect)
        {
            int o;
            {
                vs::Atomic a;
                o = start("recv", e->s, 0, true);
            }
            std::string data = e->socket->receive();
            vs::Atomic a;
            got(*e, o, data);
            is_open(*e);
        }
        vs::Atomic a;
        emit(Ev("close").i("s", e->s));
        e->socket->close();
        is_open(*e);
    }

    void connect(bool async, bool by_name)
    {
        auto e = std::make_shared<End>();
        int o;
        {
            vs::Atomic a;
            e->s = e->p = next_id++;
            e->client = true;
            e->async = async;
            if (async) e->socket = service->template create_socket<Tcp>();
            else e->socket = std::make_shared<Tcp>(config, IOMode::Synchronous);
            N.fds[e->socket->handle()] = e->s;
            emit(Ev("client").i("s", e->s));
            Plan &pl = plans[e->p];
            auto amount = [&]() -> std::size_t { return packet > 20 && rng.chance(1, 12) ? 1 + rng.below(3000) : small && rng.chance(1, 2) ? 10000 + rng.below(12000) : 1 + rng.below(packet > 4 ? 40 : 8); };
            for (std::uint64_t k = rng.below(4); k > 0; --k) pl.up.push_back(amount());
            for (std::uint64_t k = rng.below(4); k > 0; --k) pl.down.push_back(amount());
            plan_end(e);
            o = start("connect", e->s, 0, !async);
        }
        auto address = Address::in_addr_loopback();
        std::string name = Endpoint::is_ipv4() ? "127.0.0.1" : "::1";
        auto socket = e->socket;
        if (async)
        {
            auto done = [this, e, o](ConnectedState state) {
                {
                    vs::Atomic a;
                    emit(Ev("connect_end").i("o", o).s("state", state == ConnectedState::Connected ? "connected" : state == ConnectedState::Disconnected ? "disconnected" : "connecting"));
                    is_open(*e);
                }
                wind_up(e);
                if (state == ConnectedState::Connected) pump(e);
            };
            auto state = by_name ? socket->connect_async(name, port, done) : socket->connect_async(Endpoint(address, port), done);
            if (state != ConnectedState::Connecting) done(state);
        }
        else
        {
            auto state = by_name ? socket->connect(name, port) : socket->connect(Endpoint(address, port));
            {
                vs::Atomic a;
                emit(Ev("connect_end").i("o", o).s("state", state == ConnectedState::Connected ? "connected" : state == ConnectedState::Disconnected ? "disconnected" : "connecting"));
                is_open(*e);
            }
            if (state == ConnectedState::Connected) talk(e);
        }
    }

    // something which is in the hands of the kernel
    bool under_way()
    {
        for (auto &e : ends)
        {
            if (!e->socket || !e->socket->is_open()) continue;
            std::shared_ptr<End> f;
            for (auto &x : ends) if (x->p == e->p && x->client != e->client) f = x;
            if (!f) { if (e->receiving || e->sending) return true; continue; }
            bool there = f->socket && f->socket->is_open();
            if (e->receiving && (e->received < f->sent || f->sending || !there)) return true;
            if (e->sending && (!there || f->receiving)) return true;
        }
        return false;
    }
    void quiesce()
    {
        vs::calm(true);
        for (int k = 0; k < (small ? 500 : 60); ++k)
        {
            vs::sleep_ns(100000000ull);
            vs::Atomic a;
            if (!under_way()) break;
            // the kernel may take its (real) time to move data
            struct timespec ts {0, 1000000};
            ::syscall(SYS_nanosleep, &ts, nullptr);
        }
        vs::sleep_ns(200000000ull);
        vs::calm(false);
        vemit(Ev("quiet"));
    }

    void run()
    {
        N = Net();
        N.rng = Rng(rng.next());
        packet = rng.chance(1, 3) ? 1 + rng.below(16) : rng.chance(1, 2) ? 4096 : 64;
        config = std::make_shared<Config>(packet, 10000);
        auto tasks = fly::task::TaskManager::create(1 + (std::uint32_t)rng.below(2));
        auto runner = fly::task::SequencedTaskRunner::create(tasks);
        service = SocketService::create(runner, config);
        int clients = 1 + (int)rng.below(3);
        server_async = rng.chance(2, 3);
        bool faults = rng.chance(1, 2);
        if (faults)
        {
            N.shorter = rng.chance(1, 2) ? 300 : 0;
            N.block = rng.chance(1, 2) ? 200 : 0;
            N.intr = rng.chance(1, 3) ? 100 : 0;
            N.hard = rng.chance(1, 3) ? 40 : 0;
        }
        bool calm_server = !server_async; // a blocking accept needs every client to come
        if (calm_server) N.hard = 0;
        std::vector<bool> async;
        bool all_async = server_async;
        for (int k = 0; k < clients; ++k) { async.push_back(rng.chance(2, 3)); all_async = all_async && async.back(); }
        small = all_async && rng.chance(1, 6);
        if (small) { packet = 4096; config = std::make_shared<Config>(packet, 10000); service = SocketService::create(runner, config); }

        // the listener
        if (server_async) listener = service->template create_socket<Listen>();
        else listener = std::make_shared<Listen>(config, IOMode::Synchronous);
        ls = next_id++;
        N.fds[listener->handle()] = ls;
        emit(Ev("listener").i("s", ls));
        bool bound = rng.chance(1, 2) ? listener->bind(Endpoint(Address::in_addr_loopback(), 0), fly::net::BindMode::AllowReuse) :
                                        listener->bind(Endpoint::is_ipv4() ? "127.0.0.1" : "::1", 0, fly::net::BindMode::SingleUse);
        if (!bound) std::abort();
        port = listener->local_endpoint()->port();
        bool listens = !server_async || rng.chance(9, 10);
        if (listens)
        {
            bool ok = listener->listen();
            emit(Ev("listen").i("s", ls).b("ok", ok && listener->is_listening()));
        }
        N.on = true;
        vs::fault = inject;
        vs::observe = observed;

        accepts_left = clients + (server_async ? (int)rng.below(2) : 0);
        std::thread server;
        if (server_async) { accept_next(); if (rng.chance(1, 3)) accept_next(); }
        else
            server = std::thread([this]() {
                while (accepts_left-- > 0)
                {
                    int o;
                    {
                        vs::Atomic a;
                        o = start("accept", ls, 0, true);
                    }
                    auto accepted = listener->accept();
                    if (!accepted) { vemit(Ev("accept_end").i("o", o).i("p", 0).i("s", 0)); return; }
                    add_server_end(o, std::make_shared<Tcp>(std::move(*accepted)));
                }
            });
        for (int k = 0; k < clients; ++k)
        {
            bool name = rng.chance(1, 3);
            if (async[(std::size_t)k]) connect(true, name);
            else threads.emplace_back([this, name]() { connect(false, name); });
            if (rng.chance(1, 3)) vs::sleep_ns(20000000ull);
        }
        if (server_async && rng.chance(1, 6))
        {
            // the listener goes away at any time
            if (rng.chance(1, 2)) vs::sleep_ns(1000000ull * rng.below(40));
            std::shared_ptr<Listen> l;
            {
                vs::Atomic a;
                emit(Ev("release").i("s", ls));
                l = std::move(listener);
            }
            l.reset();
        }
        for (auto &t : threads) t.join();
        if (server.joinable()) server.join();
        for (auto &t : threads2) t.join();
        N.intr = 0;
        N.block = 0;
        quiesce();
        if (rng.chance(1, 2))
        {
            for (std::size_t k = 0; k < ends.size(); ++k)
            {
                auto e = ends[k];
                std::shared_ptr<Tcp> gone;
                {
                    vs::Atomic a;
                    if (!e->async || !e->socket || rng.chance(1, 2)) continue;
                    emit(Ev("release").i("s", e->s));
                    gone = std::move(e->socket);
                }
                gone.reset();
            }
            quiesce();
        }
        N.on = false;
        std::weak_ptr<SocketService> weak = service;
        service.reset();
        tasks->stop();
        for (auto &e : ends) { e->socket.reset(); }
        listener.reset();
        runner.reset();
        tasks.reset();
        vs::fault = nullptr;
        vs::observe = nullptr;
        ends.clear();
    }
};

int main(int argc, char **argv)
{
    bool six = has_ipv6();
    no_logging();
    return main_loop(argc, argv, [six](long id, Rng &rng) {
        std::uint64_t seed = rng.next();
        episode(seed, vs::random_policy(seed), [&]() {
            if (rng.chance(1, 20)) crowd();
            int before = descriptors();
            if (six && rng.chance(1, 3))
            {
                Run<fly::net::IPv6Address> r(rng);
                r.run();
            }
            else
            {
                Run<fly::net::IPv4Address> r(rng);
                r.run();
            }
            emit(Ev("descriptors").i("left", descriptors() - before));
        });
    }, true);
}
