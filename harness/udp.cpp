// Drives UdpSocket over loopback under controlled schedules, with injected errors and interruptions.
#include "net.hpp"

#include <list>
#include <mutex>

// The byte `k` of message `o` (the specification computes the same).
static char content(int o, std::size_t k)
{
    return (char)(33 + (k * 7 + (std::size_t)o * 13) % 90);
}

struct Net
{
    std::map<int, int> fds;              // descriptor -> socket
    std::map<int, int> towards;          // socket -> where its message goes
    std::map<int, std::size_t> waiting;  // socket -> datagrams which wait there
    Rng rng {1};
    int hard {0}, block {0}, intr {0};   // chances in 1000
    bool on {false};
};
static Net N;

static bool inject(vs::Call &c)
{
    if (!N.on) return false;
    if (!strcmp(c.name, "select"))
    {
        if (!N.rng.chance(N.intr, 1000)) return false;
        c.result = -1;
        c.err = EINTR;
        return true;
    }
    auto it = N.fds.find(c.fd);
    if (it == N.fds.end() || (strcmp(c.name, "sendto") && strcmp(c.name, "recvfrom"))) return false;
    if (N.rng.chance(N.hard, 1000))
    {
        emit(Ev("fault").i("s", it->second));
        c.result = -1;
        c.err = N.rng.chance(1, 2) ? EPERM : ENOBUFS;
        return true;
    }
    if ((::fcntl(c.fd, F_GETFL, 0) & O_NONBLOCK) && N.rng.chance(N.block, 1000))
    {
        c.result = -1;
        c.err = EWOULDBLOCK;
        return true;
    }
    return false;
}

static void observed(char const *name, int fd, long result)
{
    auto it = N.fds.find(fd);
    if (it == N.fds.end()) return;
    int s = it->second;
    if (!strcmp(name, "close")) N.fds.erase(fd);
    else if (result > 0 && !strcmp(name, "sendto"))
    {
        ++N.waiting[N.towards[s]];
        emit(Ev("sent").i("s", s).i("n", result));
    }
    else if (result > 0 && !strcmp(name, "recvfrom"))
    {
        if (N.waiting[s] > 0) --N.waiting[s];
        emit(Ev("taken").i("s", s).i("n", result));
    }
}

template <typename Address>
struct Run
{
    using Endpoint = fly::net::Endpoint<Address>;
    using Udp = fly::net::UdpSocket<Endpoint>;
    struct End
    {
        std::recursive_mutex use; // a socket is used by one thread at a time
        int s {0};
        bool async {false}, sending {false}, closed {false};
        int receiving {0};
        std::uint16_t port {0};
        std::size_t packet {0};
        std::shared_ptr<Udp> socket;
        int to_send {0}, to_receive {0};
        int close_after {-1}, release_after {-1}, done {0};
    };
    Rng &rng;
    std::list<std::string> messages;
    std::vector<std::shared_ptr<End>> ends;
    int next_op {1};

    explicit Run(Rng &r) : rng(r) { }

    void is_open(End &e) { emit(Ev("is_open").i("s", e.s).b("open", e.socket && e.socket->is_open())); }

    void received(int o, std::string const &data)
    {
        emit(Ev("recv_end").i("o", o).bytes("data", data));
    }
    // A message of this end, and where it goes.
    std::pair<std::string *, End *> message(End &e, int o)
    {
        End *d = ends[N.rng.below(ends.size())].get();
        std::size_t n = N.rng.chance(1, 3) ? e.packet * (1 + N.rng.below(3)) : 1 + N.rng.below(3 * e.packet);
        if (n > 48) n = 48;
        if (e.async && N.rng.chance(1, 20)) n = 0;
        messages.emplace_back();
        for (std::size_t k = 0; k < n; ++k) messages.back() += content(o, k);
        N.towards[e.s] = d->s;
        emit(Ev("start").i("o", o).s("kind", "send").i("s", e.s).i("d", d->s).i("m", (long long)n).b("sync", !e.async));
        return {&messages.back(), d};
    }

    void wind_up(std::shared_ptr<End> const &e)
    {
        std::lock_guard<std::recursive_mutex> use(e->use);
        std::shared_ptr<Udp> gone;
        vs::Atomic a;
        ++e->done;
        if (e->socket && e->done == e->close_after)
        {
            emit(Ev("close").i("s", e->s));
            e->closed = true;
            e->socket->close();
            is_open(*e);
        }
        if (e->socket && e->done == e->release_after)
        {
            emit(Ev("release").i("s", e->s));
            gone = std::move(e->socket);
        }
    }
    void pump(std::shared_ptr<End> const &e)
    {
        std::lock_guard<std::recursive_mutex> use(e->use);
        for (int k = 0; k < 3; ++k)
        {
            std::shared_ptr<Udp> socket;
            bool send = k == 0;
            int o = 0;
            std::string *text = nullptr;
            End *to = nullptr;
            bool by_name = false;
            {
                vs::Atomic a;
                socket = e->socket;
                if (!socket) return;
                if ((e->closed || !socket->is_open()) && !N.rng.chance(1, 6)) return;
                if (send && !e->sending && e->to_send > 0)
                {
                    --e->to_send;
                    e->sending = true;
                    o = next_op++;
                    std::tie(text, to) = message(*e, o);
                    by_name = N.rng.chance(1, 3);
                }
                else if (!send && e->receiving < 3 && e->to_receive > 0)
                {
                    --e->to_receive;
                    ++e->receiving;
                    o = next_op++;
                    emit(Ev("start").i("o", o).s("kind", "recv").i("s", e->s).i("d", 0).i("m", 0).b("sync", false));
                }
                else continue;
            }
            bool ok;
            if (send)
            {
                auto done = [this, e, o](std::size_t n) {
                    {
                        vs::Atomic a;
                        e->sending = false;
                        emit(Ev("send_end").i("o", o).i("n", (long long)n));
                        is_open(*e);
                    }
                    wind_up(e);
                    pump(e);
                };
                ok = by_name ? socket->send_async(Endpoint::is_ipv4() ? "127.0.0.1" : "::1", to->port, *text, done) :
                               socket->send_async(Endpoint(Address::in_addr_loopback(), to->port), *text, done);
            }
            else
                ok = socket->receive_async([this, e, o](std::string data) {
                    {
                        vs::Atomic a;
                        --e->receiving;
                        received(o, data);
                        is_open(*e);
                    }
                    wind_up(e);
                    pump(e);
                });
            if (!ok) vemit(Ev("refused").i("o", o));
        }
    }
    // The blocking operations of an end, on a thread of its own.
    void talk(std::shared_ptr<End> const &e)
    {
        for (int idle = 0; idle < 40 && e->socket->is_open() && (e->to_send > 0 || e->to_receive > 0);)
        {
            int o = 0;
            bool send = false, by_name = false;
            std::string *text = nullptr;
            End *to = nullptr;
            {
                vs::Atomic a;
                if (e->to_receive > 0 && N.waiting[e->s] > 0)
                {
                    --e->to_receive;
                    o = next_op++;
                    emit(Ev("start").i("o", o).s("kind", "recv").i("s", e->s).i("d", 0).i("m", 0).b("sync", true));
                }
                else if (e->to_send > 0)
                {
                    --e->to_send;
                    send = true;
                    o = next_op++;
                    by_name = N.rng.chance(1, 3);
                    std::tie(text, to) = message(*e, o);
                }
                else ++idle;
            }
            if (o == 0) { vs::sleep_ns(3000000); continue; }
            if (send)
            {
                std::size_t n = by_name ? e->socket->send(Endpoint::is_ipv4() ? "127.0.0.1" : "::1", to->port, *text) :
                                          e->socket->send(Endpoint(Address::in_addr_loopback(), to->port), *text);
                vs::Atomic a;
                emit(Ev("send_end").i("o", o).i("n", (long long)n));
                is_open(*e);
            }
            else
            {
                std::string data = e->socket->receive();
                vs::Atomic a;
                received(o, data);
                is_open(*e);
            }
        }
    }
    void quiesce()
    {
        vs::calm(true);
        vs::sleep_ns(400000000ull);
        vs::calm(false);
        vemit(Ev("quiet"));
    }

    void run()
    {
        N = Net();
        N.rng = Rng(rng.next());
        if (rng.chance(1, 2))
        {
            N.block = rng.chance(2, 3) ? 200 : 0;
            N.intr = rng.chance(1, 3) ? 100 : 0;
            N.hard = rng.chance(1, 3) ? 40 : 0;
        }
        auto tasks = fly::task::TaskManager::create(1 + (std::uint32_t)rng.below(2));
        auto runner = fly::task::SequencedTaskRunner::create(tasks);
        // two services, which may differ in packet size
        std::vector<std::shared_ptr<Config>> configs;
        std::vector<std::shared_ptr<SocketService>> services;
        std::vector<std::size_t> packets;
        for (int k = 0; k < 2; ++k)
        {
            packets.push_back(rng.chance(1, 3) ? 64 : 1 + rng.below(16));
            configs.push_back(std::make_shared<Config>(packets.back(), 10000));
            services.push_back(SocketService::create(runner, configs.back()));
        }
        int count = 1 + (int)rng.below(4);
        for (int k = 0; k < count; ++k)
        {
            auto e = std::make_shared<End>();
            e->s = k + 1;
            std::size_t which = rng.chance(1, 4) ? 1 : 0;
            e->packet = packets[which];
            e->async = rng.chance(3, 4);
            e->to_send = (int)rng.below(5);
            e->to_receive = (int)rng.below(10);
            e->socket = e->async ? services[which]->template create_socket<Udp>() : std::make_shared<Udp>(configs[which], IOMode::Synchronous);
            bool bound = rng.chance(1, 2) ? e->socket->bind(Endpoint(Address::in_addr_loopback(), 0), fly::net::BindMode::AllowReuse) :
                                            e->socket->bind(Endpoint::is_ipv4() ? "127.0.0.1" : "::1", 0, fly::net::BindMode::SingleUse);
            if (!bound) std::abort();
            e->port = (std::uint16_t)port_of(e->socket->handle(), false);
            if (e->socket->local_endpoint()->port() != e->port) std::abort();
            N.fds[e->socket->handle()] = e->s;
            if (e->async && rng.chance(1, 5)) e->close_after = 1 + (int)rng.below(5);
            else if (e->async && rng.chance(1, 6)) e->release_after = 1 + (int)rng.below(5);
            emit(Ev("socket").i("s", e->s).i("packet", (long long)e->packet));
            ends.push_back(e);
        }
        N.on = true;
        vs::fault = inject;
        vs::observe = observed;
        std::vector<std::thread> threads;
        for (auto &e : ends)
        {
            if (!e->async) threads.emplace_back([this, e]() { talk(e); });
            else if (N.rng.chance(1, 3)) threads.emplace_back([this, e]() { pump(e); });
            else pump(e);
        }
        for (auto &t : threads) t.join();
        quiesce();
        if (rng.chance(1, 2))
        {
            for (auto &e : ends)
            {
                std::shared_ptr<Udp> gone;
                vs::Atomic a;
                if (!e->async || !e->socket || N.rng.chance(1, 2)) continue;
                emit(Ev("release").i("s", e->s));
                gone = std::move(e->socket);
            }
            quiesce();
        }
        for (auto &e : ends)
        {
            if (!e->socket) continue;
            vemit(Ev("release").i("s", e->s));
            e->socket.reset();
        }
        services.clear();
        vs::calm(true);
        tasks->stop();
        runner.reset();
        tasks.reset();
        ends.clear();
        vs::calm(false);
        vs::fault = nullptr;
        vs::observe = nullptr;
        N.on = false;
    }
};

int main(int argc, char **argv)
{
    no_logging();
    bool v6 = has_ipv6();
    return main_loop(argc, argv, [v6](long, Rng &rng) {
        std::uint64_t seed = rng.next();
        episode(seed, vs::random_policy(seed), [&]() {
            if (rng.chance(1, 20)) crowd();
            int before = descriptors();
            if (v6 && rng.chance(1, 3)) Run<fly::net::IPv6Address>(rng).run();
            else Run<fly::net::IPv4Address>(rng).run();
            emit(Ev("descriptors").i("left", descriptors() - before));
        });
    }, true);
}
