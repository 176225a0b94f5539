// Drives the ownership of socket handles: creation, moves, assignment, closing and failures.
#include "trace.hpp"

#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/net/network_config.hpp"
#include "fly/net/socket/listen_socket.hpp"
#include "fly/net/socket/socket_service.hpp"
#include "fly/net/socket/tcp_socket.hpp"
#include "fly/net/socket/udp_socket.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"
#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"

#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>

#include <map>
#include <memory>
#include <set>

using namespace vt;
using fly::net::IOMode;

struct NullSink : fly::logger::Sink
{
    bool initialize() override { return true; }
    bool stream(fly::logger::Log &&) override { return true; }
};

static int descriptors()
{
    int n = 0;
    for (int fd = 0; fd < 256; ++fd)
        if (::fcntl(fd, F_GETFD) != -1) ++n;
    return n;
}

// The socket behind a descriptor, however it came about.
static long identity(int fd)
{
    struct stat st {};
    if (fd < 0 || ::fstat(fd, &st) != 0 || !S_ISSOCK(st.st_mode)) return -1;
    return (long)st.st_ino;
}

template <typename Socket>
struct Traits;
template <typename E>
struct Traits<fly::net::UdpSocket<E>>
{
    static constexpr char const *kind = "udp";
    static int flag(fly::net::UdpSocket<E> const &) { return 0; }
};
template <typename E>
struct Traits<fly::net::TcpSocket<E>>
{
    static constexpr char const *kind = "tcp";
    static int flag(fly::net::TcpSocket<E> const &s) { return s.is_connected() ? 1 : s.is_connecting() ? 2 : 0; }
};
template <typename E>
struct Traits<fly::net::ListenSocket<E>>
{
    static constexpr char const *kind = "listen";
    static int flag(fly::net::ListenSocket<E> const &s) { return s.is_listening() ? 1 : 0; }
};

template <typename Socket, typename Address>
struct Run
{
    using Endpoint = fly::net::Endpoint<Address>;
    static constexpr int slots = 3;
    Rng &rng;
    std::shared_ptr<fly::net::NetworkConfig> config = std::make_shared<fly::net::NetworkConfig>();
    std::unique_ptr<Socket> at[slots];
    std::map<long, int> names; // identity -> number of the handle
    int next {1}, base {0}, accepted {0};
    int kernel {-1};           // somebody who listens
    std::uint16_t port {0};

    explicit Run(Rng &r) : rng(r) { }

    // the state of every slot: the handle (0: none, -1: one which is not open), its id, mode and flag
    void state()
    {
        std::string text = "[";
        for (int k = 0; k < slots; ++k)
        {
            if (k) text += ",";
            if (!at[k]) { text += "{\"st\":\"none\"}"; continue; }
            Socket &s = *at[k];
            int h = 0;
            bool blocking = true;
            if (s.is_open())
            {
                long i = identity(s.handle());
                auto it = names.find(i);
                h = i < 0 ? -1 : it == names.end() ? -2 : it->second;
                blocking = !(::fcntl(s.handle(), F_GETFL, 0) & O_NONBLOCK);
            }
            text += "{\"st\":\"some\",\"h\":" + std::to_string(h) + ",\"async\":" + (s.io_mode() == IOMode::Asynchronous ? "true" : "false") +
                ",\"blocking\":" + (blocking ? "true" : "false") + ",\"flag\":" + std::to_string(Traits<Socket>::flag(s)) + "}";
        }
        text += "]";
        emit(Ev("state").raw("slots", text).i("open", descriptors() - base));
    }
    void born(int k, char const *op, bool async, bool ok, int flag)
    {
        int h = 0;
        if (at[k]->is_open())
        {
            h = next++;
            names[identity(at[k]->handle())] = h;
        }
        emit(Ev(op).i("k", k).i("h", h).b("async", async).b("ok", ok).i("flag", flag));
    }

    void run()
    {
        kernel = ::socket(Endpoint::is_ipv4() ? AF_INET : AF_INET6, SOCK_STREAM, 0);
        sockaddr_storage a {};
        socklen_t l = sizeof(a);
        a.ss_family = Endpoint::is_ipv4() ? AF_INET : AF_INET6;
        if (Endpoint::is_ipv4()) ((sockaddr_in *)&a)->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        else ((sockaddr_in6 *)&a)->sin6_addr = in6addr_loopback;
        if (::bind(kernel, (sockaddr *)&a, Endpoint::is_ipv4() ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)) != 0 || ::listen(kernel, 64) != 0) std::abort();
        ::getsockname(kernel, (sockaddr *)&a, &l);
        port = ntohs(Endpoint::is_ipv4() ? ((sockaddr_in *)&a)->sin_port : ((sockaddr_in6 *)&a)->sin6_port);
        base = descriptors();
        emit(Ev("kind").s("kind", Traits<Socket>::kind));
        constexpr bool tcp = requires(Socket &s) { s.is_connected(); };
        constexpr bool listen = requires(Socket &s) { s.listen(); };
        for (std::uint64_t steps = 4 + rng.below(30); steps > 0; --steps)
        {
            int k = (int)rng.below(slots), j = (int)rng.below(slots);
            switch (rng.below(9))
            {
                case 0:
                case 1:
                    if (!at[k])
                    {
                        bool async = rng.chance(1, 2);
                        if (!async && rng.chance(1, 2)) at[k] = std::make_unique<Socket>(config);
                        else at[k] = std::make_unique<Socket>(config, async ? IOMode::Asynchronous : IOMode::Synchronous);
                        born(k, "create", async, true, 0);
                    }
                    break;
                case 2: // move construction
                    if (at[k] && !at[j])
                    {
                        emit(Ev("move").i("k", k).i("j", j));
                        at[j] = std::make_unique<Socket>(std::move(*at[k]));
                    }
                    break;
                case 3:
                case 4: // move assignment, perhaps to itself
                    if (at[k] && at[j])
                    {
                        emit(Ev("assign").i("k", k).i("j", j));
                        *at[j] = std::move(*at[k]);
                    }
                    break;
                case 5:
                    if (at[k])
                    {
                        emit(Ev("close").i("k", k));
                        at[k]->close();
                    }
                    break;
                case 6:
                    if (at[k] && rng.chance(1, 2))
                    {
                        emit(Ev("destroy").i("k", k));
                        at[k].reset();
                    }
                    break;
                case 7:
                    if (at[k])
                    {
                        bool async = rng.chance(1, 2);
                        bool ok = at[k]->set_io_mode(async ? IOMode::Asynchronous : IOMode::Synchronous);
                        emit(Ev("mode").i("k", k).b("async", async).b("ok", ok));
                    }
                    break;
                case 8:
                    if (!at[k]) break;
                    if constexpr (listen)
                    {
                        if (!at[k]->is_listening() || !at[k]->is_open())
                        {
                            if (at[k]->is_open() && !at[k]->bind(Endpoint(Address::in_addr_loopback(), 0), fly::net::BindMode::AllowReuse)) std::abort();
                            bool ok = at[k]->listen();
                            emit(Ev("listen").i("k", k).b("ok", ok));
                        }
                        else if (at[k]->io_mode() == IOMode::Asynchronous)
                        {
                            // nobody is there, which closes the listener
                            auto s = at[k]->accept();
                            emit(Ev("accept").i("k", k).b("ok", (bool)s));
                        }
                        else
                        {
                            // somebody is there; the accepted socket lives for a moment
                            auto e = at[k]->local_endpoint();
                            int fd = ::socket(Endpoint::is_ipv4() ? AF_INET : AF_INET6, SOCK_STREAM, 0);
                            sockaddr_storage b {};
                            socklen_t m = sizeof(b);
                            ::getsockname(at[k]->handle(), (sockaddr *)&b, &m);
                            bool there = ::connect(fd, (sockaddr *)&b, m) == 0;
                            if (!there || !e) std::abort();
                            {
                                auto s = at[k]->accept();
                                bool fine = s && s->is_open() && s->is_connected() && identity(s->handle()) > 0;
                                emit(Ev("accept").i("k", k).b("ok", fine));
                                if (s && rng.chance(1, 2)) { auto other = std::move(*s); }
                            }
                            ::close(fd);
                        }
                    }
                    else if constexpr (tcp)
                    {
                        if (at[k]->is_open() && (at[k]->is_connected() || at[k]->is_connecting())) break;
                        bool reach = rng.chance(2, 3);
                        bool sync = at[k]->io_mode() == IOMode::Synchronous;
                        auto r = at[k]->connect(Endpoint(Address::in_addr_loopback(), reach ? port : 1));
                        int flag = r == fly::net::ConnectedState::Connected ? 1 : r == fly::net::ConnectedState::Connecting ? 2 : 0;
                        emit(Ev("connect").i("k", k).b("reach", reach).b("sync", sync).i("result", flag));
                        // the listener does not keep what was connected
                        pollfd p {kernel, POLLIN, 0};
                        while (::poll(&p, 1, 0) > 0)
                        {
                            int fd = ::accept(kernel, nullptr, nullptr);
                            if (fd >= 0) ::close(fd);
                        }
                    }
                    else if (at[k]->is_open())
                    {
                        auto n = at[k]->send(Endpoint(Address::in_addr_loopback(), 1), "x");
                        emit(Ev("send").i("k", k).i("n", (long long)n));
                    }
                    break;
            }
            state();
        }
        for (auto &s : at) s.reset();
        emit(Ev("end").i("open", descriptors() - base));
        ::close(kernel);
    }
};

template <typename Address>
static void one(Rng &rng)
{
    using Endpoint = fly::net::Endpoint<Address>;
    switch (rng.below(3))
    {
        case 0: Run<fly::net::UdpSocket<Endpoint>, Address>(rng).run(); break;
        case 1: Run<fly::net::TcpSocket<Endpoint>, Address>(rng).run(); break;
        default: Run<fly::net::ListenSocket<Endpoint>, Address>(rng).run(); break;
    }
}

int main(int argc, char **argv)
{
    auto quiet = fly::logger::Logger::create("quiet", std::make_shared<fly::logger::LoggerConfig>(), std::make_unique<NullSink>());
    fly::logger::Logger::set_default_logger(quiet);
    bool v6;
    {
        int fd = ::socket(AF_INET6, SOCK_STREAM, 0);
        sockaddr_in6 a {};
        a.sin6_family = AF_INET6;
        a.sin6_addr = in6addr_loopback;
        v6 = fd >= 0 && ::bind(fd, (sockaddr *)&a, sizeof(a)) == 0;
        if (fd >= 0) ::close(fd);
    }
    return main_loop(argc, argv, [v6](long, Rng &rng) {
        if (v6 && rng.chance(1, 3)) one<fly::net::IPv6Address>(rng);
        else one<fly::net::IPv4Address>(rng);
    });
}
