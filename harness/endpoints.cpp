// Drives the addresses of sockets: binding, listening, connecting, sending and the names of hosts.
#include "trace.hpp"

#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/net/network_config.hpp"
#include "fly/net/socket/listen_socket.hpp"
#include "fly/net/socket/socket_service.hpp"
#include "fly/net/socket/tcp_socket.hpp"
#include "fly/net/socket/udp_socket.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <thread>

using namespace vt;
using fly::net::BindMode;
using fly::net::ConnectedState;

struct NullSink : fly::logger::Sink
{
    bool initialize() override { return true; }
    bool stream(fly::logger::Log &&) override { return true; }
};

// ------------------------------------------------------------------ addresses by letter
static bool six = false;
// Other processes use other addresses, and other ports where they cannot.
static std::string text_of(std::string const &letter)
{
    if (six) return letter == "any" ? "::" : letter == "far" ? "2001:db8::7" : "::1";
    if (letter == "any") return "0.0.0.0";
    if (letter == "far") return "192.0.2.7";
    int const p = (int)::getpid();
    return "127." + std::to_string(1 + p / 250 % 250) + "." + std::to_string(p % 250) + "." + std::to_string(2 + letter[0] - 'a');
}
static std::string letter_of(std::string const &text)
{
    for (char const *l : {"a", "any", "b", "c", "far"})
        if (text_of(l) == text) return l;
    return text == "127.0.0.1" ? "lo" : "?" + text;
}

// ------------------------------------------------------------------ the names of hosts
static std::map<std::string, std::vector<std::string>> hosts;
static int results_left = 0;
static void fill(sockaddr_storage &a, std::string const &text)
{
    std::memset(&a, 0, sizeof(a));
    a.ss_family = six ? AF_INET6 : AF_INET;
    ::inet_pton(a.ss_family, text.c_str(), six ? (void *)&((sockaddr_in6 *)&a)->sin6_addr : (void *)&((sockaddr_in *)&a)->sin_addr);
}
extern "C" int getaddrinfo(char const *node, char const *service, addrinfo const *hints, addrinfo **res)
{
    int const family = six ? AF_INET6 : AF_INET;
    *res = nullptr;
    if (!node || !*node) return EAI_NONAME;
    std::vector<std::string> texts;
    unsigned char raw[16];
    if (::inet_pton(family, node, raw) == 1) texts = {node};
    else if (::inet_pton(six ? AF_INET : AF_INET6, node, raw) == 1) return EAI_ADDRFAMILY;
    else if (std::string(node) == "again") return EAI_AGAIN;
    else if (auto it = hosts.find(node); it != hosts.end()) { for (auto const &l : it->second) texts.push_back(text_of(l)); }
    if (hints && hints->ai_family != AF_UNSPEC && hints->ai_family != family) return EAI_ADDRFAMILY;
    if (texts.empty()) return EAI_NONAME;
    addrinfo **last = res;
    if (!hints || hints->ai_family == AF_UNSPEC) // those of the other family come first
    {
        auto *one = (addrinfo *)std::calloc(1, sizeof(addrinfo) + sizeof(sockaddr_storage));
        one->ai_family = six ? AF_INET : AF_INET6;
        one->ai_addr = (sockaddr *)(one + 1);
        one->ai_addr->sa_family = (sa_family_t)one->ai_family;
        one->ai_addrlen = sizeof(sockaddr_in6);
        std::memset((char *)one->ai_addr + 2, 0x20, sizeof(sockaddr_in6) - 2);
        *last = one;
        last = &one->ai_next;
        ++results_left;
    }
    for (auto const &t : texts)
    {
        auto *one = (addrinfo *)std::calloc(1, sizeof(addrinfo) + sizeof(sockaddr_storage));
        one->ai_family = family;
        one->ai_socktype = hints ? hints->ai_socktype : 0;
        one->ai_addr = (sockaddr *)(one + 1);
        one->ai_addrlen = six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
        sockaddr_storage a;
        fill(a, t);
        std::memcpy(one->ai_addr, &a, sizeof(a));
        *last = one;
        last = &one->ai_next;
        ++results_left;
    }
    return 0;
}
extern "C" void freeaddrinfo(addrinfo *res)
{
    while (res)
    {
        addrinfo *next = res->ai_next;
        --results_left;
        std::free(res);
        res = next;
    }
}

static int descriptors()
{
    int n = 0;
    for (int fd = 0; fd < 256; ++fd)
        if (::fcntl(fd, F_GETFD) != -1) ++n;
    return n;
}

// what the system says about a socket
static std::pair<std::string, int> truth(int fd)
{
    sockaddr_storage a {};
    socklen_t l = sizeof(a);
    if (::getsockname(fd, (sockaddr *)&a, &l) != 0) return {"none", 0};
    char text[64] = "";
    ::inet_ntop(a.ss_family, a.ss_family == AF_INET6 ? (void *)&((sockaddr_in6 *)&a)->sin6_addr : (void *)&((sockaddr_in *)&a)->sin_addr, text, sizeof(text));
    return {letter_of(text), ntohs(a.ss_family == AF_INET6 ? ((sockaddr_in6 *)&a)->sin6_port : ((sockaddr_in *)&a)->sin_port)};
}
// whether a socket of nobody could be bound there
static bool bindable(bool udp, bool reuse, std::string const &letter, int port)
{
    int fd = ::socket(six ? AF_INET6 : AF_INET, udp ? SOCK_DGRAM : SOCK_STREAM, 0), one = 1;
    if (reuse) ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
    sockaddr_storage a;
    fill(a, text_of(letter));
    if (six) ((sockaddr_in6 *)&a)->sin6_port = htons((std::uint16_t)port);
    else ((sockaddr_in *)&a)->sin_port = htons((std::uint16_t)port);
    bool ok = ::bind(fd, (sockaddr *)&a, six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)) == 0;
    ::close(fd);
    return ok;
}

static std::shared_ptr<fly::task::TaskManager> manager;
// What did not happen once need not be waited for again: the trace is rejected anyway.
static void patiently(auto happened)
{
    static int limit = 100000;
    for (int k = 0; k < limit && !happened(); ++k) std::this_thread::sleep_for(std::chrono::microseconds(k < 50 ? 20 : 100));
    if (!happened()) limit = 100;
}
// What a completion callback is told.
template <typename T>
struct Told
{
    std::atomic<int> count {0};
    T value {};
    auto callback()
    {
        return [this](T v) { value = std::move(v); ++count; };
    }
    // exactly once
    bool wait()
    {
        patiently([this]() { return count > 0; });
        return count == 1;
    }
};

template <typename Address>
struct Run
{
    using Endpoint = fly::net::Endpoint<Address>;
    using Listen = fly::net::ListenSocket<Endpoint>;
    using Tcp = fly::net::TcpSocket<Endpoint>;
    using Udp = fly::net::UdpSocket<Endpoint>;
    struct S
    {
        int s {0};
        std::shared_ptr<Listen> listen;
        std::shared_ptr<Tcp> tcp;
        std::shared_ptr<Udp> udp;
        bool async {false};
        bool bound {false}, listening {false}, connected {false};
        int waiting {0}; // connections not accepted
        int group {0};   // of connected sockets
        int port {0};    // as bound
        std::string addr;

        template <typename F>
        auto with(F f) { return listen ? f(*listen) : tcp ? f(*tcp) : f(*udp); }
        bool is_open() { return with([](auto &x) { return x.is_open(); }); }
        int handle() { return with([](auto &x) { return x.handle(); }); }
    };

    Rng &rng;
    std::shared_ptr<fly::net::NetworkConfig> config = std::make_shared<fly::net::NetworkConfig>();
    std::shared_ptr<fly::net::SocketService> service = fly::net::SocketService::create(fly::task::SequencedTaskRunner::create(manager), config);
    std::vector<std::unique_ptr<S>> all;
    int next {1}, base {0}, ports {0};
    std::string buffer;
    explicit Run(Rng &r) : rng(r) { }

    std::string letter(bool bind)
    {
        if (bind && rng.chance(1, 6)) return "any";
        if (bind && rng.chance(1, 12)) return "far";
        return six ? "a" : std::string(1, (char)('a' + rng.below(3)));
    }
    // one which nobody else uses
    int fresh() { return 10000 + (int)::getpid() % 1200 * 16 + ports++ % 16; }

    // how an address is given: 0: as such, 1: as text, 2: by name
    struct Given { int how; std::string name, text; };
    Given given(std::string const &l)
    {
        int how = (int)rng.below(3);
        if (how == 0) return {0, l, ""};
        if (how == 1) return {1, l, text_of(l)};
        static char const *names[] = {"alpha", "beta", "many", "gamma", "other-family", "nowhere", "again", "bad", "empty"};
        std::size_t n = rng.below(rng.chance(2, 3) ? 3 : 9);
        std::string name = names[n], text = name;
        if (name == "other-family") text = six ? "127.0.0.1" : "::1";
        if (name == "bad") text = rng.chance(1, 2) ? "127.0.0.1.2" : "300.1.1.1";
        if (name == "empty") text = "";
        return {2, name, text};
    }
    // as part of a longer text
    std::string_view view(std::string const &text)
    {
        buffer = text + (rng.chance(1, 2) ? "5" : "x.org");
        return std::string_view(buffer.data(), text.size());
    }
    std::string where(Given const &g) { return g.how == 2 && hosts.contains(g.name) ? hosts[g.name][0] : g.name; }
    bool far(Given const &g) { return where(g) == "far"; }
    Address address(std::string const &l) { return *Address::from_string(text_of(l)); }

    std::string local(S &x)
    {
        auto e = x.with([](auto &y) { return y.local_endpoint(); });
        return at(e);
    }
    template <typename E>
    std::string at(E const &e)
    {
        if (!e) return "{\"ok\":false,\"addr\":\"\",\"port\":0}";
        char const *f = six ? "{}" : "{}";
        return "{\"ok\":true,\"addr\":" + quote(letter_of(fly::string::format("{}", e->address()))) + ",\"port\":" + std::to_string(e->port()) + "}";
    }
    void look(S &x)
    {
        Ev e("look");
        e.i("s", x.s).b("open", x.is_open());
        e.raw("local", local(x));
        if (x.tcp) e.raw("remote", at(x.tcp->remote_endpoint()));
        else e.raw("remote", at(std::optional<Endpoint>()));
        emit(e);
    }

    void create()
    {
        auto x = std::make_unique<S>();
        x->s = next++;
        int kind = (int)rng.below(3);
        x->async = rng.chance(1, 4);
        if (kind == 0) x->listen = x->async ? service->template create_socket<Listen>() : std::make_shared<Listen>(config);
        else if (kind == 1) x->tcp = x->async ? service->template create_socket<Tcp>() : std::make_shared<Tcp>(config);
        else x->udp = x->async ? service->template create_socket<Udp>() : std::make_shared<Udp>(config);
        emit(Ev("open").i("s", x->s).s("kind", kind == 0 ? "listen" : kind == 1 ? "tcp" : "udp"));
        all.push_back(std::move(x));
    }

    void bind(S &x)
    {
        std::string l = letter(true);
        bool reuse = rng.chance(1, 2);
        int port = 0;
        // a port of another one, a free one, or one which the system chooses
        std::vector<int> known;
        for (auto const &y : all) if (y.get() != &x && y->port) known.push_back(y->port);
        if (!known.empty() && rng.chance(1, 2)) port = known[rng.below(known.size())];
        else if (l == "any" || reuse || rng.chance(1, 2)) port = fresh();
        if (x.tcp && port && reuse) reuse = false; // two of them could not be told apart when they connect
        Given g = given(l);
        l = where(g);
        if (g.how == 2 && !hosts.contains(l) && l.size() > 3) l = "any";
        Ev e("bind");
        e.i("s", x.s).s("to", g.name).i("port", port).b("reuse", reuse);
        begin(e);
        BindMode mode = reuse ? BindMode::AllowReuse : BindMode::SingleUse;
        bool ok = x.with([&](auto &y) {
            return g.how == 0 ? y.bind(Endpoint(address(g.name), (std::uint16_t)port), mode) : y.bind(view(g.text), (std::uint16_t)port, mode);
        });
        bool other = ok || bindable((bool)x.udp, reuse, l, port);
        auto [ka, kp] = truth(x.handle());
        if (ok && !x.bound) { x.bound = true; x.port = kp; x.addr = ka; }
        emit(e.b("ok", ok).b("bindable", other).s("kaddr", ka).i("kport", kp));
    }

    void listen(S &x)
    {
        if (!x.bound) return;
        bool ok = x.listen->listen();
        if (ok) x.listening = true;
        emit(Ev("listen").i("s", x.s).b("ok", ok));
    }

    void connect(S &x)
    {
        if (x.connected || !x.is_open()) return;
        std::vector<S *> listeners;
        for (auto &y : all) if (y->listening && y->is_open()) listeners.push_back(y.get());
        int port = 1;
        std::string l = letter(false);
        S *target = nullptr;
        if (!listeners.empty() && rng.chance(5, 6))
        {
            target = listeners[rng.below(listeners.size())];
            port = target->port;
            if (target->addr != "any" && rng.chance(3, 4)) l = target->addr;
        }
        Given g = given(l);
        while (far(g)) g = given(l); // nobody is far away
        if (x.port == port) return;
        Ev e("connect");
        e.i("s", x.s).s("to", g.name).i("port", port);
        begin(e);
        Told<ConnectedState> told;
        auto state = x.async ? (g.how == 0 ? x.tcp->connect_async(Endpoint(address(g.name), (std::uint16_t)port), told.callback()) : x.tcp->connect_async(view(g.text), (std::uint16_t)port, told.callback()))
                   : g.how == 0 ? x.tcp->connect(Endpoint(address(g.name), (std::uint16_t)port)) : x.tcp->connect(view(g.text), (std::uint16_t)port);
        if (x.async && state == ConnectedState::Connecting && told.wait()) state = told.value;
        bool ok = state == ConnectedState::Connected;
        auto [ka, kp] = truth(x.handle());
        if (ok) x.connected = true;
        emit(e.s("state", ok ? "connected" : state == ConnectedState::Connecting ? "connecting" : "disconnected").s("kaddr", ka).i("kport", kp));
        if (ok)
        {
            // who has got it
            for (auto &y : all)
            {
                if (!y->listening || !y->is_open()) continue;
                pollfd p {y->handle(), POLLIN, 0};
                if (::poll(&p, 1, 0) > 0 && !y->waiting) { y->waiting = 1; }
            }
        }
    }

    void accept(S &x)
    {
        pollfd p {x.handle(), POLLIN, 0};
        if (!x.listening || !x.is_open() || ::poll(&p, 1, 0) <= 0) return;
        Ev e("accept");
        e.i("s", x.s);
        begin(e);
        auto y = std::make_unique<S>();
        if (x.async)
        {
            Told<std::shared_ptr<Tcp>> told;
            if (x.listen->accept_async(told.callback()) && told.wait()) y->tcp = std::move(told.value);
            y->async = true;
        }
        else if (auto got = x.listen->accept()) y->tcp = std::make_shared<Tcp>(std::move(*got));
        if (!y->tcp) { emit(e.b("ok", false).i("new", 0)); return; }
        y->s = next++;
        y->connected = y->bound = true;
        emit(e.b("ok", true).i("new", y->s));
        all.push_back(std::move(y));
        look(*all.back());
    }

    void send(S &x)
    {
        if (!x.is_open()) return;
        std::vector<int> known;
        for (auto const &y : all) if (y->udp && y->port) known.push_back(y->port);
        int port = known.empty() || rng.chance(1, 8) ? 1 : known[rng.below(known.size())];
        Given g = given(letter(false));
        while (far(g)) g = given(letter(false));
        std::string const message = "message " + std::to_string(rng.below(100000)) + std::string(rng.below(40), 'x');
        Ev e("send");
        e.i("s", x.s).s("to", g.name).i("port", port).i("m", (long long)message.size());
        begin(e);
        std::size_t n = 0;
        Told<std::size_t> told;
        if (x.async)
        {
            bool ok = g.how == 0 ? x.udp->send_async(Endpoint(address(g.name), (std::uint16_t)port), message, told.callback()) : x.udp->send_async(view(g.text), (std::uint16_t)port, message, told.callback());
            if (ok) n = told.wait() ? told.value : 999999;
        }
        else n = g.how == 0 ? x.udp->send(Endpoint(address(g.name), (std::uint16_t)port), message) : x.udp->send(view(g.text), (std::uint16_t)port, message);
        auto [ka, kp] = truth(x.handle());
        std::vector<int> to;
        bool same = true;
        for (int round = 0; round < 2 && to.empty(); ++round)
        {
            std::vector<pollfd> fds;
            std::vector<S *> who;
            for (auto &y : all)
                if (y->udp && y->is_open()) { fds.push_back({y->handle(), POLLIN, 0}); who.push_back(y.get()); }
            bool expected = false;
            for (S *y : who) if (y->port == port && (y->addr == "any" || y->addr == where(g))) expected = true;
            static int patience = 500;
            if (::poll(fds.data(), fds.size(), round == 0 || !expected ? 0 : patience) <= 0 && round == 1 && expected) patience = 1;
            for (std::size_t k = 0; k < fds.size(); ++k)
            {
                if (!(fds[k].revents & POLLIN)) continue;
                to.push_back(who[k]->s);
                if (who[k]->udp->receive() != message) same = false;
            }
        }
        emit(e.i("n", (long long)n).seq("arrived", to).b("same", same).s("kaddr", ka).i("kport", kp));
    }

    // Without a service, or without anything to call, nothing is begun.
    void refuse(S &x)
    {
        if (!x.is_open()) return;
        int told = 0, how = (int)rng.below(3);
        bool ok = false;
        if (x.listen) ok = x.listen->accept_async(x.async ? std::function<void(std::shared_ptr<Tcp>)>() : std::function<void(std::shared_ptr<Tcp>)>([&](auto) { ++told; }));
        else if (x.tcp)
        {
            std::function<void(ConnectedState)> c;
            std::function<void(std::size_t)> s;
            std::function<void(std::string)> r;
            if (!x.async) c = [&](auto) { ++told; }, s = [&](auto) { ++told; }, r = [&](auto) { ++told; };
            Endpoint const there(address("a"), 1);
            if (how == 0) ok = !x.connected && x.tcp->connect_async(there, std::move(c)) != ConnectedState::Disconnected;
            else if (how == 1) ok = x.tcp->send_async("message", std::move(s));
            else ok = x.tcp->receive_async(std::move(r));
        }
        else
        {
            std::function<void(std::size_t)> s;
            std::function<void(std::string)> r;
            if (!x.async) s = [&](auto) { ++told; }, r = [&](auto) { ++told; };
            if (how == 0) ok = x.udp->send_async(Endpoint(address("a"), 1), "message", std::move(s));
            else ok = x.udp->receive_async(std::move(r));
        }
        emit(Ev("refuse").i("s", x.s).b("ok", ok).i("told", told));
    }

    void close(S &x)
    {
        linger fast {1, 0};
        if (x.is_open() && x.tcp) ::setsockopt(x.handle(), SOL_SOCKET, SO_LINGER, &fast, sizeof(fast));
        emit(Ev("close").i("s", x.s));
        x.with([](auto &y) { y.close(); });
        x.port = 0;
    }

    void resolve()
    {
        Given g = given(letter(true));
        if (g.how == 0) return;
        Ev e("resolve");
        e.s("to", g.name);
        begin(e);
        std::optional<Address> r = rng.chance(1, 2) ? Tcp::hostname_to_address(view(g.text)) : Udp::hostname_to_address(view(g.text));
        emit(e.b("ok", r.has_value()).s("addr", r ? letter_of(fly::string::format("{}", *r)) : ""));
    }

    void run()
    {
        hosts = {{"alpha", {"a"}}, {"beta", {six ? "far" : "b", "a"}}, {"many", {six ? "a" : "c", "far", "a", "any"}}, {"gamma", {"far"}}};
        results_left = 0;
        base = descriptors();
        emit(Ev("new").s("beta", hosts["beta"][0]).s("many", hosts["many"][0])
                 .b("v4", Tcp::is_ipv4() && Udp::is_ipv4() && Listen::is_ipv4() && Endpoint::is_ipv4())
                 .b("v6", Tcp::is_ipv6() || Udp::is_ipv6() || Listen::is_ipv6() || Endpoint::is_ipv6()).b("six", six));
        for (std::uint64_t steps = 6 + rng.below(40); steps > 0; --steps)
        {
            if (all.size() < 2 || (all.size() < 10 && rng.chance(1, 5))) create();
            S &x = *all[rng.below(all.size())];
            if (rng.chance(1, 12)) close(x);
            else if (rng.chance(1, 12)) resolve();
            else if (rng.chance(1, 16)) refuse(x);
            else if (!x.bound && rng.chance(1, x.tcp ? 3 : 1) && !x.connected) bind(x);
            else if (x.bound && !x.connected && rng.chance(1, 12)) bind(x);
            else if (x.listen) { if (!x.listening || rng.chance(1, 8)) listen(x); else accept(x); }
            else if (x.tcp) connect(x);
            else send(x);
            look(x);
            if (rng.chance(1, 3)) look(*all[rng.below(all.size())]);
        }
        for (auto &x : all) look(*x);
        for (auto &x : all) if (x->tcp && x->is_open()) close(*x);
        all.clear();
        service.reset();
        // what it has just called may not have returned
        patiently([this]() { return descriptors() == base; });
        emit(Ev("end").i("open", descriptors() - base).i("results", results_left));
    }
};

int main(int argc, char **argv)
{
    auto quiet = fly::logger::Logger::create("quiet", std::make_shared<fly::logger::LoggerConfig>(), std::make_unique<NullSink>());
    fly::logger::Logger::set_default_logger(quiet);
    manager = fly::task::TaskManager::create(1);
    manager->start();
    bool v6;
    {
        int fd = ::socket(AF_INET6, SOCK_STREAM, 0);
        sockaddr_in6 a {};
        a.sin6_family = AF_INET6;
        a.sin6_addr = in6addr_loopback;
        v6 = fd >= 0 && ::bind(fd, (sockaddr *)&a, sizeof(a)) == 0;
        if (fd >= 0) ::close(fd);
    }
    int rc = main_loop(argc, argv, [v6](long, Rng &rng) {
        six = v6 && rng.chance(1, 3);
        if (six) Run<fly::net::IPv6Address>(rng).run();
        else Run<fly::net::IPv4Address>(rng).run();
    });
    manager->stop();
    return rc;
}
