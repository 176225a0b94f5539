// Shared by the drivers of sockets.
#pragma once
#include "vtrace.hpp"

#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/net/network_config.hpp"
#include "fly/net/socket/listen_socket.hpp"
#include "fly/net/socket/socket_service.hpp"
#include "fly/net/socket/tcp_socket.hpp"
#include "fly/net/socket/udp_socket.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <thread>

using namespace vt;
using fly::net::ConnectedState;
using fly::net::IOMode;
using fly::net::NetworkConfig;
using fly::net::SocketService;

struct NullSink : fly::logger::Sink
{
    bool initialize() override { return true; }
    bool stream(fly::logger::Log &&) override { return true; }
};

inline void no_logging()
{
    auto quiet = fly::logger::Logger::create("quiet", std::make_shared<fly::logger::LoggerConfig>(), std::make_unique<NullSink>());
    fly::logger::Logger::set_default_logger(quiet);
}

struct Config : NetworkConfig
{
    Config(std::size_t packet, long wait_us) { m_default_packet_size = packet; m_default_socket_io_wait_time = wait_us; }
};

inline int port_of(int fd, bool peer)
{
    sockaddr_storage a {};
    socklen_t l = sizeof(a);
    int rc = peer ? ::getpeername(fd, (sockaddr *)&a, &l) : ::getsockname(fd, (sockaddr *)&a, &l);
    if (rc != 0) return -1;
    return ntohs(a.ss_family == AF_INET ? ((sockaddr_in *)&a)->sin_port : ((sockaddr_in6 *)&a)->sin6_port);
}

inline int descriptors()
{
    int n = 0;
    for (int fd = 0; fd < 1200; ++fd)
        if (::fcntl(fd, F_GETFD) != -1) ++n;
    return n;
}

// As if so many descriptors were in use that new ones are beyond what an fd_set can hold.
inline void crowd()
{
    rlimit lim {};
    ::getrlimit(RLIMIT_NOFILE, &lim);
    if (lim.rlim_cur < 1200)
    {
        if (lim.rlim_max < 1200) return;
        lim.rlim_cur = 1200;
        if (::setrlimit(RLIMIT_NOFILE, &lim) != 0) return;
    }
    int fd;
    do fd = ::dup(2);
    while (fd >= 0 && fd < FD_SETSIZE - 3);
}

inline bool has_ipv6()
{
    int fd = ::socket(AF_INET6, SOCK_STREAM, 0);
    sockaddr_in6 a {};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    bool ok = fd >= 0 && ::bind(fd, (sockaddr *)&a, sizeof(a)) == 0;
    if (fd >= 0) ::syscall(SYS_close, fd);
    return ok;
}
