// Parses and formats IP addresses and endpoints.
#include "trace.hpp"

#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/types/string/string.hpp"

#include <arpa/inet.h>

using namespace vt;
using V4 = fly::net::IPv4Address;
using V6 = fly::net::IPv6Address;
using E4 = fly::net::Endpoint<V4>;
using E6 = fly::net::Endpoint<V6>;

static std::vector<int> octets(V4 const &a)
{
    std::uint32_t h = a.host_order();
    return {(int)(h >> 24), (int)((h >> 16) & 255), (int)((h >> 8) & 255), (int)(h & 255)};
}
static std::vector<int> octets(V6 const &a)
{
    std::uint8_t raw[16];
    a.copy(raw);
    return std::vector<int>(raw, raw + 16);
}

static std::string number(Rng &rng)
{
    switch (rng.below(8))
    {
        case 0: return std::to_string(rng.below(256));
        case 1: return std::to_string(rng.below(300));
        case 2: return std::to_string(rng.pick(std::vector<std::uint64_t> {255, 256, 65535, 65536, 16777215, 16777216, 4294967295ull, 4294967296ull}));
        case 3: return std::to_string(rng.next());
        case 4: return std::string(1 + rng.below(4), '0') + std::to_string(rng.below(300));
        case 5: { std::string s; for (std::uint64_t k = 1 + rng.below(25); k > 0; --k) s += (char)('0' + rng.below(10)); return s; }
        case 6:
        {
            // 2^64 and beyond, plus something small
            unsigned __int128 v = ((unsigned __int128)(1 + rng.below(3)) << 64) + rng.below(300);
            std::string s;
            while (v) { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; }
            return s;
        }
        default: return std::to_string(rng.below(10));
    }
}
static std::string text4(Rng &rng)
{
    std::string s = number(rng);
    for (std::uint64_t k = rng.chance(2, 3) ? 3 : rng.below(5); k > 0; --k) s += "." + (rng.chance(2, 3) ? std::to_string(rng.below(256)) : number(rng));
    return s;
}
static std::string group(Rng &rng)
{
    static char const *digits = "0123456789abcdefABCDEF";
    if (rng.chance(1, 3)) return "0";
    // a group has up to four digits; what a longer one with leading zeros means is left open
    std::uint64_t n = rng.chance(1, 12) ? 5 + rng.below(16) : 1 + rng.below(4);
    std::string s;
    for (std::uint64_t k = 0; k < n; ++k) s += digits[rng.below(22)];
    if (n > 4 && s[0] == '0') s[0] = '1';
    return s;
}
static std::string text6(Rng &rng)
{
    std::string s;
    auto groups = [&](std::uint64_t n) {
        std::string g;
        for (std::uint64_t k = 0; k < n; ++k) g += (k ? ":" : "") + group(rng);
        return g;
    };
    if (rng.chance(1, 3)) s = groups(rng.chance(2, 3) ? 8 : rng.below(10));
    else
    {
        std::uint64_t n = rng.below(9);
        s = groups(n) + "::" + groups(rng.below(9 - n));
    }
    return s;
}
static std::string mangle(Rng &rng, std::string s)
{
    static char const alphabet[] = ":.0129afAFgGxX[] -+\t\xff\xb0/@`";
    for (std::uint64_t k = rng.below(3); k > 0; --k)
    {
        std::size_t at = rng.below(s.size() + 1);
        char c = rng.chance(1, 30) ? '\0' : alphabet[rng.below(sizeof(alphabet) - 1)];
        if (rng.chance(1, 3)) c = ':';
        switch (rng.below(3))
        {
            case 0: s.insert(at, 1, c); break;
            case 1: if (at < s.size()) s.erase(at, 1); break;
            case 2: if (at < s.size()) s[at] = c; break;
        }
    }
    return s;
}
template <typename A>
static A random(Rng &rng)
{
    if constexpr (std::is_same_v<A, V4>)
    {
        V4::address_type a;
        for (auto &x : a) x = (std::uint8_t)(rng.chance(1, 2) ? rng.below(3) : rng.below(256));
        return V4(a);
    }
    else
    {
        V6::address_type a;
        for (int k = 0; k < 16; k += 2)
        {
            std::uint64_t g = rng.chance(1, 2) ? 0 : rng.chance(1, 2) ? rng.below(20) : rng.below(65536);
            a[(std::size_t)k] = (std::uint8_t)(g >> 8);
            a[(std::size_t)k + 1] = (std::uint8_t)g;
        }
        return V6(a);
    }
}

template <typename A>
static void parse(char const *op, std::string const &text)
{
    // exactly as much memory as the text has
    std::vector<char> exact(text.begin(), text.end());
    begin(Ev(op).bytes("text", text));
    auto a = A::from_string(std::string_view(exact.data(), exact.size()));
    Ev e(op);
    e.bytes("text", text).b("ok", a.has_value()).i("port", 0);
    e.seq("octets", a ? octets(*a) : std::vector<int>());
    emit(e);
}
template <typename E>
static void parse_endpoint(char const *op, std::string const &text)
{
    std::vector<char> exact(text.begin(), text.end());
    begin(Ev(op).bytes("text", text));
    auto a = E::from_string(std::string_view(exact.data(), exact.size()));
    Ev e(op);
    e.bytes("text", text).b("ok", a.has_value()).i("port", a ? a->port() : 0);
    e.seq("octets", a ? octets(a->address()) : std::vector<int>());
    emit(e);
}
template <typename A>
static void show(Rng &rng, char const *op)
{
    A a = random<A>(rng);
    std::uint16_t port = (std::uint16_t)(rng.chance(1, 3) ? rng.below(100) : rng.below(65536));
    fly::net::Endpoint<A> e(a, port);
    emit(Ev(op).seq("octets", octets(a)).i("port", port).bytes("text", fly::string::format("{}", a)).bytes("endpoint", fly::string::format("{}", e)));
    auto b = rng.chance(1, 2) ? a : random<A>(rng);
    fly::net::Endpoint<A> f(b, (std::uint16_t)(rng.chance(1, 2) ? port : rng.below(65536)));
    emit(Ev("compare").seq("a", octets(a)).seq("b", octets(b)).i("p", port).i("q", f.port()).b("eq", a == b).b("ne", a != b).b("lt", a < b).b("gt", a > b)
        .b("le", a <= b).b("ge", a >= b).b("epeq", e == f).b("eplt", e < f).b("epgt", e > f));
}

int main(int argc, char **argv)
{
    return main_loop(argc, argv, [](long id, Rng &rng) {
        if (id == 0)
        {
            emit(Ev("named").seq("any4", octets(V4::in_addr_any())).seq("all4", octets(V4::in_addr_broadcast())).seq("lo4", octets(V4::in_addr_loopback()))
                .seq("any6", octets(V6::in_addr_any())).seq("lo6", octets(V6::in_addr_loopback())).seq("def4", octets(V4())).seq("def6", octets(V6())));
        }
        for (int k = 0; k < 6; ++k)
        {
            parse<V4>("v4", mangle(rng, text4(rng)));
            parse<V6>("v6", mangle(rng, text6(rng)));
            parse<V6>("v6", text6(rng));
            parse_endpoint<E4>("e4", mangle(rng, text4(rng) + ":" + number(rng)));
            parse_endpoint<E6>("e6", rng.chance(2, 3) ? "[" + text6(rng) + "]:" + number(rng) : mangle(rng, "[" + text6(rng) + "]:" + number(rng)));
            show<V4>(rng, "show4");
            show<V6>(rng, "show6");
        }
    });
}
