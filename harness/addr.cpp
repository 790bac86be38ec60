// C26 world: addresses and status values; every call is a pure function of what it is given.
// parse / print / cmp / sock / eq: a = 4 or 6, b seeds the input;  status: b = code + 8;  pstatus: b
#include "hx.hpp"
#include <system_error>
#include "coro/net/connect.hpp"
#include "coro/net/hostname.hpp"
#include "coro/net/io_status.hpp"
#include "coro/net/ip_address.hpp"
#include "coro/net/socket_address.hpp"
#include "coro/net/tls/connection_status.hpp"
#include "coro/net/tls/recv_status.hpp"
#include "coro/net/tls/send_status.hpp"
#include <algorithm>
using namespace hx;
using namespace coro;
using Bytes = std::vector<int>;
static uint64_t g_s;
static int rnd(int n) { g_s += 0x9e3779b97f4a7c15ull; uint64_t z = g_s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; return int(z % uint64_t(n)); }
static net::domain_t dom(int a) { return a == 4 ? net::domain_t::ipv4 : net::domain_t::ipv6; }
static int num(net::domain_t d) { return d == net::domain_t::ipv4 ? 4 : d == net::domain_t::ipv6 ? 6 : 0; }
static std::vector<int> codes(std::string_view s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return v; }
static Bytes ints(std::span<const uint8_t> s) { return Bytes(s.begin(), s.end()); }
static std::vector<uint8_t> octets(int n)
{
    std::vector<uint8_t> b(std::size_t(n), 0);
    int style = rnd(5);
    for (int i = 0; i < n; ++i) b[i] = uint8_t(style == 0 ? rnd(256) : rnd(3) ? 0 : rnd(2) ? rnd(16) : rnd(256));
    if (style < 4 && n == 16)
    {
        int f = rnd(9), l = rnd(9);
        for (int i = 0; i < 8; ++i) if (i >= f && i < l) b[2 * i] = b[2 * i + 1] = 0;
        if (!rnd(3)) { for (int i = 0; i < 10; ++i) b[i] = 0; b[10] = b[11] = 0xff; }
        if (!rnd(3)) for (int i = 0; i < 12; ++i) b[i] = 0;
    }
    return b;
}
static std::string text4() { std::string s; for (int i = 0; i < 4; ++i) s += (i ? "." : "") + std::to_string(rnd(4) ? rnd(256) : std::array{0, 9, 10, 99, 100, 249, 255, 256, 300, 999}[rnd(10)]); return s; }
static std::string text6()
{
    int n = rnd(3) ? 8 : 1 + rnd(9), gap = rnd(3) ? rnd(n + 1) : -1, cut = gap < 0 ? 0 : 1 + rnd(4);
    bool four = !rnd(4); std::string s; char b[16];
    for (int i = 0; i < n; ++i)
    {
        if (i == gap) { s += i ? ":" : "::"; i += cut - 1; if (i + 1 >= n && s.back() != ':') s += ':'; if (i + 1 >= n && gap) s += ':'; continue; }
        if (four && i == n - 2) { s += text4(); break; }
        std::snprintf(b, sizeof b, std::array{"%x", "%X", "%04x", "%02x"}[rnd(4)], rnd(3) ? rnd(65536) : rnd(16));
        s += b; if (i + 1 < n) s += ':';
    }
    return s;
}
static std::string text(int a)
{
    static const char al[] = "0123456789abcdefABCDEF::..::.. gxG-/+%";
    std::string s = rnd(12) ? (rnd(8) ? a == 4 : a != 4) ? text4() : text6() : std::string{};
    int edits = rnd(3) ? 0 : 1 + rnd(3);
    if (s.empty()) edits = rnd(8);
    while (edits--)
    {
        int at = rnd(int(s.size()) + 1);
        switch (rnd(4))
        {
            case 0: if (at < int(s.size())) s.erase(std::size_t(at), 1); break;
            case 1: if (at < int(s.size())) s[at] = al[rnd(sizeof al - 1)]; break;
            case 2: s.insert(std::size_t(at), 1, al[rnd(sizeof al - 1)]); break;
            default: if (at < int(s.size())) s.insert(std::size_t(at), 1, s[at]); break;
        }
    }
    return s;
}
static const char* kind(net::io_status::kind k)
{
    using K = net::io_status::kind;
    switch (k)
    {
        case K::ok: return "ok"; case K::closed: return "closed"; case K::connection_reset: return "reset"; case K::connection_refused: return "refused"; case K::timeout: return "timeout";
        case K::would_block_or_try_again: return "again"; case K::polling_error: return "pollerr"; case K::cancelled: return "cancelled"; case K::udp_not_bound: return "unbound";
        case K::message_too_big: return "toobig"; case K::native: return "native"; default: return "unknown";
    }
}
static std::vector<int> flags(const net::io_status& s) { return {int(s.is_ok() && bool(s)), int(s.is_timeout()), int(s.is_closed()), int(s.would_block() && s.try_again()), int(s.is_native())}; }
struct W : World
{
    explicit W(const Program&) {}
    static net::socket_address native(int a, const std::vector<uint8_t>& b, int port)
    {
        // as the kernel fills it in
        auto s = net::socket_address::make_uninitialised();
        auto [p, len] = s.native_mutable_data();
        if (a == 4)
        {
            sockaddr_in x; std::memset(&x, rnd(2) ? 0x5a : 0, sizeof x);
            x.sin_family = AF_INET; x.sin_port = htons(uint16_t(port)); std::memcpy(&x.sin_addr, b.data(), 4); std::memcpy(p, &x, sizeof x); *len = sizeof x;
        }
        else
        {
            sockaddr_in6 x; std::memset(&x, 0, sizeof x); x.sin6_flowinfo = rnd(2);
            x.sin6_family = AF_INET6; x.sin6_port = htons(uint16_t(port)); std::memcpy(&x.sin6_addr, b.data(), 16); std::memcpy(p, &x, sizeof x); *len = sizeof x;
        }
        return s;
    }
    static net::socket_address sock(int a, const std::vector<uint8_t>& b, int port)
    {
        auto ip = net::ip_address{std::span<const uint8_t>{b}, dom(a)};
        switch (rnd(3)) { case 0: return native(a, b, port); case 1: return net::socket_address{ip.to_string(), uint16_t(port), dom(a)}; default: return net::socket_address{ip, uint16_t(port)}; }
    }
    Sub exec(int, const Op& op, Res& r) override
    {
        g_s = uint64_t(op.b) * 1000003 + uint64_t(op.a);
        int a = op.a == 4 ? 4 : 6, n = a == 4 ? 4 : 16;
        auto port = [] { return rnd(3) ? rnd(65536) : std::array{0, 1, 80, 255, 256, 8080, 65535}[rnd(7)]; };
        if (op.op == "parse")
        {
            std::string s = text(a);
            // the view may be part of a longer text
            std::string whole = s + std::array<const char*, 5>{"", "1", ".7", ":1", "x"}[rnd(5)];
            Bytes out; bool ok = true;
            try { out = ints(net::ip_address::from_string(std::string_view{whole}.substr(0, s.size()), dom(a)).data()); }
            catch (const std::runtime_error&) { ok = false; }
            log("parse", a, codes(s), int(ok), out);
        }
        else if (op.op == "print")
        {
            auto b = octets(rnd(4) ? n : rnd(19));
            bool ok = true; Bytes out; std::string t;
            try { net::ip_address x{std::span<const uint8_t>{b}, dom(a)}; out = ints(x.data()); auto y = std::move(x); net::ip_address z; z = y; t = z.to_string(); ok = num(z.domain()) == a; }
            catch (const std::runtime_error&) { ok = false; }
            log("make", a, Bytes(b.begin(), b.end()), int(ok), out);
            if (ok) log("text", a, out, codes(t));
        }
        else if (op.op == "cmp")
        {
            auto b = octets(n); int a2 = rnd(4) ? a : 10 - a; auto f = a2 == a && rnd(3) ? b : octets(a2 == 4 ? 4 : 16);
            if (!rnd(2)) f[std::size_t(rnd(int(f.size())))] ^= uint8_t(1 << rnd(8));
            net::ip_address x{std::span<const uint8_t>{b}, dom(a)}, y{std::span<const uint8_t>{f}, dom(a2)};
            bool eq = x == y, odd = (x != y) == eq || (x <= y) != (eq || x < y) || (x >= y) != (eq || x > y);
            log("cmp", a, Bytes(b.begin(), b.end()), a2, Bytes(f.begin(), f.end()), int(x < y), odd ? 2 : int(eq), int(x > y));
        }
        else if (op.op == "sock")
        {
            auto b = octets(n); int p = port(); Bytes bi(b.begin(), b.end());
            const auto s = sock(a, b, p);
            log("sock", a, bi, p, std::vector<int>{num(s.domain()), int(s.port())}, ints(s.ip().data()), codes(s.to_string()));
            auto [q, len] = s.data();
            Bytes np, nb;
            auto raw = reinterpret_cast<const uint8_t*>(q);
            for (int i = 0; i < 2; ++i) np.push_back(raw[2 + i]);
            for (int i = 0; i < n; ++i) nb.push_back(raw[(a == 4 ? 4 : 8) + i]);
            log("native", a, bi, p, std::vector<int>{int(q->sa_family), int(len)}, np, nb);
        }
        else if (op.op == "eq")
        {
            auto b = octets(n); int p = port(), a2 = rnd(6) ? a : 10 - a, p2 = rnd(3) ? p : rnd(2) ? p ^ (1 << rnd(16)) : port();
            auto f = a2 == a ? b : octets(a2 == 4 ? 4 : 16);
            if (a2 != a && rnd(2)) { f.assign(f.size(), 0); std::memcpy(f.data(), b.data(), 4); b.assign(b.size(), 0); std::memcpy(b.data(), f.data(), 4); }
            if (!rnd(3)) f[std::size_t(rnd(int(f.size())))] ^= uint8_t(1 << rnd(8));
            auto x = sock(a, b, p), y = sock(a2, f, p2);
            if (!rnd(3)) { auto z = x; x = std::move(z); }
            log("eq", a, Bytes(b.begin(), b.end()), p, a2, Bytes(f.begin(), f.end()), p2, int(x == y), int(x != y));
        }
        else if (op.op == "status")
        {
            int code = op.b - 8; auto s = net::make_io_status_from_native(code);
            bool m = s.is_native() ? s.message() == std::system_category().message(code) : s.message() == net::to_string(s.type);
            log("status", code, kind(s.type), s.native_code, flags(s), int(m));
        }
        else if (op.op == "pstatus")
        {
            static const poll_status ps[] = {poll_status::read, poll_status::write, poll_status::timeout, poll_status::error, poll_status::closed, poll_status::cancelled};
            static const char* pn[] = {"read", "write", "timeout", "error", "closed", "cancelled"};
            int i = op.b % 6; auto s = net::make_io_status_from_poll_status(ps[i]);
            log("pstatus", pn[i], kind(s.type), flags(s), int(s.message() == net::to_string(s.type)));
        }
        else if (op.op == "names")
        {
            // every value has a name of its own; the values of one enumeration at a time
            std::vector<std::string> n; const char* e = "";
            auto add = [&](auto... xs) { (n.emplace_back(std::string{to_string(xs)}), ...); };
            using K = net::io_status::kind; using C = net::connect_status; namespace T = net::tls;
            auto tls = [&]<typename S>(S) { add(S::ok, S::buffer_is_empty, S::timeout, S::cancelled, S::closed, S::error, S::want_read, S::want_write, S::want_connect, S::want_accept, S::want_x509_lookup, S::error_syscall); };
            switch (op.b % 8)
            {
                case 0: e = "kind"; add(K::ok, K::closed, K::connection_reset, K::connection_refused, K::timeout, K::would_block_or_try_again, K::polling_error, K::cancelled, K::udp_not_bound, K::native, K::message_too_big, K::unknown); break;
                case 1: e = "poll_status"; add(poll_status::read, poll_status::write, poll_status::timeout, poll_status::error, poll_status::closed, poll_status::cancelled); break;
                case 2: e = "poll_op"; add(poll_op::read, poll_op::write, poll_op::read_write); break;
                case 3: e = "connect_status"; add(C::connected, C::invalid_ip_address, C::timeout, C::error); break;
                case 4: e = "tls_connection"; using T::connection_status; add(connection_status::connected, connection_status::not_connected, connection_status::context_required, connection_status::resource_allocation_failed, connection_status::set_fd_failure,
                    connection_status::handshake_failed, connection_status::timeout, connection_status::poll_error, connection_status::unexpected_close, connection_status::invalid_ip_address, connection_status::error); break;
                case 5: e = "tls_recv"; tls(T::recv_status::ok); break;
                case 6: e = "tls_send"; tls(T::send_status::ok); break;
                case 7: e = "domain"; add(net::domain_t::ipv4, net::domain_t::ipv6); break;
            }
            bool ok = poll_op_readable(poll_op::read) && !poll_op_readable(poll_op::write) && poll_op_readable(poll_op::read_write) && poll_op_writeable(poll_op::write) && !poll_op_writeable(poll_op::read) && poll_op_writeable(poll_op::read_write);
            net::hostname h1{"a.example"}, h2{"b.example"}; auto h3 = h1;
            ok = ok && h1.data() == "a.example" && (h1 <=> h2) < 0 && (h1 <=> h3) == 0;
            std::set<std::string> own(n.begin(), n.end());
            log("names", e, int(n.size()), int(own.size()), int(std::count(n.begin(), n.end(), "unknown")), int(ok));
        }
        r.s = "ok"; r.v = 0; r.vis = 1;
        co_return;
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }
