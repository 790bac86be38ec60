// C20 world: udp peers 1, 2 (bound) and 3 (not bound); reads go through the peer itself, writes through a copy.
// par: pool threads (0 = inline), manual, 1 = time moves only when nothing else can happen, addresses (see Addr), how the peers came to be (0 made, 1 copied, 2 moved, 3 copy assigned, 4 move assigned)
#include "hx.hpp"
#include "vxnet.hpp"
#include "coro/net/udp/peer.hpp"
#include "coro/scheduler.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
using namespace hx;
namespace net = coro::net;
struct NewThread { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { vx::thread([h]() { h.resume(); }).detach(); } void await_resume() {} };
static const int64_t TO[] = {0, 1, 2, 5};
static const std::size_t SZ[] = {0, 1, 2, 3, 7, 64, 2000, 20000};
static const int ERR[] = {104, 111, 110, 32, 90, 12, 101, 4};
static const char* status_name(net::io_status s)
{
    using k = net::io_status::kind;
    if (s.is_ok() != (s.type == k::ok) || bool(s) != s.is_ok() || s.is_timeout() != (s.type == k::timeout) || s.is_closed() != (s.type == k::closed) || s.try_again() != (s.type == k::would_block_or_try_again) || s.is_native() != (s.type == k::native)) return "inconsistent";
    switch (s.type)
    {
        case k::ok: return "ok"; case k::closed: return "closed"; case k::connection_reset: return "reset"; case k::connection_refused: return "refused";
        case k::timeout: return "timeout"; case k::would_block_or_try_again: return "again"; case k::polling_error: return "pollerr"; case k::cancelled: return "cancelled";
        case k::udp_not_bound: return "notbound"; case k::message_too_big: return "toobig"; case k::native: return "native"; default: return "unknown";
    }
}
static long status_code(net::io_status s) { return !s.is_native() ? 0 : s.message() == std::system_category().message(s.native_code) ? s.native_code : -1; }
// an address, put together without the library
struct Addr
{
    sockaddr_in6 a6{}; sockaddr_in a4{}; bool v6; std::string ip; uint16_t port;
    Addr(int mode, int t) : v6(mode >= 2)
    {
        static const char* const IP[2][4] = {{"", "127.0.0.1", "127.0.0.2", "10.1.2.3"}, {"", "fd00:1:2:3:4:5:6:7", "fd00:1:2:3:4:5:6:8", "::1"}};
        ip = IP[v6][t == 2 && mode % 2 == 0 ? 1 : t];
        port = uint16_t(t == 2 && mode % 2 == 0 ? 9258 : t == 3 ? 9009 : 9001);
        if (v6) { a6.sin6_family = AF_INET6; a6.sin6_port = htons(port); ::inet_pton(AF_INET6, ip.c_str(), &a6.sin6_addr); }
        else { a4.sin_family = AF_INET; a4.sin_port = htons(port); ::inet_pton(AF_INET, ip.c_str(), &a4.sin_addr); }
    }
    const sockaddr* sa() const { return v6 ? reinterpret_cast<const sockaddr*>(&a6) : reinterpret_cast<const sockaddr*>(&a4); }
    socklen_t len() const { return v6 ? sizeof a6 : sizeof a4; }
    int id() const { return vx::net_addr(sa(), len()); }
    net::socket_address lib() const { return net::socket_address{ip, port, v6 ? net::domain_t::ipv6 : net::domain_t::ipv4}; }
    bool is(const net::socket_address& x) const
    {
        return x == lib() && x.port() == port && x.domain() == (v6 ? net::domain_t::ipv6 : net::domain_t::ipv4) && x.ip() == net::ip_address::from_string(ip, x.domain()) && x.ip().to_string() == ip
            && x.ip().data().size() == (v6 ? 16u : 4u) && x.to_string() == ip + ":" + std::to_string(port);
    }
};
struct W : World
{
    bool one_at_a_time() override { return true; }
    std::unique_ptr<coro::scheduler> s;
    bool stop{false}, inl, manual;
    std::vector<vx::thread> dt;
    std::unique_ptr<net::udp::peer> rd[4], wr[4];
    std::set<int> busy;                         // p reading, 10 + p writing
    int mode, adr[4]{};                         // addresses: of 1, 2, of 3 once it has one
    int fault[4][2]{};
    std::string out[4]; int dst[4]{};           // what peer p is writing, and to where
    struct Dg { int from; std::string data; };
    std::deque<Dg> net_[4];                     // arrived at p, not taken
    Dg last[4];                                 // taken last by p
    long serial{0};
    int peer_of(int pt) { for (int i = 1; i <= 3; ++i) if (adr[i] == pt) return i; return 0; }
    explicit W(const Program& p)
    {
        vx::io_reset();
        vx::io_points = true;
        mode = p.par.size() > 3 ? p.par[3] : 0;
        vx::NetHook h;
        h.dg = [this](const char* w, int own, int other, long n, const void* b) {
            bool ok = true;
            int me = peer_of(own);
            if (!me && w[0] != 'r') { me = 3; adr[3] = own; }
            int it = peer_of(other);
            if (w[0] == 't' || w[0] == 'd')
            {
                std::string d(static_cast<const char*>(b), size_t(n));
                ok = d == out[me] && other == dst[me];
                if (w[0] == 't' && it) net_[it].push_back({own, d});
            }
            else if (w[0] == 'r')
            {
                if (net_[me].empty()) ok = false;
                else { last[me] = net_[me].front(); net_[me].pop_front(); ok = last[me].from == other && std::string(static_cast<const char*>(b), size_t(n)) == last[me].data.substr(0, size_t(n)); }
            }
            log(w, me, it, n, int(ok));
        };
        h.fault = [this](const char* w, int own, int) {
            int me = own ? peer_of(own) : 3;
            return w[0] == 's' ? std::exchange(fault[me][1], 0) : w[0] == 'r' ? std::exchange(fault[me][0], 0) : 0;
        };
        vx::net_reset(h);
        for (int i = 1; i <= 2; ++i) adr[i] = Addr(mode, i).id();
        inl = p.par[0] == 0; manual = p.par[1] != 0;
        coro::scheduler::options o;
        o.thread_strategy = manual ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn;
        o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
        o.pool.thread_count = uint32_t(p.par[0]);
        s = coro::scheduler::make_unique(o);
        for (int i = 1; i <= 3; ++i)
        {
            if (i < 3) rd[i] = std::make_unique<net::udp::peer>(s, Addr(mode, i).lib());
            else rd[i] = std::make_unique<net::udp::peer>(s, mode >= 2 ? net::domain_t::ipv6 : net::domain_t::ipv4);
            rd[i] = hand_over(std::move(rd[i]), i, p.par.size() > 4 ? p.par[4] : 0);
            wr[i] = std::make_unique<net::udp::peer>(*rd[i]);
        }
        if (manual) dt.emplace_back([this]() { while (!stop) s->process_events(std::chrono::milliseconds{7}); });
    }
    // a bound peer takes the place of one that is not, and the other way round
    std::unique_ptr<net::udp::peer> hand_over(std::unique_ptr<net::udp::peer> x, int i, int how)
    {
        using P = net::udp::peer;
        if (how == 0) return x;
        if (how == 1) return std::make_unique<P>(std::as_const(*x));
        if (how == 2) return std::make_unique<P>(std::move(*x));
        auto y = i == 3 ? std::make_unique<P>(s, Addr(mode, 3).lib()) : std::make_unique<P>(s, mode >= 2 ? net::domain_t::ipv6 : net::domain_t::ipv4);
        if (how == 3) *y = std::as_const(*x);
        else *y = std::move(*x);
        x.reset();
        auto& z = *y;
        *y = z;
        return y;
    }
    bool skip(int, const Op& op) override
    {
        if (finishing) return true;
        int r = op.op == "rd" ? op.a : op.op == "wr" || op.op == "raw" ? 10 + op.a / 4 : 0;
        if (!r) return false;
        return !busy.insert(r).second;
    }
    void make(int p, int to, std::size_t n)
    {
        ++serial;
        out[p].resize(n);
        for (std::size_t i = 0; i < n; ++i) out[p][i] = char(i < 2 ? serial >> (8 * i) : (i * 13 + size_t(serial)));
        dst[p] = Addr(mode, to).id();
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        auto to = std::chrono::milliseconds{TO[op.b % 4]};
        std::size_t n = SZ[op.b / 4 % 8];
        int64_t t0 = vx::raw_now();
        if (op.op == "rd")
        {
            int p = op.a;
            std::vector<char> b(n, 0);
            last[p] = {};
            auto [st, from, got] = co_await rd[p]->read_from(b, to);
            log("took", c, long((vx::raw_now() - t0) / 1000000), status_code(st));
            r.s = status_name(st);
            r.v = long(got.size());
            if (st.is_ok() && n > 0)
            {
                r.vis = reinterpret_cast<const char*>(got.data()) == b.data() && std::string(b.data(), got.size()) == last[p].data.substr(0, n);
                int f = peer_of(last[p].from);
                try
                {
                    auto [sa, k] = from.data();
                    r.vis = r.vis && vx::net_addr_is(last[p].from, sa, k) && (f == 3 || Addr(mode, f).is(from));
                    for (int i = 1; i <= 2; ++i) if (i != f) r.vis = r.vis && !(from == Addr(mode, i).lib());
                }
                catch (...) { r.vis = false; }
            }
            else r.vis = got.empty();
            turn.give();
            busy.erase(p);
        }
        else if (op.op == "wr")
        {
            int p = op.a / 4, t = op.a % 4;
            make(p, t, n);
            std::string b = out[p];
            auto st = co_await wr[p]->write_to(Addr(mode, t).lib(), b, to);
            log("took", c, long((vx::raw_now() - t0) / 1000000), status_code(st));
            r.s = status_name(st);
            turn.give();
            busy.erase(10 + p);
        }
        else if (op.op == "raw")                // not through the library: it sends no empty datagrams
        {
            int p = op.a / 4, t = op.a % 4;
            make(p, t, n);
            Addr a(mode, t);
            ::sendto(wr[p]->socket().native_handle(), out[p].data(), n, MSG_DONTWAIT, a.sa(), a.len());
            turn.give();
            busy.erase(10 + p);
        }
        else if (op.op == "flt") fault[op.a][op.b / 8 % 2] = ERR[op.b % 8];
        else if (op.op == "nap") { co_await NewThread{}; vx::this_thread::sleep_ns(op.b * 500000); }
        co_return;
    }
    void kern()
    {
        auto look = [](int fd, short what) { pollfd p{fd, what, 0}; return int(::poll(&p, 1, 0) > 0); };
        std::vector<int> r, w;
        for (int p = 1; p <= 3; ++p)
        {
            if (look(rd[p]->socket().native_handle(), POLLIN)) r.push_back(p);
            if (look(wr[p]->socket().native_handle(), POLLOUT)) w.push_back(p);
        }
        log("kern", r, w);
    }
    void after_quiesce(int) override { kern(); }
    void finish() override
    {
        char b[32768];
        for (auto& f : fault) f[0] = f[1] = 0;
        for (int i = 0; i < 5 && (i == 0 || busy.count(11) || busy.count(12) || busy.count(13)); ++i)
        {
            for (int p = 1; p <= 2; ++p)
            {
                if (busy.count(p)) continue;
                log("call", 8, "drain", p, 0);
                while (::recv(rd[p]->socket().native_handle(), b, sizeof b, MSG_DONTWAIT) >= 0) {}
                log("ret", 8, "drain", "ok", 0, 1);
            }
            vx::quiesce();
        }
        if (!busy.count(13))
            for (int p = 1; p <= 2; ++p)
                if (busy.count(p))
                {
                    log("call", 8, "wr", 12 + p, 4);
                    make(3, p, 1);
                    Addr a(mode, p);
                    for (auto& f : fault) f[0] = f[1] = 0;
                    ::sendto(wr[3]->socket().native_handle(), out[3].data(), 1, 0, a.sa(), a.len());
                    log("ret", 8, "wr", "ok", 0, 1);
                    vx::quiesce();
                }
        log("q", std::vector<int>(pending.begin(), pending.end()));
        kern();
        stop = true; vx::note_progress();
        for (auto& t : dt) t.join();
        s.reset();
        for (auto& x : rd) x.reset();
        for (auto& x : wr) x.reset();
        log("left", vx::net_open_fds());
        vx::net_reset({});
    }
};
int main(int argc, char** argv)
{
    return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); },
        [](const Program& p, vx::Config& c) { uint64_t h = c.seed * 0x9e3779b97f4a7c15ull; c.time_adv = !p.par[2] && (h >> 40) % 3 == 0 ? 12 + int((h >> 20) % 40) : 0; });
}
