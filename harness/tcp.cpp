// C19 world: one tcp::server and up to three connections between library clients, over the simulated network of vxnet.
// par: pool threads (0 = inline), manual, 1 = time moves only when nothing else can happen, 1 = IPv6, how the clients came to be (see hand_over)
// endpoint = 2 * connection + side (0 the connecting client, 1 the accepted one); reads go through the client itself, writes through a copy
#include "hx.hpp"
#include "vxnet.hpp"
#include "coro/net/tcp/client.hpp"
#include "coro/net/tcp/server.hpp"
#include "coro/scheduler.hpp"
#include <poll.h>
#include <sys/socket.h>
using namespace hx;
namespace net = coro::net;
struct NewThread { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { vx::thread([h]() { h.resume(); }).detach(); } void await_resume() {} };
static const int64_t TO[] = {0, 1, 2, 5};
static const std::size_t SZ[] = {0, 1, 2, 3, 7, 64, 5000, 30000};
static const char* status_name(net::io_status s)
{
    using k = net::io_status::kind;
    if (s.is_ok() != (s.type == k::ok) || bool(s) != s.is_ok() || s.is_timeout() != (s.type == k::timeout) || s.is_closed() != (s.type == k::closed) || s.try_again() != (s.type == k::would_block_or_try_again) || s.is_native() != (s.type == k::native)) return "inconsistent";
    switch (s.type)
    {
        case k::ok: return "ok"; case k::closed: return "closed"; case k::connection_reset: return "reset"; case k::connection_refused: return "refused";
        case k::timeout: return "timeout"; case k::would_block_or_try_again: return "again"; case k::polling_error: return "pollerr"; case k::cancelled: return "cancelled";
        case k::udp_not_bound: return "notbound"; case k::message_too_big: return "toobig"; case k::native: return "native"; default: return "unknown";
    }
}
static const int ERR[] = {104, 111, 110, 32, 90, 12, 101, 4};
static long status_code(net::io_status s) { return !s.is_native() ? 0 : s.message() == std::system_category().message(s.native_code) ? s.native_code : -1; }
static char pat(int e, long i) { return char((i * 7 + i / 251 + e * 31) & 0xff); }
struct W : World
{
    bool one_at_a_time() override { return true; }
    std::unique_ptr<coro::scheduler> s;
    std::set<int> workers, loops;
    bool stop{false}, inl, manual;
    std::vector<vx::thread> dt;
    std::unique_ptr<net::tcp::server> srv;
    std::unique_ptr<net::tcp::client> cl[8], wr[8];
    long sent[8]{}, got[8]{}, put[8]{};       // kernel: bytes written by / taken from the stream written by e; put: what the writer was told
    int mode[4]{}; bool closing[8]{};
    std::set<int> busy;                       // 1000: accept, 100 + k connect, e reading, 10 + e writing
    net::socket_address addr;
    int fault[8][4]{};                        // endpoint (0: the server) and recv, send, connect, accept -> error to come
    explicit W(const Program& p) : addr(p.par.size() > 3 && p.par[3] ? net::socket_address{"fd00::1:2", 8080, net::domain_t::ipv6} : net::socket_address{"127.0.0.9", 8080})
    {
        vx::io_reset();
        vx::io_points = true;
        vx::NetHook h;
        h.connect_mode = [this](int fd) { vx::unchecked u; for (int k = 1; k <= 3; ++k) if (cl[2 * k] && cl[2 * k]->socket().native_handle() == fd) return mode[k]; return 0; };
        h.ev = [this](const char* w, int k, int side, long n, const void* b) {
            int e = 2 * k + side; bool ok = true;
            if (w[0] == 't' && w[1] == 'x') { for (long i = 0; i < n; ++i) ok = ok && static_cast<const char*>(b)[i] == pat(e, sent[e] + i); sent[e] += n; }
            if (w[0] == 'r' && w[1] == 'x') { int o = e ^ 1; for (long i = 0; i < n; ++i) ok = ok && static_cast<const char*>(b)[i] == pat(o, got[o] + i); got[o] += n; }
            log(w, e, n, int(ok));
        };
        h.fault = [this](const char* w, int k, int side) {
            int e = w[0] == 'a' ? 0 : 2 * k + side;
            return w[0] == 'p' || e > 7 ? 0 : std::exchange(fault[e][w[0] == 'r' ? 0 : w[0] == 's' ? 1 : w[0] == 'c' ? 2 : 3], 0);
        };
        vx::net_reset(h);
        inl = p.par[0] == 0; manual = p.par[1] != 0;
        coro::scheduler::options o;
        o.thread_strategy = manual ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn;
        o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
        o.pool.thread_count = uint32_t(p.par[0]);
        s = coro::scheduler::make_unique(o);
        how = p.par.size() > 4 ? p.par[4] : 0;
        srv = std::make_unique<net::tcp::server>(s, addr);
        if (how == 2 || how == 4) srv = std::make_unique<net::tcp::server>(std::move(*srv));
        for (int k = 1; k <= 3; ++k) { cl[2 * k] = hand_over(std::make_unique<net::tcp::client>(s, addr)); vx::net_name(cl[2 * k]->socket().native_handle(), k); }
        if (manual) dt.emplace_back([this]() { while (!stop) s->process_events(std::chrono::milliseconds{7}); });
    }
    // how the clients came to be: 0 made, 1 copied, 2 moved, 3 copy assigned, 4 move assigned to one for another address
    int how{0};
    std::unique_ptr<net::tcp::client> hand_over(std::unique_ptr<net::tcp::client> x)
    {
        using P = net::tcp::client;
        if (how == 0) return x;
        if (how == 1) return std::make_unique<P>(std::as_const(*x));
        if (how == 2) return std::make_unique<P>(std::move(*x));
        auto y = std::make_unique<P>(s, net::socket_address{"127.0.0.2", 7});
        if (how == 3) *y = std::as_const(*x);
        else *y = std::move(*x);
        x.reset();
        auto& z = *y;
        *y = z;
        return y;
    }
    int role(const Op& op) const
    {
        if (op.op == "accept") return 1000;
        if (op.op == "connect") return 100 + op.a;
        if (op.op == "rs" || op.op == "re") return op.a;
        if (op.op == "ws" || op.op == "wa" || op.op == "fin") return 10 + op.a;
        return 0;
    }
    bool skip(int, const Op& op) override
    {
        if (finishing) return true;
        if (op.a > 0 && op.a < 8 && closing[op.a] && op.op != "flt" && op.op != "up" && op.op != "refuse" && op.op != "connect") return true;
        if (op.op == "connect" && closing[2 * op.a]) return true;
        if (int r = role(op))
        {
            if (busy.count(r)) return true;
            if (r < 20 && (!cl[op.a] || !wr[op.a])) return true;
            busy.insert(r);
        }
        if (op.op == "close" && (!wr[op.a] || busy.count(op.a) || busy.count(10 + op.a))) return true;
        if (op.op == "close") { closing[op.a] = true; busy.insert(op.a); busy.insert(10 + op.a); }
        if (op.op == "fin" && (!wr[op.a] || busy.count(10 + op.a))) return true;
        return false;
    }
    void copy(int e) { wr[e] = std::make_unique<net::tcp::client>(*cl[e]); }
    template<typename T> static void judge(Res& r, net::io_status st, std::span<T> got, bool place) { r.s = status_name(st); r.v = long(got.size()); r.vis = place; }
    Sub exec(int c, const Op& op, Res& r) override
    {
        auto to = std::chrono::milliseconds{TO[op.b % 4]};
        int64_t t0 = vx::raw_now();
        int rl = role(op);
        if (op.op == "accept")
        {
            auto x = co_await srv->accept(to);
            log("took", c, long((vx::raw_now() - t0) / 1000000), x ? 0 : status_code(x.error()));
            if (x)
            {
                r.s = "ok"; r.v = vx::net_conn(x->socket().native_handle());
                int e = int(2 * r.v + 1);
                if (r.v >= 1 && r.v <= 3 && !cl[e]) { cl[e] = hand_over(std::make_unique<net::tcp::client>(std::move(*x))); if (co_await cl[e]->connect(to) != net::connect_status::connected) r.s = "junk"; copy(e); turn.give(); }
            }
            else r.s = status_name(x.error());
        }
        else if (op.op == "connect")
        {
            int k = op.a;
            if (!vx::net_state(k)) mode[k] = op.b / 4 % 4 == 2 ? 1 : op.b / 4 % 4;
            auto st = co_await cl[2 * k]->connect(to);
            log("took", c, long((vx::raw_now() - t0) / 1000000), 0);
            r.s = st == net::connect_status::connected ? "ok" : st == net::connect_status::timeout ? "timeout" : st == net::connect_status::error ? "error" : "junk";
            if (r.s == "ok" && !wr[2 * k]) turn.take();
            if (r.s == "ok" && !wr[2 * k] && !closing[2 * k])
            {
                if (how > 2) cl[2 * k] = hand_over(std::move(cl[2 * k]));
                if (co_await cl[2 * k]->connect(to) != net::connect_status::connected) r.s = "junk";   // it is connected
                copy(2 * k);
                turn.give();
            }
        }
        else if (op.op == "rs" || op.op == "re")
        {
            std::size_t n = SZ[op.b / 4 % 8];
            std::vector<char> b(n, 0);
            long from = got[op.a ^ 1];
            auto x = op.op == "rs" ? std::optional<std::pair<net::io_status, std::span<char>>>{} : std::nullopt;
            if (op.op == "rs") x = co_await cl[op.a]->read_some(b, to);
            else x = co_await cl[op.a]->read_exact(b, to);
            log("took", c, long((vx::raw_now() - t0) / 1000000), status_code(x->first));
            bool ok = x->second.empty() || x->second.data() == b.data();
            for (std::size_t i = 0; i < x->second.size() && i < n; ++i) ok = ok && x->second[i] == pat(op.a ^ 1, from + long(i));
            judge(r, x->first, x->second, ok);
        }
        else if (op.op == "ws" || op.op == "wa")
        {
            std::size_t n = SZ[op.b / 4 % 8];
            std::vector<char> b(n);
            for (std::size_t i = 0; i < n; ++i) b[i] = pat(op.a, sent[op.a] + long(i));
            auto x = std::optional<std::pair<net::io_status, std::span<const char>>>{};
            if (op.op == "ws") { auto y = co_await wr[op.a]->write_some(b, to); x.emplace(y.first, std::span<const char>{y.second.data(), y.second.size()}); }
            else { auto y = co_await wr[op.a]->write_all(b, to); x.emplace(y.first, std::span<const char>{y.second.data(), y.second.size()}); }
            log("took", c, long((vx::raw_now() - t0) / 1000000), status_code(x->first));
            judge(r, x->first, x->second, x->second.empty() || x->second.data() == b.data() + (n - x->second.size()));
        }
        else if (op.op == "up") vx::net_up(op.a);
        else if (op.op == "refuse") vx::net_refuse(op.a);
        else if (op.op == "fin") wr[op.a]->socket().shutdown(coro::poll_op::write);
        else if (op.op == "close") { cl[op.a]->socket().close(); wr[op.a].reset(); }
        else if (op.op == "flt") fault[op.a][op.b / 8 % 4] = ERR[op.b % 8];
        else if (op.op == "down") srv->shutdown();
        else if (op.op == "nap") { co_await NewThread{}; vx::this_thread::sleep_ns(op.b * 500000); }
        turn.give();
        busy.erase(rl);
        co_return;
    }
    void kern()
    {
        vx::unchecked u;
        auto look = [](int fd, short what) { pollfd p{fd, what, 0}; return int(::poll(&p, 1, 0) > 0); };
        std::vector<int> rd, wrt;
        for (int e = 2; e < 8; ++e)
            if (cl[e] && cl[e]->socket().native_handle() >= 0 && wr[e])
            {
                if (look(cl[e]->socket().native_handle(), POLLIN)) rd.push_back(e);
                if (look(wr[e]->socket().native_handle(), POLLOUT)) wrt.push_back(e);
            }
        log("kern", rd, wrt, look(srv->accept_socket().native_handle(), POLLIN));
    }
    void after_quiesce(int) override { kern(); }
    void finish() override
    {
        for (auto& f : fault) for (int& x : f) x = 0;
        log("call", 8, "down", 0, 0); srv->shutdown(); log("ret", 8, "down", "ok", 0, 1);
        for (int k = 1; k <= 3; ++k) { log("call", 8, "refuse", k, 0); vx::net_refuse(k); log("ret", 8, "refuse", "ok", 0, 1); }
        for (int e = 2; e < 8; ++e) if (wr[e]) wr[e]->socket().shutdown(coro::poll_op::read_write);
        vx::quiesce();
        log("q", std::vector<int>(pending.begin(), pending.end()));
        kern();
        stop = true; vx::note_progress();
        for (auto& t : dt) t.join();
        s.reset();
        srv.reset();
        for (int e = 0; e < 8; ++e) { cl[e].reset(); wr[e].reset(); }
        log("left", vx::net_open_fds());
        vx::net_reset({});
    }
};
int main(int argc, char** argv)
{
    return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); },
        [](const Program& p, vx::Config& c) { uint64_t h = c.seed * 0x9e3779b97f4a7c15ull; c.time_adv = !p.par[2] && (h >> 40) % 3 == 0 ? 12 + int((h >> 20) % 40) : 0; });
}
