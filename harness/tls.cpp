// C24 world: one tls::server and up to three connections between tls::clients over the simulated network, libssl stood in for by vxtls.
// par: pool threads (0 = inline), manual, 1 = time moves only when nothing else can happen, bits: 1 partial writes, 2 renegotiation, 4 key updates, 8.. record size
#include "hx.hpp"
#include "vxtls.hpp"
#include "coro/net/tls/client.hpp"
#include "coro/net/tls/server.hpp"
#include "coro/scheduler.hpp"
#include <poll.h>
#include <sys/socket.h>
using namespace hx;
namespace net = coro::net;
namespace tls = coro::net::tls;
struct NewThread { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { vx::thread([h]() { h.resume(); }).detach(); } void await_resume() {} };
static const int64_t TO[] = {0, 1, 2, 5};
static const std::size_t SZ[] = {0, 1, 2, 3, 7, 64, 1500, 9000};
static const int REC[] = {4, 1, 64, 2000};
static const int ERR[] = {104, 110, 32, 5};
static char pat(int e, long i) { return char((i * 7 + i / 251 + e * 31) & 0xff); }
static const char* name(tls::connection_status s)
{
    using c = tls::connection_status;
    switch (s)
    {
        case c::connected: return "ok"; case c::handshake_failed: return "hsfail"; case c::timeout: return "timeout"; case c::poll_error: return "pollerr";
        case c::unexpected_close: return "closed"; case c::error: return "error"; default: return "other";
    }
}
template<typename S> static const char* name(S s)
{
    switch (s)
    {
        case S::ok: return "ok"; case S::buffer_is_empty: return "empty"; case S::timeout: return "timeout"; case S::cancelled: return "cancelled";
        case S::closed: return "closed"; case S::error: return "error"; case S::error_syscall: return "syscall"; default: return "other";
    }
}
struct W : World
{
    bool one_at_a_time() override { return true; }
    std::unique_ptr<coro::scheduler> s;
    bool stop{false}, inl, manual;
    std::vector<vx::thread> dt;
    std::shared_ptr<tls::context> ctx[2];
    std::unique_ptr<tls::server> srv;
    std::unique_ptr<tls::client> cl[8];
    long sent[8]{}, got[8]{};
    int mode[4]{};
    bool up[8]{}, rej[8]{};
    std::set<int> busy; // 1000: accept, e anything with that endpoint
    net::socket_address addr{"127.0.0.9", 8443};
    int fault[8][2]{};
    explicit W(const Program& p)
    {
        vx::io_reset();
        vx::io_points = true;
        vx::NetHook h;
        h.connect_mode = [this](int fd) { vx::unchecked u; for (int k = 1; k <= 3; ++k) if (cl[2 * k] && cl[2 * k]->socket().native_handle() == fd) return mode[k]; return 0; };
        h.ev = [this](const char* w, int k, int side, long n, const void*) { std::string x = w; if (x == "accepted") { turn.give(); busy.erase(1000); } if (x != "tx" && x != "rx" && x != "err") log(w, 2 * k + side, n, 1); };
        h.fault = [this](const char* w, int k, int side) { int e = 2 * k + side; return (w[0] != 'r' && w[0] != 's') || e > 7 ? 0 : std::exchange(fault[e][w[0] == 's'], 0); };
        vx::net_reset(h);
        vx::TlsHook t;
        t.end = [](int fd) { return vx::net_end(fd); };
        t.reject = [this](int e) { return e < 8 && std::exchange(rej[e], false); };
        t.ev = [this](const char* w, int e, long n, const void* b) {
            std::string x = w; bool ok = true;
            if (x == "want" || x == "free" || e < 2) return;
            if (x == "wr") { for (long i = 0; i < n; ++i) ok = ok && static_cast<const char*>(b)[i] == pat(e, sent[e] + i); sent[e] += n; }
            if (x == "rd") { int o = e ^ 1; for (long i = 0; i < n; ++i) ok = ok && static_cast<const char*>(b)[i] == pat(o, got[o] + i); got[o] += n; }
            log(w, e, n, int(ok));
        };
        int o3 = p.par.size() > 3 ? p.par[3] : 0;
        t.partial = o3 & 1; t.reneg = o3 & 2; t.keyup = o3 & 4; t.record = REC[o3 / 8 & 3];
        vx::tls_reset(t);
        inl = p.par[0] == 0; manual = p.par[1] != 0;
        coro::scheduler::options o;
        o.thread_strategy = manual ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn;
        o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
        o.pool.thread_count = uint32_t(p.par[0]);
        s = coro::scheduler::make_unique(o);
        ctx[0] = std::make_shared<tls::context>(tls::verify_peer_t::no);
        ctx[1] = std::make_shared<tls::context>("c.pem", tls::tls_file_type::pem, "k.pem", tls::tls_file_type::pem, tls::verify_peer_t::no);
        srv = std::make_unique<tls::server>(s, ctx[1], addr);
        for (int k = 1; k <= 3; ++k) { cl[2 * k] = std::make_unique<tls::client>(s, ctx[0], addr); vx::net_name(cl[2 * k]->socket().native_handle(), k); }
        if (manual) dt.emplace_back([this]() { while (!stop) s->process_events(std::chrono::milliseconds{7}); });
    }
    int role(const Op& op) const
    {
        if (op.op == "accept") return 1000;
        if (op.op == "connect") return 2 * op.a;
        if (op.op == "rd" || op.op == "wr" || op.op == "sd" || op.op == "cls" || op.op == "mv") return op.a;
        return 0;
    }
    bool skip(int, const Op& op) override
    {
        if (finishing) return true;
        int r = role(op);
        if (!r) return false;
        if (busy.count(r)) return true;
        if (r < 8 && !cl[r]) return true;
        if ((op.op == "rd" || op.op == "wr" || op.op == "sd") && !up[r]) return true;
        busy.insert(r);
        return false;
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        auto to = std::chrono::milliseconds{TO[op.b % 4]};
        int64_t t0 = vx::raw_now();
        int rl = role(op);
        if (rl && rl < 8) vx::tls_fresh(rl);
        if (op.op == "accept")
        {
            auto ps = co_await srv->poll(to);
            r.s = ps == coro::poll_status::timeout ? "timeout" : ps == coro::poll_status::cancelled ? "cancelled" : ps == coro::poll_status::closed ? "closed" : "pollerr";
            if (ps == coro::poll_status::read)
            {
                auto x = co_await srv->accept(to);
                int k = vx::net_conn(x.socket().native_handle()), e = 2 * k + 1;
                auto st = co_await x.connect();
                log("took", c, long((vx::raw_now() - t0) / 1000000));
                r.s = name(st); r.v = k;
                if (k >= 1 && k <= 3) rl = 0; // the next one may look for a connection since this one was taken
                if (k >= 1 && k <= 3) { up[e] = r.s == "ok"; cl[e] = std::make_unique<tls::client>(std::move(x)); turn.give(); }
            }
            else log("took", c, long((vx::raw_now() - t0) / 1000000));
        }
        else if (op.op == "connect")
        {
            int k = op.a;
            if (!vx::net_state(k)) mode[k] = op.b / 4 % 4 == 2 ? 1 : op.b / 4 % 4;
            auto st = co_await cl[2 * k]->connect(to);
            log("took", c, long((vx::raw_now() - t0) / 1000000));
            r.s = name(st);
            up[2 * k] = r.s == "ok";
        }
        else if (op.op == "rd")
        {
            std::size_t n = SZ[op.b / 4 % 8];
            std::vector<char> b(n, 0);
            long from = got[op.a ^ 1];
            auto x = co_await cl[op.a]->recv(b, op.b % 4 ? std::optional{to} : std::nullopt);
            log("took", c, long((vx::raw_now() - t0) / 1000000));
            bool ok = x.second.empty() || x.second.data() == b.data();
            for (std::size_t i = 0; i < x.second.size() && i < n; ++i) ok = ok && x.second[i] == pat(op.a ^ 1, from + long(i));
            r.s = name(x.first); r.v = long(x.second.size()); r.vis = ok;
        }
        else if (op.op == "wr")
        {
            std::size_t n = SZ[op.b / 4 % 8];
            std::vector<char> b(n);
            for (std::size_t i = 0; i < n; ++i) b[i] = pat(op.a, sent[op.a] + long(i));
            const auto& cb = b;
            auto x = co_await cl[op.a]->send(cb, op.b % 4 ? std::optional{to} : std::nullopt);
            log("took", c, long((vx::raw_now() - t0) / 1000000));
            r.s = name(x.first); r.v = long(x.second.size());
            r.vis = x.second.empty() || x.second.data() == b.data() + (n - x.second.size());
        }
        else if (op.op == "sd")
        {
            if (op.b) co_await cl[op.a]->shutdown(std::chrono::milliseconds{op.b});
            else co_await cl[op.a]->shutdown();
        }
        else if (op.op == "cls") { up[op.a] = false; auto x = std::move(cl[op.a]); x.reset(); }
        else if (op.op == "mv")
        {
            auto x = std::make_unique<tls::client>(std::move(*cl[op.a]));
            if (op.b == 1) { auto y = std::make_unique<tls::client>(s, ctx[0], addr); *y = std::move(*x); x = std::move(y); }
            cl[op.a] = std::move(x);
            turn.give();
        }
        else if (op.op == "up") vx::net_up(op.a);
        else if (op.op == "refuse") vx::net_refuse(op.a);
        else if (op.op == "tear") tear(op.a, op.b % 3);
        else if (op.op == "rej") rej[op.a] = true;
        else if (op.op == "flt") fault[op.a][op.b / 4 % 2] = ERR[op.b % 4];
        else if (op.op == "down") srv->shutdown();
        else if (op.op == "nap") { co_await NewThread{}; vx::this_thread::sleep_ns(op.b * 500000); }
        turn.give();
        busy.erase(rl);
        co_return;
    }
    void tear(int e, int how) { int fd = vx::net_fd(e / 2, e % 2); if (fd >= 0) ::shutdown(fd, how); }
    void kern()
    {
        auto look = [](int fd, short what) { pollfd p{fd, what, 0}; return int(::poll(&p, 1, 0) > 0); };
        std::vector<int> rd, wr, pl, wr_, ww;
        for (int e = 2; e < 8; ++e)
        {
            int fd = vx::net_fd(e / 2, e % 2);
            if (fd >= 0) { if (look(fd, POLLIN)) rd.push_back(e); if (look(fd, POLLOUT)) wr.push_back(e); }
            auto t = vx::tls_state(e);
            if (t.plain) pl.push_back(e);
            if (t.want == 1) wr_.push_back(e);
            if (t.want == 2) ww.push_back(e);
        }
        log("kern", rd, wr, look(srv->accept_socket().native_handle(), POLLIN), pl, wr_, ww);
    }
    void after_quiesce(int) override { kern(); }
    void finish() override
    {
        for (auto& f : fault) f[0] = f[1] = 0;
        log("call", 8, "down", 0, 0); srv->shutdown(); log("ret", 8, "down", "ok", 0, 1);
        for (int k = 1; k <= 3; ++k) { log("call", 8, "refuse", k, 0); vx::net_refuse(k); log("ret", 8, "refuse", "ok", 0, 1); }
        for (int e = 2; e < 8; ++e) tear(e, 2);
        vx::quiesce();
        log("q", std::vector<int>(pending.begin(), pending.end()));
        kern();
        for (int e = 0; e < 8; ++e) if (cl[e]) { log("call", 8, "cls", e, 0); cl[e].reset(); log("ret", 8, "cls", "ok", 0, 1); }
        stop = true; vx::note_progress();
        for (auto& t : dt) t.join();
        s.reset();
        srv.reset();
        ctx[0].reset(); ctx[1].reset();
        log("left", vx::net_open_fds() + vx::tls_alive());
        vx::net_reset({});
        vx::tls_reset({});
    }
};
int main(int argc, char** argv)
{
    return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); },
        [](const Program& p, vx::Config& c) { uint64_t h = c.seed * 0x9e3779b97f4a7c15ull; c.time_adv = !p.par[2] && (h >> 40) % 3 == 0 ? 12 + int((h >> 20) % 40) : 0; });
}
