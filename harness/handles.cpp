// C23 world: handles on descriptors, one operation after the other, with the process's descriptor table looked at after each.
// slot = 10 * kind + i (i 1..3), kind 1 net::socket, 2 poll_stop_source, 3 tcp::client, 4 tcp::server, 5 udp::peer (bound), 6 scheduler, 7 udp::peer (not bound)
#include "hx.hpp"
#include "vxio.hpp"
#include "coro/net/tcp/client.hpp"
#include "coro/net/tcp/server.hpp"
#include "coro/net/udp/peer.hpp"
#include "coro/scheduler.hpp"
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace hx;
namespace net = coro::net;
extern "C"
{
int     __real_close(int);
ssize_t __real_read(int, void*, size_t);
}
static const int LIM = 160;
static bool is_open(int f) { return ::fcntl(f, F_GETFD) >= 0; }
static int  open_fds() { int n = 0; for (int f = 0; f < LIM; ++f) n += is_open(f); return n; }
// descriptors of the rest of the process
static std::set<int> g_foreign;
static int           g_bad = 0;
static bool guard(int fd, char op)
{
    if (fd < 0) return true;
    if (g_foreign.count(fd)) { if (op != 'w' || fd > 2) { ++g_bad; return false; } return true; }
    if (op == 'c' && !is_open(fd)) ++g_bad;
    return true;
}
struct W : World
{
    bool one_at_a_time() override { return true; }
    std::unique_ptr<coro::scheduler> s, none;
    std::optional<net::socket> so[4];
    std::optional<coro::poll_stop_source> st[4];
    std::optional<net::tcp::client> cl[4];
    std::optional<net::tcp::server> sv[4];
    std::optional<net::udp::peer> pe[4], pu[4];
    std::unique_ptr<coro::scheduler> sc[4];
    std::map<std::pair<dev_t, ino_t>, int> obj;
    int nobj{0}, base0{0}, base{0};
    std::set<int> own;
    net::socket_address any{"127.0.0.1", 0}, notours{"203.0.113.1", 9};
    explicit W(const Program&)
    {
        vx::io_reset();
        vx::io_points = false;
        vx::fd_guard = nullptr;
        static std::set<int> ours; // the harness's own; what a run before this one leaked is cleared away
        if (ours.empty()) { for (int f = 0; f < LIM; ++f) if (is_open(f)) ours.insert(f); }
        else for (int f = 0; f < 4 * LIM; ++f) if (!ours.count(f) && is_open(f)) __real_close(f);
        g_foreign = {0, 1, 2};
        g_bad = 0;
        for (int f = 0; f < LIM; ++f) if (is_open(f)) g_foreign.insert(f);
        base0 = open_fds();
        s = mksched();
        base = open_fds();
        vx::fd_guard = guard;
    }
    static std::unique_ptr<coro::scheduler> mksched()
    {
        coro::scheduler::options o;
        o.thread_strategy = coro::scheduler::thread_strategy_t::spawn;
        o.execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline;
        return coro::scheduler::make_unique(o);
    }
    // something else in the process takes the lowest free number, so that a late second close would hit it
    int occupy() { int f = ::fcntl(0, F_DUPFD, 0); if (f >= 0) { g_foreign.insert(f); own.insert(f); } return f; }
    void vacate(int f) { g_foreign.erase(f); own.erase(f); __real_close(f); }
    template<typename F> auto with(int a, F&& f)
    {
        int i = a % 10;
        switch (a / 10)
        {
            case 1: return f(so[i]);
            case 3: return f(cl[i]);
            case 4: return f(sv[i]);
            case 5: return f(pe[i]);
            case 7: return f(pu[i]);
            default: return f(st[i]);
        }
    }
    template<typename X> static net::socket* sock(X& x)
    {
        if constexpr (requires { x->accept_socket(); }) return &x->accept_socket();
        else if constexpr (requires { x->socket(); }) return &x->socket();
        else return nullptr;
    }
    static net::socket* sock(std::optional<net::socket>& x) { return &*x; }
    template<typename X> static int fd_of(X& x)
    {
        if constexpr (requires { x->get_token(); }) return x->get_token().native_handle();
        else return sock(x)->native_handle();
    }
    void make(int a)
    {
        int i = a % 10;
        switch (a / 10)
        {
            case 1: so[i].emplace(net::make_socket({net::socket::type_t::tcp, net::socket::blocking_t::no}, net::domain_t::ipv4)); break;
            case 2: st[i].emplace(); break;
            case 3: cl[i].emplace(s, any); break;
            case 4: sv[i].emplace(s, any); break;
            case 5: pe[i].emplace(s, any); break;
            case 6: sc[i] = mksched(); break;
            case 7: pu[i].emplace(s); break;
        }
    }
    bool has(int a) { return a / 10 == 6 ? sc[a % 10] != nullptr : with(a, [](auto& x) { return x.has_value(); }); }
    void drop(int a) { if (a / 10 == 6) sc[a % 10].reset(); else with(a, [](auto& x) { x.reset(); return 0; }); }
    bool finishing{false};
    bool skip(int, const Op& op) override
    {
        if (finishing) return true;
        const std::string& o = op.op;
        if (o == "bad" || o == "mk" || o == "few") return false;
        bool pair = o.size() == 2 && (o[0] == 'c' || o[0] == 'm') && (o[1] == 'c' || o[1] == 'a');
        if (pair)
        {
            if (op.a / 10 != op.b / 10 || op.a / 10 == 6 || !has(op.b)) return true;
            if (o[0] == 'c' && (op.a / 10 == 2 || op.a / 10 == 4)) return true;
            return o[1] == 'c' ? op.a == op.b : !has(op.a);
        }
        if (!has(op.a)) return true;
        if (o == "cl") return op.a / 10 == 2 || op.a / 10 == 6;
        if (o == "sd") return op.a / 10 != 4 || sv[op.a % 10]->accept_socket().native_handle() == -1;
        return false;
    }
    template<typename X> static void pair(const std::string& o, X& x, X& y)
    {
        using T = typename X::value_type;
        if (o == "mc") { x.reset(); x.emplace(std::move(*y)); }
        else if (o == "ma") *x = std::move(*y);
        else if constexpr (std::is_copy_constructible_v<T>)
        {
            if (o == "cc") { x.reset(); x.emplace(std::as_const(*y)); }
            else *x = std::as_const(*y);
        }
    }
    void number(int a)
    {
        struct stat b;
        int f = a / 10 == 6 ? -1 : with(a, [](auto& x) { return fd_of(x); });
        ++nobj;
        if (f >= 0 && ::fstat(f, &b) == 0) obj[{b.st_dev, b.st_ino}] = nobj;
    }
    Sub exec(int, const Op& op, Res& r) override
    {
        int i = op.a % 10, j = op.b % 10;
        if (op.op == "mk")
        {
            drop(op.a);
            int n0 = open_fds();
            make(op.a);
            log("cost", op.a / 10, open_fds() - n0);
            number(op.a);
        }
        else if (op.op == "few") // only b descriptors are left
        {
            drop(op.a);
            std::vector<int> tmp; int top = 0;
            for (int f = 0; f < LIM; ++f) if (is_open(f)) top = f;
            for (int f; (f = occupy()) >= 0;) { tmp.push_back(f); if (f > top) break; }
            struct rlimit old, now;
            ::getrlimit(RLIMIT_NOFILE, &old);
            now = old;
            now.rlim_cur = rlim_t(top + 2 + op.b);
            ::setrlimit(RLIMIT_NOFILE, &now);
            r.s = "ok";
            try { make(op.a); } catch (const std::runtime_error&) { r.s = "throw"; }
            ::setrlimit(RLIMIT_NOFILE, &old);
            for (int f : tmp) vacate(f);
            if (r.s == "ok") number(op.a);
        }
        else if (op.op == "cl") with(op.a, [](auto& x) { if (auto* k = sock(x)) k->close(); return 0; });
        else if (op.op == "de") drop(op.a);
        else if (op.op == "sd") sv[i]->shutdown();
        else if (op.op == "us")
        {
            if (op.a / 10 == 6)
            {
                co_await sc[i]->yield_for(std::chrono::milliseconds{1});
                r.s = "live";
            }
            else if (op.a / 10 == 2)
            {
                std::streambuf* o = std::cerr.rdbuf(nullptr);
                st[i]->signal_stop();
                std::cerr.rdbuf(o);
                std::cerr.clear();
                char b[8];
                r.s = __real_read(st[i]->get_token().native_handle(), b, sizeof b) > 0 ? "live" : "inert";
            }
            else if (op.a / 10 == 4 && sv[i]->accept_socket().is_ok())
            {
                auto x = co_await sv[i]->accept(std::chrono::milliseconds{2});
                r.s = !x && x.error().type == net::io_status::kind::timeout ? "live" : !x ? "shut" : "junk";
            }
            else
                r.s = with(op.a, [](auto& x) {
                    net::socket* k = sock(x);
                    if (!k) return "junk";
                    bool ok = k->is_ok(), b = k->blocking(net::socket::blocking_t::no);
                    k->shutdown(coro::poll_op::read_write);
                    return ok && b && *k ? "live" : ok || b || *k ? "junk" : "inert";
                });
        }
        else if (op.op == "bad")
        {
            r.s = "ok";
            try
            {
                switch (op.a)
                {
                    case 1: net::tcp::client{none, any}; break;
                    case 2: net::tcp::server{none, any}; break;
                    case 3: net::udp::peer{none, any}; break;
                    case 4: net::udp::peer{none}; break;
                    case 5: net::tcp::server{s, notours}; break;
                    case 6: net::udp::peer{s, notours}; break;
                    case 7: net::make_accept_socket({net::socket::type_t::tcp, net::socket::blocking_t::no}, notours, 3); break;
                }
            }
            catch (const std::runtime_error&) { r.s = "throw"; }
        }
        else
            switch (op.a / 10)
            {
                case 1: pair(op.op, so[i], so[j]); break;
                case 2: pair(op.op, st[i], st[j]); break;
                case 3: pair(op.op, cl[i], cl[j]); break;
                case 4: pair(op.op, sv[i], sv[j]); break;
                case 5: pair(op.op, pe[i], pe[j]); break;
                case 7: pair(op.op, pu[i], pu[j]); break;
            }
        look();
        if (vx::rnd(2)) occupy();
        co_return;
    }
    void look()
    {
        std::vector<int> v;
        std::set<int> used;
        int uniq = 1;
        for (int k = 1; k <= 7; ++k)
            for (int i = 1; i <= 3; ++i)
            {
                int a = 10 * k + i;
                if (!has(a)) { v.push_back(0); continue; }
                if (k == 6) { v.push_back(-2); continue; }
                int f = with(a, [](auto& x) { return fd_of(x); });
                struct stat b;
                if (f == -1) { v.push_back(-1); continue; }
                if (!used.insert(f).second) uniq = 0;
                if (g_foreign.count(f) || ::fstat(f, &b)) { v.push_back(-9); continue; }
                auto o = obj.find({b.st_dev, b.st_ino});
                v.push_back(o == obj.end() ? -8 : o->second);
            }
        log("tab", v, open_fds() - base - int(own.size()), uniq, g_bad);
    }
    void finish() override
    {
        finishing = true;
        for (int k = 1; k <= 7; ++k) for (int i = 1; i <= 3; ++i) if (has(10 * k + i)) { drop(10 * k + i); log("drop", 10 * k + i); look(); }
        s.reset();
        log("left", open_fds() - base0 - int(own.size()), g_bad);
        vx::fd_guard = nullptr;
        for (int f : own) __real_close(f);
    }
};
int main(int argc, char** argv)
{
    return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); });
}
