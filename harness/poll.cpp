// C13 world: polls of descriptors through one coro::scheduler, with everything that can end them.
// par: pool threads (0 = inline), manual, kinds of the descriptors 1..3 (0 pipe read end, 1 pipe write end, 2 socket, 3 a file that cannot be polled, 4 none)
#include "hx.hpp"
#include "vxio.hpp"
#include "coro/scheduler.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/socket.h>
using namespace hx;
struct NewThread { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { vx::thread([h]() { h.resume(); }).detach(); } void await_resume() {} };
struct Slot { int kind{0}, fd{-1}, peer{-1}, stopping{0}; std::unique_ptr<coro::poll_stop_source> stop; };
struct W : World
{
    bool one_at_a_time() override { return true; }
    std::unique_ptr<coro::scheduler> s;
    std::set<int> workers, loops;
    bool stop{false}, inl, manual;
    std::vector<vx::thread> dt;
    Slot sl[4];
    void open(Slot& x)
    {
        int p[2];
        if (x.kind == 4) return;
        if (x.kind == 3) { x.fd = ::memfd_create("vx", MFD_CLOEXEC); if (x.fd < 0) std::abort(); return; }
        if (x.kind == 2) { if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) std::abort(); x.fd = p[0]; x.peer = p[1]; }
        else
        {
            if (::pipe2(p, O_NONBLOCK)) std::abort();
            ::fcntl(p[1], F_SETPIPE_SZ, 4096);
            x.fd = p[x.kind]; x.peer = p[1 - x.kind];
        }
    }
    void shut(Slot& x)
    {
        int f = std::exchange(x.fd, -1), p = std::exchange(x.peer, -1);
        if (p != -1) ::close(p);
        if (f != -1) ::close(f);
    }
    explicit W(const Program& p)
    {
        vx::io_reset();
        vx::io_points = false;
        inl = p.par[0] == 0; manual = p.par[1] != 0;
        coro::scheduler::options o;
        o.thread_strategy = manual ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn;
        o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
        o.on_io_thread_start_functor = [this]() { loops.insert(vx::self()); };
        o.pool.thread_count = uint32_t(p.par[0]);
        o.pool.on_thread_start_functor = [this](std::size_t) { workers.insert(vx::self()); };
        s = coro::scheduler::make_unique(o);
        for (int i = 1; i <= 3; ++i) { sl[i].kind = p.par[size_t(1 + i)]; open(sl[i]); sl[i].stop = std::make_unique<coro::poll_stop_source>(); }
        if (manual)
            dt.emplace_back([this]() {
                loops.insert(vx::self());
                while (!stop) s->process_events(std::chrono::milliseconds{7});
            });
    }
    bool here() { return (inl ? loops : workers).count(vx::self()) > 0; }
    static void wr(int fd) { ssize_t k = ::write(fd, "x", 1); (void)k; }
    static void all(int fd) { char b[65536]; while (::read(fd, b, sizeof b) > 0) {} }
    static void fill(int fd) { static char b[4096]; while (::write(fd, b, sizeof b) > 0) {} while (::write(fd, b, 1) > 0) {} }
    Sub exec(int c, const Op& op, Res& r) override
    {
        Slot& x = sl[op.a];
        turn.take();
        if (op.op == "poll" || op.op == "polls")
        {
            const int64_t TO[] = {0, 1, 2, 5};
            auto how = std::array{coro::poll_op::read, coro::poll_op::write, coro::poll_op::read_write}[size_t(op.b % 3)];
            int64_t t0 = vx::raw_now();
            vx::point();
            coro::poll_status st;
            auto to = std::chrono::milliseconds{TO[op.b / 3 % 4]};
            if (op.op == "polls") st = co_await s->poll(x.fd, how, to, x.stop->get_token());
            else if (to.count() || op.b % 2) st = co_await s->poll(x.fd, how, to);
            else st = co_await s->poll(x.fd, how);
            static const char* N[] = {"read", "write", "timeout", "error", "closed", "cancelled"};
            r.s = size_t(st) < 6 ? N[size_t(st)] : "junk";
            r.v = long((vx::raw_now() - t0) / 1000000);
            r.vis = here() || (x.kind >= 3 && st == coro::poll_status::error); // refused at once: still on its own thread
        }
        else if (op.op == "stop") { ++x.stopping; x.stop->signal_stop(); --x.stopping; turn.give(); }
        else if (op.op == "wr") { if (x.kind != 1 && x.kind < 3 && x.peer != -1) wr(x.peer); }
        else if (op.op == "rd") { if (x.kind != 1 && x.kind < 3) all(x.fd); }
        else if (op.op == "fill") { if (x.kind != 0 && x.kind < 3) fill(x.fd); }
        else if (op.op == "unfill") { if (x.kind != 0 && x.kind < 3 && x.peer != -1) all(x.peer); }
        else if (op.op == "cl") { int p = std::exchange(x.peer, -1); if (p != -1) ::close(p); }
        else if (op.op == "hc") { if (x.kind == 2 && x.peer != -1) ::shutdown(x.peer, SHUT_WR); }
        else if (op.op == "reopen") { while (x.stopping) vx::this_thread::yield(); turn.take(); shut(x); open(x); x.stop = std::make_unique<coro::poll_stop_source>(); turn.give(); }
        else if (op.op == "nap") { co_await NewThread{}; vx::this_thread::sleep_ns(op.b * 500000); }
        co_return;
    }
    bool skip(int, const Op&) override { return finishing; }
    void after_quiesce(int) override { log("size", s->size()); }
    void finish() override
    {
        for (int i = 1; i <= 3; ++i)
        {
            log("call", 8, "stop", i, 0); sl[i].stop->signal_stop(); log("ret", 8, "stop", "ok", 0, 1);
            log("call", 8, "cl", i, 0); { int p = std::exchange(sl[i].peer, -1); if (p != -1) ::close(p); } log("ret", 8, "cl", "ok", 0, 1);
        }
        vx::quiesce();
        log("q", std::vector<int>(pending.begin(), pending.end()));
        after_quiesce(0);
        stop = true; vx::note_progress();
        for (auto& t : dt) t.join();
        s.reset();
        for (auto& x : sl) { shut(x); x.stop.reset(); }
    }
};
int main(int argc, char** argv)
{
    return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); },
        [](const Program&, vx::Config& c) { uint64_t h = c.seed * 0x9e3779b97f4a7c15ull; c.time_adv = (h >> 40) % 3 == 0 ? 12 + int((h >> 20) % 40) : 0; });
}
