// C05 world: one coro::shared_mutex. ops lock lockS try tryS unlock unlockS scx scs (scoped tasks, a = 1: they throw)
#include "hx_exec.hpp"
#include "coro/shared_mutex.hpp"
using namespace hx;
struct W : World
{
    std::unique_ptr<Exec> ex;
    coro::shared_mutex<Exec> m;
    vx::cell data;
    std::set<int> x, s;
    explicit W(const Program& p) : ex(std::make_unique<Exec>(p.par[0])), m(ex) {}
    bool skip(int c, const Op& op) override
    {
        bool has = x.count(c) || s.count(c);
        if (op.op == "unlock") return !x.count(c) && !s.count(c);
        return has && op.op != "close";
    }
    coro::task<void> body(int c, bool excl, bool thr, Res& r)
    {
        bool v = excl ? data.write() : data.read();
        log("in", c, v ? 1 : 0);
        vx::point(); vx::point();
        r.vis = excl ? data.write() : data.read();
        log("out", c);
        if (thr) throw std::runtime_error("x");
        co_return;
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        if (op.op == "lock") { co_await m.lock(); r.vis = data.write(); x.insert(c); }
        else if (op.op == "lockS") { co_await m.lock_shared(); r.vis = data.read(); s.insert(c); }
        else if (op.op == "try") { if (m.try_lock()) { r.s = "true"; r.vis = data.write(); x.insert(c); } else r.s = "false"; }
        else if (op.op == "tryS") { if (m.try_lock_shared()) { r.s = "true"; r.vis = data.read(); s.insert(c); } else r.s = "false"; }
        else if (op.op == "unlock")
        {
            if (x.count(c)) { r.vis = data.write(); x.erase(c); co_await m.unlock(); }
            else { r.vis = data.read(); s.erase(c); co_await m.unlock_shared(); }
        }
        else if (op.op == "close") ex->m_refuse = true; // the executor takes nothing from now on
        else if (op.op == "scx") co_await m.scoped_lock(body(c, true, op.a, r));
        else if (op.op == "scs") co_await m.scoped_lock_shared(body(c, false, op.a, r));
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }
