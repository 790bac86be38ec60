// C04 world: one coro::semaphore; par = max, start, lockmode (permits used as locks: release only by holders)
#include "hx.hpp"
#include "coro/semaphore.hpp"
using namespace hx;
template<std::ptrdiff_t M> struct W : World
{
    std::unique_ptr<coro::semaphore<M>> sp;
    coro::semaphore<M>& s;
    bool lockmode;
    std::set<int> held;
    vx::cell data;
    explicit W(const Program& p) : sp(std::make_unique<coro::semaphore<M>>(p.par[1])), s(*sp), lockmode(p.par[2] != 0) {}
    bool skip(int c, const Op& op) override
    {
        if (!sp) return true;
        if (!lockmode) return false;
        if (op.op == "release") return !held.count(c);
        if (op.op == "acquire" || op.op == "try") return held.count(c) != 0;
        return false;
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        if (op.op == "acquire")
        {
            r.s = co_await s.acquire() == coro::semaphore_acquire_result::acquired ? "acquired" : "shutdown";
            if (lockmode && r.s == "acquired") { held.insert(c); r.vis = data.write(); }
        }
        else if (op.op == "try")
        {
            r.s = s.try_acquire() ? "true" : "false";
            if (lockmode && r.s == "true") { held.insert(c); r.vis = data.write(); }
        }
        else if (op.op == "release") { if (lockmode) { held.erase(c); r.vis = data.write(); } co_await s.release(); }
        else if (op.op == "shutdown") co_await s.shutdown();
        else if (op.op == "destroy") sp.reset();   // with nobody but suspended acquirers around
        else if (op.op == "value") r.v = s.value();
        else if (op.op == "down") r.s = s.is_shutdown() ? "true" : "false";
    }
};
int main(int argc, char** argv)
{
    return harness_main(argc, argv, [](const Program& p) -> World* {
        if (p.par[0] == 1) return new W<1>(p);
        if (p.par[0] == 2) return new W<2>(p);
        return new W<3>(p);
    });
}
