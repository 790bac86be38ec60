// C01 world: one coro::mutex
#include "hx.hpp"
#include "coro/mutex.hpp"
using namespace hx;
struct W : World
{
    coro::mutex m;
    vx::cell    data;
    int         holder{0};       // written only by the coroutine that owns the mutex
    std::map<int, std::optional<coro::scoped_lock>> sl, mv;
    std::set<int> raw;
    // the handle that really owns is destroyed with the world only when nothing is pending
    bool skip(int c, const Op& op) override
    {
        bool has = raw.count(c) || sl[c].has_value();
        if (op.op == "lock" || op.op == "slock" || op.op == "trylock") return has;
        if (op.op == "unlock" || op.op == "sunlock" || op.op == "sdrop" || op.op == "smove" || op.op == "sself" || op.op == "stwice" || op.op == "sassign") return !has;
        if (op.op == "badunlock") return holder != 0 || !pending.empty();
        return false;
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        if (op.op[0] == 's' && raw.count(c)) { raw.erase(c); sl[c].emplace(m, coro::scoped_lock::lock_strategy::adopt); }
        if (op.op == "lock") { co_await m.lock(); r.vis = data.write(); holder = c; raw.insert(c); }
        else if (op.op == "slock") { sl[c].emplace(co_await m.scoped_lock()); r.vis = data.write(); holder = c; }
        else if (op.op == "trylock")
        {
            if (m.try_lock()) { r.s = "true"; r.vis = data.write(); holder = c; raw.insert(c); }
            else r.s = "false";
        }
        else if (op.op == "unlock") 
        {
            r.vis = data.write(); holder = 0;
            if (raw.count(c)) { raw.erase(c); m.unlock(); }
            else { auto l = std::move(*sl[c]); sl.erase(c); l.unlock(); }
        }
        else if (op.op == "sassign")
        {
            // the lock held is replaced by one of another mutex: the first is released, the second held
            r.vis = data.write(); holder = 0;
            coro::mutex other;
            {
                if (!other.try_lock()) r.s = "bad";
                auto l = std::move(*sl[c]); sl.erase(c);
                l = coro::scoped_lock{other};
                if (other.try_lock()) r.s = "bad";
            }
            if (!other.try_lock()) r.s = "bad";
        }
        else if (op.op == "sunlock") { r.vis = data.write(); holder = 0; auto l = std::move(*sl[c]); sl.erase(c); l.unlock(); }
        else if (op.op == "stwice") { r.vis = data.write(); holder = 0; auto l = std::move(*sl[c]); sl.erase(c); l.unlock(); vx::point(); l.unlock(); }
        else if (op.op == "sdrop") { r.vis = data.write(); holder = 0; auto l = std::move(*sl[c]); sl.erase(c); }
        else if (op.op == "smove")
        {
            // construct, then assign: only the final holder releases
            r.vis = data.write(); holder = 0;
            coro::scoped_lock a{std::move(*sl[c])};
            sl.erase(c);
            { coro::scoped_lock b{std::move(a)}; a = std::move(b); }
            vx::point();
            if (op.a == 1) { coro::scoped_lock d{std::move(a)}; a.unlock(); d.unlock(); a.unlock(); }
        }
        else if (op.op == "sself")
        {
            r.vis = data.write();
            auto& x = *sl[c]; auto& y = x; x = std::move(y);
        }
        else if (op.op == "badunlock") { m.unlock(); }
        co_return;
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program&) -> World* { return new W; }); }
