// C08 world: one coro::condition_variable with its mutex; timed waits on virtual time
#include "hx_exec.hpp"
#include "coro/condition_variable.hpp"
using namespace hx;
using namespace std::chrono_literals;
struct W : World
{
    std::unique_ptr<IoExec> ex;
    coro::mutex m;
    coro::condition_variable cv;
    std::stop_source ss;
    vx::cell data;
    int flag{0};
    explicit W(const Program& p) : ex(std::make_unique<IoExec>(p.par[0])) {}
    static std::chrono::microseconds dur(int i) { static const int us[] = {300, 1000, 2500, 10000}; return std::chrono::microseconds(us[i & 3]); }
    template<typename A> Sub timed(int c, int a, int b, A make)
    {
        auto l = co_await m.scoped_lock();
        log("lk", c, data.write() ? 1 : 0);
        auto d = dur(b);
        int64_t due = vx::raw_now() + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
        auto aw = make(l, d, a);
        auto r = co_await aw;
        int early = vx::raw_now() < due ? 1 : 0;
        bool vis = data.write();
        if constexpr (std::is_same_v<decltype(r), bool>) log("wk", c, "-", r ? 1 : 0, early, vis ? 1 : 0);
        else log("wk", c, r == std::cv_status::timeout ? "timeout" : "no_timeout", 1, early, vis ? 1 : 0);
        vx::point();
        log("ul", c, data.write() ? 1 : 0);
    }
    Sub exec(int c, const Op& op, Res&) override
    {
        int a = op.a;
        auto pred = [this, a]() { data.read(); return flag >= a; };
        if (op.op == "one") co_await cv.notify_one();
        else if (op.op == "all") co_await cv.notify_all();
        else if (op.op == "xone") cv.notify_one(ex);
        else if (op.op == "xall") cv.notify_all(ex);
        else if (op.op == "close") ex->m_refuse = true; // the executor takes nothing from now on
        else if (op.op == "stop") ss.request_stop();
        else if (op.op == "waitf")
        {
            if (op.b & 4) co_await timed(c, op.a, op.b, [this](auto& l, auto d, int) { return cv.wait_until(ex, l, vx::steady_clock::now() + d); });
            else co_await timed(c, op.a, op.b, [this](auto& l, auto d, int) { return cv.wait_for(ex, l, d); });
        }
        else if (op.op == "waitfp")
        {
            if (op.b & 4) co_await timed(c, op.a, op.b, [this, pred](auto& l, auto d, int) { return cv.wait_until(ex, l, vx::steady_clock::now() + d, pred); });
            else co_await timed(c, op.a, op.b, [this, pred](auto& l, auto d, int) { return cv.wait_for(ex, l, d, pred); });
        }
        else if (op.op == "waitfs")
        {
            if (op.b & 4) co_await timed(c, op.a, op.b, [this, pred](auto& l, auto d, int) { return cv.wait_until(ex, l, ss.get_token(), vx::steady_clock::now() + d, pred); });
            else co_await timed(c, op.a, op.b, [this, pred](auto& l, auto d, int) { return cv.wait_for(ex, l, ss.get_token(), d, pred); });
        }
        else
        {
            auto l = co_await m.scoped_lock();
            log("lk", c, data.write() ? 1 : 0);
            if (op.op == "set") flag = op.a;
            else
            {
                int r = 1;
                if (op.op == "wait") co_await cv.wait(l);
                else if (op.op == "waitp") { co_await cv.wait(l, pred); r = flag >= a; }
                else if (op.op == "waits") r = (co_await cv.wait(l, ss.get_token(), pred)) ? 1 : 0;
                bool vis = data.write();
                log("wk", c, "-", r, 0, vis ? 1 : 0);
            }
            vx::point();
            log("ul", c, data.write() ? 1 : 0);
        }
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); },
    [](const Program&, vx::Config& c) { uint64_t h = c.seed * 0x9e3779b97f4a7c15ull; c.time_adv = (h >> 40) % 3 ? 10 << ((h >> 44) % 4) : 0; }); }
