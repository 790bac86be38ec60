// C10 world: one coro::task_group on a coro::thread_pool (EXEC_POOL) or on an independent executor.
// par: workers, k: tasks still running when the group is destroyed, form: these are started by the constructor
// of another group instead (1..5, see make)
#include "hx_exec.hpp"
#include "coro/task_group.hpp"
#include "coro/thread_pool.hpp"
using namespace hx;
struct Live { int* n; explicit Live(int* p) : n(p) { ++*n; } Live(Live&& o) : n(o.n) { ++*n; } ~Live() { --*n; } };
// dropping a join task blocks the thread, which must not be the only worker
struct NewThread { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { vx::thread([h]() { h.resume(); }).detach(); } void await_resume() {} };
struct W : World
{
#ifdef EXEC_POOL
    using E = coro::thread_pool;
    static std::unique_ptr<E> make_ex(int n) { return E::make_unique(E::options{.thread_count = uint32_t(n)}); }
    void refuse() { ex->shutdown(); }
#else
    using E = Exec;
    static std::unique_ptr<E> make_ex(int n) { return std::make_unique<Exec>(n); }
    void refuse() { ex->m_refuse = true; vx::note_progress(); }
#endif
    std::unique_ptr<E> ex;
    std::unique_ptr<coro::task_group<E>> g;
    int live{0};
    std::map<int, vx::cell> cells;
    std::set<int> known;
    int k, form;
    bool refused{false};
    explicit W(const Program& p) : ex(make_ex(p.par[0])), g(std::make_unique<coro::task_group<E>>(ex)), k(p.par[1]), form(p.par.size() > 2 ? p.par[2] : 0) {}
    coro::task<void> titem(int id, int b, vx::stamp st, Live)
    {
        log("start", id, st.seen() ? 1 : 0);
        for (int i = 0; i < ((b >> 1) & 3); ++i) vx::point();
        if (b & 16)
        {
            vx::stamp s3; s3.set();
            log("nest", id + 1);
            if (g->start(titem(id + 1, b & 15, s3, Live(&live)))) log("nok", id + 1); else log("nref", id + 1);
        }
        if (b & 1)
        {
            vx::stamp s2; s2.set();
            try { co_await ex->yield(); } catch (const std::runtime_error&) {}
        }
        cells[id].write();
        log("fin", id);
        if (b & 8) throw std::runtime_error("task");
    }
    bool see(const std::set<int>& s) { bool v = true; for (int i : s) v = cells[i].read() && v; return v; }
    Sub exec(int c, const Op& op, Res& r) override
    {
        vx::stamp st; st.set();
        if (op.op == "start")
        {
            if (g->start(titem(op.a, op.b, st, Live(&live)))) { r.v = 1; known.insert(op.a); }
            else r.s = "refused";
        }
        else if (op.op == "wait") { auto s = known; co_await *g; r.vis = see(s); }
        else if (op.op == "join" || op.op == "jdrop")
        {
#ifdef EXEC_POOL
            bool ran = false;
            if (op.op == "jdrop") co_await NewThread{};
            auto wrap = [](W& w, int a, int b, vx::stamp st, bool* ran) -> coro::task<void> {
                try { co_await w.titem(a, b, st, Live(&w.live)); } catch (...) { *ran = true; throw; }
                *ran = true;
            };
            {
                auto j = ex->spawn_joinable(wrap(*this, op.a, op.b & 15, st, &ran));
                if (op.op == "join") co_await j;
            }
            r.v = ran;
            if (ran) r.vis = see({op.a});
#endif
        }
        else if (op.op == "refuse") { refused = true; refuse(); }
        else if (op.op == "size") r.v = long(g->size());
        co_return;
    }
    void after_quiesce(int) override { log("size", g->size()); }
    using G = coro::task_group<E>;
    void make(std::vector<coro::task<void>> t)
    {
        if (form == 1) { g = std::make_unique<G>(ex); for (auto& x : t) (void)g->start(std::move(x)); }
        else if (form == 2) g = std::make_unique<G>(ex.get(), std::move(t.front()));
        else if (form == 3) g = std::make_unique<G>(ex, std::move(t.front()));
        else if (form == 4) g = std::make_unique<G>(ex.get(), std::move(t));
        else g = std::make_unique<G>(ex, std::move(t));
    }
    int nulls()
    {
        E* raw = nullptr;
        std::unique_ptr<E> none;
        int n = 0;
        auto made = [&](auto&& f) { try { f(); } catch (const std::runtime_error&) { ++n; } };
        made([&]() { G x{raw}; });
        made([&]() { G x{none}; });
        made([&]() { G x{raw, std::vector<coro::task<void>>{}}; });
        made([&]() { G x{none, std::vector<coro::task<void>>{}}; });
        return n;
    }
    void finish() override
    {
        std::set<int> mine;
        if (form && k)
        {
            log("null", nulls());
            g.reset();
            int n = form == 2 || form == 3 ? 1 : k;
            std::vector<coro::task<void>> t;
            for (int i = 0; i < n; ++i)
            {
                vx::stamp st; st.set();
                log("call", 8 - i, "start", 900 + i, 2);
                t.push_back(titem(900 + i, 2 + (i & 1), st, Live(&live)));
                if (!refused) mine.insert(900 + i);
            }
            make(std::move(t));
            t.clear();
            for (int i = 0; i < n; ++i) log("ret", 8 - i, "start", refused ? "refused" : "ok", refused ? 0 : 1, 1);
            k = 0;
        }
        for (int i = 0; i < k; ++i)
        {
            int id = 900 + i;
            vx::stamp st; st.set();
            log("call", 8, "start", id, 2);
            bool ok = g->start(titem(id, 2 + (i & 1), st, Live(&live)));
            if (ok) mine.insert(id);
            log("ret", 8, "start", ok ? "ok" : "refused", ok ? 1 : 0, 1);
        }
        g.reset();
        bool v = see(mine);
#ifdef EXEC_POOL
        ex.reset();   // the workers are done with the frames
#else
        vx::quiesce();
#endif
        log("gone", live, v ? 1 : 0);
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }
