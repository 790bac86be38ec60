// C17 world: coro::task in slots 1..3. Operations name a slot (a); each program is sequential.
// invoke: as make, by coro::invoke() of a functor that is gone, as are its arguments, when the task runs; refuse: the
// functor throws when it is called
// make: b = pauses | throws<<2 | type<<3 | depth<<5;  move: a -> b;  await: b = 1 as rvalue
#include "hx.hpp"
#ifdef WITH_INVOKE
#include "coro/invoke.hpp"
#endif
#include "coro/task.hpp"
using namespace hx;
static const int DEPTH[] = {0, 1, 2, 3, 5, 12, 40, 7};
struct MoveOnly { int v; std::unique_ptr<int> p; explicit MoveOnly(int x) : v(x), p(new int(x)) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
struct Err { int id; };
struct W;
struct Mark // logs its end
{
    const char* what; int id; int* n; bool on{true};
    Mark(const char* w, int i, int* c) : what(w), id(i), n(c) { ++*n; }
    Mark(Mark&& o) : what(o.what), id(o.id), n(o.n), on(std::exchange(o.on, false)) { ++*n; }
    Mark(const Mark&) = delete;
    ~Mark() { --*n; if (on && what) log(what, id); }
};
struct Slot { int id{0}; coro::task<int> ti; coro::task<void> tv; coro::task<MoveOnly> tm; coro::task<int&> tr; };
struct W : World
{
    std::map<int, Slot> slot;
    std::map<int, std::coroutine_handle<>> paused;     // where the body waits
    std::map<int, int> spec_b, seg, refs;
    std::map<int, bool> awaited, taken, done, invoked;
    int live{0}, next{0};
    explicit W(const Program&) { for (int i = 1; i <= 3; ++i) slot[i]; }
    struct Pause { W& w; int id; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { w.paused[id] = h; } void await_resume() { w.paused.erase(id); } };
    template<typename T> coro::task<T> body(int id, int b, int depth, Mark frame)
    {
        Mark l(depth == DEPTH[b >> 5 & 7] ? "ld" : nullptr, id, &live);
        if (depth > 0)
        {
            coro::task<T> in = body<T>(id, b, depth - 1, Mark(nullptr, id, &live));
            if constexpr (std::is_void_v<T>) { co_await in; log("up", id, depth); co_return; }
            else if constexpr (std::is_reference_v<T>) { int& r = co_await in; log("up", id, depth); co_return r; }
            else if constexpr (std::is_same_v<T, MoveOnly>) { MoveOnly r = co_await std::move(in); log("up", id, depth); co_return std::move(r); }
            else { int r = depth % 2 ? co_await in : co_await std::move(in); log("up", id, depth); co_return r; }
        }
        for (int k = 0; k < (b & 3); ++k) { log("tb", id, k); ++seg[id]; co_await Pause{*this, id}; }
        log("tb", id, b & 3); ++seg[id];
        if (b >> 2 & 1) throw Err{id};
        if constexpr (std::is_void_v<T>) co_return;
        else if constexpr (std::is_reference_v<T>) { refs[id] = id; co_return refs[id]; }
        else co_return T(id);
    }
    template<typename F> auto with(Slot& s, F f)
    {
        switch (spec_b[s.id] >> 3 & 3) { case 0: return f(s.ti); case 1: return f(s.tv); case 2: return f(s.tm); default: return f(s.tr); }
    }
    bool nested(Slot& s) { return (spec_b[s.id] >> 5 & 7) != 0 || invoked[s.id]; }
#ifdef WITH_INVOKE
    template<typename T> coro::task<T> by_invoke(int n, int b, int d, bool refuse)
    {
        int x = n; std::string text(40, char('a' + n % 26));
        int calls = 0;
        auto f = [this, n, b, d, refuse, &calls, cap = std::make_unique<int>(n), frame = Mark("pd", n, &live)](int& a, std::string t) mutable -> coro::task<T>
        {
            // what is given by reference is used by the functor itself only, it is gone when the task runs
            if (refuse) { ++calls; throw Err{n}; }
            return run<T>(*cap, b, d, std::move(t), (++calls, a));
        };
        auto g = [this, f = std::move(f)](int& a, std::string t) mutable { return f(a, std::move(t)); };
        auto r = coro::invoke(std::move(g), x, text);
        if (calls != 1 || x != n) log("bad", n, calls);
        x = -1; calls = -1; text.assign(text.size(), '?');
        return r;
    }
    template<typename T> coro::task<T> run(int& cap, int b, int d, std::string t, int n)
    {
        // cap lives in the functor, which the task made by invoke() has to keep
        auto good = [&] { if (cap != n || t != std::string(40, char('a' + n % 26))) log("bad", n, cap); };
        good();
        if constexpr (std::is_void_v<T>) { co_await body<T>(n, b, d, Mark(nullptr, n, &live)); good(); }
        else if constexpr (std::is_reference_v<T>) { T r = co_await body<T>(n, b, d, Mark(nullptr, n, &live)); good(); co_return r; }
        else { auto r = co_await body<T>(n, b, d, Mark(nullptr, n, &live)); good(); co_return r; }
    }
#endif
    bool skip(int, const Op& op) override
    {
        if (op.op == "go") return true;
        Slot& s = slot[op.a];
        bool w = s.id && awaited[s.id] && !done[s.id];
        if (op.op == "make" || op.op == "invoke" || op.op == "refuse") return w;
        if (op.op == "move") return (slot[op.b].id && awaited[slot[op.b].id] && !done[slot[op.b].id]);
        if (op.op == "destroy" ) return w;
        if (op.op == "ready" || op.op == "self") return false;
        if (!s.id) return true;
        bool started = seg[s.id] > 0;
        if (op.op == "step") return !started || done[s.id] || !paused.count(s.id);
        if (op.op == "resume") return started && nested(s) && !done[s.id];
        if (op.op == "await") return w || taken[s.id] || (started && nested(s) && !done[s.id]);
        if (op.op == "result") return taken[s.id];
        return true;
    }
    static int val(int x) { return x; }
    static int val(const MoveOnly& m) { return m.p && *m.p == m.v ? m.v : -1; }
    // an awaiter is resumed in the middle of another operation: it goes on only after that
    std::vector<std::coroutine_handle<>> later;
    struct Later { W& w; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { w.later.push_back(h); } void await_resume() {} };
    void after_quiesce(int) override { while (!later.empty()) { auto v = std::move(later); later.clear(); for (auto h : v) h.resume(); } }
    bool own_log(const Op& op) override { return op.op == "await"; }
    Sub exec(int c, const Op& op, Res& r) override
    {
        if (op.op == "await")
        {
            log("call", c, op.op, op.a, op.b);
            co_await exec2(c, op, r);
            pending.erase(c);
            log("ret", c, op.op, r.s, r.v, 1);
            co_await Later{*this};
        }
        else co_await exec2(c, op, r);
    }
    Sub exec2(int c, const Op& op, Res& r)
    {
        Slot& s = slot[op.a];
        int id = s.id;
        if (op.op == "make")
        {
            int n = ++next, b = op.b, d = DEPTH[b >> 5 & 7];
            spec_b[n] = b;
            Slot x; x.id = n;
            Mark f("pd", n, &live);
            switch (b >> 3 & 3)
            {
                case 0: x.ti = body<int>(n, b, d, std::move(f)); break;
                case 1: x.tv = body<void>(n, b, d, std::move(f)); break;
                case 2: x.tm = body<MoveOnly>(n, b, d, std::move(f)); break;
                default: x.tr = body<int&>(n, b, d, std::move(f)); break;
            }
            s = std::move(x);
            r.v = n;
        }
#ifdef WITH_INVOKE
        else if (op.op == "invoke" || op.op == "refuse")
        {
            int n = ++next, b = op.b, d = DEPTH[b >> 5 & 7];
            bool no = op.op == "refuse";
            spec_b[n] = b; invoked[n] = true;
            if (no) { seg[n] = (b & 3) + 1; done[n] = true; }
            Slot x; x.id = n;
            switch (b >> 3 & 3)
            {
                case 0: x.ti = by_invoke<int>(n, b, d, no); break;
                case 1: x.tv = by_invoke<void>(n, b, d, no); break;
                case 2: x.tm = by_invoke<MoveOnly>(n, b, d, no); break;
                default: x.tr = by_invoke<int&>(n, b, d, no); break;
            }
            s = std::move(x);
            r.v = n;
        }
#endif
        else if (op.op == "move") { Slot& t = slot[op.b]; if (&t != &s) { t = std::move(s); s.id = 0; } else { Slot x(std::move(s)); s = std::move(x); } }
        else if (op.op == "self") { Slot& t = slot[op.a]; s = std::move(t); }
        else if (op.op == "destroy") { bool x = s.id ? with(s, [](auto& t) { return t.destroy(); }) : s.ti.destroy(); s.id = 0; r.s = x ? "true" : "false"; }
        else if (op.op == "ready") { r.s = (s.id ? with(s, [](auto& t) { return t.is_ready(); }) : s.ti.is_ready() && s.tv.is_ready() && s.tm.is_ready() && s.tr.is_ready()) ? "true" : "false"; }
        else if (op.op == "resume") r.s = with(s, [](auto& t) { return t.resume(); }) ? "true" : "false";
        else if (op.op == "step") { auto h = paused[id]; h.resume(); }
        else if (op.op == "await" || op.op == "result")
        {
            bool aw = op.op == "await", rv = op.b & 1;
            if (aw) { awaited[id] = true; if (rv && (spec_b[id] >> 3 & 3) == 2) taken[id] = true; }
            int v = -1, ty = spec_b[id] >> 3 & 3;
            try
            {
                if (ty == 0) { if (!aw) v = s.ti.promise().result(); else if (rv) v = co_await std::move(s.ti); else v = co_await s.ti; }
                else if (ty == 1) { if (!aw) s.tv.promise().result(); else if (rv) co_await std::move(s.tv); else co_await s.tv; v = id; }
                else if (ty == 2) { if (!aw) v = val(s.tm.promise().result()); else if (rv) { MoveOnly m = co_await std::move(s.tm); v = val(m); } else v = val(co_await s.tm); }
                else { int* p; if (!aw) p = &s.tr.promise().result(); else if (rv) p = &(co_await std::move(s.tr)); else p = &(co_await s.tr); v = p == &refs[id] ? id : -1; }
                r.v = v;
            }
            catch (const Err& e) { r.s = "threw"; r.v = e.id; }
            catch (const std::runtime_error&) { r.s = "unset"; }
            if (aw) done[id] = true;
        }
        for (auto& [i, b] : spec_b) if (seg[i] > (b & 3)) done[i] = true;
        co_return;
    }
    void finish() override { slot.clear(); log("gone", live); }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }
