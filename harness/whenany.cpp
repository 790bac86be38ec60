// C16 world: coro::when_any. "any": a = group (children 8a..), b = n-1 | range<<2 | type<<3 | stop source<<5 | kind of child i << (6+3i)
// par: worker fibers
#include "drive.hpp"
#include "coro/when_any.hpp"
using namespace hx;
struct MoveOnly { int v; std::unique_ptr<int> p; explicit MoveOnly(int x) : v(x), p(new int(x)) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
struct W : World
{
    Driver d;
    std::map<int, vx::stamp> st;
    std::map<int, int> refs;
    explicit W(const Program& p) : d(p.par[0]) {}
    // kinds: 0 at once, 1 throws at once, 2 hop, 3 hop and throw, 4 gate, 5 gate or stop, 6 two hops, 7 gate and throw
    Sub run(int id, int kind, std::stop_token tok)
    {
        d.begin(id);
        vx::point();
        bool stopped = false;
        if (kind == 2 || kind == 3 || kind == 6) co_await d.hop(id);
        if (kind == 6) co_await d.hop(id);
        if (kind == 4 || kind == 7) co_await d.wait(id);
        if (kind == 5) { co_await d.wait(id, tok); stopped = tok.stop_requested(); }
        vx::point();
        st[id].set();
        d.end(id, stopped, kind < 2);
        if (kind == 1 || kind == 3 || kind == 7) throw ChildError{id};
    }
    coro::task<int> ti(int id, int k, std::stop_token t, Live l) { co_await run(id, k, std::move(t)); co_return id; }
    coro::task<void> tv(int id, int k, std::stop_token t, Live l) { co_await run(id, k, std::move(t)); }
    coro::task<MoveOnly> tm(int id, int k, std::stop_token t, Live l) { co_await run(id, k, std::move(t)); co_return MoveOnly(id); }
    coro::task<int&> tr(int id, int k, std::stop_token t, Live l) { co_await run(id, k, std::move(t)); refs[id] = id; co_return refs[id]; }
    Live lv() { return Live(&d.live); }
    static int val(int x) { return x; }
    static int val(const MoveOnly& m) { return m.p && *m.p == m.v ? m.v : -1; }
    static int val(std::monostate) { return -2; }
    template<typename V> static int from(V&& v, int base)
    {
        int x = std::visit([](auto& e) { return val(e); }, v);
        int i = int(v.index());
        return x == -2 || x == base + i ? i : 100 + x;
    }
    template<typename T, typename MK> coro::task<int> any_range(int base, int n, std::optional<std::stop_source> ss, MK mk)
    {
        std::vector<coro::task<T>> v;
        for (int i = 0; i < n; ++i) v.push_back(mk(i));
        if constexpr (std::is_void_v<T>)
        {
            if (ss) co_await coro::when_any(*ss, std::move(v)); else co_await coro::when_any(std::move(v));
            co_return 9;
        }
        else
        {
            if (ss) { auto x = co_await coro::when_any(*ss, std::move(v)); co_return val(x) - base; }
            auto x = co_await coro::when_any(std::move(v)); co_return val(x) - base;
        }
    }
    template<typename... T> coro::task<int> any_tuple(int base, std::optional<std::stop_source> ss, T... t)
    {
        if (ss) { auto x = co_await coro::when_any(*ss, std::move(t)...); co_return from(x, base); }
        auto x = co_await coro::when_any(std::move(t)...); co_return from(x, base);
    }
    template<typename MK> coro::task<int> any_n(int base, int n, std::optional<std::stop_source> ss, MK mk)
    {
        switch (n)
        {
            case 1: return any_tuple(base, ss, mk(0));
            case 2: { auto a = mk(0); auto b = mk(1); return any_tuple(base, ss, std::move(a), std::move(b)); }
            case 3: { auto a = mk(0); auto b = mk(1); auto c = mk(2); return any_tuple(base, ss, std::move(a), std::move(b), std::move(c)); }
            default: { auto a = mk(0); auto b = mk(1); auto c = mk(2); auto e = mk(3); return any_tuple(base, ss, std::move(a), std::move(b), std::move(c), std::move(e)); }
        }
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        if (op.op == "go") { d.go(); co_return; }
        int base = 8 * op.a, n = op.b % 4 + 1; bool range = op.b >> 2 & 1, ss = op.b >> 5 & 1; int type = op.b >> 3 & 3;
        std::stop_source src;
        std::optional<std::stop_source> os;
        if (ss) os = src;
        auto tok = src.get_token();
        auto k = [&](int i) { return op.b >> (6 + 3 * i) & 7; };
        auto mki = [&](int i) { return ti(base + i, k(i), tok, lv()); };
        auto mkv = [&](int i) { return tv(base + i, k(i), tok, lv()); };
        auto mkm = [&](int i) { return tm(base + i, k(i), tok, lv()); };
        auto mkr = [&](int i) { return tr(base + i, k(i), tok, lv()); };
        int w = -1;
        try
        {
            if (range)
            {
                if (type == 0) w = co_await any_range<int>(base, n, os, mki);
                else if (type == 1) w = co_await any_range<void>(base, n, os, mkv);
                else if (type == 2) w = co_await any_range<MoveOnly>(base, n, os, mkm);
                else w = co_await any_range<int&>(base, n, os, mkr);
            }
            else if (type == 0) w = co_await any_n(base, n, os, mki);
            else if (type == 1) w = co_await any_n(base, n, os, mkv);
            else if (type == 2) w = co_await any_n(base, n, os, mkm);
            else if (n == 1) w = co_await any_tuple(base, os, mkr(0));
            else if (n == 2) { auto x0 = mkm(0); auto x1 = mkv(1); w = co_await any_tuple(base, os, std::move(x0), std::move(x1)); }
            else if (n == 3) { auto x0 = mkv(0); auto x1 = mki(1); auto x2 = mkm(2); w = co_await any_tuple(base, os, std::move(x0), std::move(x1), std::move(x2)); }
            else { auto x0 = mki(0); auto x1 = mkr(1); auto x2 = mkv(2); auto x3 = mki(3); w = co_await any_tuple(base, os, std::move(x0), std::move(x1), std::move(x2), std::move(x3)); }
        }
        catch (const ChildError& e) { r.s = "threw"; w = e.id - base; }
        r.v = w;
        if (w >= 0 && w < n) r.vis = st[base + w].seen();
        else { r.vis = false; for (int i = 0; i < n; ++i) if (st.count(base + i) && st[base + i].seen()) r.vis = true; }
        if (ss && !src.stop_requested()) r.s = "nostop";
        if (!ss && src.stop_requested()) r.s = "stop";
        src = std::stop_source{};
    }
    void finish() override
    {
        log("call", 8, "go", 0, 0); d.go(); log("ret", 8, "go", "ok", 0, 1);
        vx::quiesce();
        log("q", std::vector<int>(pending.begin(), pending.end()));
        log("gone", d.live);
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }
