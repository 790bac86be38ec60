// C15 world: coro::when_all. "all": a = group (children 8a..), b = n | range<<3 | type<<4 | how<<6 | kind of child i << (8+3(i%4))
// how: 0 co_await of the temporary, 1 of a variable, 2 of a moved one, 3 sync_wait on a thread of its own
#include "drive.hpp"
#include "coro/sync_wait.hpp"
#include "coro/task.hpp"
#include "coro/when_all.hpp"
#include <list>
using namespace hx;
struct NewThread { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { vx::thread([h]() { h.resume(); }).detach(); } void await_resume() {} };
struct MoveOnly { int v; std::unique_ptr<int> p; explicit MoveOnly(int x) : v(x), p(new int(x)) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
struct W : World
{
    Driver d;
    std::map<int, vx::stamp> st;
    std::map<int, int> refs;
    explicit W(const Program& p) : d(p.par[0]) {}
    // kinds: 0 at once, 1 throws at once, 2 hop, 3 hop and throw, 4 gate, 5 two hops and throw, 6 two hops, 7 gate and throw
    Sub run(int id, int kind)
    {
        d.begin(id);
        vx::point();
        if (kind == 2 || kind == 3 || kind == 6 || kind == 5) co_await d.hop(id);
        if (kind == 6 || kind == 5) co_await d.hop(id);
        if (kind == 4 || kind == 7) co_await d.wait(id);
        vx::point();
        st[id].set();
        d.end(id, false, kind < 2);
        if (kind & 1) throw ChildError{id};
    }
    coro::task<int> ti(int id, int k, Live l) { co_await run(id, k); co_return id; }
    coro::task<void> tv(int id, int k, Live l) { co_await run(id, k); }
    coro::task<MoveOnly> tm(int id, int k, Live l) { co_await run(id, k); co_return MoveOnly(id); }
    coro::task<int&> tr(int id, int k, Live l) { co_await run(id, k); refs[id] = id; co_return refs[id]; }
    // an awaitable that is no task
    struct Op2
    {
        W& w; int id, k; Live l;
        struct Aw { Sub s; int id; bool await_ready() { return false; } std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { return s.await_suspend(h); } MoveOnly await_resume() { s.await_resume(); return MoveOnly(id); } };
        Aw operator co_await() { return Aw{w.run(id, k), id}; }
    };
    Live lv() { return Live(&d.live); }
    bool isref(int& x) { for (auto& [i, v] : refs) if (&v == &x) return true; return false; }
    static int val(const int& x) { return x; }
    static int val(const MoveOnly& m) { return m.p && *m.p == m.v ? m.v : -1; }
    static int val(coro::detail::void_value) { return -2; }
    // 1 the child's value, 2 its exception, 9 anything else
    template<typename R> long one(R&& r, int id)
    {
        try { int x;
            if constexpr (requires { { r.return_value() } -> std::same_as<int&>; } && std::is_same_v<std::remove_cvref_t<R>, coro::detail::when_all_task<int&>>) { int& y = r.return_value(); x = isref(y) ? y : -1; }
            else x = val(std::forward<R>(r).return_value());
            return x == id || x == -2 ? 1 : 9; }
        catch (const ChildError& e) { return e.id == id ? 2 : 9; }
    }
    template<typename Res> long many(Res&& r, int base)
    {
        long v = 0, f = 1; int i = 0;
        for (auto& x : r) { v += f * (i % 2 ? one(x, base + i) : one(std::move(x), base + i)); f *= 10; ++i; }
        return v;
    }
    template<typename... T> long tup(std::tuple<T...>&& r, int base)
    {
        long v = 0, f = 1; int i = 0;
        std::apply([&](auto&... x) { ((v += f * (i % 2 ? one(x, base + i) : one(std::move(x), base + i)), f *= 10, ++i), ...); }, r);
        return v;
    }
    template<typename... T> long tup(std::tuple<T...>& r, int base) { return tup(std::move(r), base); }
    template<typename X> long eval(X&& x, int base)
    {
        if constexpr (requires { std::tuple_size<std::remove_cvref_t<X>>::value; }) return tup(std::forward<X>(x), base);
        else return many(std::forward<X>(x), base);
    }
    template<typename A> coro::task<long> await(A a, int how, int base)
    {
        if (how == 0) { long v = eval(co_await std::move(a), base); co_return v; }
        if (how == 1) { auto& r = co_await a; long v = eval(r, base); co_return v; }
        if (how == 2) { A b(std::move(a)); auto r = co_await std::move(b); long v = eval(r, base); co_return v; }
        auto r = coro::sync_wait(std::move(a));
        co_return eval(r, base);
    }
    template<typename T, typename MK> coro::task<long> range(int base, int n, int how, MK mk)
    {
        if (n % 2) { std::list<T> v; for (int i = 0; i < n; ++i) v.push_back(mk(i)); return await(coro::when_all(std::move(v)), how, base); }
        std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(mk(i));
        return await(coro::when_all(std::move(v)), how, base);
    }
    template<typename... T> coro::task<long> pack(int base, int how, T... t) { return await(coro::when_all(std::move(t)...), how, base); }
    template<typename MK> coro::task<long> pack_n(int base, int n, int how, MK mk)
    {
        switch (n)
        {
            case 1: return pack(base, how, mk(0));
            case 2: { auto a = mk(0); auto b = mk(1); return pack(base, how, std::move(a), std::move(b)); }
            case 3: { auto a = mk(0); auto b = mk(1); auto c = mk(2); return pack(base, how, std::move(a), std::move(b), std::move(c)); }
            default: { auto a = mk(0); auto b = mk(1); auto c = mk(2); auto e = mk(3); return pack(base, how, std::move(a), std::move(b), std::move(c), std::move(e)); }
        }
    }
    coro::task<long> make(int base, int b)
    {
        int n = b & 7, how = b >> 6 & 3, type = b >> 4 & 3; bool rg = b >> 3 & 1;
        auto k = [&](int i) { return b >> (8 + 3 * (i % 4)) & 7; };
        auto mki = [&](int i) { return ti(base + i, k(i), lv()); };
        auto mkv = [&](int i) { return tv(base + i, k(i), lv()); };
        auto mkm = [&](int i) { return tm(base + i, k(i), lv()); };
        auto mkr = [&](int i) { return tr(base + i, k(i), lv()); };
        auto mko = [&](int i) { return Op2{*this, base + i, k(i), lv()}; };
        if (rg)
            return type == 0 ? range<coro::task<int>>(base, n, how, mki) : type == 1 ? range<coro::task<void>>(base, n, how, mkv) : type == 2 ? range<coro::task<MoveOnly>>(base, n, how, mkm) : range<coro::task<int&>>(base, n, how, mkr);
        if (type == 0) return pack_n(base, n, how, mki);
        if (type == 1) return pack_n(base, n, how, mkv);
        if (type == 2) return pack_n(base, n, how, mkm);
        if (n == 1) return pack(base, how, mkr(0));
        if (n == 2) { auto x0 = mko(0); auto x1 = mkv(1); return pack(base, how, std::move(x0), std::move(x1)); }
        if (n == 3) { auto x0 = mkv(0); auto x1 = mkr(1); auto x2 = mkm(2); return pack(base, how, std::move(x0), std::move(x1), std::move(x2)); }
        auto x0 = mki(0); auto x1 = mko(1); auto x2 = mkv(2); auto x3 = mkr(3);
        return pack(base, how, std::move(x0), std::move(x1), std::move(x2), std::move(x3));
    }
    Sub exec(int c, const Op& op, Res& r) override
    {
        if (op.op == "go") { d.go(); co_return; }
        int base = 8 * op.a, n = op.b & 7;
        if ((op.b >> 6 & 3) == 3) co_await NewThread{};
        if (n == 0 && !(op.b >> 3 & 1)) { auto x = co_await coro::when_all(); r.v = std::tuple_size<decltype(x)>::value; co_return; }
        r.v = co_await make(base, op.b);
        for (int i = 0; i < n; ++i) if (!st.count(base + i) || !st[base + i].seen()) r.vis = false;
    }
    void finish() override
    {
        log("call", 8, "go", 0, 0); d.go(); log("ret", 8, "go", "ok", 0, 1);
        vx::quiesce();
        log("q", std::vector<int>(pending.begin(), pending.end()));
        log("gone", d.live);
    }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }
