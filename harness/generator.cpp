// C18 world: coro::generator in slots 1..3, sequential programs.
// make: b = values | throws<<3 | type<<4 | nested<<7;  move: a -> b
#include "hx.hpp"
#include <ranges>
#include "coro/generator.hpp"
using namespace hx;
struct MoveOnly { int v; std::unique_ptr<int> p; explicit MoveOnly(int x) : v(x), p(new int(x)) {} MoveOnly(MoveOnly&&) = default; };
struct Err { int id; };
struct Mark
{
    const char* what; int id; int* n; bool on{true};
    Mark(const char* w, int i, int* c) : what(w), id(i), n(c) { ++*n; }
    Mark(Mark&& o) : what(o.what), id(o.id), n(o.n), on(std::exchange(o.on, false)) { ++*n; }
    Mark(const Mark&) = delete;
    ~Mark() { --*n; if (on && what) log(what, id); }
};
struct Any { virtual ~Any() = default; virtual void begin() = 0; virtual bool at_end() = 0; virtual void inc(bool post) = 0; virtual std::pair<int, const void*> get() = 0; virtual std::unique_ptr<Any> moved() = 0; virtual void assign(Any&) = 0; virtual std::vector<int> all(int limit) = 0; };
struct W;
static const void* g_addr[64];
static int val(const int& x) { return x; }
static int val(const MoveOnly& m) { return m.p && *m.p == m.v ? m.v : -1; }
static int val(const std::string& s) { return s.ends_with(" long enough for memory of its own") ? std::atoi(s.c_str()) : -1; }
template<typename T> struct Gen : Any
{
    coro::generator<T> g;
    std::optional<typename coro::generator<T>::iterator> it;
    explicit Gen(coro::generator<T> x) : g(std::move(x)) {}
    void begin() override { it.reset(); it.emplace(g.begin()); }
    bool at_end() override { bool a = *it == g.end(); if ((*it != g.end()) == a || (g.end() == *it) != a || (g.end() != *it) == a) std::abort(); return a; }
    void inc(bool post) override { if (post) (*it)++; else { auto& r = ++*it; if (&r != &*it) std::abort(); } }
    std::pair<int, const void*> get() override
    {
        auto&& r = **it;
        if (std::addressof(r) != it->operator->()) return {-1, nullptr};
        return {val(r), std::addressof(r)};
    }
    std::unique_ptr<Any> moved() override { auto n = std::make_unique<Gen<T>>(std::move(g)); n->it = it; return n; }
    void assign(Any& o) override { auto& x = static_cast<Gen<T>&>(o); g = std::move(x.g); it = x.it; if (&x != this) x.it.reset(); }
    std::vector<int> all(int limit) override { std::vector<int> v; for (auto&& x : g) { v.push_back(val(x)); if (int(v.size()) >= limit) break; } return v; }
};
struct Slot { int id{0}; int type{0}; std::unique_ptr<Any> g; bool begun{false}, dead{false}; };
struct W : World
{
    std::map<int, Slot> slot;
    int live{0}, next{0};
    explicit W(const Program&) { for (int i = 1; i <= 3; ++i) slot[i]; }
    // value k of generator id is 10*id+k
    template<typename T> coro::generator<T> body(int id, int b, Mark frame)
    {
        Mark l("ld", id, &live);
        using V = std::remove_cvref_t<T>;
        std::vector<std::unique_ptr<V>> keep;
        for (int k = 0; k < (b & 7); ++k)
        {
            log("gb", id, k);
            if constexpr (std::is_same_v<V, int>)
            {
                if constexpr (std::is_reference_v<T>) { keep.push_back(std::make_unique<int>(10 * id + k)); g_addr[id & 63] = keep.back().get(); co_yield *keep.back(); }
                else if (k % 2) { g_addr[id & 63] = nullptr; co_yield 10 * id + k; }
                else { int x = 10 * id + k; g_addr[id & 63] = &x; co_yield x; }
            }
            else if constexpr (std::is_same_v<V, MoveOnly>) { g_addr[id & 63] = nullptr; co_yield MoveOnly(10 * id + k); }
            else
            {
                V s = std::to_string(10 * id + k) + " long enough for memory of its own";
                if (k % 2) { g_addr[id & 63] = nullptr; co_yield std::move(s); } else { g_addr[id & 63] = &s; co_yield s; }
            }
        }
        log("gb", id, b & 7);
        if (b >> 3 & 1) throw Err{id};
    }
    // passes on what another generator yields
    template<typename T> coro::generator<T> outer(int id, int b, Mark frame) { auto g = body<T>(id, b, Mark(nullptr, id, &live)); for (auto&& x : g) { co_yield x; } }
    bool skip(int, const Op& op) override
    {
        Slot& s = slot[op.a];
        if (op.op == "make" || op.op == "move" || op.op == "drop" || op.op == "self") return false;
        if (!s.id) return true;
        if (op.op == "begin" || op.op == "all") return s.begun || s.dead;
        if (!s.begun || s.dead) return true;
        if (op.op == "inc" || op.op == "post" || op.op == "get") return s.dead || s.g->at_end();
        return false;
    }
    template<typename T> std::unique_ptr<Any> mk(int n, int b)
    {
        Mark f("pd", n, &live);
        return std::make_unique<Gen<T>>(b >> 7 & 1 ? outer<T>(n, b, std::move(f)) : body<T>(n, b, std::move(f)));
    }
    void check(Slot& s, Res& r) { if (s.g->at_end()) { r.s = "end"; } else r.s = "more"; }
    Sub exec(int c, const Op& op, Res& r) override
    {
        Slot& s = slot[op.a];
        try
        {
            if (op.op == "make")
            {
                int n = ++next, b = op.b;
                Slot x; x.id = n; x.type = b >> 4 & 7;
                switch (x.type)
                {
                    case 0: x.g = mk<int>(n, b); break;
                    case 1: x.g = mk<int&>(n, b); break;
                    case 2: x.g = mk<const int&>(n, b); break;
                    case 3: x.g = mk<MoveOnly>(n, b & ~128); break;
                    case 4: x.g = mk<std::string>(n, b); break;
                    case 5: x.g = mk<const std::string>(n, b & ~128); break;
                    default: x.g = mk<const int>(n, b); break;
                }
                s = Slot{};
                s = std::move(x);
                r.v = n;
            }
            else if (op.op == "move")
            {
                Slot& t = slot[op.b];
                if (&t == &s) { if (s.id) s.g = s.g->moved(); }
                else if (s.id && t.id && t.type == s.type) { t.g->assign(*s.g); t.id = s.id; t.begun = s.begun; t.dead = s.dead; s = Slot{}; }
                else { Slot x; if (s.id) { x.id = s.id; x.type = s.type; x.begun = s.begun; x.dead = s.dead; x.g = s.g->moved(); } t = Slot{}; s = Slot{}; t = std::move(x); }
            }
            else if (op.op == "self") { if (s.id) s.g->assign(*s.g); }
            else if (op.op == "drop") { s = Slot{}; }
            else if (op.op == "begin") { s.begun = true; s.g->begin(); check(s, r); }
            else if (op.op == "inc") { s.g->inc(false); check(s, r); }
            else if (op.op == "post") { s.g->inc(true); check(s, r); }
            else if (op.op == "get") { auto [v, p] = s.g->get(); if (g_addr[s.id & 63] && p != g_addr[s.id & 63]) v = -1; r.v = v - 10 * s.id; }
            else if (op.op == "end") { check(s, r); }
            else if (op.op == "all")
            {   // a range-for that leaves after b+1 values
                s.begun = true;
                auto v = s.g->all(op.b + 1);
                r.v = long(v.size());
                for (int i = 0; i < int(v.size()); ++i) if (v[size_t(i)] != 10 * s.id + i) r.v = -1;
                s.dead = true;
            }
        }
        catch (const Err& e)
        {
            r.s = "threw"; r.v = e.id - s.id;
            if (op.op == "begin" || op.op == "all") s.dead = true;
        }
        co_return;
    }
    bool log_end_skip(Slot& s) { return s.dead; }
    void finish() override { slot.clear(); log("gone", live); }
};
int main(int argc, char** argv) { return harness_main(argc, argv, [](const Program& p) -> World* { return new W(p); }); }
