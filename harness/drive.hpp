// Shared by the worlds of when_all, when_any, sync_wait and task: child operations that hop over worker
// fibers or wait at a gate, with a log of when they begin, finish and have given control back.
#pragma once
#include "hx.hpp"
#include <stop_token>
namespace hx
{
struct Driver
{
    struct Item { std::coroutine_handle<> h; vx::VC vc; int id; };
    std::deque<Item> ready;
    std::map<int, Item> gate;
    bool open{false};
    std::map<int, int> sync_fin;              // finished without ever giving control back, on which fiber
    std::set<int> fin, gone;
    int live{0};
    explicit Driver(int workers) { for (int i = 0; i < workers; ++i) vx::thread([this]() { loop(); }).detach(); }
    void push(std::coroutine_handle<> h, int id) { ready.push_back(Item{h, vx::clock_of_self(), id}); vx::tick(); vx::note_progress(); }
    void loop()
    {
        for (;;)
        {
            if (ready.empty()) vx::block([](void* p) { return !static_cast<Driver*>(p)->ready.empty(); }, this);
            if (ready.empty()) continue;
            Item it = ready.front(); ready.pop_front();
            vx::clock_mut().join(it.vc);
            it.h.resume();
            back(it.id);
            vx::point();
        }
    }
    void back(int id) { if (fin.count(id) && gone.insert(id).second) log("cd", id); }
    struct Hop
    {
        Driver& d; int id;
        bool await_ready() { return false; }
        void await_suspend(std::coroutine_handle<> h) { d.push(h, id); }
        void await_resume() {}
    };
    struct Gate
    {
        Driver& d; int id; std::stop_token st; vx::VC saved{};
        struct Cb { Driver& d; int id; void operator()() noexcept { d.release(id); } };
        std::optional<std::stop_callback<Cb>> cb{};
        bool await_ready() { return d.open || st.stop_requested(); }
        void await_suspend(std::coroutine_handle<> h)
        {
            d.gate.emplace(id, Item{h, vx::clock_of_self(), id});
            vx::tick();
            if (st.stop_possible()) cb.emplace(st, Cb{d, id});
        }
        void await_resume() { cb.reset(); }
    };
    Hop  hop(int id) { return Hop{*this, id}; }
    Gate wait(int id, std::stop_token st = {}) { return Gate{*this, id, std::move(st)}; }
    void release(int id)
    {
        auto it = gate.find(id);
        if (it == gate.end()) return;
        Item x = it->second; gate.erase(it);
        x.vc.join(vx::clock_of_self()); vx::tick();
        ready.push_back(x); vx::note_progress();
    }
    void go() { open = true; while (!gate.empty()) release(gate.begin()->first); }
    void begin(int id) { for (auto it = sync_fin.begin(); it != sync_fin.end();) if (it->second == vx::self()) { back(it->first); it = sync_fin.erase(it); } else ++it; log("cb", id); }
    // sync: the operation has not been suspended
    void end(int id, bool stopped, bool sync) { fin.insert(id); if (sync) sync_fin[id] = vx::self(); log("cf", id, stopped ? 1 : 0); }
};
struct Live { int* n; explicit Live(int* p) : n(p) { ++*n; } Live(Live&& o) : n(o.n) { ++*n; } Live(const Live& o) : n(o.n) { ++*n; } ~Live() { --*n; } };
struct ChildError { int id; };
} // namespace hx
