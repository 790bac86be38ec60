// FIFO executor with worker fibers, independent of the library's thread pool; satisfies
// coro::concepts::executor. The only ordering it adds is resume() -> the resumed handle's start.
#pragma once
#include "hx.hpp"
#include "coro/task.hpp"
#ifdef LIBCORO_FEATURE_NETWORKING
#include "coro/fd.hpp"
#include "coro/poll.hpp"
#endif
#include <deque>
namespace hx
{
class Exec
{
public:
    struct Item { std::coroutine_handle<> h; vx::VC vc; };
    struct Spin { std::coroutine_handle<> h; vx::VC vc; uint64_t seen; };
    explicit Exec(int workers = 1) : m_n(workers)
    {
        for (int i = 0; i < workers; ++i) vx::thread([this]() { loop(); }).detach();
    }
    struct Aw
    {
        Exec& e;
        bool  await_ready() { return false; }
        void  await_suspend(std::coroutine_handle<> h) { e.push(h); }
        void  await_resume() {}
    };
    auto schedule() -> Aw { return Aw{*this}; }
    // A yielding coroutine polls for something: it runs again once anything else happened (or a few times
    // for nothing), so that a system in which everybody only polls is quiescent.
    struct Yw
    {
        Exec& e;
        bool  await_ready() { return false; }
        void  await_suspend(std::coroutine_handle<> h)
        {
            auto& l = e.m_last[h.address()];
            if (l.first != vx::progress_count()) l = {vx::progress_count(), 0}; else ++l.second;
            e.m_spin.push_back(Spin{h, vx::clock_of_self(), vx::progress_count() - (l.second < 2 ? 1 : 0)});
            vx::tick();
        }
        void  await_resume() {}
    };
    auto yield() -> Yw { return Yw{*this}; }
    auto resume(std::coroutine_handle<> h) -> bool
    {
        if (h == nullptr || m_refuse) return false;
        vx::point();
        push(h);
        vx::point();   // a worker may run - and finish - the coroutine before this caller goes on
        return true;
    }
    auto spawn_detached(coro::task<void> t) -> bool
    {
        if (m_refuse) return false; // the task goes unstarted
        m_spawned.push_back(std::make_unique<coro::task<void>>(std::move(t)));
        return resume(m_spawned.back()->handle());
    }
    auto spawn_joinable(coro::task<void> t) -> coro::task<void> { co_await schedule(); co_await t; }
    auto size() const -> std::size_t { return m_q.size(); }
    auto empty() const -> bool { return m_q.empty(); }
    auto shutdown() -> void {}
    void stop() { m_stop = true; vx::note_progress(); }
    bool m_refuse{false};
    int  m_resumes{0};
    // ring the order of resumptions
    std::vector<std::coroutine_handle<>> m_order;
protected:
    friend struct Aw;
    void push_vc(std::coroutine_handle<> h, const vx::VC& vc)
    {
        m_q.push_back(Item{h, vc});
        ++m_resumes;
        vx::note_progress();
    }
private:
    void push(std::coroutine_handle<> h)
    {
        m_q.push_back(Item{h, vx::clock_of_self()});
        vx::tick();
        ++m_resumes;
        vx::note_progress();
    }
    void loop()
    {
        for (;;)
        {
            if (m_q.empty() && !m_stop && !spin_ready())
                vx::block([](void* p) { auto* e = static_cast<Exec*>(p); return !e->m_q.empty() || e->m_stop || e->spin_ready(); }, this);
            Item it;
            if (!m_q.empty()) { it = m_q.front(); m_q.pop_front(); }
            else if (spin_ready()) { it = Item{m_spin.front().h, m_spin.front().vc}; m_spin.pop_front(); }
            else { if (m_stop) return; continue; }
            vx::clock_mut().join(it.vc);
            it.h.resume();
            vx::point();
        }
    }
    bool spin_ready() { return !m_spin.empty() && m_spin.front().seen < vx::progress_count(); }
    std::deque<Spin> m_spin;
    std::map<void*, std::pair<uint64_t, int>> m_last;
    std::deque<Item> m_q;
    std::vector<std::unique_ptr<coro::task<void>>> m_spawned;
    int  m_n;
    bool m_stop{false};
};
} // namespace hx
namespace hx
{
// Exec with timers on virtual time; satisfies coro::concepts::io_executor where that exists
class IoExec : public Exec
{
public:
    explicit IoExec(int workers = 1) : Exec(workers) { vx::thread([this]() { timers(); }).detach(); }
    struct Taw
    {
        IoExec& e; int64_t at;
        bool await_ready() { return false; }
        void await_suspend(std::coroutine_handle<> h)
        {
            e.m_t.emplace(at, Item{h, vx::clock_of_self()});
            vx::tick();
            e.m_dirty = true; vx::note_progress();
        }
        void await_resume() {}
    };
    template<typename R, typename P> auto schedule_after(std::chrono::duration<R, P> d) -> Taw
    {
        int64_t ns = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
        return Taw{*this, vx::raw_now() + (ns > 0 ? ns : 0)};
    }
#ifdef LIBCORO_FEATURE_NETWORKING
    auto poll(coro::fd_t, coro::poll_op, std::chrono::milliseconds) -> coro::task<coro::poll_status> { co_return coro::poll_status::error; }
#endif
private:
    friend struct Taw;
    void timers()
    {
        for (;;)
        {
            if (!m_dirty)
                vx::block([](void* p) { return static_cast<IoExec*>(p)->m_dirty; }, this, m_t.empty() ? -1 : m_t.begin()->first);
            m_dirty = false;
            while (!m_t.empty() && m_t.begin()->first <= vx::raw_now())
            {
                push_vc(m_t.begin()->second.h, m_t.begin()->second.vc);
                m_t.erase(m_t.begin());
            }
        }
    }
    std::multimap<int64_t, Item> m_t;
    bool m_dirty{false};
};
} // namespace hx
