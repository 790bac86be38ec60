#include "vxio.hpp"
#include <cerrno>
#include <map>
#include <set>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <unistd.h>

extern "C"
{
int     __real_epoll_wait(int, epoll_event*, int, int);
int     __real_epoll_ctl(int, int, int, epoll_event*);
int     __real_close(int);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);
// vxnet.cpp, where it is linked in
__attribute__((weak)) void    vxnet_closing(int);
__attribute__((weak)) bool    vxnet_is(int);
__attribute__((weak)) ssize_t vxnet_send1(int, const void*, size_t, int);
__attribute__((weak)) ssize_t vxnet_recv1(int, void*, size_t, int);
}
static bool net(int fd) { return vxnet_is && vxnet_is(fd); }
namespace vx
{
int (*ctl_fault)(int) = nullptr;                   // errno of epoll_ctl for a descriptor to be watched, 0 none
bool io_points = true;
bool (*fd_guard)(int, char) = nullptr;
uint32_t (*ev_filter)(int, uint32_t) = nullptr;   // what the kernel has to say about a descriptor, changed by a stand-in
namespace
{
IoStats st;
std::map<int, int64_t> timers;   // timerfd -> deadline, -1 disarmed
std::map<std::pair<int, uint64_t>, int> watched; // epoll instance, user data -> descriptor
std::map<int, SyncVar> syncs;     // descriptor or epoll instance -> what was published through it
void drain(int fd) { uint64_t v; while (__real_read(fd, &v, sizeof v) == sizeof v) {} }
void fire()
{
    for (auto& [fd, d] : timers)
        if (d >= 0 && d <= raw_now())
        {
            d = -1;
            uint64_t one = 1;
            (void)!__real_write(fd, &one, sizeof one);
        }
}
int64_t next_deadline()
{
    int64_t n = -1;
    for (auto& [fd, d] : timers) if (d >= 0 && (n < 0 || d < n)) n = d;
    return n;
}
bool fd_ready(void* p) { return ::poll(static_cast<pollfd*>(p), 1, 0) > 0; }
void rel(int fd) { if (active()) { syncs[fd].get().join(clock_of_self()); tick(); } }
void acq(int fd) { if (active()) if (auto i = syncs.find(fd); i != syncs.end() && i->second.vc) clock_mut().join(*i->second.vc); }
void pt() { if (io_points) point(); }
void changed(ssize_t n) { if (n != -1) note_progress(); }
} // namespace
IoStats& io_stats() { return st; }
void io_reset()
{
    timers.clear(); syncs.clear(); watched.clear(); ev_filter = nullptr;
    IoHook h;
    h.next_deadline = next_deadline;
    h.time_moved = fire;
    set_io_hook(h);
}
} // namespace vx
using namespace vx;
extern "C"
{
int __wrap_epoll_wait(int ep, epoll_event* ev, int n, int timeout)
{
    if (!active()) return __real_epoll_wait(ep, ev, n, timeout);
    ++st.epoll_waits;
    point();
    int64_t dl = timeout < 0 ? -1 : raw_now() + int64_t(timeout) * 1000000;
    for (;;)
    {
        int r = __real_epoll_wait(ep, ev, n, 0);
        if (r > 1) // the kernel hands out ready descriptors in an order of its own
            for (int i = r - 1; i > 0; --i) std::swap(ev[i], ev[rnd(uint64_t(i) + 1)]);
        if (ev_filter)
            for (int i = 0; i < r; ++i)
                if (auto w = watched.find({ep, uint64_t(ev[i].data.u64)}); w != watched.end()) ev[i].events = ev_filter(w->second, ev[i].events);
        if (r != 0) { acq(ep); note_progress(); point_after(); return r; }
        if (timeout == 0 || (dl >= 0 && raw_now() >= dl)) return 0;
        pollfd p{ep, POLLIN, 0};
        block_idle(fd_ready, &p, dl);
    }
}
int __wrap_epoll_ctl(int ep, int op, int fd, epoll_event* ev)
{
    if (active()) { point(); rel(ep); }
    if (int e = ctl_fault && op != EPOLL_CTL_DEL ? ctl_fault(fd) : 0) { errno = e; ++st.ctl_fail; return -1; }
    int r = __real_epoll_ctl(ep, op, fd, ev);
    if (r != 0) ++st.ctl_fail;
    else if (ev && ev_filter) watched[{ep, uint64_t(ev->data.u64)}] = fd;
    note_progress();
    if (active()) point_after();
    return r;
}
int __wrap_timerfd_create(int, int)
{
    int fd = ::eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
    timers[fd] = -1;
    return fd;
}
int __wrap_timerfd_settime(int fd, int flags, const itimerspec* its, itimerspec* old)
{
    if (active()) point();
    auto i = timers.find(fd);
    if (i == timers.end()) { errno = EBADF; return -1; }
    if (its->it_value.tv_sec < 0 || its->it_value.tv_nsec < 0 || its->it_value.tv_nsec > 999999999) { errno = EINVAL; return -1; }
    drain(fd);
    __int128 v = __int128(its->it_value.tv_sec) * 1000000000 + its->it_value.tv_nsec;
    if (v == 0) i->second = -1;
    else
    {
        v += (flags & TFD_TIMER_ABSTIME) ? 0 : raw_now();
        i->second = v > __int128(INT64_MAX) ? INT64_MAX : int64_t(v);
        fire();
    }
    note_progress();
    if (active()) point_after();
    return 0;
}
int __wrap_close(int fd)
{
    if (fd_guard && !fd_guard(fd, 'c')) { errno = EBADF; return -1; }
    if (active()) pt();
    timers.erase(fd); syncs.erase(fd);
    if (vxnet_closing) vxnet_closing(fd);
    int r = __real_close(fd);
    note_progress();
    return r;
}
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
    if (fd_guard && !fd_guard(fd, 'w')) { errno = EBADF; return -1; }
    if (net(fd)) return vxnet_send1(fd, b, n, 0);
    if (active()) { pt(); rel(fd); }
    ssize_t r = __real_write(fd, b, n);
    changed(r);
    if (active() && io_points) point_after();
    return r;
}
ssize_t __wrap_read(int fd, void* b, size_t n)
{
    if (fd_guard && !fd_guard(fd, 'r')) { errno = EBADF; return -1; }
    if (net(fd)) return vxnet_recv1(fd, b, n, 0);
    if (active()) pt();
    ssize_t r = __real_read(fd, b, n);
    if (r >= 0) acq(fd);
    changed(r);
    if (active() && io_points) point_after();
    return r;
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int f)
{
    if (net(fd)) return vxnet_send1(fd, b, n, f);
    if (active()) pt();
    ssize_t r = __real_send(fd, b, n, f);
    changed(r);
    return r;
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int f)
{
    if (net(fd)) return vxnet_recv1(fd, b, n, f);
    if (active()) pt();
    ssize_t r = __real_recv(fd, b, n, f);
    changed(r);
    return r;
}
}
