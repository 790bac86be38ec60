// vxio: epoll, timerfd and blocking descriptor calls of the code under test, on the fibers of vx.
// The kernel objects are real (epoll, pipes, sockets); a timerfd is an eventfd driven by virtual time.
#pragma once
#include "vx.hpp"
namespace vx
{
void io_reset();                                   // forget all timers (start of a run)
struct IoStats { long epoll_waits{0}, ctl_fail{0}; };
IoStats& io_stats();
extern bool (*fd_guard)(int fd, char op);           // asked before each close/write/read, false: do not
extern bool io_points;                             // scheduling points at read/write/close too
}
// link with IO_WRAP (see comps.py)
