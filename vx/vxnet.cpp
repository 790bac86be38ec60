#include "vxnet.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>
extern "C"
{
int     __real_close(int);
int     __real_socket(int, int, int);
int     __real_bind(int, const sockaddr*, socklen_t);
int     __real_listen(int, int);
int     __real_accept(int, sockaddr*, socklen_t*);
int     __real_connect(int, const sockaddr*, socklen_t);
int     __real_setsockopt(int, int, int, const void*, socklen_t);
int     __real_getsockopt(int, int, int, void*, socklen_t*);
int     __real_getsockname(int, sockaddr*, socklen_t*);
int     __real_shutdown(int, int);
int     __real_dup(int);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_sendmsg(int, const msghdr*, int);
ssize_t __real_recvmsg(int, msghdr*, int);
}
namespace vx
{
namespace
{
struct Desc // an open file description
{
    int kind{0};               // 1 stream, 2 datagram, 3 listener
    int conn{0}, side{0}, addr{0}, so_error{0}; // addr: bound to, 0 not
    int family{AF_INET};
    bool down{false};
    int refs{1};
    std::deque<std::pair<int, int>> queue; // listener: (descriptor, connection)
};
NetHook hk;
std::map<int, std::shared_ptr<Desc>> fds;
std::map<int, int> named, state_;          // fd -> connection; connection -> state
std::map<int, std::pair<int, int>> trying; // connection -> (client fd, far end)
std::map<int, int> dest;                   // connection -> address
std::map<std::string, int> addr_id;        // addresses in use, numbered from 1
std::map<int, std::string> addr_raw;
int next_port, g_run = 0;
Desc* D(int fd) { auto i = fds.find(fd); return i == fds.end() ? nullptr : i->second.get(); }
void pt() { if (active() && io_points) point(); }
socklen_t uname(int port, sockaddr_un& u)
{
    std::memset(&u, 0, sizeof u);
    u.sun_family = AF_UNIX;
    int n = std::snprintf(u.sun_path + 1, 60, "vxnet-%d-%d-%d", int(getpid()), g_run, port);
    return socklen_t(offsetof(sockaddr_un, sun_path) + 1 + size_t(n));
}
// the number of an address, 0 with errno if a kernel would not take it for this family
int addr_of(const sockaddr* a, socklen_t n, int family)
{
    if (!a || n < sizeof(sa_family_t)) { errno = EINVAL; return 0; }
    if (a->sa_family != family) { errno = EAFNOSUPPORT; return 0; }
    std::string k;
    if (family == AF_INET)
    {
        if (n < sizeof(sockaddr_in)) { errno = EINVAL; return 0; }
        sockaddr_in s{}, *f = &s; std::memcpy(f, a, sizeof s); std::memset(s.sin_zero, 0, sizeof s.sin_zero);
        k.assign(reinterpret_cast<char*>(f), sizeof s);
    }
    else
    {
        if (n < sizeof(sockaddr_in6)) { errno = EINVAL; return 0; }
        sockaddr_in6 s{}; std::memcpy(&s, a, sizeof s); s.sin6_flowinfo = 0;
        k.assign(reinterpret_cast<char*>(&s), sizeof s);
    }
    auto [i, fresh] = addr_id.try_emplace(k, int(addr_id.size()) + 1);
    if (fresh) addr_raw[i->second] = k;
    return i->second;
}
int un_addr(const sockaddr_un& u, socklen_t n)
{
    int pid = 0, run = 0, id = 0;
    char b[128]{};
    if (n > offsetof(sockaddr_un, sun_path) + 1) std::memcpy(b, u.sun_path + 1, std::min<size_t>(sizeof b - 1, n - offsetof(sockaddr_un, sun_path) - 1));
    return std::sscanf(b, "vxnet-%d-%d-%d", &pid, &run, &id) == 3 ? id : 0;
}
void fill_addr(sockaddr* a, socklen_t* n, int id)
{
    if (!a || !n) return;
    auto i = addr_raw.find(id);
    if (i == addr_raw.end()) { *n = 0; return; }
    std::memcpy(a, i->second.data(), std::min<size_t>(*n, i->second.size()));
    *n = socklen_t(i->second.size());
}
// some address nobody asked for: an ephemeral port, the far end of a connection
int own_addr(int family, int port)
{
    sockaddr_in6 s{}; socklen_t n;
    if (family == AF_INET) { auto& v = reinterpret_cast<sockaddr_in&>(s); v.sin_family = AF_INET; v.sin_port = htons(uint16_t(port)); v.sin_addr.s_addr = htonl(INADDR_LOOPBACK); n = sizeof v; }
    else { s.sin6_family = AF_INET6; s.sin6_port = htons(uint16_t(port)); s.sin6_addr = in6addr_loopback; n = sizeof s; }
    return addr_of(reinterpret_cast<sockaddr*>(&s), n, family);
}
Desc* listener(int addr, int* fd = nullptr) { for (auto& [f, d] : fds) if (d->kind == 3 && d->addr == addr) { if (fd) *fd = f; return d.get(); } return nullptr; }
void small(int fd) { if (hk.sndbuf) { int v = hk.sndbuf; __real_setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); } }
// connections nobody has accepted go with their listener
void drop(Desc& d)
{
    for (auto& q : std::exchange(d.queue, {})) { hk.ev("gone", q.second, 1, 0, nullptr); __real_close(q.first); }
}
// puts the far end into the listener's queue
bool enqueue(int conn, int b)
{
    Desc* l = listener(dest[conn]);
    if (!l) return false;
    sockaddr_un u; socklen_t n = uname(l->addr, u);
    int h = __real_socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    bool ok = __real_connect(h, reinterpret_cast<sockaddr*>(&u), n) == 0;
    __real_close(h);
    if (ok) l->queue.emplace_back(b, conn);
    return ok;
}
// a failure the program asked for
int failed(const char* what, Desc* d, int conn = 0)
{
    if (!hk.fault || !active()) return 0;
    int e = hk.fault(what, d->kind == 2 ? d->addr : d->conn ? d->conn : conn, d->side);
    if (!e) return 0;
    if (d->kind == 2) hk.dg("err", d->addr, 0, e, nullptr);
    else hk.ev(what[0] == 'c' ? "cerr" : what[0] == 'a' ? "aerr" : "err", d->conn ? d->conn : conn, d->side, e, nullptr);
    note_progress();
    return e;
}
// the client's descriptor becomes one end of a pair, the other end is returned
int pair_into(int fd)
{
    int p[2];
    if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p)) std::abort();
    ::fcntl(p[0], F_SETFL, ::fcntl(fd, F_GETFL));
    small(p[0]); small(p[1]);
    ::dup2(p[0], fd);
    __real_close(p[0]);
    return p[1];
}
} // namespace
void net_reset(NetHook h)
{
    for (auto& [c, t] : trying) __real_close(t.second);
    for (auto& [f, d] : fds) for (auto& q : d->queue) __real_close(q.first);
    hk = std::move(h); fds.clear(); named.clear(); state_.clear(); trying.clear(); dest.clear(); addr_id.clear(); addr_raw.clear(); next_port = 40000; ++g_run;
}
void net_name(int fd, int conn) { named[fd] = conn; }
int  net_state(int conn) { auto i = state_.find(conn); return i == state_.end() ? 0 : i->second; }
int  net_conn(int fd) { Desc* d = D(fd); return d && d->kind == 1 ? d->conn : 0; }
int  net_end(int fd) { Desc* d = D(fd); return d && d->kind == 1 ? 2 * d->conn + d->side : 0; }
int  net_fd(int conn, int side) { for (auto& [f, d] : fds) if (d->kind == 1 && d->conn == conn && d->side == side) return f; return -1; }
int  net_addr(const sockaddr* a, socklen_t n) { return addr_of(a, n, a->sa_family); }
bool net_addr_is(int id, const sockaddr* a, socklen_t n) { auto i = addr_raw.find(id); return i != addr_raw.end() && i->second.size() == n && std::memcmp(i->second.data(), a, n) == 0; }
int  net_open_fds() { return int(fds.size()); }
void net_refuse(int conn)
{
    auto i = trying.find(conn);
    if (i == trying.end()) return;
    auto [fd, b] = i->second;
    trying.erase(i);
    if (Desc* d = D(fd)) d->so_error = ECONNREFUSED;
    state_[conn] = 3;
    hk.ev("refused", conn, 0, 0, nullptr);
    __real_close(b);
    note_progress();
}
void net_up(int conn)
{
    auto i = trying.find(conn);
    if (i == trying.end()) return;
    auto [fd, b] = i->second;
    if (!enqueue(conn, b)) { net_refuse(conn); return; }
    trying.erase(i);
    state_[conn] = 2;
    hk.ev("up", conn, 0, 0, nullptr);
    char junk[4096];
    while (__real_recv(b, junk, sizeof junk, MSG_DONTWAIT) > 0) {}
    note_progress();
}
} // namespace vx
using namespace vx;
static ssize_t net_send(int fd, const iovec* v, size_t nv, int fl, const sockaddr* to, socklen_t tolen)
{
    Desc* d = D(fd);
    pt();
    if (int e = failed("send", d)) return errno = e, -1;
    std::string b;
    for (size_t i = 0; i < nv; ++i) b.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    msghdr m{};
    iovec  one{b.data(), b.size()};
    m.msg_iov = &one; m.msg_iovlen = 1;
    if (d->kind == 2)
    {
        if (!to) { errno = EDESTADDRREQ; hk.dg("err", d->addr, 0, errno, nullptr); return -1; }
        sockaddr_un u; int port = addr_of(to, tolen, d->family);
        if (!port) { hk.dg("err", d->addr, 0, errno, nullptr); return -1; }
        m.msg_namelen = uname(port, u); m.msg_name = &u;
        if (!d->addr) { sockaddr_un me; d->addr = own_addr(d->family, next_port++); socklen_t n = uname(d->addr, me); __real_bind(fd, reinterpret_cast<sockaddr*>(&me), n); }
        ssize_t r = __real_sendmsg(fd, &m, fl | MSG_NOSIGNAL);
        int e = errno;
        if (r < 0)
        {
            pollfd p{fd, POLLOUT, 0};
            bool room = ::poll(&p, 1, 0) > 0 && (p.revents & POLLOUT);
            // nobody there, or the receiver's queue is full: the datagram is sent and lost
            if (e == ECONNREFUSED || e == ENOENT || (e == EAGAIN && room)) { hk.dg("drop", d->addr, port, long(b.size()), b.data()); note_progress(); return ssize_t(b.size()); }
        }
        else hk.dg("tx", d->addr, port, r, b.data());
        if (r < 0 && e != EAGAIN) hk.dg("err", d->addr, port, e, b.data());
        if (r >= 0 || e != EAGAIN) note_progress();
        errno = e;
        return r;
    }
    if (hk.split && b.size() > 1 && rnd(3) != 0) one.iov_len = size_t(rnd(2) ? 1 + rnd(b.size()) : 1 + rnd(std::min<size_t>(b.size(), 4)));
    ssize_t r = __real_sendmsg(fd, &m, fl | MSG_NOSIGNAL);
    int e = errno;
    if (r > 0) hk.ev("tx", d->conn, d->side, r, b.data());
    else if (r < 0 && e != EAGAIN) hk.ev("err", d->conn, d->side, e, nullptr);
    if (r >= 0 || e != EAGAIN) note_progress();
    errno = e;
    return r;
}
static ssize_t net_recv(int fd, iovec* v, size_t nv, int fl, sockaddr* from, socklen_t* fromlen)
{
    Desc* d = D(fd);
    pt();
    if (int e = failed(fl & MSG_PEEK ? "peek" : "recv", d)) return errno = e, -1;
    size_t cap = 0;
    for (size_t i = 0; i < nv; ++i) cap += v[i].iov_len;
    std::string b(cap, 0);
    msghdr m{};
    sockaddr_un u{};
    iovec one{b.data(), b.size()};
    m.msg_iov = &one; m.msg_iovlen = 1;
    if (d->kind == 2) { m.msg_name = &u; m.msg_namelen = sizeof u; }
    else if (hk.split && cap > 1 && rnd(3) != 0) one.iov_len = size_t(rnd(2) ? 1 + rnd(cap) : 1 + rnd(std::min<size_t>(cap, 4)));
    ssize_t r = __real_recvmsg(fd, &m, fl);
    int e = errno;
    if (r > 0) { size_t o = 0; for (size_t i = 0; i < nv && o < size_t(r); ++i) { size_t k = std::min(v[i].iov_len, size_t(r) - o); std::memcpy(v[i].iov_base, b.data() + o, k); o += k; } }
    if (d->kind == 2)
    {
        if (r >= 0) { int p = un_addr(u, m.msg_namelen); fill_addr(from, fromlen, p); hk.dg((fl & MSG_PEEK) ? "peek" : "rx", d->addr, p, r, b.data()); }
    }
    else if (!(fl & MSG_PEEK) && cap > 0)
    {
        if (r >= 0) hk.ev("rx", d->conn, d->side, r, b.data());
        else if (e != EAGAIN) hk.ev("err", d->conn, d->side, e, nullptr);
    }
    if (r >= 0 || e != EAGAIN) note_progress();
    errno = e;
    return r;
}
extern "C"
{
int __wrap_socket(int dom, int type, int proto)
{
    if (!active() || (dom != AF_INET && dom != AF_INET6)) return __real_socket(dom, type, proto);
    pt();
    int fd = __real_socket(AF_UNIX, type | SOCK_CLOEXEC, 0);
    if (fd < 0) return fd;
    auto d = std::make_shared<Desc>();
    d->kind = (type & 0xf) == SOCK_DGRAM ? 2 : 1;
    d->family = dom;
    if (d->kind == 2) small(fd);
    fds[fd] = d;
    return fd;
}
int __wrap_bind(int fd, const sockaddr* a, socklen_t n)
{
    Desc* d = D(fd);
    if (!d) return __real_bind(fd, a, n);
    if (!(d->addr = addr_of(a, n, d->family))) return -1;
    sockaddr_un u; socklen_t k = uname(d->addr, u);
    return __real_bind(fd, reinterpret_cast<sockaddr*>(&u), k);
}
int __wrap_listen(int fd, int n) { if (Desc* d = D(fd)) d->kind = 3; return __real_listen(fd, n); }
int __wrap_accept4(int fd, sockaddr* a, socklen_t* n, int fl)
{
    Desc* d = D(fd);
    if (!d) return ::accept4(fd, a, n, fl);
    pt();
    if (!d->queue.empty()) if (int e = failed("accept", d)) return errno = e, -1;
    int r = __real_accept(fd, nullptr, nullptr);
    if (d->down) { if (r >= 0) __real_close(r); errno = EINVAL; return -1; }
    if (r < 0) return r;
    __real_close(r);
    note_progress();
    if (d->queue.empty()) { errno = ECONNABORTED; return -1; }
    auto [b, conn] = d->queue.front();
    d->queue.pop_front();
    auto x = std::make_shared<Desc>();
    x->kind = 1; x->conn = conn; x->side = 1; x->family = d->family;
    fds[b] = x;
    if (fl & SOCK_NONBLOCK) ::fcntl(b, F_SETFL, ::fcntl(b, F_GETFL) | O_NONBLOCK);
    fill_addr(a, n, own_addr(d->family, 50000 + conn));
    hk.ev("accepted", conn, 1, 0, nullptr);
    return b;
}
int __wrap_accept(int fd, sockaddr* a, socklen_t* n) { return D(fd) ? __wrap_accept4(fd, a, n, 0) : __real_accept(fd, a, n); }
int __wrap_connect(int fd, const sockaddr* a, socklen_t n)
{
    Desc* d = D(fd);
    if (!d) return __real_connect(fd, a, n);
    pt();
    note_progress();
    int conn = named.count(fd) ? named[fd] : 0;
    if (d->conn) { errno = trying.count(conn) ? EALREADY : EISCONN; return -1; }
    if (int e = failed("connect", d, conn)) return errno = e, -1;
    int mode = hk.connect_mode ? hk.connect_mode(fd) : 0;
    dest[conn] = addr_of(a, n, d->family);
    if (!dest[conn]) { int e = errno; hk.ev("cerr", conn, 0, e, nullptr); errno = e; return -1; }
    // the last field of a refusal: 1 = that was decided, 0 = nobody listens there
    if (mode != 3 && !listener(dest[conn])) { state_[conn] = 3; hk.ev("refused", conn, 0, 1, nullptr); errno = ECONNREFUSED; return -1; }
    if (mode == 3) { state_[conn] = 3; hk.ev("refused", conn, 0, 0, nullptr); errno = ECONNREFUSED; return -1; }
    int b = pair_into(fd);
    d->conn = conn; d->side = 0;
    if (mode == 0)
    {
        if (!enqueue(conn, b)) { __real_close(b); state_[conn] = 3; hk.ev("refused", conn, 0, 0, nullptr); errno = ECONNREFUSED; return -1; }
        state_[conn] = 2;
        hk.ev("up", conn, 0, 0, nullptr);
        return 0;
    }
    char junk[4096]{};
    while (__real_send(fd, junk, sizeof junk, MSG_DONTWAIT | MSG_NOSIGNAL) > 0) {}
    while (__real_send(fd, junk, 1, MSG_DONTWAIT | MSG_NOSIGNAL) > 0) {}
    trying[conn] = {fd, b};
    state_[conn] = 1;
    hk.ev("trying", conn, 0, 0, nullptr);
    errno = EINPROGRESS;
    return -1;
}
int __wrap_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { return D(fd) ? 0 : __real_setsockopt(fd, l, o, v, n); }
int __wrap_getsockopt(int fd, int l, int o, void* v, socklen_t* n)
{
    Desc* d = D(fd);
    if (d && l == SOL_SOCKET && o == SO_ERROR) { *static_cast<int*>(v) = std::exchange(d->so_error, 0); return 0; }
    return __real_getsockopt(fd, l, o, v, n);
}
int __wrap_getsockname(int fd, sockaddr* a, socklen_t* n)
{
    Desc* d = D(fd);
    if (!d) return __real_getsockname(fd, a, n);
    fill_addr(a, n, d->addr);
    return 0;
}
int __wrap_shutdown(int fd, int how)
{
    Desc* d = D(fd);
    if (!d) return __real_shutdown(fd, how);
    pt();
    if (d->kind == 1 && d->conn) hk.ev("shut", d->conn, d->side, how, nullptr);
    else if (d->kind == 3)
    {
        hk.ev("down", 0, 0, how, nullptr);
        d->down = true;
        drop(*d);
    }
    int r = __real_shutdown(fd, how);
    note_progress();
    return r;
}
int __wrap_dup(int fd)
{
    int r = __real_dup(fd);
    if (r >= 0) if (auto i = fds.find(fd); i != fds.end()) { ++i->second->refs; fds[r] = i->second; }
    return r;
}
// called by the wrapper of close() in vxio before the descriptor goes
void vxnet_closing(int fd)
{
    auto i = fds.find(fd);
    if (i == fds.end()) return;
    auto d = i->second;
    fds.erase(i);
    named.erase(fd);
    if (--d->refs > 0) return;
    drop(*d);
    if (d->kind == 1 && d->conn) { for (auto& [c, t] : trying) if (c == d->conn) { __real_close(t.second); trying.erase(c); state_[d->conn] = 3; break; } hk.ev("gone", d->conn, d->side, 0, nullptr); }
    else if (d->kind == 3) hk.ev("down", 0, 0, 9, nullptr);
}
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int f, const sockaddr* a, socklen_t k)
{
    iovec v{const_cast<void*>(b), n};
    if (D(fd)) return net_send(fd, &v, 1, f, a, k);
    return __real_send(fd, b, n, f);
}
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int f, sockaddr* a, socklen_t* k)
{
    iovec v{b, n};
    if (D(fd)) return net_recv(fd, &v, 1, f, a, k);
    return __real_recv(fd, b, n, f);
}
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int f) { return D(fd) ? net_send(fd, m->msg_iov, m->msg_iovlen, f, static_cast<sockaddr*>(m->msg_name), m->msg_namelen) : __real_sendmsg(fd, m, f); }
ssize_t __wrap_recvmsg(int fd, msghdr* m, int f) { return D(fd) ? net_recv(fd, m->msg_iov, m->msg_iovlen, f, static_cast<sockaddr*>(m->msg_name), &m->msg_namelen) : __real_recvmsg(fd, m, f); }
bool vxnet_is(int fd) { return D(fd) != nullptr; }
ssize_t vxnet_send1(int fd, const void* b, size_t n, int f) { iovec v{const_cast<void*>(b), n}; return net_send(fd, &v, 1, f, nullptr, 0); }
ssize_t vxnet_recv1(int fd, void* b, size_t n, int f) { iovec v{b, n}; return net_recv(fd, &v, 1, f, nullptr, nullptr); }
}
