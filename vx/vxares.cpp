#include "vxares.hpp"
#include <ares.h>
#include <cerrno>
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <poll.h>
#include <set>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" ssize_t __real_send(int, const void*, size_t, int);
extern "C" ssize_t __real_recv(int, void*, size_t, int);
extern "C" int __real_close(int);
extern "C" int __wrap_close(int);
using namespace vx;
namespace
{
struct Query { int c; ares_addrinfo_callback cb; void* arg; int tries{0}; int64_t due{0}; int conn{0}; };
struct Conn { int id, fd, peer; bool tcp{false}, wr{false}, broken{false}, hup{false}, unwatched{false}; int64_t since{-1}, wsince{-1}; };
struct Msg { int c, kind, n; };
} // namespace
struct ares_channeldata
{
    vx::recursive_mutex m;
    bool dead{false};
    int users{0};
    ares_sock_state_cb cb{nullptr};
    void* data{nullptr};
    std::list<Query> qs;
    std::map<int, Conn> conns;
};
namespace
{
AresHook hk;
std::list<std::unique_ptr<ares_channeldata>> chans;
std::map<int, Conn*> by_fd;
int lib_users, next_conn;
std::set<ares_addrinfo*> answers;
std::map<int, std::pair<bool, bool>> fails; // thread -> library, channel
void ev(const char* w, int a = 0, int b = 0, int c = 0) { if (hk.ev) hk.ev(w, a, b, c); }
uint32_t filter(int fd, uint32_t e)
{
    struct stat a, b; // by whatever descriptor
    if (!(e & EPOLLIN) || ::fstat(fd, &a)) return e;
    for (auto& [f, k] : by_fd)
        if (k->broken && !::fstat(f, &b) && a.st_ino == b.st_ino && a.st_dev == b.st_dev) return (e & EPOLLOUT) | (k->hup ? EPOLLHUP : EPOLLERR);
    return e;
}
void state(ares_channeldata& ch, Conn& k, bool r, bool w)
{
    if (w && !k.wr) k.wsince = raw_now();
    k.wr = w;
    ev("want", k.id, r, w);
    if (ch.cb) ch.cb(ch.data, k.fd, r, w);
}
void close_conn(ares_channeldata& ch, int id)
{
    auto i = ch.conns.find(id);
    if (i == ch.conns.end()) return;
    state(ch, i->second, false, false);
    by_fd.erase(i->second.fd);
    int fd = i->second.fd, peer = i->second.peer;
    ch.conns.erase(i);
    __wrap_close(fd);
    __real_close(peer);
}
int no_watch(int fd)
{
    struct stat a, b;
    if (::fstat(fd, &a)) return 0;
    for (auto& [f, k] : by_fd)
        if (k->unwatched && !::fstat(f, &b) && a.st_ino == b.st_ino && a.st_dev == b.st_dev) { ev("nw", k->id); return ENOSPC; }
    return 0;
}
void ended(ares_channeldata& ch, std::list<Query>::iterator q, int st, int n, bool empty = false)
{
    Query x = *q;
    ch.qs.erase(q);
    ares_addrinfo* ai = nullptr;
    if (st == ARES_SUCCESS || empty)
    {
        ai = static_cast<ares_addrinfo*>(std::calloc(1, sizeof *ai));
        if (st == ARES_SUCCESS) answers.insert(ai);
        ares_addrinfo_node** t = &ai->nodes;
        for (int i = 0; i < n; ++i)
        {
            auto* nd = static_cast<ares_addrinfo_node*>(std::calloc(1, sizeof **t));
            unsigned char raw[16]; int fam; ares_the_addr(x.c, i, raw, &fam);
            nd->ai_family = fam;
            if (fam == AF_INET) { auto* s = static_cast<sockaddr_in*>(std::calloc(1, sizeof(sockaddr_in))); s->sin_family = AF_INET; std::memcpy(&s->sin_addr, raw, 4); nd->ai_addr = reinterpret_cast<sockaddr*>(s); nd->ai_addrlen = sizeof *s; }
            else { auto* s = static_cast<sockaddr_in6*>(std::calloc(1, sizeof(sockaddr_in6))); s->sin6_family = AF_INET6; std::memcpy(&s->sin6_addr, raw, 16); nd->ai_addr = reinterpret_cast<sockaddr*>(s); nd->ai_addrlen = sizeof *s; }
            *t = nd; t = &nd->ai_next;
        }
    }
    ev("ans", x.c, st == ARES_SUCCESS ? 1 : st == ARES_ECANCELLED ? 2 : st == ARES_EDESTRUCTION ? 3 : 0, n);
    x.cb(x.arg, st, x.tries, ai);
}
void clean(ares_channeldata& ch)
{
    std::vector<int> idle;
    for (auto& [id, k] : ch.conns) { bool used = false; for (auto& q : ch.qs) used |= q.conn == id; if (!used) idle.push_back(id); }
    for (int id : idle) close_conn(ch, id);
}
// the lookup goes out over a socket; 0: it could not
bool ask(ares_channeldata& ch, Query& q)
{
    bool tcp = hk.mode(q.c) == 1;
    q.due = raw_now() + hk.patience;
    if (!ch.conns.empty() && rnd(2))
    {
        auto i = ch.conns.begin(); std::advance(i, long(rnd(ch.conns.size())));
        if (i->second.tcp == tcp && !i->second.broken)
        {
            q.conn = i->first;
            ev("join", q.c, q.conn);
            if (tcp && !i->second.wr) state(ch, i->second, true, true);
            return true;
        }
    }
    int p[2];
    if (::socketpair(AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, p)) std::abort();
    Conn& k = ch.conns[++next_conn];
    k = Conn{next_conn, p[0], p[1]};
    k.tcp = tcp;
    by_fd[k.fd] = &k;
    q.conn = k.id;
    ev("join", q.c, q.conn);
    state(ch, k, true, false);
    if (tcp) state(ch, k, true, true);
    return true;
}
void again(ares_channeldata& ch, std::list<Query>::iterator q, int st)
{
    q->conn = 0;
    if (++q->tries >= 2) ended(ch, q, st, 0); else ask(ch, *q);
}
struct In { ares_channeldata& c; In(ares_channeldata* x) : c(*x) { if (c.dead) ev("bad", 1); ++c.users; } ~In() { --c.users; if (c.dead) ev("bad", 2); } };
Conn* conn_of(int lookup, ares_channeldata** ch = nullptr)
{
    for (auto& c : chans) if (!c->dead) for (auto& q : c->qs) if (q.c == lookup) { auto i = c->conns.find(q.conn); if (ch) *ch = c.get(); return i == c->conns.end() ? nullptr : &i->second; }
    return nullptr;
}
} // namespace
namespace vx
{
extern uint32_t (*ev_filter)(int, uint32_t);
extern int (*ctl_fault)(int);
void ares_reset(AresHook h)
{
    for (auto& c : chans) for (auto& [id, k] : c->conns) { __real_close(k.fd); __real_close(k.peer); }
    chans.clear(); by_fd.clear(); fails.clear(); lib_users = 0; next_conn = 0; answers.clear();
    hk = std::move(h);
    ev_filter = filter;
    ctl_fault = no_watch;
}
void ares_hook_fail(bool i, bool c) { fails[self()] = {i, c}; }
void ares_the_addr(int c, int i, unsigned char* o, int* f)
{
    *f = (c + i * i + i / 3) % 2 ? AF_INET6 : AF_INET;
    for (int j = 0; j < 16; ++j) o[j] = static_cast<unsigned char>(c * 37 + i * 11 + j * 5 + 1);
}
void ares_answer(int c, int kind, int n)
{
    Conn* k = conn_of(c);
    if (!k || k->wr) return; // nobody has heard the question yet
    if (kind != 0) n = 0;
    Msg m{c, kind, n};
    if (k->since < 0) k->since = raw_now();
    ev("in", c, kind, n);
    __real_send(k->peer, &m, sizeof m, 0);
    note_progress();
}
void ares_break(int c, bool hup)
{
    Conn* k = conn_of(c);
    if (!k || k->broken) return;
    k->broken = true; k->hup = hup;
    if (k->since < 0) k->since = raw_now();
    ev("brk", k->id);
    Msg m{0, 9, 0};
    __real_send(k->peer, &m, sizeof m, 0);
    note_progress();
}
void ares_unwatch(int c)
{
    Conn* k = conn_of(c);
    if (!k || k->unwatched) return;
    k->unwatched = true;
}
int ares_alive() { int n = lib_users + int(answers.size()); for (auto& c : chans) n += int(!c->dead) + int(c->conns.size()); return n; }
} // namespace vx
extern "C"
{
int ares_library_init(int) { point(); if (fails[self()].first) return ARES_ENOTINITIALIZED; ++lib_users; return ARES_SUCCESS; }
void ares_library_cleanup(void) { point(); --lib_users; }
const char* ares_strerror(int) { return "error"; }
int ares_init_options(ares_channel_t** c, const ares_options* o, int mask)
{
    point();
    if (fails[self()].second) return ARES_ENOMEM;
    if (lib_users <= 0) ev("bad", 3);
    chans.push_back(std::make_unique<ares_channeldata>());
    auto& ch = *chans.back();
    if (mask & ARES_OPT_SOCK_STATE_CB) { ch.cb = o->sock_state_cb; ch.data = o->sock_state_cb_data; }
    *c = &ch;
    return ARES_SUCCESS;
}
void ares_destroy(ares_channel_t* c)
{
    if (!c) return;
    if (c->dead) { ev("bad", 4); return; }
    c->m.lock();
    if (c->users) ev("bad", 5);
    while (!c->qs.empty()) ended(*c, c->qs.begin(), ARES_EDESTRUCTION, 0);
    while (!c->conns.empty()) close_conn(*c, c->conns.begin()->first);
    c->dead = true;
    c->m.unlock();
}
void ares_cancel(ares_channel_t* c)
{
    In in(c); std::lock_guard g(c->m);
    while (!c->qs.empty()) ended(*c, c->qs.begin(), ARES_ECANCELLED, 0);
    clean(*c);
}
void ares_getaddrinfo(ares_channel_t* c, const char* name, const char*, const ares_addrinfo_hints*, ares_addrinfo_callback cb, void* arg)
{
    int l = hk.who(name);
    {
        In in(c); std::lock_guard g(c->m);
        ev("gai", l, hk.mode(l));
        c->qs.push_back(Query{l, cb, arg});
        auto q = std::prev(c->qs.end());
        switch (hk.mode(l))
        {
            case 2: ended(*c, q, ARES_SUCCESS, 2); break;
            case 3: ended(*c, q, ARES_ENOTFOUND, 0); break;
            case 4: ended(*c, q, ARES_ECONNREFUSED, 0); break;
            default: ask(*c, *q);
        }
    }
    hk.left(l);
}
void ares_freeaddrinfo(ares_addrinfo* ai)
{
    if (!ai) return;
    answers.erase(ai);
    for (auto* n = ai->nodes; n;) { auto* x = n->ai_next; std::free(n->ai_addr); std::free(n); n = x; }
    std::free(ai);
}
void ares_process_fd(ares_channel_t* c, ares_socket_t r, ares_socket_t w)
{
    In in(c); std::lock_guard g(c->m);
    point();
    if (w != ARES_SOCKET_BAD)
        if (auto i = by_fd.find(w); i != by_fd.end() && c->conns.count(i->second->id) && i->second->wr)
        {
            Conn& k = *i->second;
            ev("flush", k.id, int((raw_now() - k.wsince) / 1000000));
            state(*c, k, true, false);
        }
    if (r != ARES_SOCKET_BAD)
        if (auto i = by_fd.find(r); i != by_fd.end() && c->conns.count(i->second->id))
        {
            int id = i->second->id;
            Msg m;
            bool lost = false;
            for (;;)
            {
                auto k = c->conns.find(id);
                if (k == c->conns.end() || __real_recv(k->second.fd, &m, sizeof m, 0) != ssize_t(sizeof m)) break;
                ev("rd", id, int((raw_now() - k->second.since) / 1000000), m.c);
                if (m.kind == 9) { lost = true; break; }
                for (auto q = c->qs.begin(); q != c->qs.end(); ++q)
                    if (q->c == m.c && q->conn == id)
                    {
                        if (m.kind == 0) ended(*c, q, ARES_SUCCESS, m.n);
                        else if (m.kind == 1) ended(*c, q, ARES_ENOTFOUND, 0);
                        else if (m.kind == 2) again(*c, q, ARES_ESERVFAIL);
                        else if (m.kind == 3) ended(*c, q, ARES_ENODATA, 0, true);
                        break;
                    }
                // an answer to a question that was asked somewhere else since, nonsense: read and forgotten
            }
            if (auto k = c->conns.find(id); k != c->conns.end()) k->second.since = -1;
            if (lost)
            {
                std::vector<std::list<Query>::iterator> on;
                for (auto q = c->qs.begin(); q != c->qs.end(); ++q) if (q->conn == id) { q->conn = 0; on.push_back(q); }
                close_conn(*c, id);
                for (auto q : on) again(*c, q, ARES_ECONNREFUSED);
            }
        }
    for (bool more = true; more;)
    {
        more = false;
        for (auto q = c->qs.begin(); q != c->qs.end(); ++q)
            if (q->due <= raw_now()) { ev("late", q->c, int((raw_now() - q->due) / 1000000)); again(*c, q, ARES_ETIMEOUT); more = true; break; }
    }
    clean(*c);
}
}
