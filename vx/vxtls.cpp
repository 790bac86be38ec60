#include "vxtls.hpp"
#include <cerrno>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <sys/socket.h>
using namespace vx;
struct ssl_ctx_st { int refs{1}; };
struct ssl_st
{
    ssl_ctx_st* ctx{nullptr};
    int fd{-1}, role{0}, stage{0}, want{0}, code{0}, e{0};
    bool up{false}, sent_cn{false}, got_cn{false}, dead{false}, busy{false}, waits_r{false}, owes{false};
    std::string out, in, plain;
    std::size_t wlen{0}, wdone{0}; const void* wbuf{nullptr};
};
namespace
{
TlsHook hk;
std::set<ssl_st*> all;
std::map<int, int> queue_;  // thread -> errors in its queue
void put_error() { ++queue_[self()]; }
void say(ssl_st* s, const char* w, long n = 0, const void* b = nullptr) { if (hk.ev && active()) hk.ev(w, s->e, n, b); }
struct Use // nothing else may be inside with this connection
{
    ssl_st* s;
    explicit Use(ssl_st* x) : s(x) { if (s->busy) say(s, "clash"); s->busy = true; s->want = 0; s->code = 0; if (s->fd >= 0 && hk.end) s->e = hk.end(s->fd); }
    ~Use() { s->busy = false; }
};
int want(ssl_st* s, int d) { s->want = d; say(s, "want", d); return -1; }
int fail(ssl_st* s, int code) // the connection is lost
{
    s->dead = true; s->code = code;
    if (code == SSL_ERROR_SSL) put_error();
    return -1;
}
void record(ssl_st* s, char t, const void* b = nullptr, std::size_t n = 0)
{
    s->out += t; s->out += char(n & 0xff); s->out += char(n >> 8);
    s->out.append(static_cast<const char*>(b), n);
}
// 1 everything went out, -1 with what is wanted or what failed
int flush(ssl_st* s)
{
    while (!s->out.empty())
    {
        ssize_t r = ::send(s->fd, s->out.data(), s->out.size(), 0);
        if (r > 0) { s->out.erase(0, std::size_t(r)); if (!s->out.empty() && rnd(3) == 0) return want(s, 2); continue; }
        if (errno == EAGAIN) return want(s, 2);
        return fail(s, SSL_ERROR_SYSCALL);
    }
    return 1;
}
// one record: 1 with its type, -1
int fetch(ssl_st* s, char& t, std::string& body)
{
    while (true)
    {
        std::size_t need = 3;
        if (s->in.size() >= 3) need = 3 + (static_cast<unsigned char>(s->in[1]) | std::size_t(static_cast<unsigned char>(s->in[2])) << 8);
        if (s->in.size() >= 3 && s->in.size() == need) { t = s->in[0]; body = s->in.substr(3); s->in.clear(); return 1; }
        char b[4096];
        ssize_t r = ::recv(s->fd, b, std::min(sizeof b, need - s->in.size()), 0);
        if (r > 0) { s->in.append(b, std::size_t(r)); continue; }
        if (r == 0) return fail(s, SSL_ERROR_SSL); // unexpected end
        if (errno == EAGAIN) return want(s, 1);
        return fail(s, SSL_ERROR_SYSCALL);
    }
}
// what arrives besides data; 1 go on, 0 the end, -1
int handle(ssl_st* s, char t, const std::string& body)
{
    switch (t)
    {
        case 'D': s->plain += body; return 1;
        case 'K': record(s, 'k'); s->owes = true; return 1;
        case 'k': return 1;
        case 'R': record(s, 'r'); s->owes = true; return 1;
        case 'r': s->waits_r = false; return 1;
        case 'C': s->got_cn = true; say(s, "gn"); return 0;
        default: return fail(s, SSL_ERROR_SSL);
    }
}
int handshake(ssl_st* s)
{
    if (s->up) return 1;
    if (s->role == 0) return fail(s, SSL_ERROR_SSL);
    while (true)
    {
        if (flush(s) < 0) break;
        bool client = s->role == 1;
        if (client && s->stage == 0) { std::string x(std::size_t(40), 'x'); record(s, '1', x.data(), x.size()); s->stage = 1; continue; }
        if ((client && s->stage == 2) || (!client && s->stage == 3)) { s->up = true; say(s, "hs", 1); return 1; }
        if (!client && s->stage == 9) { fail(s, SSL_ERROR_SSL); break; }
        char t; std::string b;
        if (fetch(s, t, b) < 0) break;
        if (client && s->stage == 1 && t == '2') { if (hk.reject && hk.reject(s->e)) { record(s, 'A'); s->stage = 8; flush(s); fail(s, SSL_ERROR_SSL); break; } record(s, '3'); s->stage = 2; continue; }
        if (!client && s->stage == 0 && t == '1') { if (hk.reject && hk.reject(s->e)) { record(s, 'A'); s->stage = 9; continue; } record(s, '2', b.data(), b.size()); s->stage = 1; continue; }
        if (!client && s->stage == 1 && t == '3') { s->stage = 3; continue; }
        fail(s, SSL_ERROR_SSL);
        break;
    }
    if (s->dead) say(s, "hs", 0);
    return -1;
}
int ended(ssl_st* s, int r) { if (s->dead) say(s, "err", s->code); return r; }
} // namespace
namespace vx
{
void tls_reset(TlsHook h) { hk = std::move(h); for (auto* s : all) delete s; all.clear(); queue_.clear(); }
TlsState tls_state(int e) { for (auto* s : all) if (s->e == e) return {s->up, !s->plain.empty() || s->got_cn, s->want, s->wlen > 0}; return {}; }
void tls_fresh(int e) { for (auto* s : all) if (s->e == e && !s->busy) s->want = 0; }
int tls_alive() { return int(all.size()); }
}
extern "C"
{
int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
const SSL_METHOD* TLS_method() { return reinterpret_cast<const SSL_METHOD*>(&hk); }
const SSL_METHOD* TLS_client_method() { return TLS_method(); }
const SSL_METHOD* TLS_server_method() { return TLS_method(); }
SSL_CTX* SSL_CTX_new(const SSL_METHOD*) { return new ssl_ctx_st; }
void SSL_CTX_free(SSL_CTX* c) { if (c && --c->refs == 0) delete c; }
uint64_t SSL_CTX_set_options(SSL_CTX*, uint64_t o) { return o; }
void SSL_CTX_set_verify(SSL_CTX*, int, SSL_verify_cb) {}
long SSL_CTX_ctrl(SSL_CTX*, int, long, void*) { return 1; }
long SSL_ctrl(SSL*, int, long, void*) { return 1; }
int SSL_CTX_use_certificate_file(SSL_CTX*, const char*, int) { return 1; }
int SSL_CTX_use_PrivateKey_file(SSL_CTX*, const char*, int) { return 1; }
int SSL_CTX_check_private_key(const SSL_CTX*) { return 1; }
SSL* SSL_new(SSL_CTX* c) { if (!c) return nullptr; auto* s = new ssl_st; s->ctx = c; ++c->refs; all.insert(s); return s; }
void SSL_free(SSL* s) { if (!s) return; say(s, s->busy ? "clash" : "free"); all.erase(s); SSL_CTX_free(s->ctx); delete s; }
int SSL_set_fd(SSL* s, int fd) { s->fd = fd; return 1; }
int SSL_get_fd(const SSL* s) { return s->fd; }
void SSL_set_connect_state(SSL* s) { s->role = 1; }
void SSL_set_accept_state(SSL* s) { s->role = 2; }
int SSL_do_handshake(SSL* s) { Use u{s}; if (s->dead) { put_error(); s->code = SSL_ERROR_SSL; return -1; } return handshake(s); }
int SSL_connect(SSL* s) { if (!s->role) s->role = 1; return SSL_do_handshake(s); }
int SSL_accept(SSL* s) { if (!s->role) s->role = 2; return SSL_do_handshake(s); }
int SSL_is_init_finished(const SSL* s) { return s->up; }
int SSL_pending(const SSL* s) { return int(s->plain.size()); }
int SSL_has_pending(const SSL* s) { return !s->plain.empty() || !s->in.empty(); }
int SSL_want(const SSL* s) { return s->want == 1 ? SSL_READING : s->want == 2 ? SSL_WRITING : SSL_NOTHING; }
int SSL_get_shutdown(const SSL* s) { return (s->sent_cn ? SSL_SENT_SHUTDOWN : 0) | (s->got_cn ? SSL_RECEIVED_SHUTDOWN : 0); }
int SSL_get_error(const SSL* s, int r)
{
    if (r > 0) return SSL_ERROR_NONE;
    if (queue_[self()] > 0) return SSL_ERROR_SSL;
    if (s->want) return s->want == 1 ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE;
    if (s->code) return s->code;
    if (s->got_cn) return SSL_ERROR_ZERO_RETURN;
    return SSL_ERROR_SYSCALL;
}
int SSL_read_ex(SSL* s, void* buf, size_t n, size_t* got)
{
    Use u{s};
    *got = 0;
    if (s->dead) { s->code = SSL_ERROR_SSL; put_error(); return ended(s, 0); }
    if (handshake(s) < 0) return ended(s, 0);
    while (s->plain.empty())
    {
        if (s->owes) { if (flush(s) < 0) return ended(s, 0); s->owes = false; }
        if (s->got_cn) return 0;
        char t; std::string b;
        if (fetch(s, t, b) < 0) return ended(s, 0);
        if (handle(s, t, b) < 0) return ended(s, 0);
    }
    *got = std::min(n, s->plain.size());
    std::memcpy(buf, s->plain.data(), *got);
    s->plain.erase(0, *got);
    say(s, "rd", long(*got), buf);
    note_progress();
    return 1;
}
int SSL_write_ex(SSL* s, const void* buf, size_t n, size_t* put)
{
    Use u{s};
    *put = 0;
    if (s->dead || s->sent_cn) { s->code = SSL_ERROR_SSL; put_error(); say(s, "err", SSL_ERROR_SSL); return 0; }
    if (handshake(s) < 0) return ended(s, 0);
    if (s->wlen && (s->wbuf != buf || s->wlen != n)) { s->code = SSL_ERROR_SSL; put_error(); say(s, "err", SSL_ERROR_SSL); return 0; } // bad write retry
    if (!s->wlen)
    {
        if (s->waits_r == false && hk.reneg && rnd(6) == 0) { record(s, 'R'); s->waits_r = true; }
        else if (hk.keyup && rnd(6) == 0) record(s, 'K');
        s->wlen = n; s->wbuf = buf; s->wdone = 0;
    }
    if (flush(s) < 0) return ended(s, 0);
    s->owes = false;
    while (s->waits_r)
    {
        char t; std::string b;
        if (fetch(s, t, b) < 0) return ended(s, 0);
        int h = handle(s, t, b);
        if (h < 0) return ended(s, 0);
        if (h == 0) { s->waits_r = false; break; }
        if (flush(s) < 0) return ended(s, 0);
    }
    while (s->wdone < n)
    {
        std::size_t k = std::min(n - s->wdone, n / 16 + 1 + rnd(std::uint64_t(hk.record)));
        if (s->wdone) { if (flush(s) < 0) return ended(s, 0); if (hk.partial && rnd(2)) break; }
        say(s, "wr", long(k), static_cast<const char*>(buf) + s->wdone);
        record(s, 'D', static_cast<const char*>(buf) + s->wdone, k);
        s->wdone += k;
    }
    if (flush(s) < 0) return ended(s, 0);
    *put = s->wdone;
    s->wlen = 0; s->wbuf = nullptr;
    say(s, "wd", long(*put));
    note_progress();
    return 1;
}
int SSL_read(SSL* s, void* b, int n) { size_t k; int r = SSL_read_ex(s, b, size_t(n), &k); return r > 0 ? int(k) : r == 0 && !s->want && s->got_cn ? 0 : -1; }
int SSL_write(SSL* s, const void* b, int n) { size_t k; int r = SSL_write_ex(s, b, size_t(n), &k); return r > 0 ? int(k) : -1; }
int SSL_shutdown(SSL* s)
{
    Use u{s};
    if (!s->up) { s->code = SSL_ERROR_SSL; put_error(); return -1; }
    if (s->dead) { s->code = SSL_ERROR_SSL; put_error(); return -1; }
    if (!s->sent_cn)
    {
        s->sent_cn = true;
        record(s, 'C'); say(s, "cn");
        if (flush(s) < 0) return -1;
        note_progress();
        return s->got_cn ? 1 : 0;
    }
    if (flush(s) < 0) return -1;
    while (!s->got_cn)
    {
        char t; std::string b;
        if (fetch(s, t, b) < 0) return -1;
        if (handle(s, t, b) < 0) return -1;
    }
    return 1;
}
void ERR_clear_error() { queue_[self()] = 0; }
unsigned long ERR_get_error() { if (queue_[self()] <= 0) return 0; --queue_[self()]; return 1; }
unsigned long ERR_peek_error() { return queue_[self()] > 0; }
char* ERR_error_string(unsigned long, char* b) { static char e[] = "error"; return b ? std::strcpy(b, "error") : e; }
}
