// vxtls: a stand-in for libssl over the simulated network: records, a three message handshake, key updates that make a
// reader write, renegotiations that make a writer read, records that are larger than the reader's buffer, the
// error queue of each thread, close_notify. What it asks of its caller (WANT_READ, WANT_WRITE, the same bytes again) is what OpenSSL asks.
#pragma once
#include "vxnet.hpp"
namespace vx
{
struct TlsHook
{
    std::function<int(int)> end;                                   // descriptor -> endpoint
    std::function<void(const char*, int, long, const void*)> ev;   // "hs" 1/0, "wr" n, "wd" n, "rd" n, "cn", "gn", "err" code, "free", "clash", "want" dir
    std::function<bool(int)> reject;                               // endpoint refuses the handshake
    bool partial{false}, reneg{false}, keyup{false};
    int  record{16};                                               // largest record
};
void tls_reset(TlsHook h);
struct TlsState { bool up{false}, plain{false}; int want{0}; bool pending{false}; };
TlsState tls_state(int endpoint);
void tls_fresh(int endpoint);                                     // forget what its last call wanted
int  tls_alive();                                                  // SSL objects not freed
}
