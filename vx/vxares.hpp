// vxares: a stand-in for c-ares (1.27): a channel with its lock, lookups that share sockets or open new ones, answers, refusals,
// retries after a while, sockets closed behind the back of whoever watches them. What it asks of its caller is what c-ares asks.
#pragma once
#include "vxio.hpp"
#include <functional>
namespace vx
{
struct AresHook
{
    std::function<int(const char* name)> who;                 // hostname -> number of the lookup
    std::function<int(int)> mode;                             // lookup -> 0 asks over UDP, 1 over TCP, 2 known already, 3 no such name, 4 the network is down
    std::function<void(const char*, int, int, int)> ev;       // see Dns.tla
    std::function<void(int)> left;                            // ares_getaddrinfo has returned
    int64_t patience{3000000};                                // ns until it asks again
};
void ares_reset(AresHook h);
void ares_hook_fail(bool init, bool channel);                  // for this thread
void ares_answer(int lookup, int kind, int n);                 // 0 n addresses, 1 no such name, 2 the server cannot say, 3 an answer without addresses, 4 nonsense
void ares_break(int lookup, bool hup);                         // its socket has an error / is hung up
void ares_the_addr(int lookup, int i, unsigned char* out16, int* family); // the i-th address of a lookup
void ares_unwatch(int lookup);                                 // the kernel does not take its socket for watching any more
int  ares_alive();                                             // channels not destroyed, sockets open, answers not freed, library users
}
