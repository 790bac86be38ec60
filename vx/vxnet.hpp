// vxnet: TCP and UDP sockets of the code under test, simulated over AF_UNIX sockets so that descriptors, epoll,
// shutdown, full buffers and hang-ups are the kernel's own, while establishment, the pieces in which the stream
// is accepted and delivered, and refusals are the scheduler's choice.
#pragma once
#include "vxio.hpp"
#include <functional>
#include <sys/socket.h>
namespace vx
{
struct NetHook
{
    std::function<int(int)> connect_mode;                                        // fd -> 0 established at once, 1 in progress, 3 refused
    std::function<void(const char*, int, int, long, const void*)> ev;            // what ("tx","rx","err","shut","gone","up","refused","accepted"), connection, side, n, bytes
    std::function<void(const char*, int, int, long, const void*)> dg;            // datagrams: "tx","drop","rx", own address, other address, n, bytes
    std::function<int(const char*, int, int)> fault;                             // "send","recv","connect","accept", connection or own address, side -> errno to fail with, 0
    bool split{true};
    int  sndbuf{1};
};
void net_reset(NetHook h);
void net_name(int fd, int conn);         // the descriptor will be the client side of this connection
void net_up(int conn);                   // let a connection attempt in progress succeed
void net_refuse(int conn);
int  net_conn(int fd);                   // connection of an established descriptor, 0 if none
int  net_end(int fd);                    // 2 * connection + side
int  net_state(int conn);                // 0 none, 1 in progress, 2 up, 3 refused
int  net_fd(int conn, int side);         // some descriptor of that end, -1
int  net_addr(const sockaddr* a, socklen_t n);               // the number of this address
bool net_addr_is(int id, const sockaddr* a, socklen_t n);
int  net_open_fds();                     // simulated descriptors still open
}
