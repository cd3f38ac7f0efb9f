// Deterministic simulation: the server's real threads run one at a time under a seeded
// scheduler, with virtual time and AF_UNIX sockets standing in for TCP.
#pragma once
#include "pbt.h"
#include <functional>

struct SimCfg {
    uint64_t seed = 1;
    int strat = 0;              // 0 keep running, 1 random, 2 priorities with change points, 3 one thread starves, 4 round robin
    unsigned preempt = 0;       // mean number of basic blocks between preemptions (0: only at blocking calls)
    unsigned switch_pct = 30;   // strategy 0: chance to switch at a yield point
    bool spurious = false;      // spurious condition-variable wakeups
    bool eintr = false;         // EINTR from epoll_wait and poll
    int lag = 0, lag_us = 0;    // threads lose up to lag_us of time about every lag steps
};
SimCfg sim_gen(Case &c);                    // draws a schedule configuration
Str sim_cfg_text(const SimCfg &);
void sim_begin(const SimCfg &);             // the calling thread becomes the driver
void sim_end();                             // back to normal; every other thread must have ended
int sim_spawn(const char *name, std::function<void()> fn);
bool sim_finished(int id);
bool sim_steps(uint64_t n);                 // lets the other threads take up to n steps; true if none can run
void sim_quiet();                           // until no thread can run unless time passes
void sim_sleep(int64_t ms);                 // virtual time passes
void sim_nap(int64_t ms, uint64_t steps);    // the same, but returns that many steps after a timeout fired
int64_t sim_ms();
int64_t sim_us();
Str sim_dump();
void sim_check();                           // fails the case if a thread did something illegal
extern uint64_t sim_total_steps, sim_switches, sim_preempts;
extern void (*sim_thread_warm)();            // run by every simulated thread first; its memory is not counted
extern std::function<bool()> sim_fail_alloc;   // asked before each allocation of the server outside the event loops: true lets it fail
extern std::function<int(const char *)> sim_fail_call;  // asked before system calls of the server that set something up: the error, or 0
int sim_occupy(int port);                   // a socket of another program bound to the port
extern bool sim_exit_ends; extern int sim_exited; // exit() on a simulated thread ends that thread instead of the process; its status, or -1
int sim_running();                          // threads that have not ended, the driver aside
extern int sim_fail_create;                 // the n-th creation of a thread fails (0: never)
extern void (*sim_close_hook)(int);          // stands in for close() while set
extern std::function<void()> sim_read_hook;  // called on the server's thread right before it reads from a socket
extern bool sim_tls;                        // sockets may be touched behind the wrappers
// network
extern int sim_sndbuf;                      // send buffer of accepted sockets (0: default)
extern uint64_t sim_partial_writes, sim_eagain_writes;
int sim_connect(int port, const char *ip, int peerport, int sndbuf);    // -1 if refused
int sim_high_fd(int fd);                    // moves a harness descriptor out of the server's range
void sim_signal(int sig);                   // runs the installed handler in its own thread
bool sim_has_handler(int sig);
size_t sim_live_blocks(), sim_live_bytes(); // heap blocks allocated by simulated threads and not yet released
uint32_t sim_live_mark(); Str sim_live_since(uint32_t mark);
int sim_fd_count();                         // open descriptors in the server's range
void sim_touch_io();
void *sim_untracked_alloc(void *p, size_t n); // realloc() whose block is not counted
