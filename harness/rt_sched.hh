#pragma once
#include <cstdint>
#include <cstddef>
/* Interface of the controlled scheduler (rt_sched.cc). One child process = one execution of two threads. */
namespace rt {
enum Status { RUNNING = 0, DONE = 1, DEADLOCK = 2, MISUSE = 3 };
static const int MAXDEC = 200000, MAXNEW = 8192, RESULT = 1 << 18;
struct Shared {
    int nprefix, bound, stride; int prefix[MAXDEC];          // from the explorer
    int ndec; uint8_t arity[MAXDEC]; uint64_t points, accesses; int truncated, overflow, preempted; // to the explorer
    int nnew; uint64_t fresh[MAXNEW];                         // conflicting addresses not known before
    uint64_t pcs[8]; int npcs; uint64_t faultAddr;                               // where switches happened
    int status, finished[2]; int len[2]; char result[2][RESULT];
};
extern Shared *shared;
void setup();                                                 // once, before anything is explored
void conflicts(const uint64_t *a, size_t n);                  // addresses at which threads may be switched
typedef void (*Body)(int thread, void *arg);
void both(Body b, void *arg);                                 // in the child: runs both threads to their end, fills shared
}
