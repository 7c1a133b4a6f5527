/* A stand-in for the thread sanitizer's runtime: the library is compiled with -fsanitize=thread, so that each of its memory
 * accesses calls one of the functions below. They let one thread run at a time, record who touches what, and switch threads
 * where the explorer says. Sequentially consistent; one access (or one call of a libc memory function) is one step. */
#include "rt_sched.hh"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <wchar.h>
extern "C" char __executable_start, etext;
namespace rt {
static bool ours(void *pc) { return (char*)pc >= &__executable_start && (char*)pc < &etext; }   // system libraries hold their locks only within one step
Shared *shared;
static __thread int tid = 0;                // 0: not one of the two threads
static __thread uintptr_t stackLo, stackHi;
static volatile bool active = false;
static sem_t turn[3], finished;
static bool done[3]; static const void *blockedOn[3];
static int switches; static uint64_t sinceSwitch;
// ---- who touched what: one byte of flags per 8 bytes of memory; conflicts are noticed as they happen
enum { R1 = 1, W1 = 2, R2 = 4, W2 = 8, REPORTED = 16 };
static const size_t ARENA = 1ull << 34;
static const uintptr_t HEAP = 0x100000000000ull, MAPS = 0x200000000000ull, EACH = 0x10000000000ull;
static uint8_t *shadowHeap[3], *shadowMaps[3];
static const size_t TS = 1u << 20;
static uint64_t *table; static size_t tableN;     // everything outside the arenas: address / 8, and flags
static uint64_t *cset; static size_t csetMask; static size_t csetN;
static inline size_t hsh(uint64_t x) { x *= 0x9e3779b97f4a7c15ull; return (size_t)(x >> 40); }
static inline bool clash(unsigned f) { return ((f & W1) && (f & (R2 | W2))) || ((f & W2) && (f & (R1 | W1))); }
static inline bool isConflict(uint64_t granule);
static inline void found(uint64_t granule) { if(!isConflict(granule)) { if(shared->nnew < MAXNEW) shared->fresh[shared->nnew++] = granule; } }
static inline void record(uint64_t granule, bool write) {
    const unsigned mine = tid == 1 ? (write ? W1 : R1) : (write ? W2 : R2);
    const uintptr_t a = granule << 3;
    const uintptr_t top = a >> 40;        // HEAP + i * EACH and MAPS + i * EACH, for i in 0..2
    if(top - 0x10 < 3 || top - 0x20 < 3) {
        uint8_t *p = (top < 0x20 ? shadowHeap[top - 0x10] : shadowMaps[top - 0x20]) + ((a & (EACH - 1)) >> 3);
        if(*p & mine) return;
        *p |= mine; if(!(*p & REPORTED) && clash(*p)) { *p |= REPORTED; found(granule); }
        return;
    }
    size_t i = hsh(granule) & (TS - 1);
    for(;;) {
        uint64_t v = table[i];
        if(!v) { if(tableN > TS * 3 / 4) { shared->overflow = 1; return; } table[i] = granule << 5 | mine; tableN++; return; }
        if(v >> 5 == granule) { if(!(v & mine)) { v |= mine; if(!(v & REPORTED) && clash(v & 15)) { v |= REPORTED; found(granule); } table[i] = v; } return; }
        i = (i + 1) & (TS - 1);
    }
}
static inline bool isConflict(uint64_t granule) {
    if(!csetN) return false;
    for(size_t i = hsh(granule) & csetMask;; i = (i + 1) & csetMask) { if(cset[i] == granule) return true; if(!cset[i]) return false; }
}
void conflicts(const uint64_t *a, size_t n) {
    static size_t cap = 0; size_t want = 1024; while(want < n * 3) want *= 2;
    if(want > cap) { cset = (uint64_t*)mmap(nullptr, want * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); cap = want; } else memset(cset, 0, cap * 8);
    csetMask = cap - 1; csetN = n;
    for(size_t k = 0; k < n; k++) { size_t i = hsh(a[k]) & csetMask; while(cset[i]) i = (i + 1) & csetMask; cset[i] = a[k]; }
}
// ---- scheduling
static int decide(int n) {
    int i = shared->ndec; if(i >= MAXDEC) { shared->truncated = 1; return 0; }
    int r = i < shared->nprefix ? shared->prefix[i] : 0;
    shared->arity[i] = (uint8_t)n; shared->ndec = i + 1; return r;
}
static int other() { return 3 - tid; }
static void handOver(void *pc) {
    if(shared->npcs < 8) shared->pcs[shared->npcs++] = (uint64_t)pc;
    int me = tid; sinceSwitch = 0; sem_post(&turn[other()]); while(sem_wait(&turn[me]) && errno == EINTR) {}
}
static void giveUp(int status) { shared->status = status; _exit(0); }
static void point(void *pc) {
    if(!active || !tid) return;
    if(done[other()] || blockedOn[other()]) return;
    if(++sinceSwitch > 200000) { handOver(pc); return; }      // a thread waiting for the other in a loop
    uint64_t n = shared->points++;
    if(switches >= shared->bound || n % (uint64_t)shared->stride) return;
    if(decide(2)) { switches++; shared->preempted++; handOver(pc); }
}
static void block(const void *what, void *pc) {
    blockedOn[tid] = what;
    if(done[other()] || blockedOn[other()]) giveUp(DEADLOCK);
    handOver(pc);
}
static void wake(const void *what) { for(int i = 1; i < 3; i++) if(blockedOn[i] == what) blockedOn[i] = nullptr; }
static inline void access(const void *p, size_t n, bool write, void *pc) {
    if(!tid || !active || !n) return;
    uintptr_t a = (uintptr_t)p; if(a >= stackLo && a < stackHi) return;
    uint64_t g = a >> 3, e = (a + n - 1) >> 3; if(e - g > 1 << 17) e = g + (1 << 17);
    shared->accesses += e - g + 1;
    bool sched = false;
    for(uint64_t x = g; x <= e; x++) if(isConflict(x)) { sched = true; break; }
    if(sched) point(pc);
    for(; g <= e; g++) record(g, write);
}
static const size_t STACK = 8 << 20;
struct Start { int id; Body b; void *arg; void *stack; };
static void *threadMain(void *p) {
    Start *s = (Start*)p; stackLo = (uintptr_t)s->stack; stackHi = stackLo + STACK; tid = s->id;
    while(sem_wait(&turn[tid]) && errno == EINTR) {}
    s->b(tid - 1, s->arg);
    shared->finished[tid - 1] = 1; done[tid] = true;
    if(done[other()]) { sem_post(&finished); }
    else { if(blockedOn[other()]) giveUp(DEADLOCK); sinceSwitch = 0; sem_post(&turn[other()]); }
    tid = 0; return nullptr;
}
void setup() {
    shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const int pr = PROT_READ | PROT_WRITE, fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
    table = (uint64_t*)mmap(nullptr, TS * 8, pr, fl, -1, 0);
    for(int i = 0; i < 3; i++) { shadowHeap[i] = (uint8_t*)mmap(nullptr, ARENA >> 3, pr, fl, -1, 0); shadowMaps[i] = (uint8_t*)mmap(nullptr, ARENA >> 3, pr, fl, -1, 0); if(shadowHeap[i] == MAP_FAILED || shadowMaps[i] == MAP_FAILED) _exit(6); }
}
void both(Body b, void *arg) {
    for(int i = 0; i < 3; i++) sem_init(&turn[i], 0, 0); sem_init(&finished, 0, 0);
    static Start s[2]; pthread_t t[2];
    for(int i = 0; i < 2; i++) { 
        s[i] = Start{i + 1, b, arg, mmap((void*)(0x300000000000ull + i * 0x10000000000ull), STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0)};
        pthread_attr_t at; if(s[i].stack == MAP_FAILED || pthread_attr_init(&at) || pthread_attr_setstack(&at, s[i].stack, STACK) || pthread_create(&t[i], &at, threadMain, &s[i])) _exit(3);
    }
    active = true;
    sem_post(&turn[1 + decide(2)]);
    while(sem_wait(&finished) && errno == EINTR) {}
    active = false;
    shared->status = DONE;
}
// ---- memory: nothing is ever reused, and each thread has its own range, so addresses do not depend on the schedule
static char *arena[3], *next_[3];
static char *mapArena[3], *mapNext[3];
static void arenas() {
    for(int i = 0; i < 3; i++) {
        arena[i] = next_[i] = (char*)mmap((void*)(HEAP + i * EACH), ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        mapArena[i] = mapNext[i] = (char*)(MAPS + i * EACH);
        if(arena[i] == MAP_FAILED) _exit(4);
    }
}
static void *take(size_t n, size_t align) {
    if(!arena[0]) arenas();
    if(n > ARENA / 4) { errno = ENOMEM; return nullptr; }
    size_t want = ((n + 15) & ~(size_t)15) + 16 + (align > 16 ? align : 0);
    char *p = __atomic_fetch_add(&next_[tid], want, __ATOMIC_RELAXED) + 16; p = (char*)(((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1));
    if(p + n > arena[tid] + ARENA) { errno = ENOMEM; return nullptr; }
    ((size_t*)p)[-1] = n; return p;
}
// ---- libc calls of the library that read or write shared state behind its back
static char pseudo[8][8];
// ---- locks
struct Lock { const void *m; int owner, count; };
static Lock locks[4096]; static int nlocks;
static Lock &lockOf(const void *m) { for(int i = 0; i < nlocks; i++) if(locks[i].m == m) return locks[i]; if(nlocks == 4096) _exit(5); locks[nlocks] = Lock{m, 0, 0}; return locks[nlocks++]; }
static int lock(const void *m, bool try_, void *pc) {
    if(!active || !tid || !ours(pc)) return 0;
    access(m, 1, true, pc);
    for(;;) {
        Lock &l = lockOf(m);
        if(!l.owner || l.owner == tid) { l.owner = tid; l.count++; return 0; }
        if(try_) return EBUSY;
        block(m, pc);
    }
}
static int unlock(const void *m, void *pc) {
    if(!active || !tid || !ours(pc)) return 0;
    Lock &l = lockOf(m); if(l.owner == tid && --l.count == 0) { l.owner = 0; wake(m); }
    access(m, 1, true, pc); return 0;
}
static int begin(const void *g, volatile char *state, void *pc) {   // one-time initialisation: 0 fresh, 1 running, 2 done
    if(!active || !tid || !ours(pc)) { if(*state == 2) return 0; *state = 1; return 1; }
    access(g, 1, true, pc);
    for(;;) { if(*state == 2) return 0; if(*state == 0) { *state = 1; return 1; } block(g, pc); }
}
} // namespace rt
using namespace rt;
#define PC __builtin_return_address(0)
extern "C" {
void *__real_memcpy(void *, const void *, size_t);
void *malloc(size_t n) { return take(n, 16); }
void free(void *) {}
void *calloc(size_t a, size_t b) { size_t n; if(__builtin_mul_overflow(a, b, &n)) return nullptr; return take(n, 16); }
void *realloc(void *p, size_t n) { void *q = take(n, 16); if(p && q) { size_t o = ((size_t*)p)[-1]; access(p, o, false, PC); __real_memcpy(q, p, o < n ? o : n); } return q; }
void *memalign(size_t al, size_t n) { return take(n, al < 16 ? 16 : al); }
void *aligned_alloc(size_t al, size_t n) { return take(n, al < 16 ? 16 : al); }
int posix_memalign(void **p, size_t al, size_t n) { *p = take(n, al < 16 ? 16 : al); return *p ? 0 : ENOMEM; }
size_t malloc_usable_size(void *p) { return p ? ((size_t*)p)[-1] : 0; }

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false, PC); } void __tsan_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_read_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { access((void*)a, sizeof(T), false, PC); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { access((void*)a, sizeof(T), true, PC); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((void*)a, sizeof(T), true, PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((void*)a, sizeof(T), true, PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((void*)a, sizeof(T), true, PC); T o = *a; if(o == c) *a = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long) ATOMIC(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

int pthread_mutex_lock(pthread_mutex_t *m) { return lock(m, false, PC); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return lock(m, true, PC); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return unlock(m, PC); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return lock(m, false, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lock(m, false, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { return unlock(m, PC); }
int pthread_spin_lock(pthread_spinlock_t *m) { return lock((void*)m, false, PC); }
int pthread_spin_unlock(pthread_spinlock_t *m) { return unlock((void*)m, PC); }
int __cxa_guard_acquire(uint64_t *g) { if(begin(g, (volatile char*)g + 1, PC)) return 1; return 0; }
void __cxa_guard_release(uint64_t *g) { *((volatile char*)g + 1) = 2; *(volatile char*)g = 1; wake(g); access(g, 1, true, PC); }
void __cxa_guard_abort(uint64_t *g) { *((volatile char*)g + 1) = 0; wake(g); access(g, 1, true, PC); }
int pthread_once(pthread_once_t *o, void (*f)()) {
    volatile char *s = (volatile char*)o; if(!begin(o, s, PC)) return 0;
    try { f(); } catch(...) { *s = 0; wake(o); throw; }
    *s = 2; wake(o); access(o, 1, true, PC); return 0;
}
// calls made by the library itself (linked with --wrap)
#define R(p, n) access(p, n, false, PC)
#define WR(p, n) access(p, n, true, PC)
void *__real_memcpy(void *, const void *, size_t); void *__wrap_memcpy(void *d, const void *s, size_t n) { R(s, n); WR(d, n); return __real_memcpy(d, s, n); }
void *__real_memmove(void *, const void *, size_t); void *__wrap_memmove(void *d, const void *s, size_t n) { R(s, n); WR(d, n); return __real_memmove(d, s, n); }
void *__real_memset(void *, int, size_t); void *__wrap_memset(void *d, int c, size_t n) { WR(d, n); return __real_memset(d, c, n); }
int __real_memcmp(const void *, const void *, size_t); int __wrap_memcmp(const void *a, const void *b, size_t n) { R(a, n); R(b, n); return __real_memcmp(a, b, n); }
size_t __real_strlen(const char *); size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); R(s, n + 1); return __real_strlen(s); }
int __real_strcmp(const char *, const char *); int __wrap_strcmp(const char *a, const char *b) { R(a, __real_strlen(a) + 1); R(b, __real_strlen(b) + 1); return __real_strcmp(a, b); }
char *__real_strcpy(char *, const char *); char *__wrap_strcpy(char *d, const char *s) { size_t n = __real_strlen(s) + 1; R(s, n); WR(d, n); return __real_strcpy(d, s); }
char *__real_strncpy(char *, const char *, size_t); char *__wrap_strncpy(char *d, const char *s, size_t n) { R(s, 1); WR(d, n); return __real_strncpy(d, s, n); }
char *__real_strcat(char *, const char *); char *__wrap_strcat(char *d, const char *s) { R(s, 1); WR(d, 1); return __real_strcat(d, s); }
char *__real_strdup(const char *); char *__wrap_strdup(const char *s) { R(s, __real_strlen(s) + 1); return __real_strdup(s); }
char *__real_strtok(char *, const char *); char *__wrap_strtok(char *s, const char *d) { WR(pseudo[0], 8); return __real_strtok(s, d); }
char *__real_setlocale(int, const char *); char *__wrap_setlocale(int c, const char *l) { WR(pseudo[1], 8); return __real_setlocale(c, l); }
int __real_rand(); int __wrap_rand() { WR(pseudo[2], 8); return __real_rand(); }
size_t __real_iconv(void *, char **, size_t *, char **, size_t *);
size_t __wrap_iconv(void *cd, char **in, size_t *inl, char **out, size_t *outl) {
    WR(cd, 1); if(in && *in && inl) R(*in, *inl); if(out && *out && outl) WR(*out, *outl);
    static void *busy[3]; const int t = tid;
    if(t && active) { if(busy[3 - t] == cd) { shared->pcs[shared->npcs < 8 ? shared->npcs++ : 7] = (uint64_t)PC; giveUp(MISUSE); } busy[t] = cd; WR(cd, 1); }
    size_t r = __real_iconv(cd, in, inl, out, outl);
    busy[t] = nullptr; return r;
}
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) {
    if(!tid || !active || a) return __real_mmap(a, n, prot, fl, fd, o);
    void *r = __real_mmap(mapNext[tid], n, prot, fl | MAP_FIXED_NOREPLACE, fd, o);
    if(r != MAP_FAILED) mapNext[tid] += (n + (1 << 20)) & ~(size_t)4095;
    return r;
}
void *__wrap_mmap64(void *a, size_t n, int prot, int fl, int fd, off_t o) { return __wrap_mmap(a, n, prot, fl, fd, o); }
int __real_munmap(void *, size_t);
int __wrap_munmap(void *a, size_t n) {
    if(!tid || !active) return __real_munmap(a, n);
    return __real_mmap(a, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED ? -1 : 0;
}
}
