/*
 * Fault injection: every call the library makes to the operating system (or, with FAULT_MEMORY, every allocation)
 * is a point where the explorer may let it fail. At most `budget` calls fail in one execution, so the explorer
 * enumerates "no failure", "the first call fails", "the second call fails", ... for every history.
 * The linker option --wrap redirects the library's calls here; see WRAPS in checks.py.
 */
#pragma once
#include "mc.hh"
#include <cerrno>
#include <new>
#include <dlfcn.h>
#include <iconv.h>
#include <cstdarg>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/syscall.h>
namespace flt {
struct State { mc::Ctx *c = nullptr; int budget = 0; bool active = false; int hits = 0, total = 0; unsigned long long calls = 0; const char *last = ""; bool noMunmap = false; };
inline State &st() { static State s; return s; }
inline bool point(const char *what) {
    State &s = st();
    if(!s.active || !s.budget) return false;
    s.active = false;     // the explorer itself may allocate
    s.calls++;
    bool f; try { f = s.c->choose(2) == 1; } catch(...) { s.active = true; throw; }
    if(f) { s.budget--; s.hits++; s.total++; s.last = what; s.c->outcome(mc::mix(mc::hashSeq(s.c->choices), s.c->sh ? s.c->sh->scenario : 0)); s.c->log("    -> %s fails", what); }
    s.active = true;
    return f;
}
// Runs f with faults possible; returns whether it threw (and was allowed to: some call failed in it).
struct Outcome { bool threw = false; int hits = 0; std::string what; };
template<class F> Outcome guarded(mc::Ctx &c, F f) {
    State &s = st(); Outcome o; s.c = &c; s.hits = 0; s.active = true;
    try { f(); s.active = false; }
    catch(mc::Violation &) { s.active = false; throw; }
    catch(mc::Pruned &) { s.active = false; throw; }
    catch(mc::HarnessError &) { s.active = false; throw; }
    catch(std::exception &e) { s.active = false; o.threw = true; o.what = e.what(); }
    o.hits = s.hits; return o;
}
inline void begin(mc::Ctx &c, int budget) { State &s = st(); s = State(); s.c = &c; s.budget = budget; }
inline bool on() { return st().active; }
struct Off { bool was; Off() : was(st().active) { st().active = false; } ~Off() { st().active = was; } };   // harness code inside guarded()
} // namespace flt
#ifndef FAULT_MEMORY
extern "C" {
#define W(ret, name, params, args, err, bad) ret __real_##name params; ret __wrap_##name params { if(flt::point(#name)) { errno = err; return bad; } return __real_##name args; }
W(FILE*, tmpfile, (), (), EMFILE, nullptr)
W(FILE*, tmpfile64, (), (), EMFILE, nullptr)
W(int, mkstemp, (char *t), (t), EMFILE, -1)
W(int, mkstemp64, (char *t), (t), EMFILE, -1)
W(int, mkostemp, (char *t, int f), (t, f), EMFILE, -1)
W(int, memfd_create, (const char *n, unsigned f), (n, f), EMFILE, -1)
W(FILE*, fdopen, (int fd, const char *m), (fd, m), ENOMEM, nullptr)
W(int, ftruncate, (int fd, off_t n), (fd, n), ENOSPC, -1)
W(int, ftruncate64, (int fd, off_t n), (fd, n), ENOSPC, -1)
W(int, posix_fallocate, (int fd, off_t o, off_t n), (fd, o, n), ENOSPC, ENOSPC)
W(void*, mmap, (void *a, size_t n, int p, int f, int fd, off_t o), (a, n, p, f, fd, o), ENOMEM, MAP_FAILED)
W(void*, mmap64, (void *a, size_t n, int p, int f, int fd, off_t o), (a, n, p, f, fd, o), ENOMEM, MAP_FAILED)
W(int, madvise, (void *a, size_t n, int k), (a, n, k), EAGAIN, -1)
W(int, posix_madvise, (void *a, size_t n, int k), (a, n, k), ENOMEM, ENOMEM)
W(iconv_t, iconv_open, (const char *t, const char *f), (t, f), EMFILE, (iconv_t)-1)
W(size_t, iconv, (iconv_t i, char **a, size_t *b, char **c, size_t *d), (i, a, b, c, d), EBADF, (size_t)-1)
int __real_munmap(void *a, size_t n);
int __wrap_munmap(void *a, size_t n) { if(!flt::st().noMunmap && flt::point("munmap")) { errno = ENOMEM; return -1; } return __real_munmap(a, n); }
void *__real_mremap(void *a, size_t o, size_t n, int f, ...);
void *__wrap_mremap(void *a, size_t o, size_t n, int f, ...) { if(flt::point("mremap")) { errno = ENOMEM; return MAP_FAILED; } return __real_mremap(a, o, n, f); }
int __real_open(const char *p, int f, ...); int __real_open64(const char *p, int f, ...);
int __wrap_open(const char *p, int f, ...) { va_list l; va_start(l, f); int m = va_arg(l, int); va_end(l); if(flt::point("open")) { errno = EMFILE; return -1; } return __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list l; va_start(l, f); int m = va_arg(l, int); va_end(l); if(flt::point("open")) { errno = EMFILE; return -1; } return __real_open64(p, f, m); }
int __real_stat(const char *p, struct stat *s);
int __wrap_stat(const char *p, struct stat *s) { if(flt::point("stat")) { errno = EIO; return -1; } return __real_stat(p, s); }
int __real_access(const char *p, int m);
int __wrap_access(const char *p, int m) { if(flt::point("access")) { errno = EIO; return -1; } return __real_access(p, m); }
// ifstream opens files inside libstdc++, out of reach of --wrap: these definitions come first in the symbol search
FILE *fopen(const char *p, const char *m) { if(flt::point("fopen")) { errno = EMFILE; return nullptr; } static auto r = (FILE*(*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen"); return r(p, m); }
FILE *fopen64(const char *p, const char *m) { if(flt::point("fopen")) { errno = EMFILE; return nullptr; } static auto r = (FILE*(*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen64"); return r(p, m); }
// only reads of regular files the library opened through a stream
ssize_t read(int fd, void *b, size_t n) { if(flt::point("read")) { errno = EIO; return -1; } static auto r = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read"); return r(fd, b, n); }
#undef W
}
#else
#include <cstdlib>
extern "C" { void *__real_malloc(size_t n); void *__real_calloc(size_t n, size_t m); void *__real_realloc(void *p, size_t n); char *__real_strdup(const char *s); char *__real_strndup(const char *s, size_t n); [[noreturn]] void __real_exit(int rc); }
static void *flt_new(size_t n) { if(flt::point("operator new")) throw std::bad_alloc(); void *p = __real_malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return flt_new(n); }
void *operator new[](size_t n) { return flt_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if(flt::point("operator new")) return nullptr; return __real_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { if(flt::point("operator new")) return nullptr; return __real_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }
extern "C" {
char *__wrap_strdup(const char *s) { if(flt::point("strdup")) { errno = ENOMEM; return nullptr; } return __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { if(flt::point("strndup")) { errno = ENOMEM; return nullptr; } return __real_strndup(s, n); }
void *__wrap_malloc(size_t n) { if(flt::point("malloc")) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { if(flt::point("calloc")) { errno = ENOMEM; return nullptr; } return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { if(flt::point("realloc")) { errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }
[[noreturn]] void __wrap_exit(int rc) {     // the process would end here
    flt::State &s = flt::st(); if(!s.hits) __real_exit(rc);
    std::string m = std::string("the process exits (status ") + std::to_string(rc) + ") because " + s.last + " failed"; s.active = false;
    throw mc::Violation{std::string("exit-when-") + (strcmp(s.last, "operator new") ? s.last : "new") + "-fails", m};
}
}
#endif
