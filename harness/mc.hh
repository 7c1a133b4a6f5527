/*
 * Stateless explorer: a scenario is a function that asks choose(n) at every point of nondeterminism;
 * the explorer enumerates every sequence of answers depth first (odometer order), running the real code
 * anew for each. A violation is identified by its sequence of answers and can be replayed alone.
 */
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <set>
#include <exception>
#include <stdexcept>
#include <algorithm>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>

namespace mc {

struct Violation { std::string key, msg; };
struct Pruned {};
struct HarnessError { std::string msg; bool diverged = false; };

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
inline uint64_t hashStr(const std::string &s) { uint64_t h = 1469598103934665603ull; for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
template<class T> inline uint64_t hashSeq(const T &s) { uint64_t h = 88172645463325252ull; for(auto c : s) h = mix(h, (uint64_t)c); return h; }

/* Shared with the driver: survives a crash of this process. */
struct Shared {
    volatile uint64_t executions;
    volatile uint32_t scenario;
    volatile uint32_t n;
    volatile int32_t choices[65000];
};

class Ctx {
public:
    std::vector<int> choices, arity;
    size_t pos = 0;
    bool verbose = false, fixedReplay = false;
    std::string trace;
    bool quick = true;
    int tierDepth = 0;
    uint64_t transitions = 0, evaluations = 0;
    std::unordered_set<uint64_t> states, outcomes;
    bool stateCap = false;
    Shared *sh = nullptr;
    // sharding
    size_t shardDepth = 0; int shard = 0, nshards = 1; uint64_t ordinal = 0; bool fresh = true; bool pruneActive = false;
    std::set<std::string> known; std::map<std::string, uint64_t> knownHits; std::map<std::string, std::string> knownMsg;

    int choose(int n) {
        if(n <= 0) throw HarnessError{"choose(0)"};
        int r;
        if(pos < choices.size()) {
            r = choices[pos];
            if(fixedReplay) { if(r < 0 || r >= n) throw HarnessError{"replay diverged: choice out of range"}; if(arity.size() <= pos) arity.push_back(n); }
            else if(arity[pos] != n) throw HarnessError{"nondeterministic scenario: arity changed", true};
        } else {
            r = 0; choices.push_back(0); arity.push_back(n);
        }
        if(sh && pos < 65000) { sh->choices[pos] = r; sh->n = (uint32_t)pos + 1; }
        pos++;
        if(pos == shardDepth && !fixedReplay) shardGate();
        return r;
    }
    bool flip() { return choose(2) == 1; }
    template<class T> const T& pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }
    template<class T> T pick(std::vector<T> &&v) { return v[choose((int)v.size())]; }
    void shardGate() {
        if(fresh) { ordinal++; fresh = false; }
        if(nshards > 1 && (int)(ordinal % nshards) != shard) throw Pruned();
    }
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if(!verbose) return;
        char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        trace += buf; trace += "\n";
        fprintf(stderr, "  %s\n", buf); fflush(stderr);
    }
    void step() { transitions++; }
    void eval(uint64_t n = 1) { evaluations += n; }
    void state(uint64_t h) { if(states.size() < 1000000) states.insert(h); else stateCap = true; }
    void outcome(uint64_t h) { if(outcomes.size() < 1000000) outcomes.insert(h); }
    [[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        char buf[8192]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        throw Violation{key, buf};
    }
};

struct Scenario {
    std::string name;
    size_t shardDepth;
    std::function<void(Ctx&)> fn;
};
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
struct Reg { Reg(const char *name, size_t shardDepth, std::function<void(Ctx&)> fn) { scenarios().push_back({name, shardDepth, fn}); } };
#define SCENARIO(ident, depth) static void ident(mc::Ctx &c); static mc::Reg reg_##ident(#ident, depth, ident); static void ident(mc::Ctx &c)

inline bool &tierQuick() { static bool q = true; return q; }

inline std::string jsonStr(const std::string &s) {
    std::string o = "\"";
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if(ch == '\n') o += "\\n";
        else if(ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

/* One execution. Returns true if a violation (not known) was found. */
inline bool runOnce(Scenario &sc, Ctx &c, Violation &out) {
    c.pos = 0;
    try {
        sc.fn(c);
        return false;
    } catch(Violation &v) {
        if(c.known.count(v.key)) { c.knownHits[v.key]++; if(!c.knownMsg.count(v.key)) c.knownMsg[v.key] = v.msg; return false; }
        out = v; return true;
    } catch(Pruned &) { throw; }
    catch(HarnessError &) { throw; }
    catch(std::exception &e) {
        out = Violation{"unexpected-exception", std::string("unexpected exception from the library: ") + e.what()};
        return true;
    }
}

/*
 * Fork mode (--fork): every execution runs in a fresh copy of the process, so that nothing an execution leaves
 * behind (a lazily created static, a thread-local buffer) changes the requests of the next. The runner falls back
 * to it when a run ends with DIVERGED: an execution did not meet the choices recorded for its prefix.
 */
inline bool &forkMode() { static bool f = false; return f; }
enum { DIVERGED = 3 };
enum { RUN_OK, RUN_BAD, RUN_PRUNED, RUN_ERROR };
inline int runHere(Scenario &sc, Ctx &c, Violation &out) {
    try { return runOnce(sc, c, out) ? RUN_BAD : RUN_OK; }
    catch(Pruned &) { return RUN_PRUNED; }
    catch(HarnessError &e) { out = Violation{e.diverged ? "diverged" : "", e.msg}; return RUN_ERROR; }
}
struct Buf {
    char *m; size_t cap, n;
    void raw(const void *d, size_t k) { if(n + k > cap) { static const char e[] = "result of an execution too large\n"; if(write(2, e, sizeof e - 1)) {} _exit(2); } memcpy(m + n, d, k); n += k; }
    void num(uint64_t v) { raw(&v, 8); }
    void str(const std::string &s) { num(s.size()); raw(s.data(), s.size()); }
    uint64_t num() { uint64_t v; memcpy(&v, m + n, 8); n += 8; return v; }
    std::string str() { size_t k = num(); std::string s(m + n, k); n += k; return s; }
};
inline int runForked(Scenario &sc, Ctx &c, Violation &out) {
    static Buf shared = [] { size_t cap = 32u << 20; void *m = mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if(m == MAP_FAILED) { perror("mmap"); _exit(2); } return Buf{(char*)m, cap, 0}; }();
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if(pid < 0) { perror("fork"); _exit(2); }
    if(pid == 0) {
        c.states.clear(); c.outcomes.clear(); const uint64_t t0 = c.transitions, e0 = c.evaluations; c.knownHits.clear();
        int r = runHere(sc, c, out);
        Buf b = shared; b.n = 0;
        b.num(r); b.str(out.key); b.str(out.msg); b.num(c.pos); b.num(c.choices.size());
        for(size_t i = 0; i < c.choices.size(); i++) { b.num(c.choices[i]); b.num(c.arity[i]); }
        b.num(c.ordinal); b.num(c.fresh); b.num(c.transitions - t0); b.num(c.evaluations - e0);
        b.num(c.states.size()); for(uint64_t h : c.states) b.num(h);
        b.num(c.outcomes.size()); for(uint64_t h : c.outcomes) b.num(h);
        b.num(c.knownHits.size()); for(auto &k : c.knownHits) { b.str(k.first); b.num(k.second); b.str(c.knownMsg[k.first]); }
        _exit(77);
    }
    int st; while(waitpid(pid, &st, 0) < 0) if(errno != EINTR) { perror("waitpid"); _exit(2); }
    if(!WIFEXITED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(98); }   // die the way the execution died
    if(WEXITSTATUS(st) != 77) _exit(WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1 ? 98 : WEXITSTATUS(st));
    Buf b = shared; b.n = 0;
    int r = (int)b.num(); out.key = b.str(); out.msg = b.str(); c.pos = b.num(); size_t n = b.num(); c.choices.resize(n); c.arity.resize(n);
    for(size_t i = 0; i < n; i++) { c.choices[i] = (int)b.num(); c.arity[i] = (int)b.num(); }
    c.ordinal = b.num(); c.fresh = b.num(); c.transitions += b.num(); c.evaluations += b.num();
    for(n = b.num(); n; n--) c.state(b.num());
    for(n = b.num(); n; n--) c.outcome(b.num());
    for(n = b.num(); n; n--) { std::string k = b.str(); c.knownHits[k] += b.num(); std::string m = b.str(); if(!c.knownMsg.count(k)) c.knownMsg[k] = m; }
    return r;
}

inline int mainLoop(int argc, char **argv) {
    std::string statsFile, crashFile, replay, only, statesFile, outcomesFile;
    int shard = 0, nshards = 1; bool list = false;
    Ctx base;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto next = [&]() { return std::string(argv[++i]); };
        if(a == "--shard") { std::string s = next(); sscanf(s.c_str(), "%d/%d", &shard, &nshards); }
        else if(a == "--tier") tierQuick() = next() == "quick";
        else if(a == "--stats") statsFile = next();
        else if(a == "--states") statesFile = next();
        else if(a == "--outcomes") outcomesFile = next();
        else if(a == "--crash") crashFile = next();
        else if(a == "--replay") replay = next();   // "scenario:1,2,3"
        else if(a == "--only") only = next();
        else if(a == "--fork") forkMode() = true;
        else if(a == "--known") base.known.insert(next());
        else if(a == "--list") list = true;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    base.quick = tierQuick();
    if(list) { for(auto &s : scenarios()) puts(s.name.c_str()); return 0; }
    Shared *sh = nullptr;
    if(crashFile.size()) {
        int fd = open(crashFile.c_str(), O_RDWR | O_CREAT, 0600);
        if(fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("crash file"); return 2; }
        sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    if(replay.size()) {
        size_t col = replay.find(':');
        std::string name = replay.substr(0, col);
        for(auto &s : scenarios()) if(s.name == name) {
            Ctx c = base; c.verbose = true; c.fixedReplay = true; c.sh = sh;
            const char *p = replay.c_str() + col + 1;
            while(*p) { char *e; c.choices.push_back((int)strtol(p, &e, 10)); p = *e == ',' ? e + 1 : e; }
            Violation v;
            try {
                if(runOnce(s, c, v)) { printf("REPLAY-VIOLATION key=%s %s\n", v.key.c_str(), v.msg.c_str()); return 1; }
            } catch(HarnessError &e) { printf("HARNESS-ERROR %s\n", e.msg.c_str()); return 2; }
            catch(Pruned &) {}
            printf("REPLAY-OK\n"); return 0;
        }
        fprintf(stderr, "no such scenario\n"); return 2;
    }
    std::string js = "{\"scenarios\":["; bool firstS = true; int rc = 0; std::string violation;
    Ctx acc = base; acc.sh = sh; acc.shard = shard; acc.nshards = nshards;
    uint64_t total = 0;
    for(size_t si = 0; si < scenarios().size() && rc == 0; si++) {
        Scenario &sc = scenarios()[si];
        if(only.size() && sc.name != only) continue;
        acc.choices.clear(); acc.arity.clear(); acc.shardDepth = sc.shardDepth; acc.ordinal = 0; acc.fresh = true;
        if(sh) { sh->scenario = (uint32_t)si; }
        uint64_t execs = 0, t0 = acc.transitions, e0 = acc.evaluations; size_t maxd = 0; size_t s0 = acc.states.size(), o0 = acc.outcomes.size();
        std::vector<std::string> samples; uint64_t nextSample = 1;
        for(;;) {
            if(sh) { sh->n = 0; sh->executions = sh->executions + 1; }
            Violation v; bool bad = false, pruned = false; const uint64_t tb = acc.transitions, eb = acc.evaluations;
            const int r = forkMode() ? runForked(sc, acc, v) : runHere(sc, acc, v);
            if(r == RUN_ERROR) { fprintf(stderr, "HARNESS-ERROR %s in %s\n", v.msg.c_str(), sc.name.c_str()); printf("HARNESS-ERROR %s in %s\n", v.msg.c_str(), sc.name.c_str()); return v.key == "diverged" ? DIVERGED : 2; }
            pruned = r == RUN_PRUNED; bad = r == RUN_BAD;
            if(!pruned) {
                if(sc.shardDepth == 0 || acc.pos < sc.shardDepth) {
                    // short run: belongs to shard by ordinal too
                    if(acc.fresh) { acc.ordinal++; acc.fresh = false; }
                    if(nshards > 1 && (int)(acc.ordinal % nshards) != shard) { bad = false; pruned = true; }
                }
            }
            if(acc.pos < acc.choices.size()) { fprintf(stderr, "HARNESS-ERROR run used fewer choices than recorded in %s\n", sc.name.c_str()); printf("HARNESS-ERROR run used fewer choices than recorded in %s\n", sc.name.c_str()); if(!bad) return DIVERGED; }
            if(pruned) { acc.transitions = tb; acc.evaluations = eb; }
            else {
                execs++; maxd = std::max(maxd, acc.choices.size());
                if(execs == nextSample && samples.size() < 6) {
                    nextSample = nextSample * 10;
                    std::string ch; for(int x : acc.choices) ch += (ch.empty() ? "" : ",") + std::to_string(x);
                    samples.push_back(sc.name + ":" + ch.substr(0, 400));
                }
            }
            if(bad) {
                std::string ch; for(size_t i = 0; i < acc.pos; i++) ch += (i ? "," : "") + std::to_string(acc.choices[i]);
                violation = "{\"scenario\":" + jsonStr(sc.name) + ",\"choices\":" + jsonStr(ch) + ",\"key\":" + jsonStr(v.key) + ",\"msg\":" + jsonStr(v.msg) + "}";
                rc = 1; break;
            }
            // odometer
            size_t before = acc.choices.size();
            while(!acc.choices.empty() && acc.choices.back() + 1 >= acc.arity.back()) { acc.choices.pop_back(); acc.arity.pop_back(); }
            (void)before;
            if(acc.choices.empty()) break;
            acc.choices.back()++;
            if(acc.choices.size() <= sc.shardDepth) acc.fresh = true;
        }
        total += execs;
        if(!firstS) js += ",";
        firstS = false;
        js += "{\"name\":" + jsonStr(sc.name) + ",\"executions\":" + std::to_string(execs) + ",\"transitions\":" + std::to_string(acc.transitions - t0)
            + ",\"evaluations\":" + std::to_string(acc.evaluations - e0) + ",\"max_choices\":" + std::to_string(maxd)
            + ",\"states\":" + std::to_string(acc.states.size() - s0) + ",\"outcomes\":" + std::to_string(acc.outcomes.size() - o0) + ",\"samples\":[";
        for(size_t i = 0; i < samples.size(); i++) js += (i ? "," : "") + jsonStr(samples[i]);
        js += "]}";
    }
    js += "],\"executions\":" + std::to_string(total) + ",\"transitions\":" + std::to_string(acc.transitions) + ",\"evaluations\":" + std::to_string(acc.evaluations)
        + ",\"outcomes\":" + std::to_string(acc.outcomes.size()) + ",\"state_cap\":" + (acc.stateCap ? "true" : "false") + ",\"known\":{";
    bool f = true; for(auto &k : acc.knownHits) { js += (f ? "" : ",") + jsonStr(k.first) + ":{\"hits\":" + std::to_string(k.second) + ",\"msg\":" + jsonStr(acc.knownMsg[k.first]) + "}"; f = false; }
    js += "}";
    if(violation.size()) js += ",\"violation\":" + violation;
    js += "}";
    if(statsFile.size()) { FILE *o = fopen(statsFile.c_str(), "w"); if(!o) return 2; fputs(js.c_str(), o); fclose(o); }
    else puts(js.c_str());
    if(statesFile.size()) { FILE *o = fopen(statesFile.c_str(), "wb"); if(!o) return 2; for(uint64_t h : acc.states) fwrite(&h, 8, 1, o); fclose(o); }
    if(outcomesFile.size()) { FILE *o = fopen(outcomesFile.c_str(), "wb"); if(!o) return 2; for(uint64_t h : acc.outcomes) fwrite(&h, 8, 1, o); fclose(o); }
    return rc;
}
} // namespace mc

#define MC_MAIN int main(int argc, char **argv) { return mc::mainLoop(argc, argv); }
