// C23: two programs on separate objects, interleaved: by steps in one thread (asan16), and by single memory accesses in two threads (sched16).
#include "programs.hh"
#include <sys/wait.h>
#include <set>
#include <dlfcn.h>
#include <signal.h>
#include <ucontext.h>
using namespace prog;
static Steps make(int p) { return PROGRAMS[p / 2].make(p % 2); }
static string label(int p) { return string(PROGRAMS[p / 2].name) + (p % 2 ? "/2" : "/1"); }
static const int N = NPROGRAMS * 2;
static vector<string> alone(int p) {       // in a process that has run nothing else
    static std::map<int, vector<string>> memo; auto it = memo.find(p); if(it != memo.end()) return it->second;
    int fd[2]; if(pipe(fd)) throw mc::HarnessError{"pipe"};
    pid_t k = fork();
    if(k == 0) { close(fd[0]); string o; for(auto &s : make(p)) { o += run(s); o += '\1'; } o += '\2'; for(size_t i = 0; i < o.size();) { ssize_t n = write(fd[1], o.data() + i, o.size() - i); if(n <= 0) _exit(1); i += n; } _exit(0); }
    close(fd[1]); string o; char b[4096]; ssize_t n; while((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n); close(fd[0]); int st; waitpid(k, &st, 0);
    vector<string> v; string cur; for(char ch : o) { if(ch == '\1') { v.push_back(cur); cur.clear(); } else cur += ch; }
    if(cur != "\2") throw mc::Violation{"c23-alone", "program " + label(p) + " run alone dies (status " + std::to_string(st) + ")"};
    return memo[p] = v;
}
#ifndef FLAVOUR_sched16
// -------- one thread, steps of several programs interleaved
static void interleave(mc::Ctx &c, const vector<int> &ps, int maxSwitches) {
    vector<vector<string>> want; for(int p : ps) want.push_back(alone(p));
    vector<Steps> s; for(int p : ps) s.push_back(make(p));
    vector<size_t> at(ps.size(), 0); int cur = c.choose((int)ps.size()), left = maxSwitches;
    for(;;) {
        vector<int> can; if(at[cur] < s[cur].size()) can.push_back(cur);
        if(can.empty() || left > 0) for(int i = 0; i < (int)ps.size(); i++) if(i != cur && at[i] < s[i].size()) can.push_back(i);
        if(can.empty()) break;
        bool mine = can[0] == cur; int k = can[can.size() > 1 ? c.choose((int)can.size()) : 0];
        if(mine && k != cur) left--;
        cur = k; c.step(); c.eval();
        string got = run(s[k][at[k]]); c.log("%s step %zu: %s", label(ps[k]).c_str(), at[k], got.substr(0, 300).c_str());
        if(got != want[k][at[k]]) {
            string o; for(size_t i = 0; i < ps.size(); i++) o += (i ? ", " : "") + label(ps[i]) + " (object " + std::to_string(i) + ") after " + std::to_string(at[i]) + " steps";
            c.fail("c23-interference", "step %zu of %s gives %s, alone it gives %s; interleaved: %s", at[k], label(ps[k]).c_str(), got.substr(0, 600).c_str(), want[k][at[k]].substr(0, 600).c_str(), o.c_str());
        }
        at[k]++;
    }
    uint64_t h = 5; for(int p : ps) h = mc::mix(h, p); c.state(h); for(auto &w : want) for(auto &x : w) c.outcome(mc::hashStr(x));
}
static bool heavy(int p) { string n = PROGRAMS[p / 2].name; return n == "growing" || n == "costs" || n == "matching"; }
SCENARIO(two_histories, 2) { int a = c.choose(N), b = c.choose(N); interleave(c, {a, b}, c.quick ? (heavy(a) || heavy(b) ? 1 : 2) : 4); }
SCENARIO(three_histories, 3) { int a = c.choose(N), b = c.choose(N), d = c.choose(N); if(b < a || d < b || (c.quick && heavy(a) + heavy(b) + heavy(d) > 1) || (c.quick && (a % 2 || !(b % 2) || d % 2))) return; interleave(c, {a, b, d}, c.quick ? 1 : 2); }
#else
// -------- two threads
#include "rt_sched.hh"
static int P[2];
static void body(int t, void *) {
    string o; for(auto &s : make(P[t])) { o += run(s); o += '\1'; }
    if(o.size() >= (size_t)rt::RESULT) _exit(9);
    memcpy(rt::shared->result[t], o.data(), o.size()); rt::shared->len[t] = (int)o.size();
}
static string at(uint64_t pc) {
    char cmd[200], b[400] = ""; snprintf(cmd, sizeof cmd, "addr2line -Cfsp -e /proc/%d/exe 0x%llx 2>/dev/null", (int)getpid(), (unsigned long long)pc - 1);
    if(FILE *f = popen(cmd, "r")) { if(!fgets(b, sizeof b, f)) b[0] = 0; pclose(f); } string s(b); while(!s.empty() && s.back() == '\n') s.pop_back(); return s;
}
struct Run { int status; bool died; int wst; };
static void onFault(int sig, siginfo_t *i, void *u) {
    rt::Shared &s = *rt::shared; if(s.npcs == 8) s.npcs = 7; s.pcs[s.npcs++] = (uint64_t)((ucontext_t*)u)->uc_mcontext.gregs[REG_RIP] + 1; s.faultAddr = (uint64_t)i->si_addr;
    signal(sig, SIG_DFL); raise(sig);
}
static Run execute(const vector<int> &prefix, int bound, int stride) {
    rt::Shared &s = *rt::shared; s.nprefix = (int)prefix.size(); for(size_t i = 0; i < prefix.size(); i++) s.prefix[i] = prefix[i];
    s.bound = bound; s.stride = stride; s.ndec = 0; s.points = s.accesses = 0; s.truncated = s.overflow = s.preempted = 0; s.nnew = 0; s.npcs = 0; s.faultAddr = 0; s.status = 0; s.finished[0] = s.finished[1] = 0; s.len[0] = s.len[1] = 0;
    pid_t k = fork();
    if(k == 0) { alarm(60); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onFault; sa.sa_flags = SA_SIGINFO; for(int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(g, &sa, nullptr); rt::both(body, nullptr); _exit(0); }
    int st; while(waitpid(k, &st, 0) < 0 && errno == EINTR) {}
    return Run{s.status, !(WIFEXITED(st) && WEXITSTATUS(st) == 0), st};
}
static void check(mc::Ctx &c, const Run &r, const string want[2]) {
    rt::Shared &s = *rt::shared; c.step(); c.eval(2); if(c.sh) c.sh->executions = c.sh->executions + 1;
    if(s.overflow) throw mc::HarnessError{"access table overflow"};
    string how; auto describe = [&]() { for(int i = 0; i < s.npcs; i++) how += (i ? "; " : "") + at(s.pcs[i]); return "thread 0: " + label(P[0]) + ", thread 1: " + label(P[1]) + ", switching " + std::to_string(s.npcs) + " times" + (how.empty() ? "" : ", at: " + how); };
    if(r.died) { string kind = WIFSIGNALED(r.wst) ? (WTERMSIG(r.wst) == SIGALRM ? "does not terminate" : string("dies (") + strsignal(WTERMSIG(r.wst)) + ")") : "exits (" + std::to_string(WEXITSTATUS(r.wst)) + ")"; c.fail("c23-crash", "running both threads %s; %s", kind.c_str(), (describe() + (s.faultAddr ? " [faulting address " + std::to_string(s.faultAddr) + "]" : "")).c_str()); }
    if(r.status == rt::DEADLOCK) c.fail("c23-deadlock", "both threads wait for ever; %s", describe().c_str());
    if(r.status == rt::MISUSE) c.fail("c23-converter", "both threads are inside iconv() with the same converter; %s", describe().c_str());
    if(r.status != rt::DONE) throw mc::HarnessError{"child reported nothing"};
    for(int t = 0; t < 2; t++) {
        string got(s.result[t], s.len[t]);
        if(got == want[t]) continue;
        size_t i = 0; while(i < got.size() && i < want[t].size() && got[i] == want[t][i]) i++;
        size_t b = i > 60 ? i - 60 : 0; auto clean = [](string x) { for(auto &ch : x) if((unsigned char)ch < 32) ch = '|'; return x; };
        c.fail("c23-race", "thread %d (%s) sees ...%s, alone ...%s; %s", t, label(P[t]).c_str(), clean(got.substr(b, 200)).c_str(), clean(want[t].substr(b, 200)).c_str(), describe().c_str());
    }
}
SCENARIO(two_threads, 2) {
    static bool up = false; if(!up) { rt::setup(); up = true; }
    P[0] = c.choose(N); P[1] = c.choose(N);
    string want[2]; for(int t = 0; t < 2; t++) for(auto &x : alone(P[t])) want[t] += x + '\1';
    std::set<uint64_t> conf; uint64_t schedules = 0; int bound = 0, stride = 1; uint64_t points = 0;
    for(;;) {
        vector<uint64_t> cv(conf.begin(), conf.end()); rt::conflicts(cv.data(), cv.size());
        vector<int> ch, ar; bool restart = false; bound = stride = 1; bool first = true;
        for(;;) {
            Run r = execute(ch, bound, stride); schedules++;
            rt::Shared &s = *rt::shared;
            if(first && !cv.empty()) {       // choose the bound by the number of places where a switch matters
                first = false; points = s.points;
                // so many schedules of this pair are affordable; every stride-th place only if there are more (a prime, so as not to fall into step with loops)
                const uint64_t most = c.quick ? 200 : 4000, limit = std::max<uint64_t>(c.quick ? 12 : 100, std::min<uint64_t>(most, (c.quick ? 200000000ull : 4000000000ull) / (s.accesses + 1)));
                const double n = (double)points; bound = n * n * n / 3 <= limit ? 3 : n * n <= limit ? 2 : 1;
                stride = 1; while((uint64_t)stride * limit < points * 2 || ![](int k) { for(int d = 2; d * d <= k; d++) if(k % d == 0) return false; return true; }(stride)) stride++;
                if(bound > 1) stride = 1;
                if(bound != 1 || stride != 1) { r = execute(ch, bound, stride); schedules++; }
            }
            check(c, r, want);
            if(s.nnew) { for(int i = 0; i < s.nnew; i++) { conf.insert(s.fresh[i]); if(c.verbose) { Dl_info d; bool k = dladdr((void*)(s.fresh[i] << 3), &d); c.log("shared: %llx %s %s+%llx", (unsigned long long)s.fresh[i] << 3, k ? d.dli_fname : "", k && d.dli_sname ? d.dli_sname : "", k ? (unsigned long long)(s.fresh[i] << 3) - (unsigned long long)d.dli_fbase : 0ull); } } restart = true; break; }
            ar.assign(s.arity, s.arity + s.ndec); ch.resize(s.ndec, 0);
            uint64_t h = mc::mix(P[0], P[1]); for(size_t i = 0; i < ch.size(); i++) if(ch[i]) h = mc::mix(h, i); c.state(h);
            while(!ch.empty() && ch.back() + 1 >= ar.back()) { ch.pop_back(); ar.pop_back(); }
            if(ch.empty()) break;
            ch.back()++;
        }
        if(!restart) break;
    }
    c.log("%s and %s: %zu shared addresses with conflicting accesses, %llu schedules, at most %d preemptions, every %d-th of %llu places", label(P[0]).c_str(), label(P[1]).c_str(), conf.size(), (unsigned long long)schedules, bound, stride, (unsigned long long)points);
    for(int t = 0; t < 2; t++) c.outcome(mc::hashStr(want[t]));
}
#endif
MC_MAIN
