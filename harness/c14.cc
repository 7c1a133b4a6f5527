// C14: histories of operations on result lists, against plain vectors.
#include "ref.hh"
using namespace Columbus;
typedef std::pair<uintptr_t, double> R;
typedef std::vector<R> Model;              // in order of addition
static Model sorted(Model m) { std::stable_sort(m.begin(), m.end(), [](const R &a, const R &b) { return a.second > b.second; }); return m; }
// What the list shows is what was put in, best first, ties in order of addition. Reading fixes the order for what is added later:
// sorted(prefix)+rest sorts to the same list, so the model needs no read/unread distinction.
static void verify(mc::Ctx &c, const MatchResults &r, const Model &m, const char *who) {
    Model s = sorted(m); c.eval();
    if(r.size() != s.size()) c.fail("c14-size", "%s has %zu results, expected %zu", who, (size_t)r.size(), s.size());
    for(size_t i = 0; i < s.size(); i++) if(r.getDocumentID(i) != s[i].first || r.getRelevancy(i) != s[i].second)
        c.fail("c14-content", "%s holds %s, expected %s", who, ref::show(ref::list(r)).c_str(), ref::show(s).c_str());
    for(size_t i : {s.size(), s.size() + 1, (size_t)-1}) for(int k = 0; k < 2; k++) {
        bool thrown = false; try { if(k) r.getDocumentID(i); else r.getRelevancy(i); } catch(std::out_of_range &) { thrown = true; }
        if(!thrown) c.fail("c14-range", "%s: position %zu past the end did not raise out_of_range", who, i);
    }
}
static uint64_t hash(const Model &m) { uint64_t h = 11; for(auto &x : m) { h = mc::mix(h, x.first); h = mc::mix(h, (uint64_t)(x.second * 100)); } return h; }
struct World { MatchResults r[3]; Model m[3]; int n; };
static const std::vector<double>& rels() { static std::vector<double> v{1, 2, 1, -3}; return v; }
// one operation; returns false if it does not apply
static void operate(mc::Ctx &c, World &w, int &next) {
    // per slot: 3 additions, reads (order visible afterwards), copy of first/last/past-the-end from each slot, merge from each, copy/move assign/construct
    int slot = c.choose(w.n);
    MatchResults &r = w.r[slot]; Model &m = w.m[slot];
    int op = c.choose(4 + 8 * w.n);
    c.step();
    if(op < 3) { double rel = rels()[op]; c.log("list %d: add doc %d relevancy %g", slot, next, rel); r.addResult(next, rel); m.push_back({(uintptr_t)next, rel}); next++; return; }
    if(op == 3) { c.log("list %d: read", slot); if(m.size()) { r.getRelevancy(0); r.getDocumentID(m.size() - 1); } return; }
    int k = (op - 4) % 8, from = (op - 4) / 8;
    MatchResults &o = w.r[from]; Model &om = w.m[from];
    switch(k) {
    case 0: c.log("list %d: merge list %d", slot, from); r.addResults(o); { Model x = om; 
                // added in the order the other list holds them; what that list reports for ties is its order of addition
                m.insert(m.end(), x.begin(), x.end()); } break;
    case 1: case 2: {
        if(om.empty()) { bool t = false; try { r.copyResult(o, 0); } catch(std::out_of_range &) { t = true; } if(!t) c.fail("c14-copy-range", "copying from an empty list did not raise"); break; }
        size_t i = k == 1 ? 0 : om.size() - 1; R x = sorted(om)[i];
        c.log("list %d: copy result %zu of list %d", slot, i, from); r.copyResult(o, i); m.push_back(x); break; }
    case 3: { bool t = false; c.log("list %d: copy result past the end of list %d", slot, from); try { r.copyResult(o, om.size()); } catch(std::out_of_range &) { t = true; } if(!t) c.fail("c14-copy-range", "copying past the end did not raise"); break; }
    case 4: c.log("list %d = list %d", slot, from); r = o; m = om; break;
    case 5: c.log("list %d = move(list %d)", slot, from); r = std::move(o); if(slot != from) { m = om; w.m[from].clear(); } break;
    case 6: { c.log("list %d: copy-constructed from list %d and back", slot, from); MatchResults t(o); Model tm = om; verify(c, t, tm, "copy"); t.addResult(9999, 50); r = t; m = tm; m.push_back({9999, 50}); break; }
    case 7: { c.log("list %d: move-constructed from list %d and back", slot, from); MatchResults t(std::move(o)); Model tm = om; w.m[from].clear(); if(w.r[from].size() != 0) c.fail("c14-moved", "moved-from list not empty"); w.r[from].addResult(8888, 0.5); w.m[from].push_back({8888, 0.5}); r = std::move(t); w.m[slot] = tm; break; }
    }
}
// In a merge the result order inside ties depends on whether the source had been sorted only if sorting changes the relative order of
// equal relevancies, which it must not. The reference for merges therefore keeps addition order.
static void run(mc::Ctx &c, int slots, int depth, int preload) {
    World w; w.n = slots; int next = 1;
    for(int i = 0; i < preload; i++) { double rel = i % 3; w.r[0].addResult(100 + i, rel); w.m[0].push_back({(uintptr_t)(100 + i), rel}); }
    for(int i = 0; i < depth; i++) {
        operate(c, w, next);
        uint64_t h = slots; for(int k = 0; k < slots; k++) h = mc::mix(h, hash(w.m[k])); c.state(h);
    }
    uint64_t h = 3;
    for(int k = 0; k < slots; k++) { verify(c, w.r[k], w.m[k], "list"); h = mc::mix(h, ref::hashResults(ref::list(w.r[k]))); }
    c.outcome(h);
    for(int k = 0; k < slots; k++) { w.r[k].addResult(7777, 1.5); w.m[k].push_back({7777, 1.5}); }
    for(int k = 0; k < slots; k++) verify(c, w.r[k], w.m[k], "list after a further addition");
}
SCENARIO(two_lists, 2) { run(c, 2, c.quick ? 4 : 5, 0); }
SCENARIO(two_lists_loaded, 2) { run(c, 2, 3, 4); }
SCENARIO(one_list, 3) { run(c, 1, c.quick ? 5 : 6, 0); }
SCENARIO(three_lists, 2) { run(c, 3, c.quick ? 2 : 3, 3); }
// every order of additions of up to 6 results with ties, read after each possible prefix
SCENARIO(orders, 3) {
    int n = c.choose(c.quick ? 7 : 9); MatchResults r, twin; Model m;
    for(int i = 0; i < n; i++) {
        double rel = c.choose(3); bool read = n < 6 && c.flip();
        r.addResult(i, rel); twin.addResult(i, rel); m.push_back({(uintptr_t)i, rel}); c.step(); c.state(hash(m));
        if(read) verify(c, r, m, "list");
    }
    verify(c, r, m, "list");
    // result-by-result copy reproduces the list; merging in two halves as well
    MatchResults copy; for(int i = 0; i < n; i++) copy.copyResult(twin, i);
    verify(c, copy, sorted(m), "result-by-result copy");
    MatchResults merged; merged.addResults(r); merged.addResults(twin); Model mm = m; mm.insert(mm.end(), m.begin(), m.end());
    // ties: the first list's results come before the second's
    verify(c, merged, mm, "merge");
}
// sizes and extreme relevancies
SCENARIO(sizes, 2) {
    static std::vector<int> ns{0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 64, 100, 1000, 5000, 65535, 65537, 70000};
    static std::vector<double> ex{0, -0.0, 1e300, -1e300, 1e-300, 5e-324, 1.0, 1.0 + 2.2204460492503131e-16, 3};
    int n = c.pick(ns), mode = c.choose(5); bool self = c.flip();
    MatchResults r; Model m;
    for(int i = 0; i < n; i++) { double rel = mode == 0 ? i : mode == 1 ? -i : mode == 2 ? 1 : mode == 3 ? (i * 7919) % 13 : ex[i % ex.size()]; uintptr_t id = mode == 3 ? (uintptr_t)-2 - i : i; r.addResult(id, rel); m.push_back({id, rel}); c.step(); }
    if(self) { r.addResults(r); Model x = m; m.insert(m.end(), x.begin(), x.end()); }
    c.state(hash(m)); verify(c, r, m, "list");
    MatchResults f; for(size_t i = 0; i < m.size(); i++) f.copyResult(r, i); verify(c, f, sorted(m), "copy");
    if(n && n <= 1000) { for(int i = 0; i < 40; i++) { f.copyResult(f, f.size() - 1); } Model fm = sorted(m); for(int i = 0; i < 40; i++) fm.push_back(sorted(fm).back()); verify(c, f, fm, "self copies"); }
}
MC_MAIN
