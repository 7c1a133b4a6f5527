// C10: the substitution table, against the written rule.
#include "ref.hh"
using namespace Columbus;
using ref::Letters;

struct Model {
    std::map<std::pair<uint32_t, uint32_t>, int> single; std::map<uint32_t, int> group; std::vector<int> err;
    int cost(uint32_t a, uint32_t b) const {
        if(a == b) return 0;
        if(a > b) std::swap(a, b);
        auto s = single.find({a, b}); if(s != single.end()) return s->second;
        auto g = group.find(a), h = group.find(b); if(g != group.end() && h != group.end() && g->second == h->second) return err[g->second];
        return 100;
    }
    void set(uint32_t a, uint32_t b, int e) { if(a > b) std::swap(a, b); single[{a, b}] = e; }
    bool setGroup(const Letters &l, int e) { for(auto x : l) if(group.count(x)) return false; err.push_back(e); for(auto x : l) group[x] = (int)err.size() - 1; return true; }
    void clear() { single.clear(); group.clear(); err.clear(); }
};
static void verify(mc::Ctx &c, ErrorValues &e, const Model &m, const Letters &probe) {
    uint64_t h = 1;
    for(auto a : probe) {
        for(auto b : probe) {
            int g = e.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)), w = m.cost(a, b); c.eval(); h = mc::mix(h, g);
            if(g != w) c.fail("c10-cost", "cost of <%x> for <%x> is %d, expected %d", (unsigned)a, (unsigned)b, g, w);
        }
        bool in = e.isInGroup(Letter((Letter_)a)); if(in != (m.group.count(a) > 0)) c.fail("c10-group", "<%x>: group membership reported %d", (unsigned)a, in);
    }
    c.outcome(h);
}
struct Op { int kind; uint32_t a, b; Letters g; int e; };
static void run(mc::Ctx &c, const std::vector<Op> &ops, const Letters &probe, int depth) {
    ErrorValues e; Model m; uint64_t h = 1;
    for(int d = 0; d < depth; d++) {
        int i = c.choose((int)ops.size()); const Op &o = ops[i]; c.step(); h = mc::mix(h, i); c.state(h);
        if(o.kind == 0) { c.log("setError(%x,%x,%d)", o.a, o.b, o.e); e.setError(Letter((Letter_)o.a), Letter((Letter_)o.b), o.e); m.set(o.a, o.b, o.e); }
        else if(o.kind == 1) {
            c.log("setGroupError(%s,%d)", ref::show(o.g).c_str(), o.e);
            bool ok = m.setGroup(o.g, o.e), threw = false;
            try { e.setGroupError(ref::word(o.g), o.e); } catch(std::exception &) { threw = true; }
            if(ok == threw) c.fail("c10-refusal", "group %s %s", ref::show(o.g).c_str(), ok ? "refused although its letters are free" : "accepted although a letter is in another group");
        } else { c.log("clearErrors"); e.clearErrors(); m.clear(); }
        if(d + 1 == depth || !c.quick) verify(c, e, m, probe);
    }
}
static std::vector<Op> makeOps(const Letters &L, const std::vector<Letters> &groups, const std::vector<int> &vals, bool rev) {
    std::vector<Op> o;
    for(size_t i = 0; i < L.size(); i++) for(size_t j = i; j < L.size(); j++) for(size_t k = 0; k < vals.size(); k++) { bool r = rev && (i + j + k) % 2; o.push_back({0, (uint32_t)L[r ? j : i], (uint32_t)L[r ? i : j], {}, vals[k]}); }
    for(auto &g : groups) for(int e : {30, 7}) o.push_back({1, 0, 0, g, e});
    o.push_back({2, 0, 0, {}, 0});
    return o;
}
// Letters below, at and above the table boundary (512).
SCENARIO(histories, 2) {
    static Letters L = ref::letters("b\xc7\xbf\xc8\x81\xe4\xb8\xad"), probe = ref::letters("ab\xc3\xa9\xc7\xbf\xc8\x81\xc8\x83\xe4\xb8\xad\xef\xbf\xbd");
    static std::vector<Letters> groups{ref::letters("b\xc7\xbf"), ref::letters("\xc7\xbf\xc8\x81"), ref::letters("b\xc8\x81\xe4\xb8\xad"), ref::letters("bb"), ref::letters("\xe4\xb8\xad"), Letters()};
    static std::vector<Op> ops = makeOps(L, groups, {0, 250}, true);
    run(c, ops, probe, c.quick ? 3 : 4);
}
SCENARIO(low_letters, 2) {
    static Letters L = ref::letters("ac1"), probe = ref::letters("abc1\xc7\xbf");
    static std::vector<Letters> groups{U"ac", U"c1", U"ab", U"1bc", U"b"};
    static std::vector<Op> ops = makeOps(L, groups, {20, 100}, true);
    run(c, ops, probe, c.quick ? 3 : 4);
}
// The whole table: after one definition every other pair of a wide range keeps its cost.
SCENARIO(sweep, 1) {
    static std::vector<std::pair<uint32_t, uint32_t>> pairs{{'a', 'b'}, {0, 511}, {1, 510}, {511, 512}, {512, 513}, {256, 255}, {0, 512}, {511, 1024}, {0xffff, 0}, {300, 44}, {1023, 1}, {0x100, 0x200}, {65535, 65534}, {511, 511}};
    auto p = c.pick(pairs); ErrorValues e; Model m; e.setError(Letter((Letter_)p.first), Letter((Letter_)p.second), 42); m.set(p.first, p.second, 42); c.step();
    c.log("setError(%x,%x,42)", p.first, p.second);
    std::vector<uint32_t> big{700, 767, 1023, 1024, 1025, 4096, 0x7fff, 0x8000, 0xffff, 0xfffe};
    for(uint32_t a = 0; a < 640; a++) { for(uint32_t b = 0; b < 640; b++) { c.eval(); int g = e.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)); if(g != m.cost(a, b)) c.fail("c10-cost", "after setError(%x,%x,42): cost(%x,%x) is %d", p.first, p.second, a, b, g); }
        for(auto b : big) { if(e.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)) != m.cost(a, b) || e.getSubstituteError(Letter((Letter_)b), Letter((Letter_)a)) != m.cost(a, b)) c.fail("c10-cost", "after setError(%x,%x,42): cost(%x,%x) wrong", p.first, p.second, a, b); } }
    e.clearErrors(); m.clear(); for(uint32_t a = 0; a < 640; a += 3) for(uint32_t b = 0; b < 640; b++) if(e.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)) != m.cost(a, b)) c.fail("c10-clear", "cost(%x,%x) not restored by clearErrors", a, b);
    c.state(mc::mix(p.first, p.second)); c.outcome(p.first);
}
// Groups of every size, several groups, refusals at every position of the group.
SCENARIO(groups, 2) {
    int n = 1 + c.choose(c.quick ? 24 : 60), at = c.choose(n); ErrorValues e; Model m;
    static Letters al = ref::letters("abcdefghijklmnopqrstuvwxyz0123456789\xc3\xa9\xc3\xa8\xc3\xa0\xc7\xbf\xc8\x81\xc8\x83\xd0\xb6\xe4\xb8\xad\xe4\xb8\xae\xe4\xb8\xaf\xce\xb1\xce\xb2\xce\xb3\xd0\xb0\xd0\xb1\xd0\xb2\xd0\xb3\xd0\xb4\xd0\xb5\xd0\xb7\xd0\xb8\xd0\xb9\xd0\xba\xd0\xbb\xd0\xbc\xd0\xbd\xd0\xbe");
    Letters first = U"!?" + Letters(1, al[at]), second = al.substr(0, n); c.step();
    c.log("group %s then %s", ref::show(first).c_str(), ref::show(second).c_str());
    e.setGroupError(ref::word(first), 11); m.setGroup(first, 11);
    bool t = false; try { e.setGroupError(ref::word(second), 22); } catch(std::exception &) { t = true; }
    if(!t) c.fail("c10-refusal", "overlapping group %s accepted", ref::show(second).c_str());
    verify(c, e, m, al.substr(0, n + 2) + first);
    Letters third = al.substr(0, at) + al.substr(at + 1, n - at); if(third.size()) { e.setGroupError(ref::word(third), 33); m.setGroup(third, 33); }
    verify(c, e, m, al.substr(0, n + 2) + first);
    e.clearErrors(); m.clear(); e.setGroupError(ref::word(second), 44); m.setGroup(second, 44); verify(c, e, m, al.substr(0, n + 2) + first);
    c.state(n * 100 + at);
}
// Very many groups and single costs, and costs of every size of number.
SCENARIO(many_groups, 1) {
    static std::vector<int> ns{1, 2, 127, 128, 129, 255, 256, 257, 1000, 8000}; int n = c.pick(ns); ErrorValues e; Model m; Letters probe; c.state(n);
    std::vector<uint32_t> pool; for(uint32_t x = 0x21; x < 0xd000 && pool.size() < 20000; x++) if(u_tolower(x) == (UChar32)x) pool.push_back(x);
    for(int i = 0; i < n; i++) { Letters g{(char32_t)pool[2 * i], (char32_t)pool[2 * i + 1]}; int v = i % 7 == 0 ? 1000 + i : i; e.setGroupError(ref::word(g), v); m.setGroup(g, v); c.step(); if(i < 3 || i + 3 > n || (i & (i - 1)) == 0 || ((i - 1) & (i - 2)) == 0 || ((i + 1) & i) == 0) probe += g; }
    for(int i = 0; i + 300 < n; i += 256) probe += (char32_t)pool[2 * i];
    verify(c, e, m, probe);
    for(int i = 0; i < n; i++) { uint32_t a = pool[2 * i], b = pool[2 * ((i + 7) % n) + 1]; int v = i * 13; e.setError(Letter((Letter_)a), Letter((Letter_)b), v); m.set(a, b, v); c.step(); }
    verify(c, e, m, probe);
    for(int i = 0; i < n; i++) { uint32_t a = pool[2 * i], b = pool[2 * ((i + 7) % n) + 1]; c.eval(); if(e.getSubstituteError(Letter((Letter_)b), Letter((Letter_)a)) != m.cost(a, b)) c.fail("c10-cost", "cost of <%x> for <%x> is wrong after %d definitions", b, a, n); }
    e.clearErrors(); m.clear(); verify(c, e, m, probe);
}
SCENARIO(cost_values, 1) {
    static std::vector<int> vals{0, 1, 99, 100, 101, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 100000, 1 << 24, (1 << 24) + 1, 1 << 30, -1, -100}; int v = c.pick(vals); ErrorValues e; Model m; c.state(v); c.step(); c.log("cost %d", v);
    auto set = [&](uint32_t a, uint32_t b) { e.setError(Letter((Letter_)a), Letter((Letter_)b), v); m.set(a, b, v); };
    set('a', 'b'); set('a', 0x4e00); set(0x4e01, 0x4e02); set(511, 512); Letters g = ref::letters("xyz\xe4\xba\x80\xe4\xba\x81"); e.setGroupError(ref::word(g), v); m.setGroup(g, v);
    verify(c, e, m, ref::letters("abcxyz\xe4\xb8\x80\xe4\xb8\x81\xe4\xb8\x82\xe4\xba\x80\xe4\xba\x81\xc7\xbf\xc8\x80"));
}
MC_MAIN
