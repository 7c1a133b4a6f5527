// C17: live search, against the reference engine.
#include "engine.hh"
using namespace Columbus; using namespace eng;
static const Letters F = U"title", G = U"g";
static RDoc doc(uintptr_t id, const Text &f, const Text &g) { RDoc d; d.id = id; if(!absent(f)) d.fields[F] = f; if(!absent(g)) d.fields[G] = g; return d; }
static void live(mc::Ctx &c, Engine &e, const Text &q, const Letters &field) {
    c.step(); c.eval();
    auto got = ref::list(e.m.onlineMatch(ref::wordList(q), ref::word(field)));
    auto want = e.r.online(q, field);
    auto err = ref::compare(got, want);
    if(err.size()) c.fail("c17-result", "live query %s in %s: %s; got %s, expected %s; indexed %s", ref::show(q).c_str(), ref::show(field).c_str(), err.c_str(), ref::show(got).c_str(), ref::show(want).c_str(), show(e.r).c_str());
    c.outcome(ref::hashResults(got));
    auto again = ref::list(e.m.onlineMatch(ref::wordList(q), ref::word(field)));
    if(again != got) c.fail("c17-repeat", "live query %s repeated: %s, then %s", ref::show(q).c_str(), ref::show(got).c_str(), ref::show(again).c_str());
}
static void refused(mc::Ctx &c, Engine &e, const Text &q, const Letters &field) {
    c.step(); c.eval(); bool t = false; std::string what = "no exception";
    try { e.m.onlineMatch(ref::wordList(q), ref::word(field)); } catch(std::invalid_argument &) { t = true; } catch(std::exception &x) { what = x.what(); }
    if(!t) c.fail("c17-unknown-field", "live query %s in unknown field %s: expected invalid_argument, got %s", ref::show(q).c_str(), ref::show(field).c_str(), what.c_str());
}
// two documents, all texts of up to two words in the primary field and one in the other; all queries to three words; both fields primary
SCENARIO(two_documents, 3) {
    static std::vector<Letters> W{U"a", U"abc", U"abd"};
    static auto ft = texts(W, 2, true), gt = texts({U"abc", U"a"}, 1, true);
    static auto qs = texts({U"a", U"abc", U"abe"}, 3, false);
    Engine e; RDoc a = doc((5ull << 32) + 3, c.pick(ft), c.pick(gt)), b = doc(3, c.pick(ft), c.pick(gt));
    if(c.flip()) e.weight(G, 3);
    c.state(mc::mix(hashDoc(a), hashDoc(b))); e.index({a, b}); c.step();
    bool f = e.r.seen.count(F), g = e.r.seen.count(G);
    for(auto &q : qs) { if(f) live(c, e, q, F); else refused(c, e, q, F); }
    for(size_t i = 0; i < qs.size(); i += c.quick ? 3 : 1) { if(g) live(c, e, qs[i], G); else refused(c, e, qs[i], G); }
    refused(c, e, qs[1], U"unknown"); refused(c, e, {}, U"titl"); refused(c, e, qs[2], U"titlee");
}
// repeated words in query and title, perfect matches of every length
SCENARIO(perfect, 3) {
    static std::vector<Letters> W{U"ab", U"cd", Letters()};
    static auto tt = texts(W, 3, true); static auto qs = texts({U"ab", U"cd", Letters()}, c.quick ? 3 : 4, false);
    Engine e; e.index({doc(1, c.pick(tt), {U"ab"}), doc(2, {U"cd", U"cd"}, {}), doc(3, {U"xx"}, {U"cd", U"ab"})}); c.step();
    int re = c.choose(4); Text extra = {U"ab", U"cd"}; if(re) { e.index({doc(re == 3 ? 1 : re, re == 2 ? Text{} : extra, {U"yy"})}); c.step(); }
    for(auto &q : qs) { live(c, e, q, F); live(c, e, q, G); }
    c.state(hashDoc(e.r.docs[0]) + re);
}
SCENARIO(long_titles, 2) {
    static std::vector<int> ns{1, 2, 3, 8, 9, 50, 51, 100, 101, 255, 256, 257}; int n = c.pick(ns), k = c.choose(4); Engine e; Text t;
    for(int i = 0; i < n; i++) { Letters w = U"w"; for(char ch : std::to_string(i)) w += (char32_t)ch; w += w; t.push_back(w); }
    Text q = t; if(k == 1) q.pop_back(); if(k == 2) q.push_back(t[0]); if(k == 3) std::reverse(q.begin(), q.end());
    e.index({doc(1, t, {}), doc(2, {U"other"}, t)}); c.step(); c.state(n * 4 + k);
    if(n <= 51 || !c.quick) { live(c, e, q, F); live(c, e, q, G); } live(c, e, {t[0]}, F);
}
// many documents and fields; field given only by name matters; the boosts are independent of weights and costs
SCENARIO(boosts, 2) {
    Engine e; static std::vector<double> wv{1, 0, 50, 0.001}; double w = c.pick(wv); int cost = c.choose(3); bool empty = c.flip();
    if(w != 1) { e.weight(F, w); }
    if(cost) { e.r.costs.ins = e.r.costs.endDel = cost == 1 ? 10 : 250; e.r.costs.sub[{U'b', U'c'}] = cost == 1 ? 0 : 300; e.r.costs.apply(e.m.getErrorValues()); }
    std::vector<RDoc> ds; for(int i = 0; i < 40; i++) { Text t; for(int k = 0; k <= i % 4; k++) t.push_back(std::vector<Letters>{U"ab", U"ac", U"abc", U"b"}[(i / 4 + k) % 4]); ds.push_back(doc(1000 - i, i % 5 ? t : Text{}, i % 3 ? Text{U"ab"} : Text{U"<absent>"})); }
    if(empty) ds.push_back(RDoc{5000, {}}); e.index(ds); c.step(); c.state(w * 100 + cost * 7 + empty);
    static auto qs = texts({U"ab", U"ac", U"abc", U"b", U"zz"}, 2, false);
    for(auto &q : qs) { live(c, e, q, F); live(c, e, q, G); }
}
// fields that occur nowhere; documents may be added after the refusal
SCENARIO(refusals, 2) {
    static std::vector<Letters> names{U"title", U"titl", U"titles", U"g", U"x", U"\x4e00"}; auto &nm = c.pick(names); bool before = c.flip(), again = c.flip();
    Engine e; if(before) e.index({doc(1, {U"abc"}, Text{U"<absent>"})});
    for(int i = 0; i <= again; i++) { if(e.r.seen.count(nm)) live(c, e, {U"abc"}, nm); else refused(c, e, {U"abc"}, nm); }
    RDoc d; d.id = 2; d.fields[nm] = {U"abc", U"abd"}; e.index({d}); c.step(); c.state(mc::hashSeq(nm) + before);
    for(auto &q : {Text{U"abc"}, Text{U"abd", U"abc"}, Text{}}) live(c, e, q, nm);
}
// titles of few words repeated very often, asked with as many, one more, one less, and numbers that agree in their low bits
SCENARIO(counted_titles, 2) {
    static std::vector<int> ns{1, 2, 255, 256, 257, 511, 65535, 65536, 65537, 65792, 70000}; int n = c.pick(ns), m = c.pick(ns), k = c.choose(3); if(c.quick && (n > 60000 || m > 60000) && (n > 60000 && m > 60000 ? n != m : k != 1)) return;
    auto rep = [&](int x) { Text t; for(int i = 0; i < x; i++) t.push_back(k == 0 || i % 2 ? U"ab" : U"xyz"); if(k == 2) t[x / 2] = U"other"; return t; };
    Engine e; e.index({doc(1, rep(n), {U"ab"}), doc((1ull << 32) + 1, {U"ab"}, rep(m)), doc(65537, rep(m), {})}); c.step(); c.state(mc::mix(n, m) + k);
    std::vector<int> qn{m}; if(m < 1000) qn = {m, m + 1, m > 1 ? m - 1 : 1};
    for(int x : qn) { live(c, e, rep(x), F); if(x < 1000) live(c, e, rep(x), G); }
}
MC_MAIN
