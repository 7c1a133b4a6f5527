// C12: which documents a query returns. With -DRELEVANCY, C13: with which relevancies, in which order.
#include "engine.hh"
using namespace Columbus; using namespace eng;
#ifdef RELEVANCY
static const bool REL = true; static const char *TAG = "c13-result";
#else
static const bool REL = false; static const char *TAG = "c12-result";
#endif
static const Letters F = U"title", G = U"g", H = U"other";
static std::vector<Text> queries(const std::vector<Letters> &w, size_t n) { return texts(w, n, false); }
static std::vector<RParams> params(bool all) {
    std::vector<RParams> v;
    for(int dyn = 1; dyn >= 0; dyn--) for(int ns = 0; ns < 5; ns++) {
        if(!all && !(ns == 0 || (dyn && (ns == 1 || ns == 3)))) continue;
        RParams p; p.dynamic = dyn;
        if(ns == 1) p.nosearch = {F}; if(ns == 2) p.nosearch = {G}; if(ns == 3) p.nosearch = {F, G}; if(ns == 4) p.nosearch = {U"nowhere", U"abc"};
        v.push_back(p);
    }
    return v;
}
static const std::vector<double>& weightVals() { static std::vector<double> v{1, 0, 2.5, 0.001}; return v; }
static void weights(mc::Ctx &c, Engine &e) {
    if(!REL) return;
    int a, b; if(c.quick) { static std::vector<int> as{0, 2, 1}, bs{0, 0, 2}; int k = c.choose(3); a = as[k]; b = bs[k]; } else { a = c.choose(4); b = c.choose(3); }
    if(a) e.weight(F, weightVals()[a]);
    if(b) e.weight(G, weightVals()[b + 1]);
}
static RDoc doc(uintptr_t id, const Text &f, const Text &g) { RDoc d; d.id = id; if(!absent(f)) d.fields[F] = f; if(!absent(g)) d.fields[G] = g; return d; }

// one document: every text of two fields, every query of up to 3 words, every parameter combination
SCENARIO(one_document, 3) {
    static std::vector<Letters> W{U"a", U"abc", U"abcde", Letters()};
    static auto ft = texts(W, 3, true), gt = texts(W, 1, true);
    static auto qs = queries({U"a", U"ab", U"abcd", U"xyz", Letters()}, 2); static auto ps = params(true);
    static auto q3 = queries({U"b", U"abc"}, 3);
    Engine e; RDoc d = doc(c.flip() ? 0 : 77, c.pick(ft), c.pick(gt)); weights(c, e);
    c.log("index %s", ref::show(d).c_str()); c.state(hashDoc(d));
    e.index({d}); c.step();
    for(auto &q : qs) for(auto &p : ps) check(c, e, q, p, REL, TAG);
    for(auto &q : q3) check(c, e, q, ps[0], REL, TAG);
}
// two documents over two fields, in one or two indexing calls
SCENARIO(two_documents, 3) {
    static std::vector<Letters> W{U"a", U"abc", U"abcdx", U"zzzzz"};
    static auto ft = texts(W, 2, true), gt = texts({U"abc", U"zzzzz"}, 1, true);
    static auto qs = queries({U"a", U"ab", U"abcd", U"zzzzy"}, c.quick ? 2 : 3); static auto ps = params(!c.quick);
    Engine e;
    RDoc a = doc(5, c.pick(ft), c.pick(gt)), b = doc(3, c.pick(ft), c.pick(gt));
    if(REL) { static std::vector<std::pair<double, double>> wv{{1, 1}, {2.5, 0}, {0.5, 3}}; auto w = wv[c.choose(c.quick ? 2 : 3)]; if(w.first != 1) { e.weight(F, w.first); e.weight(G, w.second); } }
    bool split = REL ? false : c.flip();
    c.log("index %s %s", ref::show(a).c_str(), ref::show(b).c_str()); c.state(mc::mix(hashDoc(a), hashDoc(b)));
    if(split) { e.index({a}); e.index({b}); c.step(); } else e.index({a, b});
    c.step();
    for(auto &q : qs) for(auto &p : ps) check(c, e, q, p, REL, TAG);
}
// three documents, one field, one or two words each
SCENARIO(three_documents, 3) {
    static std::vector<Letters> W{U"ab", U"abcd", U"xyzw"};
    static auto ft = texts(W, 2, true);
    if(!c.quick && W.size() == 3) { W.push_back(U"ba"); ft = texts(W, 2, true); }
    static auto qs = queries({U"b", U"abc", U"xyz"}, 2); RParams p; RParams nd; nd.dynamic = false;
    Engine e; std::vector<RDoc> ds;
    for(int i = 0; i < 3; i++) { ds.push_back(doc(100 - i * 40, c.pick(ft), Text{U"<absent>"})); c.state(hashDoc(ds.back())); }
    e.index(ds); c.step();
    for(auto &q : qs) { check(c, e, q, p, REL, TAG); }
    check(c, e, {U"b"}, nd, REL, TAG);
}
// word frequency: n occurrences of a word against a most frequent one of N, spread over documents
SCENARIO(frequencies, 2) {
    static std::vector<size_t> ns{1, 2, 3, 5, 10, 100, 255, 256, 257, 1000, 65535, 65537, 70000}, spread{1, 2, 3};
    static std::vector<Letters> W{U"alpha", U"beta"};
    size_t n = c.pick(ns), N = c.pick(ns), s = c.pick(spread); if((n > 1000 || N > 1000) && n > 2 && N > 2 && (s > 1 || (n != 70000 && N != 70000))) return;
    Engine e; std::vector<RDoc> ds;
    for(size_t i = 0; i < s; i++) {
        Text t; for(size_t k = 0; k < n; k++) if(k % s == i) t.push_back(W[0]); for(size_t k = 0; k < N; k++) if(k % s == (s - 1 - i)) t.push_back(W[1]);
        ds.push_back(doc(i + 1, t, {W[i % 2]}));
    }
    c.state(n * 1000003 + N * 17 + s); e.index(ds); c.step();
    for(auto &q : {Text{U"alpha"}, Text{U"beta"}, Text{U"alphq", U"bta"}, Text{U"bexx", U"alha", U"alpha"}}) check(c, e, q, RParams(), REL, TAG);
}
// many documents, all kinds of identifiers
SCENARIO(many_documents, 2) {
    static std::vector<size_t> ns{1, 2, 3, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 64, 100, 128, 255, 256, 257, 300, 1000, 65535, 65537, 70000};
    size_t n = c.pick(ns); int ids = c.choose(5), shape = c.choose(3); if(n > 1000 && (shape || (c.quick && ids != 3))) return; if(c.quick && (n == 1000 || n == 65535 || n == 70000)) return;
    Engine e; std::vector<RDoc> ds;
    for(size_t i = 0; i < n; i++) {
        uintptr_t id = ids == 0 ? i : ids == 1 ? (uintptr_t)-2 - i : ids == 2 ? ((uintptr_t)1 << 32) + i : ids == 3 ? (i * 0x100000000ull + (i % 3)) : 0x8000000000000000ull + i * 4096;
        Letters w = U"word"; for(size_t k = n > 1000 ? i % 37 : i; k; k /= 10) w += (char32_t)('0' + k % 10);
        ds.push_back(shape == 0 ? doc(id, {U"common", w}, {w}) : shape == 1 ? doc(id, {w}, {U"common"}) : doc(id, i % 2 ? Text{U"common"} : Text{}, i % 3 ? Text{w, w} : Text{U"<absent>"}));
    }
    c.state(mc::mix(n, ids * 10 + shape)); e.index(ds); c.step();
    for(auto &q : {Text{U"common"}, Text{U"commno"}, Text{U"word1"}, Text{U"word21", U"common"}, Text{U"none"}, Text{U"w"}}) for(int ns2 = 0; ns2 < 2; ns2++) { if(n > 1000 && (ns2 || q.size() > 1 || q[0] == U"commno" || q[0] == U"w" || q[0] == U"none")) continue; RParams p; if(ns2) p.nosearch = {F}; check(c, e, q, p, REL, TAG); }
}
// many fields; field names that are also words, prefixes of each other, empty
SCENARIO(many_fields, 2) {
    static std::vector<size_t> ns{1, 2, 3, 7, 16, 17, 40, 100};
    size_t n = c.pick(ns), hit = c.choose(4); bool emptyField = c.flip();
    Engine e; RDoc a, b; a.id = 1; b.id = 2;
    std::vector<Letters> names; Letters nm; for(size_t i = 0; i < n; i++) { nm = i % 5 == 0 ? Letters(U"f") : nm + (char32_t)('a' + i % 26); Letters x = nm + (char32_t)('A' + 32 + i % 26); names.push_back(x + (char32_t)(0x4e00 + i)); }
    if(emptyField) names[0] = Letters();
    for(size_t i = 0; i < n; i++) { a.fields[names[i]] = {U"common", names[(i + 1) % n]}; if(i % (hit + 1) == 0) b.fields[names[i]] = {U"target", U"common", U"common"}; }
    if(REL) for(size_t i = 0; i < n; i++) if(i % 2) e.weight(names[i], 0.5 + i);
    c.state(mc::mix(n, hit * 2 + emptyField)); e.index({a, b}); c.step();
    for(auto &q : {Text{U"common"}, Text{U"target"}, Text{U"targte", U"commo"}, Text{names[n - 1]}, Text{names[0]}}) for(int k = 0; k < 3; k++) {
        RParams p; if(k == 1) p.nosearch = {names[0]}; if(k == 2) { p.nosearch.insert(names.begin(), names.end()); p.nosearch.erase(names[n / 2]); }
        check(c, e, q, p, REL, TAG);
    }
}
// the tolerance at its limits: words at distance 0..4 from queries of length 0..6
SCENARIO(tolerance, 2) {
    static std::vector<Letters> base{U"", U"q", U"qw", U"qwe", U"qwer", U"qwerty", U"\x1F600", U"\xe9"};
    Letters q = c.pick(base); int kind = c.choose(4); if(q == U"\x1F600") q = ref::letters("\xf0\x9f\x98\x80");
    Engine e; std::vector<RDoc> ds; uintptr_t id = 1;
    std::set<Letters> seen;
    for(int d = 0; d <= 4; d++) for(size_t pos = 0; pos <= q.size(); pos++) {
        Letters w = q; 
        if(kind == 0) w.insert(pos, Letters(d, U'x')); else if(kind == 1) { if(pos + d > w.size()) continue; w.erase(pos, d); } else if(kind == 2) { if(pos + d > w.size()) continue; for(int k = 0; k < d; k++) w[pos + k] = U'x'; }
        else { if(pos + 2 * d > w.size()) continue; for(int k = 0; k < d; k++) std::swap(w[pos + 2 * k], w[pos + 2 * k + 1]); }
        if(!ref::surrogatesOk(w) || !seen.insert(w).second) continue;
        ds.push_back(doc(id++, {w}, {}));
    }
    c.state(mc::mix(mc::hashSeq(q), kind)); e.index(ds); c.step();
    RParams p, nd; nd.dynamic = false;
    for(auto &t : {Text{q}, Text{q, q}, Text{U"z", q}, Text{q, U"zz"}}) { check(c, e, t, p, REL, TAG); check(c, e, t, nd, REL, TAG); }
}
// queries given as text
SCENARIO(text_queries, 2) {
    static std::vector<std::string> seps{" ", "  ", "\t", "\n", " \r\n "}, words{"abc", "ABD", "\xc3\x84x", "zz"};
    std::string q = c.flip() ? " " : ""; Text t; int n = c.choose(4);
    for(int i = 0; i < n; i++) { if(i) q += c.pick(seps); auto &w = c.pick(words); q += w; t.push_back(ref::letters(w)); }
    if(c.flip()) q += "\n";
    Engine e; e.index({doc(1, {U"abc", ref::letters("\xc3\xa4x")}, {U"zz"}), doc(2, {U"abd"}, Text{U"<absent>"}), doc(3, {}, {U"abdcc"})}); c.step();
    SearchParameters sp;
    auto want = e.r.match(t); c.state(mc::hashStr(q));
    for(int k = 0; k < 3; k++) {
        auto got = ref::list(k == 0 ? e.m.match(q.c_str()) : k == 1 ? e.m.match(q) : e.m.match(q.c_str(), sp)); c.step(); c.eval();
        auto err = ref::compare(got, want, REL); if(err.size()) c.fail(TAG, "query text %s: %s; got %s, expected %s", ref::showBytes(q).c_str(), err.c_str(), ref::show(got).c_str(), ref::show(want).c_str());
        c.outcome(ref::hashResults(got));
    }
}
// configured costs reach the engine
SCENARIO(costs, 3) {
    static std::vector<int> v{0, 30, 100, 150, 250}; static std::vector<Letters> W{U"ab", U"abc", U"ba", U"xab", U"abx", U"aab"};
    Engine e; auto &k = e.r.costs; k.ins = c.pick(v); k.del = c.pick(v); k.endDel = c.pick(v); k.startIns = c.pick(v); k.transp = c.quick ? 100 : c.pick(v);
    k.limit = c.choose(2) * 3; if(c.flip()) { k.sub[{U'a', U'b'}] = 20; k.sub[{U'c', U'x'}] = 250; }
    k.apply(e.m.getErrorValues());
    std::vector<RDoc> ds; for(size_t i = 0; i < W.size(); i++) ds.push_back(doc(i, {W[i]}, Text{U"<absent>"}));
    e.index(ds); c.step();
    for(auto &q : {Text{U"ab"}, Text{U"abc"}, Text{U"a"}, Text{U"ba", U"xabc"}}) check(c, e, q, RParams(), REL, TAG);
}
MC_MAIN
