// C26: histories of settings on weights, parameters and filters; and their effect on the next query.
#include "engine.hh"
using namespace Columbus; using namespace eng;
static std::vector<Letters> FIELDS{U"f", U"g", U"ff", U"", U"\xe4", U"e"};
static void weights(mc::Ctx &c, const IndexWeights &w, const std::map<Letters, double> &m) {
    for(auto &f : FIELDS) { c.eval(); auto i = m.find(f); double want = i == m.end() ? 1.0 : i->second, got = w.getWeight(ref::word(f)); if(!(got == want) && !(got != got && want != want)) c.fail("c26-weight", "weight of %s is %g, expected %g", ref::show(f).c_str(), got, want); }
}
// weights: every history of settings on two objects
SCENARIO(weight_histories, 3) {
    IndexWeights w[2]; std::map<Letters, double> m[2]; static std::vector<double> v{0, 1, 2.5, -3}; int depth = c.quick ? 3 : 4;
    for(int i = 0; i < depth; i++) {
        int s = c.choose(2), f = c.choose((int)FIELDS.size()), x = c.choose((int)v.size()); c.step();
        c.log("object %d: weight of %s = %g", s, ref::show(FIELDS[f]).c_str(), v[x]); w[s].setWeight(ref::word(FIELDS[f]), v[x]); m[s][FIELDS[f]] = v[x];
        uint64_t h = 1; for(auto &o : m) for(auto &p : o) h = mc::mix(mc::mix(h, mc::hashSeq(p.first)), p.second * 4 + (&o - m)); c.state(h);
    }
    for(int s = 0; s < 2; s++) weights(c, w[s], m[s]);
}
SCENARIO(weight_values, 2) {
    static std::vector<double> v{0.0, -0.0, 1e-300, 5e-324, 1e300, 1.0 / 3, -1e-9, 1.0000000000000002, 123456789.123456789, 1.0 / 0.0}; static std::vector<int> ns{1, 2, 10, 100, 1000}; IndexWeights w; int n = c.pick(ns); double x = c.pick(v);
    c.state(mc::hashStr(std::to_string(n) + " " + std::to_string(x)));
    for(int i = 0; i < n; i++) { w.setWeight(Word(("field" + std::to_string(i)).c_str()), i % 2 ? x : x + i); c.step(); }
    for(int i = 0; i < n; i++) { c.eval(); double want = i % 2 ? x : x + i; if(w.getWeight(Word(("FIELD" + std::to_string(i)).c_str())) != want) c.fail("c26-weight", "weight %d not kept", i); }
    if(w.getWeight(Word("field")) != 1.0 || w.getWeight(Word("")) != 1.0) c.fail("c26-weight", "unset weight is not 1");
}
// names of many lengths, prefixes and neighbours of each other: what is set for two of them shows for exactly these
static const std::vector<Letters> &names() {
    static std::vector<Letters> v = [] { std::vector<Letters> v{U""}; for(size_t n = 0; n < v.size() && v[n].size() < 4; n++) for(char32_t x : {U'a', U'b'}) v.push_back(v[n] + x);
        for(int n : {5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 255, 256, 300}) { v.push_back(Letters(n, U'a')); v.push_back(Letters(n - 1, U'a') + U'b'); v.push_back(U'b' + Letters(n - 1, U'a')); }
        for(auto s : {"\xc3\xa9", "\xe4\xb8\xad", "\xef\xbd\x81", "\xf0\x9f\x98\x80", "\xf0\x9f\x98\x81", "title", "titles", "t", "subtitle"}) v.push_back(ref::letters(s)); return v; }();
    return v;
}
SCENARIO(similar_names, 2) {
    auto &N = names(); int a = c.choose((int)N.size()), b = c.choose((int)N.size()); c.state(a * 1000 + b); c.outcome(a * 1000 + b);
    IndexWeights w; SearchParameters p; w.setWeight(ref::word(N[a]), 2); w.setWeight(ref::word(N[b]), 3); p.addNonsearchingField(ref::word(N[a])); p.addNonsearchingField(ref::word(N[b])); c.step();
    c.log("set %s and %s", ref::show(N[a]).c_str(), ref::show(N[b]).c_str());
    for(int i = 0; i < (int)N.size(); i++) {
        c.eval(); Word x = ref::word(N[i]);
        if(w.getWeight(x) != (i == b ? 3 : i == a ? 2 : 1)) c.fail("c26-weight", "after setting %s to 2 and %s to 3 the weight of %s is %g", ref::show(N[a]).c_str(), ref::show(N[b]).c_str(), ref::show(N[i]).c_str(), w.getWeight(x));
        if(p.isNonsearchingField(x) != (i == a || i == b)) c.fail("c26-nosearch", "after excluding %s and %s: %s is %sexcluded", ref::show(N[a]).c_str(), ref::show(N[b]).c_str(), ref::show(N[i]).c_str(), p.isNonsearchingField(x) ? "" : "not ");
    }
}
// parameters: dynamic flag, excluded fields, filter terms; against plain containers after every step
struct PModel { bool dyn = true; std::set<Letters> ns; std::vector<std::vector<std::pair<Letters, Letters>>> f{{}}; };
static void params(mc::Ctx &c, SearchParameters &p, const PModel &m) {
    c.eval(); const SearchParameters &cp = p;
    if(p.isDynamic() != m.dyn) c.fail("c26-dynamic", "dynamic flag is %d, expected %d", p.isDynamic(), m.dyn);
    for(auto &f : FIELDS) if(p.isNonsearchingField(ref::word(f)) != (m.ns.count(f) > 0)) c.fail("c26-nosearch", "exclusion of %s is wrong", ref::show(f).c_str());
    for(auto *r : {&p.getResultFilter(), const_cast<ResultFilter*>(&cp.getResultFilter())}) {
        if(r->numTerms() != m.f.size()) c.fail("c26-terms", "filter has %zu terms, expected %zu", (size_t)r->numTerms(), m.f.size());
        for(size_t t = 0; t < m.f.size(); t++) {
            if(r->numSubTerms(t) != m.f[t].size()) c.fail("c26-subterms", "term %zu has %zu requirements, expected %zu", t, (size_t)r->numSubTerms(t), m.f[t].size());
            for(size_t s = 0; s < m.f[t].size(); s++) if(ref::lettersOf(r->getField(t, s)) != m.f[t][s].first || ref::lettersOf(r->getWord(t, s)) != m.f[t][s].second) c.fail("c26-subterm", "term %zu requirement %zu is wrong", t, s);
            for(size_t s : {m.f[t].size(), m.f[t].size() + 1, (size_t)-1}) for(int k = 0; k < 2; k++) { bool x = false; try { if(k) r->getField(t, s); else r->getWord(t, s); } catch(std::out_of_range &) { x = true; } if(!x) c.fail("c26-range", "requirement past the end did not raise"); }
        }
        for(size_t t : {m.f.size(), m.f.size() + 1, (size_t)-1}) for(int k = 0; k < 3; k++) { bool x = false; try { if(k == 0) r->numSubTerms(t); else if(k == 1) r->getField(t, 0); else r->getWord(t, 0); } catch(std::out_of_range &) { x = true; } if(!x) c.fail("c26-range", "term past the end did not raise"); }
    }
}
SCENARIO(parameter_histories, 3) {
    SearchParameters p, q; PModel m, n; int depth = c.quick ? 5 : 6; uint64_t h = 1;
    static std::vector<std::pair<Letters, Letters>> subs{{U"f", U"g"}, {U"g", U"f"}, {U"", U"\xe4"}};
    for(int i = 0; i < depth; i++) {
        int op = c.choose(9); c.step(); h = mc::mix(h, op); c.log("operation %d", op);
        if(op == 0) { p.setDynamic(false); m.dyn = false; } else if(op == 1) { p.setDynamic(true); m.dyn = true; }
        else if(op == 2) { p.addNonsearchingField(Word("f")); m.ns.insert(U"f"); } else if(op == 3) { p.addNonsearchingField(Word("FF")); m.ns.insert(U"ff"); }
        else if(op == 4) { p.getResultFilter().addNewTerm(); m.f.push_back({}); }
        else if(op < 8) { auto &s = subs[op - 5]; p.getResultFilter().addNewSubTerm(ref::word(s.first), ref::word(s.second)); m.f.back().push_back(s); }
        else { q.setDynamic(false); n.dyn = false; q.addNonsearchingField(Word("g")); n.ns.insert(U"g"); q.getResultFilter().addNewSubTerm(Word("g"), Word("g")); n.f.back().push_back({U"g", U"g"}); }
        c.state(h);
    }
    params(c, p, m); params(c, q, n); params(c, p, m);
}
SCENARIO(dynamic_error, 1) {
    int n = c.choose(70); SearchParameters p; Letters w(n, U'x'); c.step(); c.state(n);
    if(c.flip()) p.setDynamic(false);
    c.eval(); if(p.getDynamicError(ref::word(w)) != (n < 2 ? 100 : 200)) c.fail("c26-error", "permitted error for a word of %d letters is %d", n, p.getDynamicError(ref::word(w)));
}
SCENARIO(large_filters, 1) {
    static std::vector<int> ns{1, 2, 3, 7, 8, 9, 16, 17, 33, 100, 255, 256, 257, 65537}; int t = c.pick(ns), s = c.pick(ns); if((t > 200 && s > 3) || (s > 200 && t > 3)) return; SearchParameters p; PModel m; c.state(t * 1000 + s);
    for(int i = 0; i < t; i++) { if(i) { p.getResultFilter().addNewTerm(); m.f.push_back({}); } for(int k = 0; k < (s + i) % (s + 1); k++) { Letters a = U"a", b = U"b"; for(char ch : std::to_string(i)) a += (char32_t)ch; for(char ch : std::to_string(k)) b += (char32_t)ch; p.getResultFilter().addNewSubTerm(ref::word(a), ref::word(b)); m.f.back().push_back({a, b}); c.step(); } }
    params(c, p, m);
}
// settings between queries apply to the next query, only where set: two engines, histories of settings and queries
SCENARIO(effect, 2) {
    Engine e[2]; RDoc a, b; a.id = 1; b.id = 2; a.fields[U"f"] = {U"abc", U"abd"}; a.fields[U"g"] = {U"xyz"}; b.fields[U"f"] = {U"abd"}; b.fields[U"g"] = {U"abc", U"abc"}; b.fields[U"ff"] = {U"abc"};
    e[0].index({a, b}); e[1].index({a, b}); static std::vector<double> v{0, 1, 3}; uint64_t h = 1; int depth = c.quick ? 3 : 4;
    static std::vector<RParams> ps; if(ps.empty()) { ps.resize(5); ps[1].nosearch = {U"f"}; ps[2].dynamic = false; ps[3].filter = {{{U"g", U"xyz"}}}; ps[4].nosearch = {U"ff", U"g"}; ps[4].dynamic = false; }
    for(int i = 0; i < depth; i++) {
        int s = c.flip(), op = c.choose(9 + 5); h = mc::mix(h, op * 2 + s); c.state(h);
        if(op < 9) { c.log("engine %d: weight %s = %g", s, ref::show(FIELDS[op / 3]).c_str(), v[op % 3]); e[s].weight(FIELDS[op / 3], v[op % 3]); c.step(); }
        else check(c, e[s], {U"abc"}, ps[op - 9], true, "c26-effect");
    }
    for(int s = 0; s < 2; s++) { for(auto &p : ps) { check(c, e[s], {U"abc"}, p, true, "c26-effect"); check(c, e[s], {U"a", U"xyz"}, p, true, "c26-effect"); } weights(c, e[s].m.getIndexWeights(), e[s].r.weights); }
}
// the same parameter object used for several queries and engines, changed in between
SCENARIO(reused_parameters, 2) {
    Engine e[2]; for(int k = 0; k < 2; k++) { RDoc a, b; a.id = 1 + k; b.id = 5; a.fields[U"f"] = {U"abc"}; a.fields[U"g"] = {U"xyz", U"a"}; b.fields[U"g"] = {U"abc", U"xyz"}; e[k].index({a, b}); }
    SearchParameters sp; RParams rp; uint64_t h = 1; int depth = c.quick ? 4 : 5;
    for(int i = 0; i < depth; i++) {
        int op = c.choose(8); h = mc::mix(h, op); c.state(h); c.step();
        if(op == 0) { sp.setDynamic(!rp.dynamic); rp.dynamic = !rp.dynamic; } else if(op == 1) { sp.addNonsearchingField(Word("f")); rp.nosearch.insert(U"f"); } else if(op == 2) { sp.addNonsearchingField(Word("G")); rp.nosearch.insert(U"g"); }
        else if(op == 3) { sp.getResultFilter().addNewTerm(); rp.filter.push_back({}); } else if(op == 4) { sp.getResultFilter().addNewSubTerm(Word("g"), Word("xyz")); rp.filter.back().push_back({U"g", U"xyz"}); } else if(op == 5) { sp.getResultFilter().addNewSubTerm(Word("f"), Word("abc")); rp.filter.back().push_back({U"f", U"abc"}); }
        else { Engine &x = e[op - 6]; for(auto &q : {Text{U"abc"}, Text{U"b"}}) { auto got = ref::list(x.m.match(ref::wordList(q), sp)); auto want = x.r.match(q, rp); auto err = ref::compare(got, want); c.eval(); if(err.size()) c.fail("c26-reused", "query %s %s: %s; got %s expected %s", ref::show(q).c_str(), show(rp).c_str(), err.c_str(), ref::show(got).c_str(), ref::show(want).c_str()); c.outcome(ref::hashResults(got)); } }
    }
    for(auto &x : e) { auto got = ref::list(x.m.match(ref::wordList({U"abc", U"xyz"}), sp)); auto want = x.r.match({U"abc", U"xyz"}, rp); auto err = ref::compare(got, want); c.eval(); if(err.size()) c.fail("c26-reused", "%s: %s; got %s expected %s", show(rp).c_str(), err.c_str(), ref::show(got).c_str(), ref::show(want).c_str()); }
}
MC_MAIN
