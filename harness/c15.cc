// C15: every small filter over every small corpus; the filtered list must be the unfiltered one restricted by the filter.
#include "engine.hh"
using namespace Columbus; using namespace eng;
typedef std::pair<Letters, Letters> Sub; typedef std::vector<Sub> Term;
static const Letters F = U"title", G = U"kind";
static void compare(mc::Ctx &c, Engine &e, const Text &q, RParams p, const std::vector<std::pair<uintptr_t, double>> &all) {
    c.step(); c.eval();
    auto got = query(e, q, p);
    std::vector<std::pair<uintptr_t, double>> want; for(auto &x : all) if(e.r.accepts(p, x.first)) want.push_back(x);
    if(got != want) c.fail("c15-filter", "query %s %s: got %s, expected %s; unfiltered %s; indexed %s", ref::show(q).c_str(), show(p).c_str(), ref::show(got).c_str(), ref::show(want).c_str(), ref::show(all).c_str(), show(e.r).c_str());
    c.outcome(ref::hashResults(got));
}
static std::vector<std::pair<uintptr_t, double>> unfiltered(mc::Ctx &c, Engine &e, const Text &q, RParams p) {
    p.filter = {{}}; auto all = query(e, q, p); auto err = ref::compare(all, e.r.match(q, p));
    if(err.size()) c.fail("c15-unfiltered", "query %s: %s; got %s", ref::show(q).c_str(), err.c_str(), ref::show(all).c_str());
    return all;
}
static std::vector<Term> terms(const std::vector<Sub> &subs, size_t maxSub) {
    std::vector<Term> out{{}}; for(auto &s : subs) out.push_back({s});
    if(maxSub > 1) for(auto &a : subs) for(auto &b : subs) out.push_back({a, b});
    return out;
}
static std::vector<Sub> pairs(const std::vector<Letters> &f, const std::vector<Letters> &w) { std::vector<Sub> r; for(auto &a : f) for(auto &b : w) r.push_back({a, b}); return r; }
static std::vector<Text> T{{U"<absent>"}, {U"abc"}, {U"abd"}, {U"abc", U"abd"}};
static RDoc doc(uintptr_t id, const Text &f, const Text &g) { RDoc d; d.id = id; if(!absent(f)) d.fields[F] = f; if(!absent(g)) d.fields[G] = g; return d; }
static void corpus(mc::Ctx &c, Engine &e) {
    std::vector<RDoc> ds{doc(9, {U"abe"}, {U"abe", U"abc"})};
    for(int i = 0; i < 2; i++) { auto &f = c.pick(T), &g = c.pick(T); ds.push_back(doc(i ? (9ull << 32) + 9 : 65536 + 9, f, g)); }
    uint64_t h = 0; for(auto &d : ds) { c.log("%s", ref::show(d).c_str()); h = mc::mix(h, hashDoc(d)); } c.state(h);
    e.index(ds); c.step();
}
// all filters of up to two terms with up to one requirement from nine, or one term of two; searching one or two fields
SCENARIO(small_filters, 3) {
    Engine e; corpus(c, e);
    static auto S = pairs({F, G, U"nofield"}, {U"abc", U"abd", U"noword"});
    static auto one = terms(S, 1), two = terms(S, 2);
    for(int ns = 0; ns < 2; ns++) for(auto &q : {Text{U"abc"}, Text{U"abd", U"xyz"}}) {
        RParams p; if(ns) p.nosearch = {G};
        auto all = unfiltered(c, e, q, p);
        for(auto &a : two) { p.filter = {a}; compare(c, e, q, p, all); }
        for(auto &a : one) for(auto &b : one) { p.filter = {a, b}; compare(c, e, q, p, all); }
    }
}
// two terms of up to two requirements each, and three terms of one
SCENARIO(large_filters, 3) {
    Engine e; std::vector<RDoc> ds{doc(9, {U"abe"}, {U"abe", U"abc"})};
    for(int i = 0; i < 2; i++) { int k = c.choose(16); ds.push_back(doc(i ? (9ull << 32) + 9 : 65536 + 9, T[k / 4], T[k % 4])); }
    e.index(ds); c.step();
    static auto S = c.quick ? pairs({F, G}, {U"abc", U"abd"}) : pairs({F, G, U"nofield"}, {U"abc", U"abd", U"noword"}), S3 = pairs({F, G, U"abc"}, {U"abc", U"abd", U"title"});
    static auto two = terms(S, 2), one = terms(S3, 1);
    const Term &a = c.pick(two);
    Text q{U"abc"}; RParams p; auto all = unfiltered(c, e, q, p);
    for(auto &b : two) { p.filter = {a, b}; compare(c, e, q, p, all); c.state(mc::mix(hashDoc(ds[1]) + hashDoc(ds[2]), &b - &two[0] + 1000 * (&a - &two[0]))); }
    if(a.size() <= 1) for(auto &b : one) for(auto &d : one) { p.filter = {a, b, d}; compare(c, e, q, p, all); p.filter = {b, d, a}; compare(c, e, q, p, all); }
}
// conjunctions of n requirements, of which one (at every position) may fail; disjunctions of n terms of which one may hold
SCENARIO(long_filters, 2) {
    static std::vector<int> ns{1, 2, 3, 4, 8, 17, 64, 255, 256, 257}; int n = c.pick(ns); bool conj = c.flip(); int at = n > 64 ? std::vector<int>{0, 1, 127, 128, 253, 254, n - 1, n}[c.choose(8)] : c.choose(n + 1);
    Engine e; RDoc d = doc(1, {}, {}), d2 = doc(2, {U"word0", U"word1"}, {});
    for(int i = 0; i < n; i++) { Letters w = U"word"; for(char ch : std::to_string(i)) w += (char32_t)ch; d.fields[F].push_back(w); }
    e.index({d, d2}); c.step(); RParams p; Text q{U"word0"}; auto all = unfiltered(c, e, q, p);
    p.filter.clear();
    for(int i = 0; i < n; i++) { Sub s{F, d.fields[F][i]}; bool odd = i == at; if(conj) { if(odd) s.second = U"word"; if(i == 0) p.filter.push_back({}); p.filter[0].push_back(s); } else { if(!odd) s.first = G; p.filter.push_back({s}); } }
    c.state(mc::mix(n * 2 + conj, at)); compare(c, e, q, p, all);
}
// exactness: requirements differing slightly from the word that is there
SCENARIO(exactness, 2) {
    static std::vector<Letters> words{U"abcd", U"abc", U"abcde", U"abdc", U"xbcd", U"bcd", U"a", U"", U"title", U"\x4e00\x4e01", U"kind"};
    auto &have = c.pick(words); auto &req = c.pick(words); auto fld = c.pick(std::vector<Letters>{F, G, U"", U"titl", U"titlee", U"abcd"}); 
    Engine e; e.index({doc(1, {U"common", have}, {}), doc(2, {U"common"}, {have, U"common"}), doc(3, {U"common"}, Text{U"<absent>"})}); c.step();
    Text q{U"common"}; RParams p; auto all = unfiltered(c, e, q, p);
    c.state(mc::mix(mc::mix(mc::hashSeq(have), mc::hashSeq(req)), mc::hashSeq(fld)));
    p.filter = {{{fld, req}}}; compare(c, e, q, p, all); compare(c, e, q, p, all);
    p.filter = {{{fld, req}, {F, U"common"}}, {{fld, req}, {G, U"common"}}}; compare(c, e, q, p, all);
    auto again = unfiltered(c, e, q, RParams()); if(again != all) c.fail("c15-order", "unfiltered answer changed after filtering");
}
// many results with ties: order is kept
SCENARIO(many, 2) {
    static std::vector<int> ns{2, 9, 10, 11, 17, 33, 100, 300, 3000}; int n = c.pick(ns), mod = 1 + c.choose(n > 300 ? 2 : 4);
    Engine e; std::vector<RDoc> ds; for(int i = 0; i < n; i++) { Text g; if(i % mod == 0) g.push_back(U"keep"); ds.push_back(doc(n > 1000 ? (uintptr_t)i * 65536 + i % 3 : (i * 7919) % 1009, i % 3 == 0 ? Text{U"common", U"commno"} : Text{i % 2 ? U"common" : U"comon"}, g)); }
    e.index(ds); c.step(); c.state(n * 10 + mod);
    for(auto &q : {Text{U"common"}, Text{U"comon", U"commno"}}) { RParams p; p.nosearch = {G}; auto all = unfiltered(c, e, q, p); p.filter = {{{G, U"keep"}}}; compare(c, e, q, p, all); p.filter = {{{G, U"nope"}}, {{F, U"comon"}, {G, U"keep"}}, {{F, U"commno"}}}; compare(c, e, q, p, all); }
}
MC_MAIN
