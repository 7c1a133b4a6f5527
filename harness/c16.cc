// C16: histories of indexing calls, queries of all kinds and failing calls; the final answers must be those of the reference engine.
#include "engine.hh"
using namespace Columbus; using namespace eng;
static const Letters F = U"title", G = U"g";
static RDoc doc(uintptr_t id, const Text &f, const Text &g) { RDoc d; d.id = id; if(!absent(f)) d.fields[F] = f; if(!absent(g)) d.fields[G] = g; return d; }
static std::vector<RDoc> &pieces() {
    static std::vector<RDoc> v{doc(1, {U"abc", U"a"}, {U"xyz"}), doc((1ull << 32) + 1, {U"abd"}, Text{U"<absent>"}), doc(3, {}, {U"xyz", U"abc", U"abc"}), doc(1, {U"abd", U"late"}, Text{U"<absent>"}), doc(4, {U"title", U"g"}, {U"late"})};
    return v;
}
// Index, with the corpus and the documents gone before anything else happens (or kept for a while).
struct Keeper { std::vector<Corpus*> corpora; ~Keeper() { for(auto x : corpora) delete x; } };
static void index(Engine &e, const std::vector<RDoc> &ds, Keeper *keep = nullptr) {
    Corpus *cp = new Corpus();
    for(auto &d : ds) { Document *x = new Document(ref::document(d)); cp->addDocument(*x); delete x; }
    e.m.index(*cp);
    if(keep) keep->corpora.push_back(cp); else delete cp;
    for(auto &d : ds) e.r.index(d);
}
static void onlineRefused(mc::Ctx &c, Engine &e, const Text &q, const Letters &f) {
    bool t = false; try { e.m.onlineMatch(ref::wordList(q), ref::word(f)); } catch(std::invalid_argument &) { t = true; }
    if(!t) c.fail("c16-refused", "live query in unknown field %s was not refused", ref::show(f).c_str());
}
// All probes. Whether a field name counts as known must not have changed through queries.
static void probe(mc::Ctx &c, Engine &e, const char *tag) {
    static std::vector<Text> qs{{U"abc"}, {U"a"}, {U"xyz", U"abd"}, {U"late"}, {U"ghost"}, {U"titel"}, {}};
    static std::vector<RParams> ps;
    if(ps.empty()) { ps.resize(5); ps[1].nosearch = {F}; ps[2].dynamic = false; ps[3].filter = {{{G, U"xyz"}}, {{F, U"late"}}}; ps[4].filter = {{{U"ghost", U"abc"}}, {{F, U"ghost"}, {G, U"xyz"}}}; }
    for(auto &q : qs) check(c, e, q, ps[0], true, tag);
    for(size_t i = 1; i < ps.size(); i++) { check(c, e, qs[0], ps[i], true, tag); check(c, e, qs[2], ps[i], true, tag); }
    for(auto &f : {F, G, Letters(U"ghost"), Letters(U"phantom"), Letters(U"late")}) for(auto &q : {qs[0], qs[3]}) {
        c.step(); c.eval();
        if(!e.r.seen.count(f)) { onlineRefused(c, e, q, f); continue; }
        auto got = ref::list(e.m.onlineMatch(ref::wordList(q), ref::word(f))); auto want = e.r.online(q, f); auto err = ref::compare(got, want);
        if(err.size()) c.fail(tag, "live query %s in %s: %s; got %s, expected %s; indexed %s", ref::show(q).c_str(), ref::show(f).c_str(), err.c_str(), ref::show(got).c_str(), ref::show(want).c_str(), show(e.r).c_str());
    }
}
SCENARIO(histories, 2) {
    int depth = 1 + c.choose(c.quick ? 4 : 5);
    Engine e; Keeper keep; size_t next = 0; uint64_t h = 1;
    for(int i = 0; i < depth; i++) {
        int op = c.choose(14); c.step(); h = mc::mix(h, op);
        c.log("operation %d", op);
        switch(op) {
        case 0: if(next < pieces().size()) index(e, {pieces()[next++]}); break;
        case 1: if(next + 1 < pieces().size()) { index(e, {pieces()[next], pieces()[next + 1]}, &keep); next += 2; } break;
        case 2: index(e, {}); break;
        case 3: query(e, {U"abc", U"xyz"}, RParams()); e.m.match("abc"); e.m.match(std::string("xyz abd")); e.m.match("late", SearchParameters()); e.m.match(""); break;
        case 4: query(e, {U"ghost", U"phantom"}, RParams()); break;
        case 5: { RParams p; p.filter = {{{U"ghost", U"abc"}}, {{F, U"phantom"}}}; query(e, {U"abc"}, p); break; }
        case 6: { RParams p; p.nosearch = {F, U"ghost"}; p.dynamic = false; query(e, {U"abc"}, p); break; }
        case 7: if(e.r.seen.count(F)) e.m.onlineMatch(ref::wordList({U"abc", U"ghost"}), ref::word(F)); else onlineRefused(c, e, {U"abc"}, F); break;
        case 8: onlineRefused(c, e, {U"ghost", U"abc"}, U"phantom"); break;
        case 9: { bool t = false; try { e.m.match("abc \xff\xfe"); } catch(std::exception &) { t = true; } if(!t) c.fail("c16-bad-text", "ill-formed query text not refused"); break; }
        case 10: e.weight(F, e.r.weights.count(F) && e.r.weights[F] != 1 ? 1 : 4); break;
        case 11: { int &k = e.r.costs.ins; k = k == 100 ? 40 : 100; e.m.getErrorValues().setInsertionError(k); e.r.memo.clear(); break; }
        case 12: { Matcher other; Corpus cp; cp.addDocument(ref::document(doc(99, {U"abc", U"ghost"}, {U"abc"}))); other.index(cp); other.match("abc"); other.getIndexWeights().setWeight(ref::word(F), 9); other.getErrorValues().setDeletionError(1); break; }
        case 13: { Letters longw; for(int k = 0; k < 300; k++) longw += (char32_t)('a' + k % 26); query(e, {longw, U"abc"}, RParams()); break; }
        }
    }
    c.state(h);
    probe(c, e, "c16-history");
}
// five documents, every order, every way of cutting the sequence into indexing calls, queries between the calls or not
SCENARIO(partitions, 3) {
    Engine e; std::vector<RDoc> rest = pieces(), cur; rest[3].id = 5; bool queries = c.flip(); std::vector<RDoc> order;
    while(!rest.empty()) {
        int i = c.choose((int)rest.size()); cur.push_back(rest[i]); order.push_back(rest[i]); rest.erase(rest.begin() + i);
        if(rest.empty() || c.flip()) { index(e, cur); c.step(); cur.clear(); if(queries && rest.size()) { query(e, {U"abc", U"ghost"}, RParams()); check(c, e, {U"abc"}, RParams(), true, "c16-partition"); check(c, e, {U"late"}, RParams(), true, "c16-partition"); RParams p; p.filter = {{{F, U"late"}}}; query(e, {U"xyz"}, p); if(!e.r.seen.count(U"ghost")) onlineRefused(c, e, {U"abc"}, U"ghost"); } }
    }
    uint64_t h = queries; for(auto &d : order) h = mc::mix(h, hashDoc(d)); c.state(h);
    probe(c, e, "c16-partition");
}
// documents indexed later: k documents first, queries, the rest later; sizes up to hundreds; repeated queries in between
SCENARIO(later, 2) {
    static std::vector<int> ns{1, 2, 10, 50, 200, 3000}; int n = c.pick(ns), cuts = 1 + c.choose(n > 200 ? 2 : 5); bool sameId = c.flip();
    Engine e; int done = 0;
    for(int k = 0; k < cuts; k++) {
        int to = n * (k + 1) / cuts; std::vector<RDoc> ds;
        for(; done < to; done++) { Letters w = U"w"; for(char ch : std::to_string(done)) w += (char32_t)ch; ds.push_back(doc(sameId ? done % 7 : done, {w, U"abc"}, done % 2 ? Text{U"xyz"} : Text{U"<absent>"})); }
        index(e, ds); c.step();
        if(k + 1 < cuts) for(int r = 0; r < 3; r++) { check(c, e, {U"abc"}, RParams(), true, "c16-later"); check(c, e, {U"w1", U"xyz"}, RParams(), true, "c16-later"); }
    }
    c.state(mc::mix(n, cuts * 2 + sameId));
    check(c, e, {U"abc"}, RParams(), true, "c16-later"); check(c, e, {U"w1", U"w19", U"xyz"}, RParams(), true, "c16-later"); RParams p; p.filter = {{{F, U"w1"}}, {{G, U"xyz"}}}; check(c, e, {U"abc"}, p, true, "c16-later");
}
// the objects handed in may change or go away right after the call
SCENARIO(objects_gone, 2) {
    Engine e; bool kill = c.flip(); int q = c.choose(3);
    Word *f = new Word("title"), *w = new Word("abc"); WordList *l = new WordList(); l->addWord(*w); Document *d = new Document(7); d->addText(*f, *l); Corpus *cp = new Corpus(); cp->addDocument(*d);
    *w = Word("zzz"); l->addWord(*w); d->addText(*f, *l); d->addText(*w, *l); *f = Word("other");
    if(kill) { delete d; delete l; delete f; delete w; }
    e.m.index(*cp); e.r.index(doc(7, {U"abc"}, Text{U"<absent>"}));
    if(kill) delete cp;
    c.step(); c.state(q * 2 + kill);
    SearchParameters *sp = new SearchParameters(); WordList *ql = new WordList(ref::wordList({U"abc"}));
    MatchResults r = e.m.match(*ql, *sp); delete sp; delete ql;
    auto err = ref::compare(ref::list(r), e.r.match({U"abc"})); if(err.size()) c.fail("c16-objects", "%s", err.c_str());
    for(auto &t : {Text{U"abc"}, Text{U"zzz"}, Text{U"other"}}) check(c, e, t, RParams(), true, "c16-objects");
    if(!kill) { delete d; delete l; delete f; delete w; delete cp; }
    probe(c, e, "c16-objects");
}
MC_MAIN
