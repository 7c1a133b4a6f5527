// C27: growth of the index storage at every alignment, and (in the narrowed build) exhaustion of its address range.
#include "engine.hh"
using namespace Columbus; using namespace eng;

// One of the objects that keep words in a trie, with the words it must know.
struct Holder {
    int kind; LevenshteinIndex *ix = nullptr; WordStore *st = nullptr; std::map<Letters, WordID> m; std::map<WordID, Letters> owner; WordID next = 1;
    Holder(int k) : kind(k) { if(k) st = new WordStore(); else ix = new LevenshteinIndex(); }
    ~Holder() { delete ix; delete st; }
    bool add(const Letters &w) {       // false if refused
        try {
            if(kind) { WordID id = st->getID(ref::word(w)); m.insert({w, id}); if(m[w] != id) throw mc::Violation{"c27-identity", "identifier of " + ref::show(w).substr(0, 100) + " changed"}; auto o = owner.insert({id, w}).first; if(o->second != w) throw mc::Violation{"c27-identity", "two words share an identifier"}; }
            else { WordID id = m.count(w) ? m[w] : next; ix->insertWord(ref::word(w), id); if(!m.count(w)) { m[w] = id; next++; } }
            return true;
        } catch(std::exception &) { return false; }
    }
    bool has(const Letters &w) const { return kind ? st->hasWord(ref::word(w)) : ix->hasWord(ref::word(w)); }
};
static void verify(mc::Ctx &c, Holder &h, bool queries) {
    ErrorValues e;
    for(auto &x : h.m) {
        c.eval(); struct { const Letters &l; std::string s; const char *c_str() { return (s = ref::show(l).substr(0, 80)).c_str(); } } sw{x.first, {}};
        if(!h.has(x.first)) c.fail("c27-lost", "%s (%zu letters) is no longer present", sw.c_str(), x.first.size());
        if(h.kind) { if(h.st->getID(ref::word(x.first)) != x.second) c.fail("c27-identity", "identifier of %s changed", sw.c_str()); if(ref::lettersOf(h.st->getWord(x.second)) != x.first) c.fail("c27-corrupt", "identifier of %s maps to something else", sw.c_str()); }
        else {
            if(!h.ix->wordCount(x.second)) c.fail("c27-lost", "count of %s is lost", sw.c_str());
            if(queries) { IndexMatches im; h.ix->findWords(ref::word(x.first), e, 0, im); if(im.size() != 1 || im.getMatch(0) != x.second || im.getMatchError(0) != 0) c.fail("c27-find", "%s is not found as itself", sw.c_str()); }
        }
        if(h.has(x.first + U"?") && !h.m.count(x.first + U"?")) c.fail("c27-phantom", "%s? present", sw.c_str());
    }
    if(!h.kind && h.ix->numWords() != h.m.size()) c.fail("c27-number", "%zu words, expected %zu", (size_t)h.ix->numWords(), h.m.size());
}
static void fuzzy(mc::Ctx &c, Holder &h, const Letters &q, int maxError) {
    if(h.kind) return;
    ErrorValues e; ref::Costs k; IndexMatches im; h.ix->findWords(ref::word(q), e, maxError, im); c.eval(); std::map<WordID, int> got; for(size_t i = 0; i < im.size(); i++) got[im.getMatch(i)] = im.getMatchError(i);
    size_t want = 0; for(auto &x : h.m) { if(x.first.size() > q.size() + 4) continue; int d = ref::editCost(q, x.first, k); if(d <= maxError) { want++; if(!got.count(x.second) || got[x.second] != d) c.fail("c27-query", "query %s does not find %s at distance %d", ref::show(q).c_str(), ref::show(x.first).c_str(), d); } }
    if(want != got.size()) c.fail("c27-query", "query %s finds %zu words, expected %zu", ref::show(q).c_str(), got.size(), want);
}
static Letters word(size_t n, int salt) { Letters l; for(size_t i = 0; i < n; i++) l += (char32_t)('a' + (i * 5 + salt * 7 + i / 26) % 26); return l; }
#ifndef FLAVOUR_trie16
// First word of every length, then two more words sharing every kind of prefix with it, each possibly triggering the growth.
SCENARIO(alignment, 2) {
    static std::vector<size_t> near = [] { std::vector<size_t> v; for(size_t i = 1; i <= 68; i++) v.push_back(i); for(size_t i = 122; i <= 132; i++) v.push_back(i); return v; }();
    size_t L = c.quick ? c.pick(near) : 1 + c.choose(530); Holder h(c.choose(2));
    Letters first = word(L, 0); if(!h.add(first)) c.fail("c27-refused", "insertion refused"); c.step();
    c.log("first word of %zu letters", L);
    for(int i = 0; i < (L <= 140 ? 2 : 1); i++) {
        int at = c.choose(5), len = c.choose(L <= 70 && (!i || !c.quick) ? 4 : 2); size_t p = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? L / 2 : at == 3 ? L - 1 : L; p = std::min(p, L);
        Letters w = first.substr(0, p) + (i ? Letters(len == 3 ? 37 : len, U'Z' + 32) : Letters(len == 3 ? 33 : len, U'0')); if(w.empty()) w = U"q";
        c.log("word sharing %zu letters, %zu long", p, w.size());
        if(!h.add(w)) c.fail("c27-refused", "insertion refused"); c.step(); verify(c, h, true);
    }
    if(!h.add(U"tail")) c.fail("c27-refused", "insertion refused"); verify(c, h, true); fuzzy(c, h, U"tial", 200);
    uint64_t s = h.kind; for(auto &x : h.m) s = mc::mix(s, mc::hashSeq(x.first)); c.state(s); c.outcome(h.m.size());
}
// Very long words, in every order
SCENARIO(long_words, 2) {
    static std::vector<size_t> ns{1, 30, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 4096, 20000, 65535, 65536, 70000}; Holder h(c.choose(2));
    size_t a = c.pick(ns), b = c.pick(ns); bool share = c.flip(); if(c.quick && (a > 5000 && b > 1100) || (b > 5000 && a > 1100 && a != b)) return; c.state(mc::mix(a * 2 + share, b * 2 + h.kind));
    Letters wa = word(a, 1), wb = share ? wa.substr(0, std::min(a, b) / 2) + word(b, 3) : word(b, 2);
    for(auto &w : {wa, wb, wa + U"x", Letters(U"ab")}) { if(!h.add(w)) c.fail("c27-refused", "insertion refused"); c.step(); }
    verify(c, h, a < 1100 && b < 1100); fuzzy(c, h, U"ba", 200);
}
// Growth through many sizes: continuous check that everything is still there
SCENARIO(many, 2) {
    Holder h(c.choose(2)); int shape = c.choose(4); size_t n = c.quick ? 4000 : 100000; uint64_t lastNodes = 0; c.state(shape * 2 + h.kind);
    for(size_t i = 0; i < n; i++) {
        Letters w; for(char ch : std::to_string(shape == 0 ? i : shape == 1 ? i * 7919 % 1000003 : i)) w += (char32_t)ch; if(shape == 2) w = Letters(w.rbegin(), w.rend()); if(shape == 3) { Letters x; for(auto l : w) x += Letters(8, l); w = x; }
        if(!h.add(w)) c.fail("c27-refused", "insertion refused"); c.step();
        if(h.m.size() == 1 || (i & (i + 1)) == 0) verify(c, h, i < 3000);
        else { if(!h.has(w)) c.fail("c27-lost", "%s lost at once", ref::show(w).c_str()); if(h.kind && ref::lettersOf(h.st->getWord(h.m[w])) != w) c.fail("c27-corrupt", "%s corrupt at once", ref::show(w).c_str()); }
    }
    verify(c, h, false); fuzzy(c, h, U"123", 100);
}
// Whole engines growing document by document, asked after every growth
SCENARIO(engine, 2) {
    static std::vector<int> ls{1, 3, 17, 60}; int len = c.pick(ls), per = 1 + c.choose(3), rot = c.choose(4); Engine e; size_t n = c.quick ? 40 : 150; c.state(len * 100 + per * 10 + rot);
    for(size_t i = 0; i < n; i++) {
        RDoc d; d.id = i; for(int k = 0; k < per; k++) { Letters w = word(len + rot, (int)(i * 3 + k)); for(char ch : std::to_string(i * 3 + k)) w += (char32_t)ch; d.fields[U"f"].push_back(w); } Letters fn = U"g"; for(char ch : std::to_string(i % 9)) fn += (char32_t)ch; d.fields[fn] = {d.fields[U"f"][0]};
        e.index({d}); c.step();
    }
    for(size_t i = 0; i < n; i += 7) check(c, e, {e.r.docs[i].fields[U"f"][0]}, RParams(), true, "c27-engine");
}
#else
// Storage offsets narrowed to 16 bits: fill until refused, then go on using the object.
static Letters nth(int shape, size_t i, size_t len) {
    Letters num; for(char ch : std::to_string(i)) num += (char32_t)ch;
    switch(shape) { case 0: return num; case 1: return word(len, (int)i) + num; case 2: return word(len, 0) + num; case 3: return Letters(i + 1, U'k'); default: return Letters(1, (char32_t)(0x4E00 + i)) + Letters(i % len, U'm'); }
}
static const std::vector<size_t> &lens() { static std::vector<size_t> v{1, 2, 3, 5, 8, 13, 31, 32, 33, 100, 500, 900, 1100}; return v; }
static void after(mc::Ctx &c, Holder &h, const std::vector<Letters> &refused, int shape) {
    for(auto &w : refused) if(!h.m.count(w) && h.has(w)) c.fail("c27-phantom", "the refused word %s (%zu letters) is reported present", ref::show(w).substr(0, 80).c_str(), w.size());
    verify(c, h, h.m.size() < 300 && shape != 3); fuzzy(c, h, U"1k", 200); fuzzy(c, h, U"kkk", 100);
}
SCENARIO(exhaustion, 3) {
    Holder h(c.choose(2)); int shape = c.choose(5); size_t len = shape == 0 || shape == 3 ? 1 : c.pick(lens()), skip = c.choose(c.quick ? 8 : 33); std::vector<Letters> refused;
    if(skip && !h.add(word(skip, 11))) c.fail("c27-early", "refused at once"); // shifts the alignment of everything that follows
    size_t i = 0; for(;; i++) { Letters w = nth(shape, i, len); c.step(); if(!h.add(w)) { refused.push_back(w); break; } if(i > 70000) throw mc::HarnessError{"storage never exhausted"}; }
    c.log("%zu words accepted, then refused", i); c.state(mc::mix(i, shape * 1000 + len * 40 + skip) + h.kind);
    after(c, h, refused, shape);
    // continue with every sequence of two further operations (quick: all six in order or in reverse)
    bool reverse = c.quick && (skip & 1);
    for(int k = 0; k < (c.quick ? 6 : 2); k++) {
        int op = c.quick ? (reverse ? 5 - k : k) : c.choose(6); c.step(); Letters w;
        switch(op) { case 0: w = U"z"; break; case 1: w = h.m.begin()->first; if(!h.add(w)) c.fail("c27-known-refused", "a word that is already there is refused"); break; case 2: w = refused[0]; break; case 3: w = word(1200, 5); break; case 4: w = h.m.rbegin()->first + U"+"; break; case 5: w = h.m.rbegin()->first; if(w.size() > 1) w.pop_back(); break; }
        bool ok = op == 1 || h.add(w); if(!ok) refused.push_back(w); c.outcome(mc::mix(op * 2 + ok, shape)); c.log("operation %d %s", op, ok ? "accepted" : "refused");
    }
    after(c, h, refused, shape);
}
SCENARIO(engine, 2) {
    static std::vector<int> ls{1, 5, 40, 200, 900}; int len = c.pick(ls), shape = c.choose(4), offset = c.choose(c.quick ? 2 : 32); Engine e; size_t i = 0; std::map<uintptr_t, RDoc> tried; bool refused = false;
    if(offset) { RDoc d; d.id = 5000; d.fields[word(offset, 9)] = {U"f"}; e.index({d}); }
    for(; !refused; i++) {
        if(i > 5000) throw mc::HarnessError{"storage never exhausted"};
        RDoc d; d.id = i; Letters num; for(char ch : std::to_string(i)) num += (char32_t)ch; Letters w = (shape == 1 ? word(len, 0) : word(len, (int)i)) + num; d.fields[shape == 2 ? U"f" + num : Letters(U"f")] = {w}; if(shape == 3) d.fields[U"g"] = {w, U"common"};
        Corpus cp; cp.addDocument(ref::document(d)); c.step();
        try { e.m.index(cp); e.r.index(d); } catch(std::exception &) { refused = true; tried[d.id] = d; }
    }
    c.state(mc::mix(i, len * 4 + shape) + offset); c.outcome(i); c.log("refused after %zu documents", i);
    for(int round = 0; round < 2; round++) {
        size_t stride = e.r.docs.size() / (c.quick ? 6 : 24) + 1, pos = 0;
        for(auto &d : e.r.docs) for(auto &f : d.fields) { if((pos++) % stride && pos + 4 < e.r.docs.size()) continue; // every document indexed before is still found by its words, with unchanged relevancy unless the refused document shares the field
            auto got = ref::list(e.m.match(ref::wordList({f.second[0]}))); c.step(); c.eval(); bool found = false; for(auto &x : got) if(x.first == d.id) found = true;
            if(!found) c.fail("c27-engine-lost", "document %llu is not found any more", (unsigned long long)d.id);
            if(f.second[0].size() > 60) continue;
            auto want = e.r.match({f.second[0]});
            for(auto &x : got) if(!want.count(x.first) && !tried.count(x.first)) c.fail("c27-engine-phantom", "document %llu found wrongly", (unsigned long long)x.first);
        }
        bool t = false; try { Corpus cp; RDoc d; d.id = 9000 + round; d.fields[U"f"] = {word(1100, 3)}; tried[d.id] = d; cp.addDocument(ref::document(d)); e.m.index(cp); } catch(std::exception &) { t = true; }
        if(!t) c.fail("c27-engine-accept", "a word that can not fit was accepted");
    }
}
#endif
MC_MAIN
