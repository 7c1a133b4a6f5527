// C21 (system requests fail) and, with FAULT_MEMORY, C22 (allocations fail): every request of every history is made to fail,
// the operation must report it, everything completed before must still be there, and repeating the operation must succeed.
#include "engine.hh"
#include "faults.hh"
#include "columbus.h"
#include <sanitizer/common_interface_defs.h>
#include <memory>
using namespace Columbus; using namespace eng;
#ifdef FAULT_MEMORY
static const bool MEM = true;
#else
static const bool MEM = false;
#endif
static void quiet(mc::Ctx &c) {
    static bool done = false; if(done) return; done = true; if(c.verbose) { setvbuf(stderr, nullptr, _IOLBF, 0); return; }
    __sanitizer_set_report_fd((void*)(intptr_t)dup(2)); if(!freopen("/dev/null", "w", stderr)) throw mc::HarnessError{"no /dev/null"};
}
static int budget(mc::Ctx &c) { return c.quick || MEM ? 1 : 2; }
// Tries until no request fails any more. refuse: the arguments are such that the operation must be refused anyway.
// after: what has to hold after a failure.
template<class F, class A> static void attempt(mc::Ctx &c, const char *name, bool refuse, F f, A after) {
    c.step(); c.log("%s", name);
    for(int n = 0;; n++) {
        auto o = flt::guarded(c, f); c.eval();
        if(!o.threw) { if(refuse) c.fail("accepted", "%s: accepted although it has to be refused", name); return; }
        c.log("    %s: %s", name, o.what.c_str()); c.outcome(mc::mix(mc::hashStr(name), o.hits));
        if(!o.hits) { if(!refuse) c.fail("retry", "%s: fails%s: %s", name, n ? " again although nothing fails any more" : "", o.what.c_str()); after(); return; }
        after();
    }
}
template<class F> static void attempt(mc::Ctx &c, const char *name, bool refuse, F f) { attempt(c, name, refuse, f, [] {}); }

// ---- words ----
SCENARIO(words, 3) {
    quiet(c); static const std::string L(70, 'q'), M = L + "\xe4\xb8\xad\xf0\x9f\x98\x80" + L;
    static const std::vector<std::string> T{"", "a", "\xc3\x84""bc", "\xf0\x9f\x98\x80z", "a b", "ab\xff", "\xed\xa0\x80", "abcdefghijklmnop", L, M};
    std::string t0 = c.pick(T); int op = c.choose(13); std::string t = c.pick(T); flt::begin(c, budget(c)); c.state(mc::hashSeq(c.choices));
    std::vector<ref::CP> v; auto bad = [&](const std::string &s) { return !ref::dec(s, v) || s.find(' ') != s.npos; };
    std::unique_ptr<Word> w; std::string &init = t0;
    attempt(c, "new word", bad(init), [&] { w.reset(new Word(init.c_str())); }); if(!w) w.reset(new Word());
    Letters have = bad(init) ? Letters() : ref::letters(init); bool b = bad(t); Letters want = b ? have : ref::letters(t);
    auto same = [&] { Letters g = ref::lettersOf(*w); if(g != have) c.fail("word-changed", "a failed operation changed the word %s to %s", ref::show(have).c_str(), ref::show(g).c_str()); };
    auto is = [&](const Word &x, const Letters &l) { Letters g = ref::lettersOf(x); if(g != l) c.fail("word-value", "result is %s, expected %s", ref::show(g).c_str(), ref::show(l).c_str()); };
    std::unique_ptr<Word> r; Word other; if(!b) other = t; bool tf = false; std::string str; char buf[700];
    switch(op) {
    case 0: attempt(c, "assign text", b, [&] { *w = t.c_str(); }, same); if(!b) is(*w, want); break;
    case 1: attempt(c, "assign string", b, [&] { *w = t; }, same); if(!b) is(*w, want); break;
    case 2: attempt(c, "assign word", false, [&] { *w = other; }, same); if(!b) is(*w, want); break;
    case 3: attempt(c, "copy", false, [&] { r.reset(new Word(*w)); }, same); is(*r, have); break;
    case 4: attempt(c, "join", false, [&] { r.reset(new Word(w->join(other))); }, same); is(*r, have + (b ? Letters() : want)); break;
    case 5: attempt(c, "as utf-8", false, [&] { str = w->asUtf8(); }, same); if(str != ref::utf8(have)) c.fail("word-utf8", "utf-8 is %s", ref::showBytes(str).c_str()); break;
    case 6: attempt(c, "to utf-8", false, [&] { memset(buf, 1, sizeof buf); w->toUtf8(buf, sizeof buf); }, [&] { same(); if(!memchr(buf, 0, sizeof buf)) c.fail("word-utf8", "the buffer is not terminated after a failure"); }); if(ref::utf8(have) != buf) c.fail("word-utf8", "utf-8 is %s", ref::showBytes(buf).c_str()); break;
    case 7: attempt(c, "compare with text", false, [&] { tf = *w == t.c_str(); }, same); if(tf != (ref::utf8(have) == t)) c.fail("word-compare", "comparison with %s is %d", ref::showBytes(t).c_str(), tf); break;
    case 8: attempt(c, "differs from string", false, [&] { tf = *w != t; }, same); if(tf != (ref::utf8(have) != t)) c.fail("word-compare", "comparison with %s is %d", ref::showBytes(t).c_str(), tf); break;
    case 9: { std::vector<Letter> l; for(auto x : have) l.push_back(Letter((Letter_)x)); l.push_back(Letter((Letter_)0)); attempt(c, "from letters", false, [&] { r.reset(new Word(l.data(), l.size())); }); is(*r, have); break; }
    case 10: { Letter l[4] = {'a', ' ', 'b', 0}; attempt(c, "from letters with blank", true, [&] { r.reset(new Word(l, 4)); }); break; }
    case 11: attempt(c, "letter out of range", true, [&] { (*w)[5000]; }, same); break;
    default: { WordList l; std::string all = "x " + t + " y"; Text e; e.push_back(U"x"); bool rb = !ref::dec(t, v); if(!rb && t.size()) { if(t == "a b") { e.push_back(U"a"); e.push_back(U"b"); } else e.push_back(want); } e.push_back(U"y");
        attempt(c, "split", rb, [&] { l = splitToWords(all.c_str()); }); if(!rb) { if(l.size() != e.size()) c.fail("split", "%zu words", l.size()); for(size_t i = 0; i < e.size(); i++) is(l[i], e[i]); } } }
    attempt(c, "use again", false, [&] { Word k(*w); k = w->join(k); std::string s = k.asUtf8(); *w = Word(s); });
}
// ---- containers ----
static Letters tokenLetters(int i) { static const Letters T[] = {U"x", U"yy", U"zzz", U"abcdefghijklmnopqrstuvwxyz", U""}; return T[i]; }
SCENARIO(containers, 2) {
    quiet(c); int kind = c.choose(6), n = 1 + c.choose(c.quick ? 2 : 3); flt::begin(c, 0);
    std::vector<int> ops; for(int i = 0; i < n; i++) ops.push_back(c.choose(7)); c.state(mc::mix(kind, mc::hashSeq(ops)));
    flt::begin(c, budget(c)); Word W[5]; for(int i = 0; i < 5; i++) W[i] = ref::word(tokenLetters(i)); WordList L1, L2; Text t1{U"x", U"abcdefghijklmnopqrstuvwxyz", U"zzz"}, t2{U"yy"}; L1 = ref::wordList(t1); L2 = ref::wordList(t2);
    if(kind == 0) {          // word lists
        WordList a, b; Text ra, rb;
        for(int o : ops) { switch(o) {
            case 0: attempt(c, "append", false, [&] { a.addWord(W[0]); }); ra.push_back(tokenLetters(0)); break;
            case 1: attempt(c, "append long", false, [&] { a.addWord(W[3]); }); ra.push_back(tokenLetters(3)); break;
            case 2: attempt(c, "assign", false, [&] { b = a; }); rb = ra; break;
            case 3: attempt(c, "move", false, [&] { WordList k(a); b = std::move(k); }); rb = ra; break;
            case 4: attempt(c, "assign fixed", false, [&] { a = L1; }); ra = t1; break;
            case 5: { std::unique_ptr<WordList> k; attempt(c, "copy", false, [&] { k.reset(new WordList(a)); }); if(k->size() != ra.size()) c.fail("list", "copy has %zu words", k->size()); break; }
            default: attempt(c, "out of range", true, [&] { a[100]; }); }
            for(int k = 0; k < 2; k++) { WordList &l = k ? b : a; Text &r = k ? rb : ra; if(l.size() != r.size()) c.fail("list", "%zu words, expected %zu", l.size(), r.size()); for(size_t i = 0; i < r.size(); i++) if(ref::lettersOf(l[i]) != r[i]) c.fail("list", "word %zu is wrong", i); } }
    } else if(kind == 1) {   // documents
        Document d(4); RDoc r{4, {}}; static const char *LONG = "some words that are longer than the small ones x yy";
        for(int o : ops) { switch(o) {
            case 0: attempt(c, "text", false, [&] { d.addText(W[0], "x yy"); }); r.fields[U"x"] = Text{U"x", U"yy"}; break;
            case 1: attempt(c, "text long", false, [&] { d.addText(W[0], LONG); }); { Text t; std::string s(LONG); size_t p = 0; while(p <= s.size()) { size_t e = s.find(' ', p); if(e == s.npos) e = s.size(); t.push_back(ref::letters(s.substr(p, e - p))); p = e + 1; } r.fields[U"x"] = t; } break;
            case 2: attempt(c, "words", false, [&] { d.addText(W[1], L1); }); r.fields[U"yy"] = t1; break;
            case 3: attempt(c, "bad text", true, [&] { d.addText(W[2], "ab \xff"); }); break;
            case 4: { std::unique_ptr<Document> k; attempt(c, "copy", false, [&] { k.reset(new Document(d)); }); if(k->fieldCount() != r.fields.size()) c.fail("document", "copy has %zu fields", k->fieldCount()); attempt(c, "assign", false, [&] { d = *k; }); break; }
            case 5: { WordList names; attempt(c, "names", false, [&] { WordList k; d.getFieldNames(k); names = k; }); if(names.size() != r.fields.size()) c.fail("document", "%zu names", names.size()); break; }
            default: attempt(c, "missing field", true, [&] { d.getText(W[3]); }); }
            if(d.getID() != 4 || d.fieldCount() != r.fields.size()) c.fail("document", "%zu fields, expected %zu", d.fieldCount(), r.fields.size());
            for(auto &f : r.fields) { size_t k = 0; const WordList &l = d.getText(ref::word(f.first)); if(l.size() != f.second.size()) c.fail("document", "field has %zu words, expected %zu", l.size(), f.second.size()); for(auto &w : f.second) if(ref::lettersOf(l[k++]) != w) c.fail("document", "wrong word"); } }
    } else if(kind == 2) {   // corpora
        std::unique_ptr<Corpus> cp; attempt(c, "corpus", false, [&] { cp.reset(new Corpus()); }); Document d(4), e(9); d.addText(W[0], L1); e.addText(W[1], L2); std::vector<uintptr_t> ids;
        for(int o : ops) { for(int k = 0; k <= o; k++) { attempt(c, "add document", false, [&] { cp->addDocument(k & 1 ? e : d); }); ids.push_back(k & 1 ? 9 : 4); }
            if(cp->size() != ids.size()) c.fail("corpus", "%zu documents, expected %zu", cp->size(), ids.size()); for(size_t i = 0; i < ids.size(); i++) { auto &x = cp->getDocument(i); if(x.getID() != ids[i] || x.getText(W[ids[i] == 9]).size() != (ids[i] == 9 ? 1u : 3u)) c.fail("corpus", "document %zu is wrong", i); } }
    } else if(kind == 3) {   // results
        MatchResults a, b; std::vector<std::pair<uintptr_t, double>> ra, rb; auto order = [](std::vector<std::pair<uintptr_t, double>> v) { std::stable_sort(v.begin(), v.end(), [](const std::pair<uintptr_t, double> &x, const std::pair<uintptr_t, double> &y) { return x.second > y.second; }); return v; };
        for(int o : ops) { switch(o) {
            case 0: for(int i = 0; i < 5; i++) { attempt(c, "add", false, [&] { a.addResult(i, (i * 7 % 5) / 8.0); }); ra.push_back({i, (i * 7 % 5) / 8.0}); } break;
            case 1: attempt(c, "add", false, [&] { b.addResult(50, .9); }); rb.push_back({50, .9}); break;
            case 2: attempt(c, "merge", false, [&] { a.addResults(b); }); ra.insert(ra.end(), rb.begin(), rb.end()); break;
            case 3: attempt(c, "copy one", rb.empty(), [&] { a.copyResult(b, 0); }); if(rb.size()) { rb = order(rb); ra.push_back(rb[0]); } break;
            case 4: attempt(c, "assign", false, [&] { b = a; }); rb = ra; break;
            case 5: attempt(c, "copy and move", false, [&] { MatchResults k(a), m(std::move(k)); k = m; b = std::move(k); }); rb = ra; break;
            default: { uintptr_t id = 0; attempt(c, "read", ra.empty(), [&] { id = a.getDocumentID(0); a.getRelevancy(ra.size() - 1); }); if(ra.size() && id != order(ra)[0].first) c.fail("results", "first result is wrong"); } }
            for(int k = 0; k < 2; k++) { auto &l = k ? b : a; auto &r = k ? rb : ra; MatchResults copy(l); auto g = ref::list(copy), w = order(r); if(g.size() != w.size()) c.fail("results", "%zu results, expected %zu", g.size(), w.size()); for(size_t i = 0; i < g.size(); i++) if(g[i].second != w[i].second) c.fail("results", "result %zu is wrong", i); } }
    } else if(kind == 4) {   // parameters, filters
        SearchParameters p; RParams r; auto &f = p.getResultFilter();
        for(int o : ops) { switch(o) {
            case 0: attempt(c, "new term", false, [&] { f.addNewTerm(); }); r.filter.push_back({}); break;
            case 1: case 2: attempt(c, "requirement", false, [&] { f.addNewSubTerm(W[o], W[3]); }); r.filter.back().push_back({tokenLetters(o), tokenLetters(3)}); break;
            case 3: case 4: attempt(c, "not searched", false, [&] { p.addNonsearchingField(W[o - 1]); }); r.nosearch.insert(tokenLetters(o - 1)); break;
            case 5: { std::unique_ptr<SearchParameters> k; attempt(c, "new parameters", false, [&] { k.reset(new SearchParameters()); }); if(k->getResultFilter().numTerms() != 1) c.fail("filter", "new filter has %zu terms", k->getResultFilter().numTerms()); break; }
            default: attempt(c, "out of range", true, [&] { f.getWord(30, 30); }); }
            if(f.numTerms() != r.filter.size()) c.fail("filter", "%zu terms, expected %zu", f.numTerms(), r.filter.size());
            for(size_t i = 0; i < r.filter.size(); i++) { if(f.numSubTerms(i) != r.filter[i].size()) c.fail("filter", "term %zu has %zu requirements, expected %zu", i, f.numSubTerms(i), r.filter[i].size()); for(size_t k = 0; k < r.filter[i].size(); k++) if(ref::lettersOf(f.getField(i, k)) != r.filter[i][k].first || ref::lettersOf(f.getWord(i, k)) != r.filter[i][k].second) c.fail("filter", "requirement is wrong"); }
            for(int i = 0; i < 5; i++) if(p.isNonsearchingField(W[i]) != (r.nosearch.count(tokenLetters(i)) > 0)) c.fail("filter", "nonsearching field %d is wrong", i); }
    } else {                 // weights
        std::unique_ptr<IndexWeights> iw; attempt(c, "weights", false, [&] { iw.reset(new IndexWeights()); }); std::map<int, double> r;
        for(int o : ops) { int f = o % 4; double v = o / 4 + .5; attempt(c, "weight", false, [&] { iw->setWeight(W[f], v); }); r[f] = v; for(int i = 0; i < 5; i++) { double g = iw->getWeight(W[i]); if(g != (r.count(i) ? r[i] : 1.0)) c.fail("weight", "weight is %g", g); } }
    }
}
// ---- word store and Levenshtein index ----
static std::vector<Letters> shape(int s) {
    std::vector<Letters> v; Letters l;
    switch(s) {
    case 0: for(int i = 0; i < 8; i++) { l += U'a' + i; v.push_back(l); } break;
    case 1: for(int i = 0; i < 12; i++) v.push_back(Letters(1, U'a' + i)); break;
    case 2: for(int i = 0; i < 4; i++) v.push_back(Letters(30 + i, U'k') + Letters(1, U'a' + i)); break;
    case 3: for(int i = 0; i < 5; i++) v.push_back(Letters(1, U'p' + i) + Letters(18, U'r')); v.push_back(U""); v.push_back(U"p"); break;
    case 4: v = {U"a", Letters(140, U'b'), U"b", U"ab", Letters(141, U'b'), U"c"}; break;
    default: for(int i = 0; i < 24; i++) v.push_back(Letters(1, U'a' + i % 5) + Letters(1, U'a' + i / 5)); break;
    }
    return v;
}
SCENARIO(store, 2) {
    quiet(c); int s = c.choose(6), order = c.choose(3); auto v = shape(s); c.state(s * 3 + order);
    if(order == 1) std::reverse(v.begin(), v.end()); if(order == 2) { std::vector<Letters> o; for(size_t i = 0; i < v.size(); i++) { o.push_back(v[i]); o.push_back(v[i / 2]); } v = o; }
    flt::begin(c, budget(c)); std::unique_ptr<WordStore> st; attempt(c, "new store", false, [&] { st.reset(new WordStore()); });
    std::map<Letters, WordID> ids; std::vector<Letters> names;
    for(auto &l : v) {
        Word w = ref::word(l); WordID id = 0; bool known = ids.count(l);
        auto intact = [&] { for(auto &x : ids) { Word k = ref::word(x.first); if(!st->hasWord(k)) c.fail("store", "%s is lost after a failure", ref::show(x.first).c_str()); if(ref::lettersOf(st->getWord(x.second)) != x.first) c.fail("store", "identifier %u no longer gives %s after a failure", x.second, ref::show(x.first).c_str()); if(st->getID(k) != x.second) c.fail("store", "identifier of %s changed after a failure", ref::show(x.first).c_str()); } };
        attempt(c, "identifier", false, [&] { id = st->getID(w); }, intact);
        if(known ? ids[l] != id : id != names.size()) c.fail("store", "identifier of %s is %u, expected %u", ref::show(l).c_str(), id, known ? ids[l] : (WordID)names.size());
        if(!known) { ids[l] = id; names.push_back(l); }
        Letters back; WordID q = (WordID)(names.size() / 2); attempt(c, "word of identifier", false, [&] { Word k = st->getWord(q); flt::Off off; back = ref::lettersOf(k); }, intact); if(back != names[q]) c.fail("store", "word %u is wrong", q);
    }
    attempt(c, "unknown identifier", true, [&] { st->getWord((WordID)names.size()); });
    for(auto &x : ids) if(st->getID(ref::word(x.first)) != x.second || ref::lettersOf(st->getWord(x.second)) != x.first) c.fail("store", "%s has the wrong identifier in the end", ref::show(x.first).c_str());
    if(st->hasWord((WordID)names.size())) c.fail("store", "an identifier was used up by a failure");
}
SCENARIO(word_index, 2) {
    quiet(c); int s = c.choose(6), order = c.choose(2); auto v = shape(s); c.state(s * 2 + order); if(order) std::reverse(v.begin(), v.end());
    flt::begin(c, budget(c)); std::unique_ptr<LevenshteinIndex> ix; attempt(c, "new index", false, [&] { ix.reset(new LevenshteinIndex()); }); ErrorValues e;
    std::map<Letters, std::pair<WordID, size_t>> have; WordID next = 5;
    auto all = [&](bool after, const Letters *cur) { size_t mx = 0; for(auto &x : have) { mx = std::max(mx, x.second.second); Word w = ref::word(x.first); if(!ix->hasWord(w)) c.fail("index", "%s is lost", ref::show(x.first).c_str()); if(ix->wordCount(x.second.first) != x.second.second) c.fail("index", "count of %s is %zu, expected %zu", ref::show(x.first).c_str(), ix->wordCount(x.second.first), x.second.second); }
        if(ix->maxCount() != mx) c.fail("index", "largest count is %zu, expected %zu", ix->maxCount(), mx);
        for(auto &x : have) { IndexMatches m; ix->findWords(ref::word(x.first), e, 100, m); std::map<WordID, int> got; for(size_t i = 0; i < m.size(); i++) got[m.getMatch(i)] = m.getMatchError(i);
            for(auto &y : have) { int d = ref::editCost(x.first, y.first, ref::Costs()); auto g = got.find(y.second.first); if(d <= 100 ? g == got.end() || g->second != d : g != got.end()) c.fail("index", "query %s: word %s is %s", ref::show(x.first).c_str(), ref::show(y.first).c_str(), g == got.end() ? "not found" : "found with the wrong error"); got.erase(y.second.first); }
            if(after && got.size() == 1 && cur && !have.count(*cur)) got.clear();   // the word being added may have got in
            if(got.size()) c.fail("index", "query %s finds an unknown word", ref::show(x.first).c_str()); } };
    for(int round = 0; round < 2; round++) for(size_t k = 0; k < v.size(); k += 1 + round * 3) {
        const Letters &l = v[k]; if(l.empty()) continue; Word w = ref::word(l); WordID id = have.count(l) ? have[l].first : next;
        attempt(c, "insert", false, [&] { ix->insertWord(w, id); }, [&] { all(true, &l); });
        if(!have.count(l)) { have[l] = {id, 0}; next++; } have[l].second++;
        if(k % 3 == 2) { Letters q = v[k / 2]; std::map<WordID, int> got; if(q.empty()) continue; Word qw = ref::word(q);
            attempt(c, "search", false, [&] { IndexMatches m; ix->findWords(qw, e, 200, m); flt::Off off; got.clear(); for(size_t i = 0; i < m.size(); i++) got[m.getMatch(i)] = m.getMatchError(i); }, [&] { all(true, nullptr); });
            for(auto &y : have) { int d = ref::editCost(q, y.first, ref::Costs()); auto g = got.find(y.second.first); if(d <= 200 ? g == got.end() || g->second != d : g != got.end()) c.fail("index", "search for %s: wrong answer for %s", ref::show(q).c_str(), ref::show(y.first).c_str()); } }
    }
    all(false, nullptr); if(ix->numWords() != have.size()) c.fail("index", "%zu words, expected %zu", ix->numWords(), have.size());
}
// ---- whole engines ----
static Text words(const char *s) { Text t; std::string x(s); size_t p = 0; while(p < x.size()) { size_t e = x.find(' ', p); if(e == x.npos) e = x.size(); t.push_back(ref::letters(x.substr(p, e - p))); p = e + 1; } return t; }
static std::vector<RDoc> batch(int k) {
    RDoc a{1, {{U"f", words("abc abd")}, {U"g", words("tail abc")}}}, b{2, {{U"f", words("abd abd")}}}, e{3, {{U"f", words("abcd qrstuvwxyzabcdefghijklmnop abd")}, {U"h", words("qqqqqqqqqqqqqqqqqqqqqqqqqqqqqq rrrrrrrrrrrrrrrr abc")}}}, r{1, {{U"f", words("zzz")}}};
    switch(k) { case 0: return {a}; case 1: return {b, e}; case 2: return {r, a}; default: return {e}; }
}
struct Tracked {
    std::unique_ptr<Matcher> m; REngine done, all; bool tainted = false;
    typedef std::vector<std::pair<uintptr_t, double>> List;
    void compare(mc::Ctx &c, const List &got, const std::map<uintptr_t, double> &lo, const std::map<uintptr_t, double> &hi, const std::string &q) {
        c.eval(); c.outcome(ref::hashResults(got));
        if(!tainted) { std::string e = ref::compare(got, lo); if(e.size()) c.fail("engine", "query %s: %s; got %s, expected %s", q.c_str(), e.c_str(), ref::show(got).c_str(), ref::show(lo).c_str()); return; }
        std::set<uintptr_t> ids; for(auto &x : got) { if(!ids.insert(x.first).second) c.fail("engine", "query %s lists document %llu twice", q.c_str(), (unsigned long long)x.first); if(!hi.count(x.first)) c.fail("engine", "query %s returns document %llu after a failure, which does not match", q.c_str(), (unsigned long long)x.first); }
        for(auto &x : lo) if(!ids.count(x.first)) c.fail("engine", "query %s no longer returns document %llu after a failure; got %s", q.c_str(), (unsigned long long)x.first, ref::show(got).c_str());
    }
    void probe(mc::Ctx &c) {      // without faults
        for(auto q : {"abc", "abd", "tail", "zzz", "abcd qqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "qrstuvwxyzabcdefghijklmnop"}) { Text t = words(q); compare(c, ref::list(m->match(ref::wordList(t))), done.match(t), all.match(t), q); }
        RParams p; p.nosearch.insert(U"g"); p.filter = {{{U"f", U"abd"}}, {{U"h", U"abc"}, {U"f", U"nosuch"}}}; SearchParameters sp; ref::apply(p, sp); Text t = words("abc"); compare(c, ref::list(m->match(ref::wordList(t), sp)), done.match(t, p), all.match(t, p), "abc with filter");
        if(done.seen.count(U"f") && !tainted) compare(c, ref::list(m->onlineMatch(ref::wordList(t), Word("f"))), done.online(t, U"f"), all.online(t, U"f"), "abc online");
    }
};
static const char *EOPS[] = {"index 0", "index 1", "index 2", "index 3", "match abd", "match text", "match with filter", "online match", "weight", "standard costs"};
static void engineOp(mc::Ctx &c, Tracked &t, int op) {
    if(op < 4) {
        auto docs = batch(op); Corpus cp; for(auto &d : docs) cp.addDocument(ref::document(d));
        for(auto &d : docs) t.all.index(d);
        attempt(c, EOPS[op], false, [&] { t.m->index(cp); }, [&] { t.tainted = true; t.probe(c); });
        for(auto &d : docs) t.done.index(d);
    } else if(op < 8) {
        Tracked::List got; RParams p; std::string name = EOPS[op]; Text q = words(op == 5 ? "abe tail" : "abd"); WordList wl = ref::wordList(q); bool refuse = op == 7 && !t.done.seen.count(U"f");
        if(op == 6) { p.nosearch.insert(U"g"); p.filter = {{{U"g", U"tail"}}, {{U"f", U"abcd"}, {U"h", U"abc"}}}; }
        SearchParameters sp; ref::apply(p, sp); Word f("f"); if(op == 7 && t.tainted) refuse = false;
        auto run = [&] { MatchResults r = op == 4 ? t.m->match(wl) : op == 5 ? t.m->match("abe Tail") : op == 6 ? t.m->match(wl, sp) : t.m->onlineMatch(wl, f); MatchResults k; k = r; r.size() ? r.getDocumentID(0) : 0; flt::Off off; got = ref::list(r); };
        attempt(c, EOPS[op], refuse, run, [&] { t.probe(c); });
        if(!refuse) { if(op == 7) t.compare(c, got, t.done.online(q, U"f"), t.all.online(q, U"f"), name); else t.compare(c, got, t.done.match(q, p), t.all.match(q, p), name); }
    } else if(op == 8) {
        Word f("f"); attempt(c, EOPS[op], false, [&] { t.m->getIndexWeights().setWeight(f, 3); }, [&] { t.probe(c); }); t.done.weights[U"f"] = t.all.weights[U"f"] = 3;
    } else {
        attempt(c, EOPS[op], false, [&] { auto &e = t.m->getErrorValues(); e.clearErrors(); e.addStandardErrors(); }, [&] { t.m->getErrorValues().clearErrors(); t.probe(c); }); t.m->getErrorValues().clearErrors();   // the costs themselves: scenario costs
    }
}
SCENARIO(engines, 2) {
    quiet(c); int n = 1 + c.choose(c.quick ? 2 : 3); std::vector<int> ops; for(int i = 0; i < n; i++) ops.push_back(c.choose(i == n - 1 || !MEM ? 10 : 9)); c.state(mc::hashSeq(ops));
    if(MEM && n > 1) for(int i = 0; i + 1 < n; i++) if(ops[i] > 3) return;   // failures inside earlier operations are covered by shorter histories
    Tracked t; flt::begin(c, MEM && n > 1 ? 0 : n > 2 ? 1 : budget(c)); attempt(c, "new engine", false, [&] { t.m.reset(new Matcher()); });
    for(int i = 0; i < n; i++) { if(i == n - 1) if(MEM && n > 1) flt::begin(c, 1); engineOp(c, t, ops[i]); }
    t.probe(c); flt::begin(c, 0); engineOp(c, t, 3); t.probe(c);
}
// ---- substitution costs ----
SCENARIO(costs, 2) {
    quiet(c); int pre = c.choose(4), op = c.choose(8); c.state(pre * 8 + op); flt::begin(c, op == 6 || op == 5 ? 1 : budget(c));
    static const std::vector<std::string> P{"a", "b", "e", "1", "q", "w", "\xc3\xa9", "\xc3\xa1", "\xce\xb1", "\xce\xac", "\xe4\xb8\xad", "z", "x", "\xc8\x81"}; static Letters probe; if(probe.empty()) for(auto &p : P) probe += ref::letters(p);
    auto table = [&](const ErrorValues &e) { std::vector<int> v; for(auto a : probe) for(auto b : probe) v.push_back(e.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b))); v.push_back(e.getStartInsertionError(5)); v.push_back(e.getEndDeletionError()); return v; };
    auto before = [&](ErrorValues &e) { if(pre == 1) e.setGroupError(Word("zx"), 44); if(pre == 2) { e.setError(Letter('q'), Letter('w'), 3); e.setError(Letter('a'), Letter(0x4e2d), 8); } if(pre == 3) e.addAccents(greekAccentGroup); };
    static const Word G1("bq1\xe4\xb8\xad"), G2("zb");
    auto apply = [&](ErrorValues &e) { switch(op) { case 0: e.setError(Letter('a'), Letter(0x4e2d), 7); break; case 1: e.setGroupError(G1, 12); break; case 2: e.setGroupError(G2, 13); break; case 3: e.addAccents(latinAccentGroup); break; case 4: e.addKeyboardErrors(); break; case 5: e.addNumberpadErrors(); break; case 6: e.addStandardErrors(); break; default: e.clearErrors(); e.setSubstringMode(); } };
    std::unique_ptr<ErrorValues> e; attempt(c, "new costs", false, [&] { e.reset(new ErrorValues()); }); ErrorValues twin; before(*e); before(twin); auto old = table(twin); bool refused = false; try { apply(twin); } catch(std::exception &) { refused = true; } auto now = table(twin);
    attempt(c, "change costs", refused, [&] { apply(*e); }, [&] { auto t = table(*e); for(size_t i = 0; i < t.size(); i++) if(t[i] != old[i] && t[i] != now[i]) c.fail("costs", "after a failure a cost is %d, which is neither the old %d nor the new %d", t[i], old[i], now[i]); });
    auto t = table(*e); if(t != now) c.fail("costs", "after repeating the failed change (before: %d, change %d) the costs differ from those of an undisturbed change", pre, op);
}
// ---- the C interface ----
SCENARIO(c_interface, 1) {
    quiet(c); int op = c.choose(14), where = c.choose(2); c.state(op * 2 + where); flt::begin(c, 0); c.step(); c.log("call %d", op);
    ColWord w = col_word_new("\xc3\x84""bcdefghijklmnopq"), f = col_word_new("f"); ColDocument d = col_document_new(3); col_document_add_text(d, f, "abc abd"); ColCorpus cp = col_corpus_new(); col_corpus_add_document(cp, d); ColMatcher m = col_matcher_new(); if(where) col_matcher_index(m, cp);
    if(!w || !f || !d || !cp || !m) throw mc::HarnessError{"set-up"};
    auto call = [&](bool &good) {       // good: the call gave its full result
        good = true;
        switch(op) {
        case 0: { ColWord x = col_word_new("someword\xc3\xa9"); good = x; if(x) { if(col_word_length(x) != 9) c.fail("c", "wrong length"); col_word_delete(x); } break; }
        case 1: { char b[64]; memset(b, '#', 64); col_word_as_utf8(w, b, 64); if(!memchr(b, 0, 64)) c.fail("c", "the buffer is not terminated"); good = !strcmp(b, "\xc3\xa4""bcdefghijklmnopq"); if(!good && b[0]) { flt::Off off; if(std::string("\xc3\xa4""bcdefghijklmnopq").find(b) != 0) c.fail("c", "wrong text"); } break; }
        case 2: { ColDocument x = col_document_new(8); good = x; if(x) { if(col_document_get_id(x) != 8) c.fail("c", "wrong id"); col_document_delete(x); } break; }
        case 3: col_document_add_text(d, f, "new text of some length"); break;
        case 4: { ColCorpus x = col_corpus_new(); good = x; if(x) col_corpus_delete(x); break; }
        case 5: col_corpus_add_document(cp, d); break;
        case 6: { ColMatcher x = col_matcher_new(); good = x; if(x) { flt::Off off; ColMatchResults r = col_matcher_match(x, "abc"); if(!r || col_match_results_size(r)) c.fail("c", "new matcher is not empty"); col_match_results_delete(r); col_matcher_delete(x); } break; }
        case 7: col_matcher_index(m, cp); break;
        case 8: { ColMatchResults r = col_matcher_match(m, "abd Abc"); good = r; if(r) { size_t n = col_match_results_size(r); if(n != (size_t)where || (n && col_match_results_get_id(r, 0) != 3)) c.fail("c", "wrong results (%zu)", n); col_match_results_delete(r); } break; }
        case 9: { ColMatchResults r = col_match_results_new(); good = r; if(r) { if(col_match_results_size(r) || col_match_results_get_id(r, 0) != INVALID_DOCID || col_match_results_get_relevancy(r, 0) != -1.0) c.fail("c", "wrong empty results"); col_match_results_delete(r); } break; }
        case 10: col_error_values_add_standard_errors(col_matcher_get_error_values(m)); break;
        case 11: col_error_values_set_substring_mode(col_matcher_get_error_values(m)); break;
        case 12: col_index_weights_set_weight(col_matcher_get_index_weights(m), f, 2.5); break;
        case 13: { double v = col_index_weights_get_weight(col_matcher_get_index_weights(m), f); if(v != 1.0) c.fail("c", "weight %g", v); break; }
        }
    };
    flt::begin(c, budget(c)); bool good = false;
    for(int n = 0; n < 4; n++) { auto o = flt::guarded(c, [&] { call(good); }); c.eval(); if(o.threw) c.fail("c", "call %d lets an exception out: %s", op, o.what.c_str()); if(!o.hits) { if(!good) c.fail("c", "call %d fails although nothing fails any more", op); break; } c.outcome(mc::mix(op, good)); }
    // everything is still usable
    flt::begin(c, 0); ColWord w2 = col_word_new("abc"); col_document_add_text(d, w2, "abc"); col_corpus_add_document(cp, d); col_matcher_index(m, cp); ColMatchResults r = col_matcher_match(m, "abc");
    if(!r || col_match_results_size(r) != 1 || col_match_results_get_id(r, 0) != 3) c.fail("c", "after call %d the matcher gives wrong results", op);
    if(op == 12 && col_index_weights_get_weight(col_matcher_get_index_weights(m), f) != 2.5) c.fail("c", "the weight was not set");
    if(col_word_length(w) != 17) c.fail("c", "a word changed");
    col_match_results_delete(r); col_word_delete(w); col_word_delete(w2); col_word_delete(f); col_document_delete(d); col_corpus_delete(cp); col_matcher_delete(m);
}
MC_MAIN
