// C25: the same engine built and asked with every pattern of upper and lower case must give the same answers.
#include "engine.hh"
using namespace Columbus; using namespace eng;
// A text with some letters replaced by their other case. Letters are kept as code points; pattern bit i applies to the i-th cased letter.
typedef std::vector<ref::CP> CPs;
static ref::CP up(ref::CP x) { ref::CP u = u_toupper(x); return u_tolower(u) == x ? u : x; }
static std::string text(const CPs &cps, unsigned pattern) { std::string s; int i = 0; for(auto x : cps) { bool cased = up(x) != x; ref::enc(cased && (pattern >> i & 1) ? up(x) : x, s); i += cased; } return s; }
static int cased(const CPs &cps) { int n = 0; for(auto x : cps) n += up(x) != x; return n; }
static CPs cps(const char *s) { CPs v; ref::dec(s, v); return v; }
typedef std::vector<std::pair<uintptr_t, double>> List;
// The places text can enter. All spelled by the caller.
struct Spelling { std::string docWord, docField, query, nosearch, filterField, filterWord, weight, primary, group; };
static std::vector<List> answers(const Spelling &s, int mode) {
    Matcher m; Corpus cp;
    Document d(1); d.addText(Word(s.docField), (s.docWord + " tail").c_str()); d.addText(Word("side"), "abq"); cp.addDocument(d);
    Document e(2); e.addText(Word("side"), s.docWord); cp.addDocument(e);
    Document f(3); WordList l; l.addWord(Word("tail")); l.addWord(Word(s.docWord)); l.addWord(Word("common")); f.addText(Word(s.docField), l); cp.addDocument(f);
    if(mode & 1) m.getErrorValues().setGroupError(Word(s.group), 20);
    m.index(cp);
    m.getIndexWeights().setWeight(Word(s.weight), 3.5);
    std::vector<List> r;
    r.push_back(ref::list(m.match(s.query.c_str())));
    { SearchParameters p; p.addNonsearchingField(Word(s.nosearch)); r.push_back(ref::list(m.match(s.query.c_str(), p))); }
    { SearchParameters p; p.getResultFilter().addNewSubTerm(Word(s.filterField), Word(s.filterWord)); p.setDynamic(false); r.push_back(ref::list(m.match(s.query.c_str(), p))); }
    WordList q; q.addWord(Word(s.query)); List o;
    try { o = ref::list(m.onlineMatch(q, Word(s.primary))); } catch(std::invalid_argument &) { o = {{424242, 0}}; }
    r.push_back(o);
    r.push_back({{m.getIndexWeights().getWeight(Word(s.docField)) == 3.5, 0}});
    return r;
}
static void same(mc::Ctx &c, const Spelling &s, int mode, const std::vector<List> &base) {
    auto got = answers(s, mode); c.step(); c.eval(got.size());
    static const char *names[] = {"query", "query with an excluded field", "filtered query", "live query", "weight"};
    for(size_t i = 0; i < got.size(); i++) { c.outcome(ref::hashResults(got[i]));
        if(got[i] != base[i]) c.fail("c25-answer", "%s changes with case: %s instead of %s (doc %s field %s query %s nosearch %s filter %s=%s weight %s primary %s group %s)", names[i], ref::show(got[i]).c_str(), ref::show(base[i]).c_str(), s.docWord.c_str(), s.docField.c_str(), s.query.c_str(), s.nosearch.c_str(), s.filterField.c_str(), s.filterWord.c_str(), s.weight.c_str(), s.primary.c_str(), s.group.c_str()); }
}
// every pattern of case over all places at once
struct Lang { const char *word, *query, *field, *group; };
static std::vector<Lang> langs{{"ab", "ac", "fi", "bc"}, {"\xc3\xa9\xc3\xb8", "\xc3\xa9\xc3\xb6", "\xc3\xa5g", "\xc3\xb6\xc3\xb8"}, {"\xd1\x8f\xd0\xb6", "\xd1\x8f\xd0\xb0", "\xd0\xb1\xd0\xb2", "\xd0\xb0\xd0\xb6"}, {"\xe1\xbb\x87k", "\xe1\xbb\x85k", "\xc7\xb9z", "\xe1\xbb\x85\xe1\xbb\x87"}};
SCENARIO(patterns, 5) {
    auto &L = langs[c.choose(c.quick ? 2 : 4)]; int mode = 1;
    static std::map<const Lang*, std::vector<List>> cache;
    CPs w = cps(L.word), q = cps(L.query), f = cps(L.field), g = cps(L.group);
    auto &base = cache[&L];
    if(base.empty()) base = answers({L.word, L.field, L.query, L.field, L.field, L.word, L.field, L.field, L.group}, mode);
    Spelling s; s.docWord = text(w, c.choose(4)); s.docField = text(f, c.choose(4)); s.query = text(q, c.choose(4)); s.filterField = text(f, c.choose(4)); s.filterWord = text(w, c.choose(4));
    auto any = [&] { return c.quick ? 3 * c.choose(2) : c.choose(4); };
    s.nosearch = text(f, any()); s.weight = text(f, any());
    int x = c.choose(c.quick ? 4 : 16); s.primary = text(f, x & 3); s.group = text(g, c.quick ? x ^ 1 : x >> 2);
    c.state(mc::hashStr(s.docWord + s.docField + s.query + s.filterField + s.filterWord + s.nosearch + s.weight + s.primary + s.group));
    c.log("doc %s field %s query %s nosearch %s filter %s=%s weight %s primary %s group %s", s.docWord.c_str(), s.docField.c_str(), s.query.c_str(), s.nosearch.c_str(), s.filterField.c_str(), s.filterWord.c_str(), s.weight.c_str(), s.primary.c_str(), s.group.c_str());
    same(c, s, mode, base);
}
// every cased letter (of the Basic Multilingual Plane in the default build, of all Unicode in the full one), one place at a time
static std::vector<ref::CP> &allCased() { static std::vector<ref::CP> v; if(v.empty()) for(ref::CP x = 'a'; x < (ref::wide ? 0x110000u : 0x10000u); x++) if(!(x >= 0xD800 && x < 0xE000) && up(x) != x) v.push_back(x); return v; }
// letters that are one of several upper or lower forms: everything that lower-cases to something else
static std::vector<ref::CP> &allUpper() { static std::vector<ref::CP> v; if(v.empty()) for(ref::CP x = 'A'; x < (ref::wide ? 0x110000u : 0x10000u); x++) if(!(x >= 0xD800 && x < 0xE000) && (ref::CP)u_tolower(x) != x) v.push_back(x); return v; }
SCENARIO(letters, 2) {
    bool viaUpper = c.flip(); auto &all = viaUpper ? allUpper() : allCased(); int block = c.choose((int)((all.size() + 15) / 16));
    for(size_t i = block * 16; i < all.size() && i < (size_t)block * 16 + 16; i++) {
        ref::CP lo = viaUpper ? (ref::CP)u_tolower(all[i]) : all[i], hi = viaUpper ? all[i] : up(all[i]);
        auto mk = [&](ref::CP x, const char *a, const char *b) { return a + ref::enc(x) + b; };
        Spelling b{mk(lo, "a", "b"), mk(lo, "", "f"), mk(lo, "a", "bc"), mk(lo, "", "f"), mk(lo, "", "f"), mk(lo, "a", "b"), mk(lo, "", "f"), mk(lo, "", "f"), mk(lo, "0", "c")};
        auto base = answers(b, 0); auto baseg = answers(b, 1); c.state(mc::mix(lo, hi));
        for(int k = 0; k < 9; k++) {
            Spelling s = b;
            switch(k) { case 0: s.docWord = mk(hi, "A", "B"); break; case 1: s.docField = mk(hi, "", "F"); break; case 2: s.query = mk(hi, "A", "bC"); break; case 3: s.nosearch = mk(hi, "", "F"); break; case 4: s.filterField = mk(hi, "", "F"); break;
                        case 5: s.filterWord = mk(hi, "A", "B"); break; case 6: s.weight = mk(hi, "", "F"); break; case 7: s.primary = mk(hi, "", "F"); break; case 8: s.group = mk(hi, "0", "C"); break; }
            same(c, s, k == 8, k == 8 ? baseg : base);
        }
    }
}
// error groups given in either case apply to texts in either case
SCENARIO(groups, 2) {
    static std::vector<std::pair<const char*, const char*>> pairs{{"a", "b"}, {"\xc3\xa9", "e"}, {"\xd0\xb6", "\xd1\x8f"}, {"\xe1\xbb\x87", "\xe1\xbb\x85"}, {"a", "\xe1\xbb\x87"}, {"\xc7\xbf", "\xc8\x81"}, {"\xc8\x81", "\xc8\x83"}};
    auto &p = c.pick(pairs); CPs g{cps(p.first)[0], cps(p.second)[0], 'q'}; CPs w{'x', g[0], 'y'}, q{'x', g[1], 'y'};
    int gp = c.choose(8), wp = c.choose(8), qp = c.choose(8); c.state(mc::mix(mc::hashStr(p.first), gp * 64 + wp * 8 + qp) + (unsigned char)p.second[0]);
    Matcher m; m.getErrorValues().setGroupError(Word(text(g, gp)), 7); Corpus cp; Document d(1); d.addText(Word("f"), text(w, wp).c_str()); cp.addDocument(d); m.index(cp);
    auto r = ref::list(m.match(text(q, qp))); c.step(); c.eval();
    double want = 100.0 / 107 * (1 - 0.5); if(r.size() != 1 || !ref::close(r[0].second, want)) c.fail("c25-group", "group %s, text %s, query %s: got %s, expected relevancy %g", text(g, gp).c_str(), text(w, wp).c_str(), text(q, qp).c_str(), ref::show(r).c_str(), want);
}
MC_MAIN
