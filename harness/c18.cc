// C18: histories of operations on documents, corpora and word lists, against plain maps and vectors.
#include "ref.hh"
using namespace Columbus; using ref::Letters; using ref::Text; using ref::RDoc;
static void same(mc::Ctx &c, const WordList &l, const Text &t, const char *who) {
    c.eval();
    if(l.size() != t.size()) c.fail("c18-list-size", "%s has %zu words, expected %zu", who, (size_t)l.size(), t.size());
    for(size_t i = 0; i < t.size(); i++) if(ref::lettersOf(l[i]) != t[i]) c.fail("c18-list-word", "%s word %zu is %s, expected %s", who, i, ref::show(l[i]).c_str(), ref::show(t[i]).c_str());
    for(size_t i : {t.size(), t.size() + 1, (size_t)-1}) { bool x = false; try { l[i].length(); } catch(std::out_of_range &) { x = true; } if(!x) c.fail("c18-list-range", "%s: position %zu past the end did not raise", who, i); }
}
static std::vector<Letters> POOL{U"f", U"g", U"fg", U""};
static void same(mc::Ctx &c, const Document &d, const RDoc &r, const char *who) {
    c.eval();
    if((uintptr_t)d.getID() != r.id) c.fail("c18-doc-id", "%s has id %llu, expected %llu", who, (unsigned long long)d.getID(), (unsigned long long)r.id);
    if(d.fieldCount() != r.fields.size()) c.fail("c18-doc-fields", "%s has %zu fields, expected %zu", who, (size_t)d.fieldCount(), r.fields.size());
    WordList names; names.addWord(Word("first")); d.getFieldNames(names); std::set<Letters> got;
    if(names.size() != r.fields.size() + 1 || ref::lettersOf(names[0]) != U"first") c.fail("c18-doc-names", "%s: field names are not appended", who);
    for(size_t i = 1; i < names.size(); i++) if(!got.insert(ref::lettersOf(names[i])).second) c.fail("c18-doc-names", "%s lists a field twice", who);
    std::map<Letters, size_t> total; std::vector<Letters> probes{U"a", U"b", U"ab", U"", U"zz", U"f", U"fg"};
    for(auto &f : r.fields) { if(!got.count(f.first)) c.fail("c18-doc-names", "%s does not list field %s", who, ref::show(f.first).c_str()); same(c, d.getText(ref::word(f.first)), f.second, who); }
    for(auto &w : probes) {
        size_t tot = 0; for(auto &f : r.fields) for(auto &x : f.second) tot += x == w;
        for(auto &f : POOL) {
            size_t n = 0; auto it = r.fields.find(f); if(it != r.fields.end()) for(auto &x : it->second) n += x == w;
            if(d.wordCount(ref::word(w), ref::word(f)) != n) c.fail("c18-doc-count", "%s: wordCount(%s, %s) is %zu, expected %zu", who, ref::show(w).c_str(), ref::show(f).c_str(), (size_t)d.wordCount(ref::word(w), ref::word(f)), n);
        }
        if(d.totalWordCount(ref::word(w)) != tot) c.fail("c18-doc-total", "%s: totalWordCount(%s) is %zu, expected %zu", who, ref::show(w).c_str(), (size_t)d.totalWordCount(ref::word(w)), tot);
    }
    for(auto &f : {Letters(U"f"), Letters(U"g"), Letters(U"fg"), Letters(U""), Letters(U"unknown")}) if(!r.fields.count(f)) { bool x = false; try { d.getText(ref::word(f)); } catch(std::exception &) { x = true; } if(!x) c.fail("c18-doc-unknown", "%s: text of unknown field %s did not raise", who, ref::show(f).c_str()); }
}
static uint64_t hash(const Text &t) { uint64_t h = t.size(); for(auto &w : t) h = mc::mix(h, mc::hashSeq(w)); return h; }
static uint64_t hash(const RDoc &d) { uint64_t h = d.id; for(auto &f : d.fields) h = mc::mix(mc::mix(h, mc::hashSeq(f.first)), hash(f.second)); return h; }
// --- word lists: two lists, all operations including on themselves
static void lists(mc::Ctx &c, int slots, int depth) {
    std::vector<WordList> l(slots); std::vector<Text> m(slots); static std::vector<Letters> W{U"ab", U"c"};
    for(int i = 0; i < depth; i++) {
        int s = c.choose(slots), op = c.choose(2 + 7 * slots); c.step();
        if(op < 2) { c.log("list %d: add %s", s, ref::show(W[op]).c_str()); l[s].addWord(ref::word(W[op])); m[s].push_back(W[op]); }
        else {
            int k = (op - 2) % 7, o = (op - 2) / 7; c.log("list %d: operation %d with list %d", s, k, o);
            switch(k) {
            case 0: l[s] = l[o]; m[s] = Text(m[o]); break;
            case 1: l[s] = std::move(l[o]); if(s != o) { m[s] = m[o]; m[o].clear(); } break;
            case 2: { WordList t(l[o]); t.addWord(Word("extra")); l[s] = t; Text x = m[o]; x.push_back(U"extra"); m[s] = x; t.addWord(Word("no")); break; }
            case 3: { WordList t(std::move(l[o])); Text x = m[o]; m[o].clear(); if(l[o].size()) c.fail("c18-moved", "moved-from list not empty"); l[o].addWord(Word("again")); m[o].push_back(U"again"); l[s] = t; m[s] = x; break; }
            case 4: if(m[o].size()) { l[s].addWord(l[o][m[o].size() - 1]); Letters x = m[o].back(); m[s].push_back(x); } break;
            case 5: { bool e = l[s] == l[o], n = l[s] != l[o]; if(e != (m[s] == m[o]) || n == e) c.fail("c18-equal", "comparison of %s and %s gives == %d != %d", ref::show(m[s]).c_str(), ref::show(m[o]).c_str(), e, n); break; }
            case 6: { const WordList &r = (l[s] = l[o]); m[s] = Text(m[o]); if(&r != &l[s]) c.fail("c18-assign", "assignment does not return the list"); WordList t; t = std::move(l[s]); l[s] = std::move(t); break; }
            }
        }
        uint64_t h = 5; for(auto &x : m) h = mc::mix(h, hash(x)); c.state(h);
    }
    uint64_t h = 9; for(int k = 0; k < slots; k++) { same(c, l[k], m[k], "list"); h = mc::mix(h, hash(m[k])); } c.outcome(h);
    for(int k = 0; k < slots; k++) { l[k].addWord(Word("tail")); m[k].push_back(U"tail"); } for(int k = 0; k < slots; k++) same(c, l[k], m[k], "list after a further word");
}
SCENARIO(two_lists, 2) { lists(c, 2, c.quick ? 4 : 5); }
SCENARIO(three_lists, 2) { lists(c, 3, c.quick ? 2 : 3); }
// --- documents: two documents with up to three fields
SCENARIO(two_documents, 3) {
    Document *d[2] = {new Document(7), new Document((uintptr_t)-3)}; RDoc m[2]; m[0].id = 7; m[1].id = (uintptr_t)-3;
    struct Free { Document **d; ~Free() { delete d[0]; delete d[1]; } } fr{d};
    static std::vector<Text> T{{}, {U"a", U"fg"}, {U"b", U"f", U"b", U"fg"}, {U"ab", U"", U"f"}};
    int depth = c.quick ? 4 : 5;
    for(int i = 0; i < depth; i++) {
        static std::vector<int> ops{1, 2, 4, 6, 8, 9, 10, 11, 12, 13, 15, 16}; int s = c.choose(2), op = c.quick ? c.pick(ops) : c.choose(17), o = 1 - s; c.step(); c.log("document %d: operation %d", s, op);
        if(op < 8) { auto &f = POOL[op / 4 ? 2 : 0]; auto &t = T[op % 4]; d[s]->addText(ref::word(f), ref::wordList(t)); m[s].fields[f] = t; }
        else if(op == 8) { d[s]->addText(Word("g"), " b a\tAB\n"); m[s].fields[U"g"] = {U"b", U"a", U"ab"}; }
        else if(op == 9) { d[s]->addText(Word(""), std::string("zz")); m[s].fields[U""] = {U"zz"}; }
        else if(op == 10) { *d[s] = *d[o]; m[s] = m[o]; }
        else if(op == 11) { Document *n = new Document(*d[o]); delete d[s]; d[s] = n; m[s] = m[o]; }
        else if(op == 12) { bool x = false; try { d[s]->addText(Word("f"), "ok \xff bad"); } catch(std::exception &) { x = true; } if(!x) c.fail("c18-refuse", "ill-formed text accepted"); }
        else if(op == 13) { if(m[s].fields.count(U"f")) { d[s]->addText(Word("g"), d[s]->getText(Word("f"))); Text t = m[s].fields[U"f"]; m[s].fields[U"g"] = t; d[s]->addText(Word("g"), d[s]->getText(Word("g"))); } }
        else if(op == 14) { *d[s] = *d[s]; }
        else if(op == 15) { WordList l = ref::wordList({U"a", U"zz"}); d[s]->addText(Word("fg"), l); l.addWord(Word("later")); m[s].fields[U"fg"] = {U"a", U"zz"}; }
        else { Document t(*d[s]); t.addText(Word("f"), "changed"); t.addText(Word("h"), "new"); }
        c.state(mc::mix(hash(m[0]), hash(m[1])));
    }
    for(int k = 0; k < 2; k++) same(c, *d[k], m[k], "document");
    c.outcome(mc::mix(hash(m[0]), hash(m[1])));
}
// --- corpora
SCENARIO(corpora, 2) {
    Corpus a, b; std::vector<RDoc> ma, mb; RDoc dm; dm.id = 1; Document d(1); int n = c.quick ? 6 : 8;
    for(int i = 0; i < n; i++) {
        int op = c.choose(5); c.step(); c.log("operation %d", op);
        if(op == 0) { a.addDocument(d); ma.push_back(dm); }
        else if(op == 1) { b.addDocument(d); mb.push_back(dm); }
        else if(op == 2) { Letters w = U"w"; w += (char32_t)('a' + i); d.addText(Word("f"), ref::utf8(w).c_str()); dm.fields[U"f"] = {w}; }
        else if(op == 3) { if(ma.size()) { a.addDocument(a.getDocument(0)); ma.push_back(RDoc(ma[0])); } }
        else { if(mb.size()) { a.addDocument(b.getDocument(mb.size() - 1)); ma.push_back(mb.back()); d = b.getDocument(0); dm = mb[0]; } }
        uint64_t h = hash(dm); for(auto &x : ma) h = mc::mix(h, hash(x)); for(auto &x : mb) h = mc::mix(h + 1, hash(x)); c.state(h);
    }
    for(int k = 0; k < 2; k++) {
        Corpus &x = k ? b : a; auto &m = k ? mb : ma; c.eval();
        if(x.size() != m.size()) c.fail("c18-corpus-size", "corpus has %zu documents, expected %zu", (size_t)x.size(), m.size());
        for(size_t i = 0; i < m.size(); i++) same(c, x.getDocument(i), m[i], "document in corpus");
        for(size_t i : {m.size(), m.size() + 1, (size_t)-1}) { bool t = false; try { x.getDocument(i); } catch(std::out_of_range &) { t = true; } if(!t) c.fail("c18-corpus-range", "document %zu past the end did not raise", i); }
    }
}
SCENARIO(sizes, 2) {
    static std::vector<int> ns{0, 1, 2, 15, 16, 17, 64, 65, 255, 256, 257, 1000, 3000, 65535, 65537, 70000}; int n = c.pick(ns), kind = c.choose(3); c.state(n * 3 + kind);
    auto num = [](int i, const char32_t *p) { Letters w = p; for(char ch : std::to_string(i)) w += (char32_t)ch; return w; };
    if(kind == 0) { WordList l; Text m; for(int i = 0; i < n; i++) { m.push_back(num(i, U"x")); l.addWord(ref::word(m.back())); c.step(); } for(int i = 0; i < n && i < 40; i++) { l.addWord(l[i]); m.push_back(Letters(m[i])); } same(c, l, m, "long list"); WordList k = l; same(c, k, m, "copy"); if(!(k == l)) c.fail("c18-equal", "equal long lists compare unequal"); auto differ = [&](const WordList &x, const WordList &y) { c.eval(); if(x == y || y == x || !(x != y) || !(y != x)) c.fail("c18-equal", "unequal lists of %d words compare equal", n); };
        if(n) { k.addWord(k[0]); differ(k, l); } if(n <= 300) for(int at = 0; at < n; at++) { WordList x, y; for(int i = 0; i < n; i++) { x.addWord(i == at ? Word("other") : l[i]); if(i < at) y.addWord(l[i]); } WordList z; for(int i = 0; i < n; i++) z.addWord(l[i]); differ(x, z); differ(y, z); WordList o; for(int i = 0; i < n; i++) o.addWord(i == at ? Word("othes") : l[i]); differ(x, o); } }
    if(kind == 1) { uintptr_t id = ((uintptr_t)n << 32) + 70000 - n; Document d(id); RDoc m; m.id = id; for(int i = 0; i < n; i++) { m.fields[num(i, U"f")] = {num(i, U"x"), U"a"}; d.addText(ref::word(num(i, U"f")), ref::wordList({num(i, U"x"), U"a"})); c.step(); } same(c, d, m, "wide document"); Document k(d); same(c, k, m, "copy"); }
    if(kind == 2) { Corpus x; for(int i = 0; i < n; i++) { Document d(i * 3); d.addText(Word("f"), ref::wordList({num(i, U"x")})); x.addDocument(d); c.step(); if(i % 5 == 4) x.addDocument(x.getDocument(i / 2)); } size_t at = 0; std::vector<int> ids; for(int i = 0; i < n; i++) { ids.push_back(i); if(i % 5 == 4) ids.push_back(ids[i / 2]); } if(x.size() != ids.size()) c.fail("c18-corpus-size", "wrong size"); for(int id : ids) { RDoc m; m.id = id * 3; m.fields[U"f"] = {num(id, U"x")}; same(c, x.getDocument(at++), m, "document in large corpus"); } }
}
MC_MAIN
