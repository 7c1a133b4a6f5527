// C20: every history of operations, run again and again in fresh worlds: live heap, descriptors, mappings and files must not grow.
#include "engine.hh"
#include "faults.hh"
#include "columbus.h"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "WordStore.hh"
#include "ColumbusHelpers.hh"
#include <sanitizer/common_interface_defs.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <memory>
#include <dirent.h>
using namespace Columbus; using namespace eng;
static void quiet(mc::Ctx &c) {
    static bool done = false; if(done || c.verbose) return; done = true;
    __sanitizer_set_report_fd((void*)(intptr_t)dup(2)); if(!freopen("/dev/null", "w", stderr)) throw mc::HarnessError{"no /dev/null"};
}
struct Res { size_t heap; int fds, maps, tmp; bool operator==(const Res &o) const { return heap == o.heap && fds == o.fds && maps == o.maps; } };
static int countDir(const char *d) { int n = 0; DIR *h = opendir(d); if(!h) return -1; while(readdir(h)) n++; closedir(h); return n; }
static Res measure() {
    static char buf[1 << 18]; int maps = 0; int fd = open("/proc/self/maps", O_RDONLY); std::string line; ssize_t n;
    // count file-backed mappings of writable shared files and anonymous shared ones (storage), not the loader's
    while((n = read(fd, buf, sizeof buf)) > 0) for(ssize_t i = 0; i < n; i++) { if(buf[i] != '\n') { if(line.size() < 40) line += buf[i]; continue; } size_t sp = line.find(' '); if(sp != line.npos && sp + 4 < line.size() && line[sp + 4] == 's') maps++; line.clear(); }
    close(fd);
    std::string().swap(line);
    return {__sanitizer_get_current_allocated_bytes(), countDir("/proc/self/fd"), maps, 0};
}
template<class T> static T must(T h) { if(!h) throw std::runtime_error("no handle"); return h; }
struct World {
    std::unique_ptr<Word> w, w2; std::unique_ptr<WordList> l; std::unique_ptr<Document> d; std::unique_ptr<Corpus> cp; std::unique_ptr<Matcher> m; std::unique_ptr<MatchResults> r, r2;
    std::unique_ptr<ErrorValues> e; std::unique_ptr<WordStore> s; std::unique_ptr<LevenshteinIndex> ix; std::unique_ptr<IndexMatches> im; std::unique_ptr<SearchParameters> sp; std::unique_ptr<IndexWeights> iw;
    ColWord cw = nullptr; ColDocument cd = nullptr; ColCorpus cc = nullptr; ColMatcher cm = nullptr; ColMatchResults cr = nullptr;
    ~World() { if(cw) col_word_delete(cw); if(cd) col_document_delete(cd); if(cc) col_corpus_delete(cc); if(cm) col_matcher_delete(cm); if(cr) col_match_results_delete(cr); }
    template<class T> T &get(std::unique_ptr<T> &p) { if(!p) p.reset(new T()); return *p; }
    Word &word() { if(!w) w.reset(new Word("abc")); return *w; }
    Document &doc() { if(!d) { d.reset(new Document(7)); d->addText(Word("f"), "abc abd"); } return *d; }
    Matcher &matcher() { if(!m) { m.reset(new Matcher()); Corpus c; c.addDocument(doc()); m->index(c); } return *m; }
    ColMatcher cmatcher() { if(!cm) cm = must(col_matcher_new()); return cm; }
};
static std::string longText(int n) { std::string t; for(int i = 0; i < n; i++) { t += 'a' + i % 23; if(i % 37 == 36) t += ' '; } return t; }
typedef void (*Op)(World&);
struct Named { const char *name; Op f; };
static const Named OPS[] = {
    {"new word", [](World &x) { x.w.reset(new Word("\xc3\x84""bcdefgh")); }},
    {"new word, bad utf-8", [](World &x) { x.w.reset(new Word("ab\xff")); }},
    {"new word, blank", [](World &x) { x.w.reset(new Word("a b")); }},
    {"new word, long and blank", [](World &x) { x.w.reset(new Word(longText(3000).c_str())); }},
    {"new word of letters, surrogate", [](World &x) { Letter l[3] = {'a', 0xd800, 'b'}; x.w.reset(new Word(l, 3)); }},
    {"new word of letters, blank", [](World &x) { Letter l[3] = {'a', ' ', 'b'}; x.w.reset(new Word(l, 3)); }},
    {"assign text", [](World &x) { x.word() = "zzzz"; }},
    {"assign bad text", [](World &x) { x.word() = "z \xc3"; }},
    {"assign word", [](World &x) { Word o("alongerwordthanbefore"); x.word() = o; x.word() = x.word(); }},
    {"move word", [](World &x) { Word o(std::move(x.word())); x.word() = std::move(o); x.w2.reset(new Word(std::move(*x.w))); }},
    {"join, compare, utf-8", [](World &x) { Word j = x.word().join(x.word()); x.w2.reset(new Word(j)); (void)(j == "abc"); (void)(j < x.word()); j.asUtf8(); char b[2]; j.toUtf8(b, 2); }},
    {"letter out of range", [](World &x) { x.word()[9999]; }},
    {"split", [](World &x) { x.get(x.l) = splitToWords("a bb ccc  dddd e"); }},
    {"split bad", [](World &x) { x.get(x.l) = splitToWords("good words then\xff bad"); }},
    {"list append, copy, move", [](World &x) { auto &l = x.get(x.l); l.addWord(x.word()); WordList k(l), n(std::move(k)); k = n; n = k; l = std::move(n); l = l; }},
    {"list out of range", [](World &x) { x.get(x.l)[77]; }},
    {"document text", [](World &x) { x.doc().addText(Word("f"), "some words here"); x.doc().addText(Word("g"), x.get(x.l)); }},
    {"document bad text", [](World &x) { x.doc().addText(Word("f"), "some \xed\xa0\x80"); }},
    {"document missing field", [](World &x) { x.doc().getText(Word("nofield")); }},
    {"document copy", [](World &x) { Document o(x.doc()); o = x.doc(); x.doc() = o; x.doc() = x.doc(); WordList n; o.getFieldNames(n); }},
    {"corpus add", [](World &x) { x.get(x.cp).addDocument(x.doc()); }},
    {"new corpus", [](World &x) { x.cp.reset(new Corpus()); x.cp->addDocument(x.doc()); }},
    {"corpus out of range", [](World &x) { x.get(x.cp).getDocument(9); }},
    {"new matcher", [](World &x) { x.m.reset(new Matcher()); }},
    {"index", [](World &x) { x.matcher().index(x.get(x.cp)); }},
    {"index much", [](World &x) { Document d(8); d.addText(Word("f"), longText(2500)); Corpus c; c.addDocument(d); x.matcher().index(c); }},
    {"index odd documents", [](World &x) { Corpus c; WordList l = splitToWords("abc f abc"); l.addWord(Word()); l.addWord(Word("abc")); l.addWord(Word("")); for(int i = 0; i < 3; i++) { Document d(i % 2); if(i < 2) d.addText(Word("f"), l); d.addText(Word(""), i == 1 ? WordList() : l); d.addText(Word("empty"), ""); c.addDocument(d); c.addDocument(d); } x.matcher().index(c); x.m->index(c); }},
    {"odd queries", [](World &x) { auto &m = x.matcher(); WordList l; l.addWord(Word()); for(int k = 0; k < 2; k++) { SearchParameters p; p.setDynamic(k); p.getResultFilter().addNewTerm(); p.getResultFilter().addNewSubTerm(Word(""), Word("")); p.getResultFilter().addNewSubTerm(Word("f"), Word("abc")); m.match(WordList(), p); m.match(l, p); l.addWord(Word("abc")); l.addWord(Word("abc")); m.match(l, p); m.match("", p); m.onlineMatch(l, Word("f")); m.onlineMatch(WordList(), Word("f")); m.onlineMatch(l, Word("abc")); } }},
    {"match", [](World &x) { x.r.reset(new MatchResults(x.matcher().match("abd xyz"))); x.r->size() ? x.r->getDocumentID(0) : 0; }},
    {"match bad", [](World &x) { x.matcher().match("abd \xfe"); }},
    {"online match", [](World &x) { x.get(x.r) = x.matcher().onlineMatch(splitToWords("abc abd"), Word("f")); }},
    {"online match unknown field", [](World &x) { x.matcher().onlineMatch(splitToWords("abc"), Word("nosuch")); }},
    {"match with parameters", [](World &x) { auto &p = x.get(x.sp); p.addNonsearchingField(Word("t")); p.getResultFilter().addNewSubTerm(Word("f"), Word("abc")); p.getResultFilter().addNewTerm(); p.getResultFilter().addNewSubTerm(Word("h"), Word("q")); x.get(x.r2) = x.matcher().match("abc", p); }},
    {"filter out of range", [](World &x) { x.get(x.sp).getResultFilter().getField(5, 5); }},
    {"results merge, copy, move", [](World &x) { auto &r = x.get(x.r), &q = x.get(x.r2); r.addResult(1, .5); q.addResults(r); q.copyResult(r, 0); MatchResults k(q), n(std::move(k)); k = n; r = std::move(n); r = r; }},
    {"results out of range", [](World &x) { x.get(x.r).copyResult(x.get(x.r2), 99); }},
    {"weights", [](World &x) { x.get(x.iw).setWeight(x.word(), 2); x.matcher().getIndexWeights().setWeight(Word("f"), .5); }},
    {"costs", [](World &x) { auto &e = x.get(x.e); e.setError('a', 0x4e00, 9); e.setGroupError(Word("abcd\xc3\xa9"), 20); e.addKeyboardErrors(); e.addNumberpadErrors(); e.setSubstringMode(); }},
    {"costs refused", [](World &x) { x.get(x.e).setGroupError(Word("abcd"), 20); x.e->setGroupError(Word("xda"), 20); }},
    {"standard costs", [](World &x) { x.matcher().getErrorValues().addStandardErrors(); x.matcher().getErrorValues().clearErrors(); }},
    {"new costs", [](World &x) { x.e.reset(new ErrorValues()); x.e->setError(1, 0x4e00, 2); x.e->clearErrors(); }},
    {"standard costs, no data", [](World &x) { static std::string good = getenv("COLUMBUS_DATADIR"); setenv("COLUMBUS_DATADIR", "/nonexistent", 1); try { x.get(x.e).addStandardErrors(); } catch(std::exception &) {} setenv("COLUMBUS_DATADIR", good.c_str(), 1); }},
    {"store", [](World &x) { auto &s = x.get(x.s); s.getID(x.word()); s.getID(Word(std::string(60, 'q'))); s.getWord(0); }},
    {"store unknown", [](World &x) { x.get(x.s).getWord(999); }},
    {"levenshtein index", [](World &x) { auto &i = x.get(x.ix); i.insertWord(x.word(), 1); i.insertWord(Word(std::string(90, 'q')), 2); i.findWords(x.word(), x.get(x.e), 200, x.get(x.im)); }},
    {"matches clear and out of range", [](World &x) { x.get(x.im).clear(); x.im->getMatch(3); }},
    {"new levenshtein index", [](World &x) { x.ix.reset(new LevenshteinIndex()); x.im.reset(); }},
    {"C words", [](World &x) { if(x.cw) col_word_delete(x.cw); x.cw = nullptr; x.cw = must(col_word_new("\xc3\x84q")); ColWord b = col_word_new("a\xff"); if(b) col_word_delete(b); char t[3]; col_word_as_utf8(x.cw, t, 3); }},
    {"C document", [](World &x) { if(!x.cw) x.cw = must(col_word_new("f")); if(!x.cd) x.cd = must(col_document_new(3)); col_document_add_text(x.cd, x.cw, "abc def"); col_document_add_text(x.cd, x.cw, "abc\xff"); if(!x.cc) x.cc = must(col_corpus_new()); col_corpus_add_document(x.cc, x.cd); }},
    {"C index", [](World &x) { if(!x.cc) x.cc = must(col_corpus_new()); col_matcher_index(x.cmatcher(), x.cc); }},
    {"C match", [](World &x) { ColMatchResults n = col_matcher_match(x.cmatcher(), "abc"); if(x.cr) col_match_results_delete(x.cr); x.cr = n; must(n); ColMatchResults b = col_matcher_match(x.cm, "\xff"); if(b) col_match_results_delete(b); col_match_results_get_id(x.cr, 55); }},
    {"C settings", [](World &x) { auto e = col_matcher_get_error_values(x.cmatcher()); col_error_values_add_standard_errors(e); col_error_values_set_substring_mode(e); if(!x.cw) x.cw = must(col_word_new("f")); col_index_weights_set_weight(col_matcher_get_index_weights(x.cm), x.cw, 3); }},
    {"C results", [](World &x) { ColMatchResults n = must(col_match_results_new()); col_match_results_size(n); col_match_results_get_relevancy(n, 0); col_match_results_delete(n); }},
};
static const int N = sizeof OPS / sizeof OPS[0];
static void once(const std::vector<int> &ops) { World x; for(int o : ops) try { OPS[o].f(x); } catch(std::exception &) {} }
static std::string names(const std::vector<int> &ops) { std::string s; for(int o : ops) s += std::string(s.size() ? ", " : "") + OPS[o].name; return s; }
static void compare(mc::Ctx &c, const std::string &what, const std::function<void()> &run) {
    run(); run(); Res a = measure(); run(); Res b = measure(); c.eval();
    if(a == b) return;
    // growth must be steady before it counts: caches may fill up once or twice
    std::vector<Res> m{b}; for(int i = 0; i < 4; i++) { for(int k = 0; k < 4; k++) run(); m.push_back(measure()); }
    bool h = true, f = true, p = true; for(int i = 1; i < 5; i++) { h &= m[i].heap > m[i - 1].heap; f &= m[i].fds > m[i - 1].fds; p &= m[i].maps > m[i - 1].maps; }
    if(h || f || p) c.fail(f ? "c20-descriptors" : p ? "c20-mappings" : "c20-heap", "%s: after all objects are destroyed %s remain, more each time (heap %zu -> %zu bytes, descriptors %d -> %d, shared mappings %d -> %d over 16 repetitions)",
        what.c_str(), f ? "open files" : p ? "memory mappings" : "allocations", m[0].heap, m[4].heap, m[0].fds, m[4].fds, m[0].maps, m[4].maps);
}
// all histories of up to two (three) operations
SCENARIO(histories, 2) {
    quiet(c); int n = 1 + c.choose(c.quick ? 2 : 3); std::vector<int> ops; for(int i = 0; i < n; i++) { ops.push_back(c.choose(N)); c.log("%s", OPS[ops[i]].name); c.step(); }
    c.state(mc::hashSeq(ops)); std::string what = c.verbose ? names(ops) : "";
    compare(c, names(ops), [&] { once(ops); }); c.outcome(mc::hashSeq(ops));
}
// the same with every system request of the history refused once
SCENARIO(refused_requests, 2) {
    quiet(c); int n = 1 + c.choose(c.quick ? 1 : 2); std::vector<int> ops; for(int i = 0; i < n; i++) { ops.push_back(c.choose(N)); c.log("%s", OPS[ops[i]].name); c.step(); }
    // in the first run the explorer picks the request that fails; the further runs repeat it
    flt::begin(c, 1); flt::st().noMunmap = true; size_t p0 = c.pos;
    flt::guarded(c, [&] { once(ops); }); size_t p1 = c.pos; bool hit = flt::st().total; c.state(mc::mix(mc::hashSeq(ops), p1 - p0));
    if(!hit) return;
    static mc::Ctx rep; rep.fixedReplay = true; rep.choices.assign(c.choices.begin() + p0, c.choices.begin() + p1);
    std::string last = flt::st().last;
    compare(c, names(ops) + " with " + last + " failing", [&] {
        rep.pos = 0; rep.arity.clear(); flt::begin(rep, 1); flt::st().noMunmap = true; rep.choices.resize(p1 - p0);
        try { flt::guarded(rep, [&] { once(ops); }); } catch(mc::HarnessError &) { throw; }
    });
    c.outcome(mc::mix(mc::hashSeq(ops), p1 - p0));
}
// nothing may stay behind in the directory for temporary files
SCENARIO(temporary_files, 1) {
    quiet(c); int op = c.choose(N); const char *dir = getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"; c.state(op); c.step(); c.log("%s", OPS[op].name);
    int before = countDir(dir), cwd = countDir("."), tmp = countDir("/tmp"), vt = countDir("/var/tmp"); for(int i = 0; i < 300; i++) once({op}); c.eval();
    int a = countDir(dir) - before, b = countDir(".") - cwd, d = countDir("/tmp") - tmp, v = countDir("/var/tmp") - vt;
    if(a >= 300 || b >= 300 || d >= 300 || v >= 300) c.fail("c20-files", "%s: %d files remain after 300 repetitions", OPS[op].name, std::max(std::max(a, b), std::max(d, v)));
}
// many objects alive at once, destroyed in every order of creation kinds
SCENARIO(many, 1) {
    quiet(c); int op = c.choose(N), k = c.choose(3); c.state(op * 3 + k); c.step(); c.log("%s", OPS[op].name);
    compare(c, std::string("30 worlds with ") + OPS[op].name, [&] {
        std::vector<std::unique_ptr<World>> v; for(int i = 0; i < 30; i++) { v.emplace_back(new World()); try { OPS[op].f(*v.back()); } catch(std::exception &) {} }
        if(k == 0) v.clear(); else if(k == 1) while(v.size()) v.pop_back(); else for(int i = 0; i < 30; i++) v[i * 7 % 30].reset();
    });
}
MC_MAIN
