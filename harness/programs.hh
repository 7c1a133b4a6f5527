/* C23: small programs over private objects. A program is a list of steps; each step reports what it saw. */
#pragma once
#include "engine.hh"
#include "LevenshteinIndex.hh"
#include "WordStore.hh"
#include "IndexMatches.hh"
#include "Trie.hh"
#include <memory>
extern "C" {
void *col_word_new(const char *); void col_word_delete(void *); size_t col_word_length(void *); void col_word_as_utf8(void *, char *, unsigned int);
void *col_document_new(DocumentID); void col_document_delete(void *); void col_document_add_text(void *, void *, const char *);
void *col_matcher_new(); void col_matcher_delete(void *); void col_matcher_index(void *, void *); void *col_matcher_match(void *, const char *);
void col_match_results_delete(void *); size_t col_match_results_size(void *); DocumentID col_match_results_get_id(void *, size_t); double col_match_results_get_relevancy(void *, size_t);
void *col_corpus_new(); void col_corpus_delete(void *); void col_corpus_add_document(void *, void *);
}
namespace prog {
using namespace Columbus;
using std::string; using std::vector; using std::shared_ptr; using std::make_shared;
typedef vector<std::function<string()>> Steps;
inline string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g;", d); return b; }
inline string num(int i) { return std::to_string(i) + ";"; }
inline string num(size_t i) { return std::to_string(i) + ";"; }
inline string show(const Word &w) { string o = "'"; for(unsigned i = 0; i < w.length(); i++) { char b[10]; snprintf(b, sizeof b, "%x ", (unsigned)(Letter_)w[i]); o += b; } return o + "'" + w.asUtf8(); }
inline string show(const WordList &l) { string o; for(size_t i = 0; i < l.size(); i++) o += show(l[i]) + ","; return o; }
inline string show(const MatchResults &r) { string o; for(size_t i = 0; i < r.size(); i++) o += num((size_t)r.getDocumentID(i)) + num(r.getRelevancy(i)); return o; }
inline string show(const IndexMatches &m) { string o; for(size_t i = 0; i < m.size(); i++) o += num((size_t)m.getMatch(i)) + num(m.getMatchError(i)) + show(m.getQuery(i)); return o; }
inline string run(const std::function<string()> &f) {
    try { return f(); } catch(std::out_of_range &) { return "out_of_range"; } catch(std::invalid_argument &) { return "invalid_argument"; } catch(std::runtime_error &) { return "runtime_error"; } catch(std::exception &) { return "exception"; }
}
#define STEP(code) s.push_back([=]() -> string { auto &w = *vv; (void)w; code })
#define END s.push_back([=]() -> string { vv->clear(); return "gone"; }); return s
template<class T> struct Box { std::unique_ptr<T> t; template<class... A> Box(A&&... a) : t(new T(std::forward<A>(a)...)) {} void clear() { t.reset(); } T *operator->() { return t.get(); } T &operator*() { return *t; } };

static const char *WA[] = {"abc", "abd", "xyz", "abcd", "\xc3\x84" "bc", "b"};
static const char *WB[] = {"other", "othr", "ot", "o\xf0\x9f\x98\x80k", "zzzzzzzzzzzzzzzz", "abc"};
inline const char *W(int v, int i) { return (v ? WB : WA)[i]; }

inline Steps words(int v) {      // words from text, joined, compared, written
    struct S { Word a, b, c; string buf; }; auto vv = make_shared<Box<S>>(); Steps s;
    STEP(w->a = Word(W(v, 0)); return show(w->a););
    STEP(w->b = Word(string(W(v, 3)) + "QRS"); return show(w->b) + show(w->a););
    STEP(w->c = w->a.join(w->b); return show(w->c) + num(w->c.hash()););
    STEP(w->a = "\xff"; return show(w->a););
    STEP(w->a = "two words"; return show(w->a););
    STEP(char b[64]; w->c.toUtf8(b, v ? 9 : 64); return string(b) + num((int)(w->a < w->b)) + num((int)(w->c == w->a.join(w->b))););
    STEP(w->b = std::move(w->c); return show(w->a) + show(w->b) + num(w->b.hash()););
    END;
}
inline Steps splitting(int v) {
    struct S { WordList a, b; }; auto vv = make_shared<Box<S>>(); Steps s;
    STEP(w->a = splitToWords(v ? "One  two\tthree" : "Eins zwei drei vier f\xc3\xbcnf"); return show(w->a););
    STEP(w->b = splitToWords(v ? "  " : "\xc3\x85land \xe4\xb8\xad"); return show(w->b) + show(w->a););
    STEP(w->b = splitToWords("a \xff b"); return show(w->b););
    STEP(w->a.addWord(Word(W(v, 3))); w->a.addWord(w->a[0]); return show(w->a););
    STEP(w->b = w->a; w->a = splitToWords(W(v, 2)); return show(w->a) + show(w->b) + num((int)(w->a == w->b)););
    STEP(return show(w->b[99]););
    END;
}
inline Steps index(int v) {      // insertions and error-tolerant lookups
    struct S { LevenshteinIndex i; ErrorValues e; string find(const char *q, int max) { IndexMatches m; i.findWords(Word(q), e, max, m); return show(m); } };
    auto vv = make_shared<Box<S>>(); Steps s;
    STEP(for(int k = 0; k < 3; k++) w->i.insertWord(Word(W(v, k)), k + 1); return num(w->i.numWords()););
    STEP(return w->find(W(v, 0), 100););
    STEP(for(int k = 3; k < 6; k++) w->i.insertWord(Word(W(v, k)), k + 1); return w->find(W(v, 1), v ? 300 : 200););
    STEP(w->e.setError(Letter('c'), Letter('d'), 5); w->e.setSubstringMode(); return w->find("abxd", 200););
    STEP(w->i.insertWord(Word(W(v, 0)), 1); return num(w->i.wordCount(1)) + num(w->i.maxCount()) + num((int)w->i.hasWord(Word(W(v, 4)))););
    STEP(return w->find("", 500) + w->find("thisqueryislongerthananywordstored", 100););
    END;
}
inline Steps store(int v) {
    struct S { WordStore s; }; auto vv = make_shared<Box<S>>(); Steps s;
    STEP(string o; for(int k = 0; k < 4; k++) o += num((size_t)w->s.getID(Word(W(v, k)))); return o;);
    STEP(return show(w->s.getWord(w->s.getID(Word(W(v, 1))))) + num((int)w->s.hasWord(Word(W(1 - v, 0)))););
    STEP(string o; for(int k = 5; k >= 0; k--) o += num((size_t)w->s.getID(Word(W(v, k)))); return o;);
    STEP(string o; for(int k = 0; k < 9; k++) o += num((int)w->s.hasWord((WordID)k)); return o;);
    STEP(return show(w->s.getWord(99)););
    STEP(for(int k = 0; k < (v ? 30 : 12); k++) w->s.getID(Word("w" + std::to_string(k))); return num((size_t)w->s.getID(Word("w3"))) + show(w->s.getWord(w->s.getID(Word("w7")))););
    END;
}
inline Steps costs(int v) {
    struct S { ErrorValues e; string look() { string o; for(int a : {97, 98, 99, 120, 0xe4, 600}) for(int b : {97, 98, 100, 121, 0xe5, 601}) o += num(e.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b))); return o + num(e.getInsertionError()) + num(e.getDeletionError()) + num(e.getEndDeletionError()) + num(e.getStartInsertionError(5)); } };
    auto vv = make_shared<Box<S>>(); Steps s;
    STEP(return w->look(););
    STEP(w->e.setError(Letter('a'), Letter('b'), v ? 3 : 7); w->e.setInsertionError(v ? 11 : 12); return w->look(););
    STEP(w->e.setGroupError(Word(v ? "xyz" : "abd"), v ? 20 : 25); return w->look(););
    STEP(if(v) w->e.addKeyboardErrors(); else w->e.addAccents(latinAccentGroup); return w->look(););
    STEP(if(v) w->e.setSubstringMode(); else w->e.addNumberpadErrors(); return w->look() + num(w->e.getSubstituteError(Letter('2'), Letter('a'))););
    STEP(w->e.clearErrors(); return w->look() + num((int)w->e.isInGroup(Letter('x'))););
    STEP(if(v) w->e.addStandardErrors(); else w->e.setError(Letter(600), Letter(601), 2); return w->look(););
    END;
}
struct MatchWorld { Matcher m; SearchParameters p; void add(int v, int n) { Corpus c; for(int k = 0; k < n; k++) { Document d(k + (v ? 40 : 3)); d.addText(Word("f"), string(W(v, k)) + " " + W(v, k + 1)); d.addText(Word(v ? "g" : "title"), W(v, n - k)); c.addDocument(d); } m.index(c); } };
inline Steps matching(int v) {
    struct S : MatchWorld {}; auto vv = make_shared<Box<S>>(); Steps s;
    STEP(w->add(v, 3); return "";);
    STEP(return show(w->m.match(W(v, 0))) + show(w->m.match("abc other")););
    STEP(w->m.getErrorValues().setSubstringMode(); w->m.getIndexWeights().setWeight(Word("f"), v ? 2.5 : 0.25); return show(w->m.match(v ? "oth" : "ab")) + num(w->m.getIndexWeights().getWeight(Word("f"))) + num(w->m.getIndexWeights().getWeight(Word("g"))););
    STEP(w->add(v, 5); return show(w->m.match(W(v, 3))););
    STEP(w->p.addNonsearchingField(Word("f")); w->p.getResultFilter().addNewTerm(); w->p.getResultFilter().addNewSubTerm(Word("f"), Word(W(v, 1))); w->p.setDynamic(v); return show(w->m.match(splitToWords(W(v, 1)), w->p)););
    STEP(WordList l; l.addWord(Word(W(v, 0))); l.addWord(Word(v ? "ot" : "ab")); return show(w->m.onlineMatch(l, Word("f"))););
    STEP(return show(w->m.match("\xff")););
    END;
}
inline Steps results(int v) {
    struct S { MatchResults a, b; }; auto vv = make_shared<Box<S>>(); Steps s;
    STEP(for(int k = 0; k < 6; k++) w->a.addResult(k * 7 % 6 + v * 10, (k * 5 % 7) * 0.25); return show(w->a););
    STEP(w->b.addResults(w->a); w->b.addResult(99 + v, 0.6); return show(w->b) + show(w->a););
    STEP(w->a.copyResult(w->b, 2); return show(w->a););
    STEP(w->b.addResult(1, v ? -3.5 : 1e9); MatchResults x(w->b); x.addResult(5, 5); return show(w->b) + show(x););
    STEP(w->a = w->b; return num((size_t)w->a.size()) + num(w->a.getRelevancy(77)););
    STEP(w->b = std::move(w->a); return show(w->a) + show(w->b););
    END;
}
inline Steps documents(int v) {
    struct S { Document d, e; S() : d(7), e(8) {} }; auto vv = make_shared<Box<S>>(); Steps s;
    auto look = [](const Document &d) { WordList n; d.getFieldNames(n); string o; vector<string> f; for(size_t i = 0; i < n.size(); i++) f.push_back(show(n[i]) + "=" + show(d.getText(n[i]))); std::sort(f.begin(), f.end()); for(auto &x : f) o += x; return o + num((size_t)d.fieldCount()) + num((size_t)d.getID()); };
    STEP(w->d.addText(Word("f"), W(v, 0)); w->d.addText(Word(v ? "g" : "h"), "one two two"); return look(w->d););
    STEP(w->e = w->d; w->e.addText(Word("f"), W(v, 5)); return look(w->d) + look(w->e););
    STEP(return num(w->d.totalWordCount(Word("two"))) + num(w->d.wordCount(Word("two"), Word("g"))) + look(w->d););
    STEP(w->d.addText(Word("k"), "a \xff"); return look(w->d););
    STEP(return show(w->d.getText(Word("nosuch"))););
    STEP(for(int k = 0; k < 9; k++) w->e.addText(Word("n" + std::to_string(k)), W(v, k % 6)); return look(w->e););
    END;
}
inline Steps cApi(int v) {
    struct S { void *w = nullptr, *d = nullptr, *c = nullptr, *m = nullptr; ~S() { if(w) col_word_delete(w); if(d) col_document_delete(d); if(c) col_corpus_delete(c); if(m) col_matcher_delete(m); } }; auto vv = make_shared<Box<S>>(); Steps s;
    auto look = [](void *r) { if(!r) return string("null"); string o; for(size_t i = 0; i < col_match_results_size(r) + 1; i++) o += num((size_t)col_match_results_get_id(r, i)) + num(col_match_results_get_relevancy(r, i)); col_match_results_delete(r); return o; };
    STEP(w->w = col_word_new(W(v, 3)); char b[32]; col_word_as_utf8(w->w, b, 32); return string(b) + num(col_word_length(w->w)););
    STEP(return col_word_new("\xff") ? "word" : "null";);
    STEP(w->d = col_document_new(v + 5); col_document_add_text(w->d, w->w, v ? "other text" : "abc def"); w->c = col_corpus_new(); col_corpus_add_document(w->c, w->d); return "";);
    STEP(w->m = col_matcher_new(); col_matcher_index(w->m, w->c); return look(col_matcher_match(w->m, v ? "othr" : "abd")););
    STEP(return look(col_matcher_match(w->m, "\xed\xa0\x80")) + look(col_matcher_match(w->m, v ? "text" : "def abc")););
    END;
}
inline Steps growing(int v) {    // enough long words to grow the storage
    struct S { WordStore s; }; auto vv = make_shared<Box<S>>(); Steps s;
    for(int part = 0; part < 3; part++) STEP(string o; for(int k = 0; k < 4; k++) { string x(v ? 900 : 700, (char)('a' + part * 4 + k)); x += std::to_string(k); o += num((size_t)w->s.getID(Word(x))); } return o;);
    STEP(string o; for(int k = 1; k < 13; k++) o += num((size_t)w->s.getWord(k).length()) + num((size_t)w->s.getWord(k).hash()); return o;);
    END;
}
inline Steps distances(int v) {  // few accesses: one word, costs of one's own, so that more preemptions are affordable
    struct S { LevenshteinIndex i; ErrorValues e; string find(const char *q) { IndexMatches m; i.findWords(Word(q), e, 1000, m); return show(m); } };
    auto vv = make_shared<Box<S>>(); Steps s;
    STEP(w->e.setInsertionError(v ? 11 : 12); w->e.setDeletionError(v ? 31 : 33); w->i.insertWord(Word(v ? "a" : "b"), 1); return w->find("aab"););
    STEP(return w->find(v ? "b" : "bb"););
    END;
}
inline Steps settings(int v) {
    struct S { IndexWeights x; SearchParameters p; }; auto vv = make_shared<Box<S>>(); Steps s;
    STEP(w->x.setWeight(Word("f"), v ? 2 : 3); w->x.setWeight(Word(v ? "g" : "h"), 0.5); return num(w->x.getWeight(Word("f"))) + num(w->x.getWeight(Word("g"))););
    STEP(w->p.addNonsearchingField(Word(v ? "f" : "g")); w->p.setDynamic(v); return num((int)w->p.isNonsearchingField(Word("f"))) + num((int)w->p.isNonsearchingField(Word("g"))) + num((int)w->p.isDynamic()););
    STEP(ResultFilter &r = w->p.getResultFilter(); r.addNewTerm(); r.addNewSubTerm(Word("f"), Word(W(v, 1))); return num(r.numTerms()) + num(r.numSubTerms(r.numTerms() - 1)) + show(r.getField(r.numTerms() - 1, 0)) + show(r.getWord(r.numTerms() - 1, 0)););
    END;
}
#undef STEP
#undef END
typedef Steps (*Make)(int);
struct Named { const char *name; Make make; };
static const Named PROGRAMS[] = {{"words", words}, {"splitting", splitting}, {"index", index}, {"store", store}, {"costs", costs}, {"matching", matching}, {"results", results}, {"documents", documents}, {"c-api", cApi}, {"growing", growing}, {"distances", distances}, {"settings", settings}};
static const int NPROGRAMS = sizeof PROGRAMS / sizeof *PROGRAMS;
} // namespace prog
