// The C++ library behind a plain C interface, for comparing the Python module with it from Python.
#include "columbus.hh"
#include <cstring>
#include <stdexcept>
#include <utility>
using namespace Columbus;
template<class F> static int guard(F f) {
    try { f(); return 0; } catch(std::out_of_range &) { return 1; } catch(std::invalid_argument &) { return 2; } catch(std::exception &) { return 3; }
}
typedef void *H;
#define E extern "C"
#define WORD(h) (*(Word*)h)
#define LIST(h) (*(WordList*)h)
#define DOC(h) (*(Document*)h)
#define RES(h) (*(MatchResults*)h)
#define MAT(h) (*(Matcher*)h)
#define EV(h) (*(ErrorValues*)h)
#define IW(h) (*(IndexWeights*)h)
E int x_word(const char *s, size_t n, H *o) { return guard([&] { *o = new Word(std::string(s, n)); }); }
E int x_word_str(H w, char *b, size_t cap) { return guard([&] { std::string s = WORD(w).asUtf8(); if(s.size() >= cap) throw std::length_error(""); memcpy(b, s.c_str(), s.size() + 1); }); }
E size_t x_word_len(H w) { return WORD(w).length(); }
E H x_list() { return new WordList(); }
E H x_list_copy(H l) { return new WordList(LIST(l)); }
E int x_list_add(H l, H w) { return guard([&] { LIST(l).addWord(WORD(w)); }); }
E int x_list_get(H l, size_t i, H *o) { return guard([&] { *o = new Word(LIST(l)[i]); }); }
E size_t x_list_len(H l) { return LIST(l).size(); }
E int x_split(const char *s, size_t n, H *o) { return guard([&] { if(memchr(s, 0, n)) throw std::invalid_argument("null in a text"); *o = new WordList(splitToWords(s)); }); }
E H x_doc(size_t id) { return new Document(id); }
E H x_doc_copy(H d) { return new Document(DOC(d)); }
E size_t x_doc_count(H d) { return DOC(d).fieldCount(); }
E size_t x_doc_id(H d) { return DOC(d).getID(); }
E int x_doc_text(H d, H w, H *o) { return guard([&] { *o = (H)&DOC(d).getText(WORD(w)); }); }
E int x_doc_add(H d, H w, const char *s, size_t n) { return guard([&] { DOC(d).addText(WORD(w), std::string(s, n)); }); }
E H x_corpus() { return new Corpus(); }
E int x_corpus_add(H c, H d) { return guard([&] { ((Corpus*)c)->addDocument(DOC(d)); }); }
E size_t x_corpus_len(H c) { return ((Corpus*)c)->size(); }
E H x_res() { return new MatchResults(); }
E int x_res_add(H r, H s) { return guard([&] { RES(r).addResults(RES(s)); }); }
E int x_res_id(H r, size_t i, size_t *o) { return guard([&] { *o = RES(r).getDocumentID(i); }); }
E int x_res_rel(H r, size_t i, double *o) { return guard([&] { *o = RES(r).getRelevancy(i); }); }
E size_t x_res_len(H r) { return RES(r).size(); }
E H x_matcher() { return new Matcher(); }
E int x_index(H m, H c) { return guard([&] { MAT(m).index(*(Corpus*)c); }); }
E int x_match(H m, const char *s, size_t n, H *o) { return guard([&] { *o = new MatchResults(MAT(m).match(std::string(s, n))); }); }
E H x_ev(H m) { return &MAT(m).getErrorValues(); }
E H x_iw(H m) { return &MAT(m).getIndexWeights(); }
E H x_ev_new() { return new ErrorValues(); }
E H x_iw_new() { return new IndexWeights(); }
E int x_ev_standard(H e) { return guard([&] { EV(e).addStandardErrors(); }); }
E void x_ev_substring(H e) { EV(e).setSubstringMode(); }
E void x_ev_end(H e, int v) { EV(e).setEndDeletionError(v); }
E int x_ev_set(H e, unsigned a, unsigned b, int v) { return guard([&] { EV(e).setError(Letter((Letter_)a), Letter((Letter_)b), v); }); }
E int x_ev_get(H e, unsigned a, unsigned b) { return EV(e).getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)); }
E void x_ev_clear(H e) { EV(e).clearErrors(); }
E int x_default() { return ErrorValues::getDefaultError(); }
E int x_default_end() { return ErrorValues::getSubstringDefaultEndDeletionError(); }
E int x_iw_set(H w, H f, double v) { return guard([&] { IW(w).setWeight(WORD(f), v); }); }
E double x_iw_get(H w, H f) { return IW(w).getWeight(WORD(f)); }
E int x_letter_bits() { return sizeof(Letter_) * 8; }
E void x_free(int kind, H h) { switch(kind) { case 0: delete (Word*)h; break; case 1: delete (WordList*)h; break; case 2: delete (Document*)h; break; case 3: delete (Corpus*)h; break; case 4: delete (MatchResults*)h; break; case 5: delete (Matcher*)h; break; case 6: delete (ErrorValues*)h; break; case 7: delete (IndexWeights*)h; break; } }
