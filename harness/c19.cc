// C19: histories of C calls, mirrored by the corresponding C++ calls; every observable must agree, every failure be the sentinel.
#include "engine.hh"
#include "columbus.h"
#include <sanitizer/common_interface_defs.h>
#include <memory>
using namespace Columbus; using namespace eng;
static void quiet(mc::Ctx &c) {   // the library reports errors on stderr; keep the sanitizer's reports, drop the rest
    static bool done = false; if(done || c.verbose) return; done = true;
    __sanitizer_set_report_fd((void*)(intptr_t)dup(2)); if(!freopen("/dev/null", "w", stderr)) throw mc::HarnessError{"no /dev/null"};
}
typedef std::vector<std::pair<uintptr_t, double>> List;
static const char *TEXT[] = {"Abc", "x\xc3\x84y", "a b", "\xff", "", "ab", "\xed\xa0\x80", "q\t", "\xf0\x9f\x98\x80z", "abcdefghij"};
static List listC(mc::Ctx &c, ColMatchResults r) {
    List l; size_t n = col_match_results_size(r);
    for(size_t i = 0; i < n; i++) l.push_back({(uintptr_t)col_match_results_get_id(r, i), col_match_results_get_relevancy(r, i)});
    for(size_t i : {n, n + 1, (size_t)-1}) {
        c.eval();
        if(col_match_results_get_id(r, i) != INVALID_DOCID) c.fail("c19-sentinel", "document past the end is not the invalid identifier");
        if(col_match_results_get_relevancy(r, i) != -1.0) c.fail("c19-sentinel", "relevancy past the end is not -1");
    }
    return l;
}
struct Both {       // one C world, one C++ world
    ColWord w[2] = {nullptr, nullptr}; std::unique_ptr<Word> xw[2];
    ColDocument d[2]; std::unique_ptr<Document> xd[2];
    ColCorpus cp; std::unique_ptr<Corpus> xcp; ColMatcher m; std::unique_ptr<Matcher> xm;
    ColMatchResults r; std::unique_ptr<MatchResults> xr;
    Both() { for(int i = 0; i < 2; i++) { d[i] = col_document_new(i ? 77 : 5); xd[i].reset(new Document(i ? 77 : 5)); } cp = col_corpus_new(); xcp.reset(new Corpus()); m = col_matcher_new(); xm.reset(new Matcher()); r = col_match_results_new(); xr.reset(new MatchResults()); }
    ~Both() { for(int i = 0; i < 2; i++) { if(w[i]) col_word_delete(w[i]); col_document_delete(d[i]); } col_corpus_delete(cp); col_matcher_delete(m); col_match_results_delete(r); }
    void word(mc::Ctx &c, int s, const char *t) {
        std::unique_ptr<Word> n; try { n.reset(new Word(t)); } catch(std::exception &) {}
        ColWord h = col_word_new(t); c.eval();
        if((h == nullptr) != (n == nullptr)) c.fail("c19-word", "col_word_new(%s) %s but the C++ constructor %s", ref::showBytes(t).c_str(), h ? "succeeds" : "gives NULL", n ? "succeeds" : "throws");
        if(h) { if(w[s]) col_word_delete(w[s]); w[s] = h; xw[s] = std::move(n); }
    }
    void look(mc::Ctx &c, int s) {
        if(!w[s]) return; c.eval();
        if(col_word_length(w[s]) != xw[s]->length()) c.fail("c19-length", "length %zu, C++ says %zu", col_word_length(w[s]), (size_t)xw[s]->length());
        std::string want = xw[s]->asUtf8();
        for(unsigned n = 1; n <= want.size() + 3; n++) {
            char *buf = (char*)malloc(n); memset(buf, '#', n); col_word_as_utf8(w[s], buf, n);
            bool nul = memchr(buf, 0, n) != nullptr; bool ok = nul && (want.size() + 1 > n || want == buf); free(buf);
            if(!ok) c.fail("c19-utf8", "col_word_as_utf8 with %u bytes is wrong for %s", n, ref::showBytes(want).c_str());
        }
    }
    void match(mc::Ctx &c, const char *q) {
        std::unique_ptr<MatchResults> n; try { n.reset(new MatchResults(xm->match(q))); } catch(std::exception &) {}
        ColMatchResults h = col_matcher_match(m, q); c.eval();
        if((h == nullptr) != (n == nullptr)) c.fail("c19-match", "col_matcher_match(%s) %s but C++ %s", ref::showBytes(q).c_str(), h ? "succeeds" : "gives NULL", n ? "succeeds" : "throws");
        if(h) { col_match_results_delete(r); r = h; xr = std::move(n); results(c); }
    }
    void results(mc::Ctx &c) { List a = listC(c, r), b = ref::list(*xr); if(a != b) c.fail("c19-results", "results through C %s, through C++ %s", ref::show(a).c_str(), ref::show(b).c_str()); c.outcome(ref::hashResults(a)); }
    void everything(mc::Ctx &c) {
        for(int i = 0; i < 2; i++) { look(c, i); if(col_document_get_id(d[i]) != xd[i]->getID()) c.fail("c19-id", "document id differs"); if(w[i]) { double a = col_index_weights_get_weight(col_matcher_get_index_weights(m), w[i]), b = xm->getIndexWeights().getWeight(*xw[i]); if(a != b) c.fail("c19-weight", "weight %g through C, %g through C++", a, b); } }
        results(c);
        for(auto q : {"abc", "abd ab", "bc", "\xc3\xa4", "\xff", "q"}) match(c, q);
    }
};
static void operate(mc::Ctx &c, Both &b, int op) {
    c.step(); c.log("operation %d", op);
    auto ev = col_matcher_get_error_values(b.m); auto iw = col_matcher_get_index_weights(b.m);
    switch(op) {
    case 0: case 1: case 2: case 3: b.word(c, op & 1, TEXT[op]); break;
    case 4: case 5: case 6: case 7: { int doc = op & 1, s = op >> 1 & 1; if(!b.w[s]) return; const char *t = doc ? "abd abc" : "abc Tail"; col_document_add_text(b.d[doc], b.w[s], t); b.xd[doc]->addText(*b.xw[s], t); break; }
    case 8: { if(!b.w[0]) return; bool t = false; try { b.xd[0]->addText(*b.xw[0], "zz \xc3"); } catch(std::exception &) { t = true; } if(!t) c.fail("c19-harness", "C++ accepted ill-formed text"); col_document_add_text(b.d[0], b.w[0], "zz \xc3"); break; }
    case 9: case 10: col_corpus_add_document(b.cp, b.d[op - 9]); b.xcp->addDocument(*b.xd[op - 9]); break;
    case 11: col_matcher_index(b.m, b.cp); b.xm->index(*b.xcp); break;
    case 12: b.match(c, "abc"); break;
    case 13: b.match(c, "abe \xff"); break;
    case 14: b.match(c, ""); break;
    case 15: if(!b.w[0]) return; col_index_weights_set_weight(iw, b.w[0], 2.5); b.xm->getIndexWeights().setWeight(*b.xw[0], 2.5); break;
    case 16: col_error_values_set_substring_mode(ev); b.xm->getErrorValues().setSubstringMode(); break;
    case 17: col_error_values_add_standard_errors(ev); try { b.xm->getErrorValues().addStandardErrors(); } catch(std::exception &) {} break;
    case 18: { col_corpus_delete(b.cp); b.cp = col_corpus_new(); b.xcp.reset(new Corpus()); col_document_delete(b.d[0]); b.d[0] = col_document_new(9); b.xd[0].reset(new Document(9)); break; }
    }
}
// every history of calls, from an empty world and from one where something has been indexed
SCENARIO(histories, 3) {
    quiet(c); bool prepared = c.flip(); Both b; int depth = 1 + c.choose(c.quick ? 3 : 4); uint64_t h = prepared;
    if(prepared) for(int op : {0, 1, 4, 7, 9, 11}) operate(c, b, op);
    for(int i = 0; i < depth; i++) { int op = c.choose(19); h = mc::mix(h, op); if(op == 17 && depth > 3) continue; operate(c, b, op); }
    c.state(h); b.everything(c);
    b.word(c, 0, "abc"); b.word(c, 1, "f"); for(int op : {4, 6, 9, 10, 11, 15}) operate(c, b, op);   // all handles still usable
    b.everything(c);
}
// every byte string of up to two (three) bytes from every class, through every entry that takes text
SCENARIO(all_texts, 2) {
    quiet(c); static std::vector<unsigned char> B{1, ' ', '\t', 'a', 'Z', 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xc3, 0xdf, 0xe0, 0xe2, 0xed, 0xa0, 0xf0, 0x9f, 0x90, 0xf4, 0xff};
    int n = c.choose(c.quick ? 3 : 4); std::string t; for(int i = 0; i < n; i++) t += (char)c.pick(B);
    Both b; c.state(mc::hashStr(t)); c.log("text %s", ref::showBytes(t).c_str());
    b.word(c, 0, t.c_str()); b.word(c, 0, ("x" + t + "y").c_str()); b.look(c, 0); b.word(c, 1, "f"); c.step();
    col_document_add_text(b.d[0], b.w[1], t.c_str()); try { b.xd[0]->addText(*b.xw[1], t); } catch(std::exception &) {}
    std::string t2 = "abc " + t + "\xc3\xa9 zzz"; col_document_add_text(b.d[1], b.w[1], t2.c_str()); try { b.xd[1]->addText(*b.xw[1], t2); } catch(std::exception &) {}
    operate(c, b, 9); operate(c, b, 10); operate(c, b, 11); b.match(c, t.c_str()); b.match(c, ("ab " + t).c_str()); b.everything(c);
}
// the data file is missing, later it is there
SCENARIO(standard_errors, 2) {
    quiet(c); static std::string good = getenv("COLUMBUS_DATADIR"); Both b; for(int op : {0, 1, 4, 7, 9, 11}) operate(c, b, op);
    int n = 1 + c.choose(3);
    for(int i = 0; i < n; i++) {
        int k = c.choose(4); c.step();
        if(k == 3) { operate(c, b, 16); continue; }
        setenv("COLUMBUS_DATADIR", k == 0 ? good.c_str() : k == 1 ? "/nonexistent/" : "/dev/null", 1);
        bool refused = false; try { b.xm->getErrorValues().addStandardErrors(); } catch(std::exception &) { refused = true; }
        col_error_values_add_standard_errors(col_matcher_get_error_values(b.m)); setenv("COLUMBUS_DATADIR", good.c_str(), 1);
        c.log("standard errors, directory %d, refused %d", k, refused);
    }
    c.state(mc::hashSeq(c.choices)); b.everything(c);
    for(auto q : {"sbc", "\xc3\xa1""bc", "2bc", "abv"}) b.match(c, q);
}
// identifiers and result lists of every size
SCENARIO(sizes, 1) {
    quiet(c); static std::vector<uintptr_t> ids{0, 1, (uintptr_t)-2, 0xffffffffu, 0x100000000ull, 0x8000000000000000ull}; static std::vector<int> ns{0, 1, 2, 9, 10, 11, 64, 257, 70000}; int n = c.pick(ns); uintptr_t base = c.pick(ids); if(n > 300 && base != 0xffffffffu) return; if(base == (uintptr_t)-2) base -= n;
    Both b; b.word(c, 0, "f"); c.state(mc::mix(n, base));
    for(int i = 0; i < n; i++) { col_document_delete(b.d[0]); b.d[0] = col_document_new(base + i); b.xd[0].reset(new Document(base + i)); if(col_document_get_id(b.d[0]) != base + i) c.fail("c19-id", "document id differs"); std::string t = "abc" + std::string(i % 3 ? " abd" : "") + (i % 7 ? "" : " abc"); col_document_add_text(b.d[0], b.w[0], t.c_str()); b.xd[0]->addText(*b.xw[0], t); operate(c, b, 9); }
    operate(c, b, 11); b.everything(c);
}
MC_MAIN
