/* Reference models, written independently of the library: letters, UTF-8, edit cost, search engine. */
#pragma once
#include "mc.hh"
#include "ColumbusCore.hh"
#include "Word.hh"
#include "WordList.hh"
#include "Document.hh"
#include "Corpus.hh"
#include "Matcher.hh"
#include "MatchResults.hh"
#include "ErrorValues.hh"
#include "IndexWeights.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "SearchParameters.hh"
#include "ResultFilter.hh"
#include "WordStore.hh"
#include "ColumbusHelpers.hh"
#include <unicode/uchar.h>

namespace ref {
typedef uint32_t CP;
typedef std::u32string Letters;              // one element per library letter, whatever its width
const bool wide = sizeof(Letter_) == 4;

inline bool isWs(uint32_t l) { return l == ' ' || l == '\t' || l == '\n' || l == '\r'; }
inline void enc(CP cp, std::string &o) {
    if(cp < 0x80) o += (char)cp;
    else if(cp < 0x800) { o += (char)(0xC0 | cp >> 6); o += (char)(0x80 | (cp & 63)); }
    else if(cp < 0x10000) { o += (char)(0xE0 | cp >> 12); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); }
    else { o += (char)(0xF0 | cp >> 18); o += (char)(0x80 | (cp >> 12 & 63)); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); }
}
inline std::string enc(CP cp) { std::string s; enc(cp, s); return s; }
/* RFC 3629. Returns false if ill-formed. */
inline bool dec(const std::string &s, std::vector<CP> &out) {
    size_t i = 0; out.clear();
    while(i < s.size()) {
        unsigned char b = s[i];
        if(b < 0x80) { out.push_back(b); i++; continue; }
        int n; CP cp, min;
        if(b >= 0xC2 && b <= 0xDF) { n = 1; cp = b & 31; min = 0x80; }
        else if(b >= 0xE0 && b <= 0xEF) { n = 2; cp = b & 15; min = 0x800; }
        else if(b >= 0xF0 && b <= 0xF4) { n = 3; cp = b & 7; min = 0x10000; }
        else return false;
        if(i + n >= s.size()) return false;
        for(int k = 1; k <= n; k++) { unsigned char d = s[i + k]; if((d & 0xC0) != 0x80) return false; cp = cp << 6 | (d & 63); }
        if(cp < min || cp > 0x10FFFF || (cp >= 0xD800 && cp <= 0xDFFF)) return false;
        out.push_back(cp); i += n + 1;
    }
    return true;
}
inline uint32_t lower(uint32_t l) { return (uint32_t)u_tolower((UChar32)l); }
/* Letters of the word made from these code points. */
inline Letters toLetters(const std::vector<CP> &cps) {
    Letters r;
    for(CP cp : cps) {
        if(cp < 0x10000 || wide) r += (char32_t)lower(cp);
        else { r += (char32_t)(0xD800 + ((cp - 0x10000) >> 10)); r += (char32_t)(0xDC00 + ((cp - 0x10000) & 0x3ff)); }
    }
    return r;
}
inline Letters letters(const std::string &utf8) { std::vector<CP> v; if(!dec(utf8, v)) throw mc::HarnessError{"reference given ill-formed text"}; return toLetters(v); }
inline bool surrogatesOk(const Letters &l) {
    if(wide) return true;
    for(size_t i = 0; i < l.size(); i++) {
        if(l[i] >= 0xD800 && l[i] <= 0xDBFF) { if(i + 1 < l.size() && l[i + 1] >= 0xDC00 && l[i + 1] <= 0xDFFF) i++; else return false; }
        else if(l[i] >= 0xDC00 && l[i] <= 0xDFFF) return false;
    }
    return true;
}
inline std::string utf8(const Letters &l) {
    std::string o;
    for(size_t i = 0; i < l.size(); i++) {
        CP cp = l[i];
        if(!wide && cp >= 0xD800 && cp <= 0xDBFF && i + 1 < l.size()) { cp = 0x10000 + ((cp - 0xD800) << 10) + (l[++i] - 0xDC00); }
        enc(cp, o);
    }
    return o;
}
inline std::string show(const Letters &l) { std::string o; for(auto x : l) { if(x > 32 && x < 127) o += (char)x; else { char b[16]; snprintf(b, sizeof b, "<%x>", (unsigned)x); o += b; } } return "'" + o + "'"; }
inline std::string showBytes(const std::string &s) { std::string o; for(unsigned char x : s) { if(x >= 32 && x < 127) o += (char)x; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", x); o += b; } } return "\"" + o + "\""; }
inline Letters lettersOf(const Columbus::Word &w) { Letters r; for(unsigned i = 0; i < w.length(); i++) r += (char32_t)(Letter_)w[i]; return r; }
inline Columbus::Word word(const Letters &l) { return Columbus::Word(utf8(l)); }
inline std::string show(const Columbus::Word &w) { return show(lettersOf(w)); }

/* ---- weighted edit cost: cheapest script, computed by exhaustive recursion with memo over (query, word) suffixes ---- */
struct Costs {
    int ins = 100, del = 100, endDel = 100, startIns = 100, transp = 100; size_t limit = 0;
    std::map<std::pair<uint32_t, uint32_t>, int> sub;   // unordered pairs (small, large)
    int subst(uint32_t a, uint32_t b) const {
        if(a == b) return 0;
        if(a > b) std::swap(a, b);
        auto i = sub.find({a, b}); return i == sub.end() ? 100 : i->second;
    }
    int start(size_t qlen) const { return qlen >= limit ? startIns : ins; }
    void apply(Columbus::ErrorValues &e) const {
        e.setInsertionError(ins); e.setDeletionError(del); e.setEndDeletionError(endDel); e.setStartInsertionError(startIns);
        e.setTransposeError(transp); e.setSubstringStartLimit(limit);
        for(auto &x : sub) e.setError(Letter((Letter_)x.first.first), Letter((Letter_)x.first.second), x.second);
    }
};
inline int editCost(const Letters &q, const Letters &w, const Costs &k) {
    size_t n = q.size(), m = w.size();
    // f[i][j] = cheapest way to finish when i query letters and j word letters are consumed (backward recursion)
    static thread_local std::vector<int> buf; if(buf.size() < (n + 1) * (m + 1)) buf.resize((n + 1) * (m + 1));
    int *f = buf.data();
    auto F = [&](size_t i, size_t j) -> int& { return f[i * (m + 1) + j]; };
    for(size_t i = n + 1; i-- > 0;) for(size_t j = m + 1; j-- > 0;) {
        if(i == n && j == m) { F(i, j) = 0; continue; }
        int best = 1 << 29;
        if(j < m) { int c = i == 0 ? k.start(n) : i == n ? k.endDel : k.del; best = std::min(best, c + F(i, j + 1)); }
        if(i < n) best = std::min(best, k.ins + F(i + 1, j));
        if(i < n && j < m) best = std::min(best, k.subst(q[i], w[j]) + F(i + 1, j + 1));
        if(i + 1 < n && j + 1 < m && q[i] == w[j + 1] && q[i + 1] == w[j]) best = std::min(best, k.transp + F(i + 2, j + 2));
        F(i, j) = best;
    }
    return F(0, 0);
}

/* ---- reference search engine ---- */
typedef std::vector<Letters> Text;
struct RDoc { uintptr_t id; std::map<Letters, Text> fields; };
struct RParams { bool dynamic = true; std::set<Letters> nosearch; std::vector<std::vector<std::pair<Letters, Letters>>> filter{{}}; };
struct REngine {
    std::vector<RDoc> docs;            // in indexing order; the same id may occur repeatedly
    Costs costs; std::map<Letters, double> weights;
    std::map<Letters, std::map<Letters, size_t>> counts;                       // field, word
    std::map<Letters, std::map<Letters, std::set<uintptr_t>>> where;           // field, word -> docs
    std::map<std::pair<uintptr_t, Letters>, size_t> sizes;
    std::set<Letters> seen;
    mutable std::map<std::pair<Letters, Letters>, int> memo;
    void index(const RDoc &d) {
        docs.push_back(d);
        for(auto &f : d.fields) {
            seen.insert(f.first); sizes[{d.id, f.first}] = f.second.size();
            for(auto &w : f.second) { seen.insert(w); counts[f.first][w]++; where[f.first][w].insert(d.id); }
        }
    }
    int dist(const Letters &q, const Letters &w) const {
        auto key = std::make_pair(q, w); auto i = memo.find(key); if(i != memo.end()) return i->second;
        return memo[key] = editCost(q, w, costs);
    }
    std::map<uintptr_t, double> match(const Text &q, const RParams &p = RParams()) const {
        std::map<uintptr_t, double> r;
        for(auto &f : counts) {
            if(p.nosearch.count(f.first)) continue;
            size_t N = 0; for(auto &x : f.second) if(!x.first.empty()) N = std::max(N, x.second);
            double wt = 1.0; auto wi = weights.find(f.first); if(wi != weights.end()) wt = wi->second;
            for(auto &x : f.second) {
                if(x.first.empty()) continue;
                int best = -1;
                for(auto &qw : q) {
                    int tol = p.dynamic ? (qw.size() < 2 ? 100 : 200) : 200;
                    int d = dist(qw, x.first);
                    if(d <= tol && (best < 0 || d < best)) best = d;
                }
                if(best < 0) continue;
                double rel = 100.0 / (100.0 + best) * (1.0 - double(x.second) / double(N + 1)) * wt;
                for(uintptr_t id : where.at(f.first).at(x.first)) r[id] += rel;
            }
        }
        std::map<uintptr_t, double> out;
        for(auto &x : r) if(accepts(p, x.first)) out.insert(x);
        return out;
    }
    bool has(uintptr_t id, const Letters &field, const Letters &w) const {
        auto f = where.find(field); if(f == where.end()) return false;
        auto x = f->second.find(w); return x != f->second.end() && x->second.count(id);
    }
    bool accepts(const RParams &p, uintptr_t id) const {
        for(auto &t : p.filter) { bool all = true; for(auto &s : t) if(!has(id, s.first, s.second)) all = false; if(all) return true; }
        return false;
    }
    std::map<uintptr_t, double> online(const Text &q, const Letters &field) const {
        std::map<uintptr_t, double> r = match(q);
        std::map<uintptr_t, size_t> exact;
        for(auto &w : q) { if(w.empty()) continue; auto f = where.find(field); if(f == where.end()) continue; auto x = f->second.find(w); if(x == f->second.end()) continue; for(auto id : x->second) exact[id]++; }
        for(auto &e : exact) { r[e.first] += 2.0 * e.second; auto s = sizes.find({e.first, field}); if(e.second == q.size() && s != sizes.end() && s->second == e.second) r[e.first] += 100; }
        return r;
    }
};
inline Columbus::WordList wordList(const Text &t) { Columbus::WordList l; for(auto &w : t) l.addWord(word(w)); return l; }
inline Columbus::Document document(const RDoc &d) { Columbus::Document x(d.id); for(auto &f : d.fields) x.addText(word(f.first), wordList(f.second)); return x; }
inline std::string show(const Text &t) { std::string o = "["; for(auto &w : t) o += show(w); return o + "]"; }
inline std::string show(const RDoc &d) { std::string o = "doc " + std::to_string(d.id) + "{"; for(auto &f : d.fields) o += show(f.first) + ":" + show(f.second) + " "; return o + "}"; }
inline void apply(const RParams &p, Columbus::SearchParameters &sp) {
    sp.setDynamic(p.dynamic);
    for(auto &f : p.nosearch) sp.addNonsearchingField(word(f));
    for(size_t i = 0; i < p.filter.size(); i++) { if(i) sp.getResultFilter().addNewTerm(); for(auto &s : p.filter[i]) sp.getResultFilter().addNewSubTerm(word(s.first), word(s.second)); }
}
inline std::vector<std::pair<uintptr_t, double>> list(const Columbus::MatchResults &r) {
    std::vector<std::pair<uintptr_t, double>> v; for(size_t i = 0; i < r.size(); i++) v.push_back({r.getDocumentID(i), r.getRelevancy(i)}); return v;
}
inline std::string show(const std::vector<std::pair<uintptr_t, double>> &v) { std::string o; for(auto &x : v) { char b[64]; snprintf(b, sizeof b, "(%llu %.9g)", (unsigned long long)x.first, x.second); o += b; } return "[" + o + "]"; }
inline std::string show(const std::map<uintptr_t, double> &v) { std::vector<std::pair<uintptr_t, double>> l(v.begin(), v.end()); return show(l); }
inline bool close(double a, double b) { double d = a - b; if(d < 0) d = -d; double s = (a < 0 ? -a : a) + (b < 0 ? -b : b); return d <= 1e-9 * (s + 1); }
/* Same documents, each once, relevancies equal up to rounding, listed by non-increasing relevancy. */
inline std::string compare(const std::vector<std::pair<uintptr_t, double>> &got, const std::map<uintptr_t, double> &want, bool checkRel = true) {
    std::set<uintptr_t> ids;
    for(size_t i = 0; i < got.size(); i++) {
        if(!ids.insert(got[i].first).second) return "document listed twice";
        auto w = want.find(got[i].first);
        if(w == want.end()) return "document " + std::to_string(got[i].first) + " must not be returned";
        if(checkRel && !close(got[i].second, w->second)) return "wrong relevancy";
        if(checkRel && i && got[i].second > got[i - 1].second) return "not ordered by relevancy";
    }
    if(ids.size() != want.size()) return "a matching document is missing";
    return "";
}
inline uint64_t hashResults(const std::vector<std::pair<uintptr_t, double>> &v) { uint64_t h = 7; for(auto &x : v) { h = mc::mix(h, x.first); h = mc::mix(h, (uint64_t)(x.second * 1e6)); } return h; }
} // namespace ref
