/* Shared by the harnesses that drive whole search engines. */
#pragma once
#include "ref.hh"
namespace eng {
using namespace Columbus;
using ref::Letters; using ref::Text; using ref::RDoc; using ref::REngine; using ref::RParams;

inline std::vector<Text> texts(const std::vector<Letters> &w, size_t maxLen, bool absentToo) {
    // first entry stands for "field absent" if absentToo; then all sequences of up to maxLen words
    std::vector<Text> out; if(absentToo) out.push_back(Text{U"<absent>"});
    std::vector<Text> cur{Text()};
    for(size_t n = 0; n <= maxLen; n++) {
        out.insert(out.end(), cur.begin(), cur.end());
        std::vector<Text> nx; for(auto &t : cur) for(auto &x : w) { auto u = t; u.push_back(x); nx.push_back(u); } cur.swap(nx);
    }
    return out;
}
inline bool absent(const Text &t) { return t.size() == 1 && t[0] == U"<absent>"; }

struct Engine {           // the real thing and its model, side by side
    Matcher m; REngine r;
    void index(const std::vector<RDoc> &docs) { Corpus cp; for(auto &d : docs) cp.addDocument(ref::document(d)); m.index(cp); for(auto &d : docs) r.index(d); }
    void weight(const Letters &f, double w) { m.getIndexWeights().setWeight(ref::word(f), w); r.weights[f] = w; }
};
inline std::string show(const RParams &p) {
    std::string o = p.dynamic ? "dynamic" : "not dynamic"; for(auto &f : p.nosearch) o += " nosearch " + ref::show(f);
    o += " filter"; for(auto &t : p.filter) { o += "("; for(auto &s : t) o += ref::show(s.first) + "=" + ref::show(s.second) + " "; o += ")"; } return o;
}
inline std::string show(const REngine &r) { std::string o; for(auto &d : r.docs) o += ref::show(d) + "; "; for(auto &w : r.weights) o += "weight " + ref::show(w.first) + "=" + std::to_string(w.second) + " "; return o; }
inline std::vector<std::pair<uintptr_t, double>> query(Engine &e, const Text &q, const RParams &p) {
    SearchParameters sp; ref::apply(p, sp); return ref::list(e.m.match(ref::wordList(q), sp));
}
inline bool isDefault(const RParams &p) { return p.dynamic && p.nosearch.empty() && p.filter.size() == 1 && p.filter[0].empty(); }
// The query as text, if it has one whose words are certainly these.
inline bool asText(const Text &q, std::string &out) {
    out.clear(); for(auto &w : q) { if(w.empty()) return false; if(out.size()) out += ' '; for(char32_t x : w) { if(!((x >= 'a' && x <= 'z') || (x >= '0' && x <= '9'))) return false; out += (char)x; } }
    return true;
}
// Runs the query through the real engine and compares.
inline void check(mc::Ctx &c, Engine &e, const Text &q, const RParams &p, bool rel, const char *tag) {
    c.step(); c.eval();
    auto got = query(e, q, p);
    auto want = e.r.match(q, p);
    std::string err = ref::compare(got, want, rel);
    if(err.size()) c.fail(tag, "query %s %s: %s; got %s, expected %s; indexed: %s", ref::show(q).c_str(), show(p).c_str(), err.c_str(), ref::show(got).c_str(), ref::show(want).c_str(), show(e.r).substr(0, 3000).c_str());
    c.outcome(ref::hashResults(got));
    if(rel) {
        auto again = query(e, q, p);
        if(again != got) c.fail(tag, "query %s repeated: %s first, then %s", ref::show(q).c_str(), ref::show(got).c_str(), ref::show(again).c_str());
        std::string text;
        if(asText(q, text)) { // the other ways to ask the same
            SearchParameters sp; ref::apply(p, sp); auto t = ref::list(e.m.match(text.c_str(), sp)); if(t != got) c.fail(tag, "query %s as text: %s, as words %s; indexed: %s", ref::show(q).c_str(), ref::show(t).c_str(), ref::show(got).c_str(), show(e.r).substr(0, 2000).c_str());
            if(isDefault(p)) for(int k = 0; k < 2; k++) { t = ref::list(k ? e.m.match(text) : e.m.match(text.c_str())); if(t != got) c.fail(tag, "query %s as %s without parameters: %s, as words %s; indexed: %s", ref::show(q).c_str(), k ? "string" : "text", ref::show(t).c_str(), ref::show(got).c_str(), show(e.r).substr(0, 2000).c_str()); }
        }
        if(isDefault(p)) { auto plain = ref::list(e.m.match(ref::wordList(q))); if(plain != got) c.fail(tag, "query %s without parameters: %s, with default ones %s", ref::show(q).c_str(), ref::show(plain).c_str(), ref::show(got).c_str()); }
    }
}
inline uint64_t hashDoc(const RDoc &d) { uint64_t h = d.id; for(auto &f : d.fields) { h = mc::mix(h, mc::hashSeq(f.first)); for(auto &w : f.second) h = mc::mix(h, mc::hashSeq(w)); } return h; }
} // namespace eng
