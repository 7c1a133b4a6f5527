// C08: error-tolerant lookup with default costs, against exhaustive edit-cost computation.
#include "ref.hh"
using namespace Columbus;
using ref::Letters;

static const std::vector<int>& thresholds() { static std::vector<int> t{0, 1, 50, 99, 100, 150, 199, 200, 201, 300, 400, 1000}; return t; }

static std::vector<Letters> allWords(const Letters &alpha, size_t maxLen, size_t minLen = 1) {
    std::vector<Letters> out, cur{Letters()};
    for(size_t n = 0; n <= maxLen; n++) {
        if(n >= minLen) out.insert(out.end(), cur.begin(), cur.end());
        std::vector<Letters> nx; for(auto &w : cur) for(auto l : alpha) nx.push_back(w + l); cur.swap(nx);
    }
    return out;
}
// Compare one lookup with the reference. dict: word -> id.
static void lookup(mc::Ctx &c, const LevenshteinIndex &ix, const ErrorValues &e, const std::map<WordID, Letters> &dict, const Letters &q, int maxError, IndexMatches *reuse = nullptr,
                   const std::map<WordID, int> *dists = nullptr) {
    static ref::Costs k;
    IndexMatches own; IndexMatches &m = reuse ? *reuse : own;
    if(reuse) m.clear();
    Word qw = ref::word(q);
    c.step();
    ix.findWords(qw, e, maxError, m);
    std::map<WordID, int> got; int last = -1; uint64_t h = 1;
    for(size_t i = 0; i < m.size(); i++) {
        WordID id = m.getMatch(i); int d = m.getMatchError(i);
        if(!dict.count(id)) c.fail("c08-unknown-id", "query %s max %d: result with an id never inserted (%u)", ref::show(q).c_str(), maxError, id);
        if(got.count(id)) c.fail("c08-duplicate", "query %s max %d: %s returned twice", ref::show(q).c_str(), maxError, ref::show(dict.at(id)).c_str());
        got[id] = d;
        if(d < last) c.fail("c08-order", "query %s max %d: results not in order of increasing distance", ref::show(q).c_str(), maxError);
        last = d;
        if(!(m.getQuery(i) == qw)) c.fail("c08-query", "query %s max %d: result %zu reports query %s", ref::show(q).c_str(), maxError, i, ref::show(m.getQuery(i)).c_str());
        h = mc::mix(h, id * 1000003ull + d);
    }
    for(auto &w : dict) {
        int d = dists ? dists->at(w.first) : ref::editCost(q, w.second, k);
        auto g = got.find(w.first);
        if(d <= maxError) {
            if(g == got.end()) c.fail("c08-missing", "query %s max %d: %s (distance %d) not returned", ref::show(q).c_str(), maxError, ref::show(w.second).c_str(), d);
            if(g->second != d) c.fail("c08-distance", "query %s max %d: %s has distance %d, reported %d", ref::show(q).c_str(), maxError, ref::show(w.second).c_str(), d, g->second);
        } else if(g != got.end()) c.fail("c08-unsound", "query %s max %d: %s (distance %d) returned with %d", ref::show(q).c_str(), maxError, ref::show(w.second).c_str(), d, g->second);
    }
    c.eval(dict.size());
    c.outcome(h);
    bool thrown = false;
    try { m.getMatch(m.size()); } catch(std::out_of_range &) { thrown = true; }
    if(!thrown) c.fail("c08-range", "getMatch past the end did not throw");
}

// Letters used as symbols: the default costs do not depend on which letters they are.
static std::vector<std::vector<ref::Letters>> &alphabets() {
    // every symbol may be more than one library letter (surrogate pairs)
    static std::vector<std::vector<Letters>> a{
        {ref::letters("a"), ref::letters("b"), ref::letters("c")},
        {ref::letters("\xc8\x81"), ref::letters("\xc7\xbf"), ref::letters("\xc8\x83")},     // U+0201, U+01FF, U+0203: both sides of 512
        {ref::letters("z"), ref::letters("\xe4\xb8\xad"), ref::letters("1")},
        {ref::letters("\xf0\x9f\x98\x80"), ref::letters("\xf0\x9f\x98\x81"), ref::letters("x")},
        {ref::letters("."), ref::letters("\xc3\xa9"), ref::letters("\xef\xbf\xbd")},
    };
    return a;
}

// All words over {x,y} (or {x,y,z}) at once; every query, every threshold.
SCENARIO(all_words, 3) {
    int ai = c.choose((int)alphabets().size());
    bool three = c.flip();
    size_t dl = three ? (c.quick ? 4 : 5) : (c.quick ? 6 : 8);
    if(ai >= 2 && c.quick) dl -= 1;
    size_t ql = dl;
    auto &al = alphabets()[ai];
    std::vector<Letters> syms(al.begin(), al.begin() + (three ? 3 : 2));
    std::vector<Letters> words{Letters()}, cur{Letters()};
    for(size_t n = 1; n <= dl; n++) { std::vector<Letters> nx; for(auto &w : cur) for(auto &s : syms) nx.push_back(w + s); cur.swap(nx); words.insert(words.end(), cur.begin(), cur.end()); }
    int qi = c.choose((int)words.size());
    static std::map<std::pair<int, bool>, LevenshteinIndex*> cache;
    static std::map<std::pair<int, bool>, std::map<WordID, Letters>> dicts;
    auto key = std::make_pair(ai, three);
    auto &ix = cache[key]; auto &dict = dicts[key];
    if(!ix) {
        ix = new LevenshteinIndex();
        for(size_t i = 1; i < words.size(); i++) { WordID id = (WordID)((i * 7919) % 1000003); dict[id] = words[i]; ix->insertWord(ref::word(words[i]), id); c.step(); }
    }
    ErrorValues e;
    (void)ql;
    c.state(mc::hashSeq(words[qi])); 
    c.log("query %s against all %zu words", ref::show(words[qi]).c_str(), dict.size());
    std::map<WordID, int> d; ref::Costs k;
    for(auto &w : dict) d[w.first] = ref::editCost(words[qi], w.second, k);
    IndexMatches reuse;
    for(int t : thresholds()) { lookup(c, *ix, e, dict, words[qi], t, nullptr, &d); lookup(c, *ix, e, dict, words[qi], t, &reuse, &d); }
}

// Every ordered dictionary of up to 3 (thorough: 4) distinct words, with repetitions of the last one: every query, selected thresholds.
SCENARIO(dictionaries, 2) {
    static std::vector<Letters> pool = allWords(U"ab", 3);
    size_t n = 1 + c.choose(c.quick ? 3 : 4);
    static std::vector<Letters> small = allWords(U"ab", 2);
    auto &P = n == 4 ? small : pool;
    if(n == 4) small = std::vector<Letters>{U"a", U"b", U"ab", U"ba", U"aab", U"abb", U"bab", U"abab"};
    LevenshteinIndex ix; ErrorValues e; std::map<WordID, Letters> dict; std::vector<int> used; uint64_t h = 3;
    for(size_t i = 0; i < n; i++) {
        std::vector<int> avail; for(int k = 0; k < (int)P.size(); k++) if(std::find(used.begin(), used.end(), k) == used.end()) avail.push_back(k);
        int w = c.pick(avail); used.push_back(w);
        WordID id = (WordID)(i == 0 ? 4000000 : i * 3);
        c.log("insert %s id %u", ref::show(P[w]).c_str(), id);
        dict[id] = P[w];
        ix.insertWord(ref::word(P[w]), id); c.step();
        h = mc::mix(h, mc::hashSeq(P[w]));
        c.state(h);
    }
    static std::vector<Letters> queries = allWords(U"ab", 3, 0);
    for(auto &q : queries) for(int t : {0, 100, 200, 300}) lookup(c, ix, e, dict, q, t);
    ix.insertWord(ref::word(P[used[0]]), 4000000); ix.insertWord(Word(), 9);
    for(auto &q : queries) lookup(c, ix, e, dict, q, 100);
}

// Long words: one or two edits at every position; the dictionary also holds prefixes, so the pruned branches matter.
SCENARIO(long_words, 3) {
    static std::vector<size_t> lens{5, 9, 16, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300};
    size_t n = c.pick(lens);
    if(c.quick && n > 130 && n != 256) return;
    int kind = c.choose(5); // insert, delete, substitute, swap, none
    size_t step = n <= 33 ? 1 : n <= 100 ? 7 : 37;
    int pos = c.choose((int)((n + step - 1) / step) + 1);
    size_t at = std::min(n - 1, pos * step);
    Letters base; for(size_t i = 0; i < n; i++) base += (char32_t)("abcdefghij"[(i * i + i / 7) % 10]);
    auto edit = [&](Letters w, int k, size_t at) {
        if(w.empty()) return w;
        at = std::min(at, w.size() - 1);
        switch(k) { case 0: w.insert(w.begin() + at, U'q'); break; case 1: w.erase(w.begin() + at); break; case 2: w[at] = U'q'; break; case 3: if(at + 1 < w.size()) std::swap(w[at], w[at + 1]); break; }
        return w; };
    std::map<WordID, Letters> dict; WordID id = 0;
    LevenshteinIndex ix; ErrorValues e;
    std::set<Letters> have;
    auto add = [&](const Letters &w) { if(w.empty() || !have.insert(w).second) return; dict[id] = w; ix.insertWord(ref::word(w), id); id++; c.step(); };
    add(base); add(base.substr(0, n - 1)); add(base.substr(0, n / 2)); add(base + U'z'); add(base.substr(1)); add(edit(base, 3, n / 2)); add(edit(edit(base, 3, n / 3), 2, n / 2));
    Letters q1 = edit(base, kind, at);
    std::vector<Letters> qs{q1};
    for(int k2 = 0; k2 < 4; k2++) for(size_t p2 : {(size_t)0, at > 1 ? at - 2 : 0, at > 0 ? at - 1 : 0, at, at + 1, at + 2, n - 1}) { if(n > 130 && p2 != at && p2 != n - 1) continue; qs.push_back(edit(q1, k2, p2)); }
    c.log("length %zu edit %d at %zu: %zu queries", n, kind, at, qs.size());
    for(auto &q : qs) {
        std::map<WordID, int> d; ref::Costs k; for(auto &w : dict) d[w.first] = ref::editCost(q, w.second, k);
        c.state(mc::hashSeq(q));
        for(int t : {0, 100, 199, 200, 300}) lookup(c, ix, e, dict, q, t, nullptr, &d);
    }
}

// Insertion order and companions must not matter: every permutation of 5 words, with and without a crowd of unrelated words.
SCENARIO(permutations, 2) {
    static std::vector<std::vector<Letters>> sets{{U"abcde", U"abcd", U"abced", U"bacde", U"abc"}, {U"a", U"aa", U"aaa", U"ab", U"ba"}, {U"x", U"y", U"xy", U"yx", U"xyx"}};
    auto words = c.pick(sets); bool crowd = c.flip();
    std::map<WordID, Letters> dict; LevenshteinIndex ix; ErrorValues e; WordID next = 100; uint64_t h = 5;
    if(crowd) for(auto &w : allWords(U"abk", 4)) if(std::find(words.begin(), words.end(), w) == words.end()) { dict[next] = w; ix.insertWord(ref::word(w), next++); }
    auto rest = words;
    while(!rest.empty()) {
        int i = c.choose((int)rest.size());
        WordID id = (WordID)(std::find(words.begin(), words.end(), rest[i]) - words.begin());
        dict[id] = rest[i]; ix.insertWord(ref::word(rest[i]), id); c.step(); h = mc::mix(h, id); c.state(h);
        rest.erase(rest.begin() + i);
    }
    for(auto &q : words) for(int t : {0, 100, 200}) lookup(c, ix, e, dict, q, t);
}

// Insertions and lookups interleaved on one index.
SCENARIO(interleaved, 2) {
    static std::vector<Letters> ws{U"ab", U"abc", U"b", U"bac", U"abcdefghij", Letters(70, U'a') + U"b"}, qs{U"ab", U"acb", U"", U"bcdefghija", Letters(69, U'a') + U"b"};
    static std::map<std::pair<size_t, size_t>, int> dist; if(dist.empty()) { ref::Costs k; for(size_t i = 0; i < qs.size(); i++) for(size_t j = 0; j < ws.size(); j++) dist[{i, j}] = ref::editCost(qs[i], ws[j], k); }
    LevenshteinIndex ix; ErrorValues e; std::map<WordID, Letters> dict; std::vector<bool> in(ws.size()); IndexMatches reused; uint64_t h = 11;
    int depth = c.quick ? 4 : 5; const int N = (int)(ws.size() + qs.size());
    for(int i = 0; i < depth; i++) {
        int op = c.choose(N); h = mc::mix(h, op); c.state(h);
        if(op < (int)ws.size()) { c.log("insert %s", ref::show(ws[op]).c_str()); ix.insertWord(ref::word(ws[op]), (WordID)(op * 5 + 1)); dict[(WordID)(op * 5 + 1)] = ws[op]; c.step(); }
        bool all = i + 1 == depth;
        for(size_t q = 0; q < qs.size(); q++) {
            if(!all && (op < (int)ws.size() || q != op - ws.size())) continue;
            std::map<WordID, int> d; for(auto &w : dict) d[w.first] = dist[{q, w.first / 5}];
            c.log("look up %s", ref::show(qs[q]).c_str());
            lookup(c, ix, e, dict, qs[q], 200, nullptr, &d); lookup(c, ix, e, dict, qs[q], all ? 7000 : 100, &reused, &d);
        }
    }
}

// Very many results, and distances far above 2^15 and 2^16.
SCENARIO(many_results, 2) {
    static std::vector<int> ns{100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 70000}; size_t n = c.pick(ns); int shape = c.choose(2); LevenshteinIndex ix; ErrorValues e; std::map<WordID, Letters> dict;
    for(size_t i = 0; i < n; i++) { Letters w; size_t x = i; for(int k = 0; k < 17; k++) if(shape) w += (x >> k & 1) ? U'b' : U'a'; else if(k < 4) { w += (char32_t)('a' + x % 17); x /= 17; } ix.insertWord(ref::word(w), (WordID)(i * 3)); dict[(WordID)(i * 3)] = w; }
    c.step(); c.state(n * 2 + shape); Letters q = shape ? Letters(17, U'a') : Letters(U"aaaa");
    std::map<WordID, int> d; ref::Costs k; for(auto &w : dict) d[w.first] = ref::editCost(q, w.second, k);
    lookup(c, ix, e, dict, q, 1700, nullptr, &d); lookup(c, ix, e, dict, q, 200, nullptr, &d); lookup(c, ix, e, dict, q, 300, nullptr, &d);
}
SCENARIO(far_words, 2) {
    static std::vector<size_t> ns{100, 254, 255, 256, 327, 328, 330, 640, 655, 656, 660, 1100}; size_t n = c.pick(ns), m = c.pick(ns); if(c.quick && n > 600 && m > 600 && n != m) return;
    LevenshteinIndex ix; ErrorValues e; std::map<WordID, Letters> dict{{1, Letters(n, U'x')}, {2, Letters(n, U'x') + U"y"}, {3, U"q"}, {4, Letters(n / 2, U'z') + Letters(n / 2, U'x')}, {5, Letters(m, U'y')}};
    for(auto &w : dict) { ix.insertWord(ref::word(w.second), w.first); c.step(); } c.state(mc::mix(n, m));
    for(auto &q : {Letters(m, U'y'), Letters(m, U'x'), Letters(U"x"), Letters()}) { std::map<WordID, int> d; ref::Costs k; for(auto &w : dict) d[w.first] = ref::editCost(q, w.second, k); for(int t : {200, 25600, 32767, 32768, 65535, 65536, 200000}) lookup(c, ix, e, dict, q, t, nullptr, &d); }
}

MC_MAIN
