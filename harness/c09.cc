// C09: configured error costs, against exhaustive search for the cheapest edit script.
#include "ref.hh"
using namespace Columbus;
using ref::Letters;

static std::vector<Letters> allWords(const Letters &alpha, size_t maxLen, size_t minLen) {
    std::vector<Letters> out, cur{Letters()};
    for(size_t n = 0; n <= maxLen; n++) { if(n >= minLen) out.insert(out.end(), cur.begin(), cur.end()); std::vector<Letters> nx; for(auto &w : cur) for(auto l : alpha) nx.push_back(w + l); cur.swap(nx); }
    return out;
}
struct Dict { LevenshteinIndex ix; std::vector<Letters> words; };
static void compare(mc::Ctx &c, const Dict &d, const ErrorValues &e, const ref::Costs &k, const Letters &q, const std::vector<int> &max, const std::string &cfg) {
    std::vector<int> dist; for(auto &w : d.words) dist.push_back(ref::editCost(q, w, k));
    Word qw = ref::word(q);
    for(int t : max) {
        IndexMatches m; c.step(); d.ix.findWords(qw, e, t, m);
        std::vector<int> got(d.words.size(), -1); int last = -1; uint64_t h = 1;
        for(size_t i = 0; i < m.size(); i++) {
            WordID id = m.getMatch(i); if(id >= got.size() || got[id] != -1) c.fail("c09-duplicate", "%s query %s max %d: bad or repeated identifier %u", cfg.c_str(), ref::show(q).c_str(), t, id);
            got[id] = m.getMatchError(i); if(got[id] < last) c.fail("c09-order", "%s query %s max %d: results not ordered", cfg.c_str(), ref::show(q).c_str(), t);
            last = got[id]; h = mc::mix(h, id * 100003ull + got[id]);
        }
        c.outcome(h);
        for(size_t i = 0; i < got.size(); i++) {
            c.eval();
            int want = dist[i] <= t ? dist[i] : -1;
            if(want != got[i]) c.fail("c09-cost", "%s query %s word %s max %d: cheapest script costs %d, lookup says %d (-1 = not returned)", cfg.c_str(), ref::show(q).c_str(), ref::show(d.words[i]).c_str(), t, dist[i], got[i]);
        }
    }
}
static std::string show(const ref::Costs &k) {
    char b[200]; snprintf(b, sizeof b, "ins=%d del=%d endDel=%d startIns=%d transp=%d limit=%zu", k.ins, k.del, k.endDel, k.startIns, k.transp, k.limit);
    std::string s = b; for(auto &x : k.sub) { snprintf(b, sizeof b, " sub(%x,%x)=%d", x.first.first, x.first.second, x.second); s += b; } return s;
}
static Dict *dict(const Letters &alpha, size_t len) {
    auto d = new Dict(); d->words = allWords(alpha, len, 1); for(size_t i = 0; i < d->words.size(); i++) d->ix.insertWord(ref::word(d->words[i]), (WordID)i); return d;
}
SCENARIO(cost_grid, 4) {
    static std::vector<int> vals{100, 0, 30, 170}, valsT{100, 0, 1, 30, 99, 170, 250};
    auto &v = c.quick ? vals : valsT;
    static Dict *d = nullptr; if(!d) d = dict(U"ab", c.quick ? 4 : 5);
    static std::vector<Letters> qs = allWords(U"abc", c.quick ? 3 : 4, 0);
    ref::Costs k; k.ins = c.pick(v); k.del = c.pick(v); k.endDel = c.pick(v); k.startIns = c.pick(v); k.transp = c.pick(v);
    static std::vector<size_t> lim{0, 2, 3}; k.limit = c.pick(lim);
    int s = c.choose(c.quick ? 3 : 5);
    if(s == 1) k.sub[{'a', 'b'}] = 20; else if(s == 2) { k.sub[{'a', 'b'}] = 300; k.sub[{'a', 'c'}] = 0; } else if(s == 3) k.sub[{'b', 'c'}] = 1; else if(s == 4) { k.sub[{'a', 'b'}] = 0; k.sub[{'b', 'c'}] = 170; }
    ErrorValues *ep; { static ErrorValues *shared = new ErrorValues(); ep = shared; }
    ErrorValues &e = *ep; e.clearErrors(); k.apply(e);
    std::string cfg = show(k); c.log("%s", cfg.c_str()); c.state(mc::hashStr(cfg));
    int part = 0;
    for(auto &q : qs) { part++; if(c.quick && q.size() == 3 && (part % 3)) continue; compare(c, *d, e, k, q, {0, 60, 200, 400}, cfg); }
}
// Letters on both sides of the lookup-table boundary, one and two letters per symbol.
SCENARIO(letter_costs, 3) {
    static std::vector<Letters> alphas = [] { std::vector<Letters> v; for(auto s : {"a\xc7\xbf\xc8\x81", "\xc8\x81\xe4\xb8\xad" "z", "ab\xc3\xa9", "\xef\xbf\xbd\xc7\xbf" "1"}) v.push_back(ref::letters(s)); return v; }();
    static std::vector<int> vals{100, 0, 7, 150, 201};
    int ai = c.choose((int)alphas.size()); auto &al = alphas[ai];
    ref::Costs k;
    auto key = [&](int i, int j) { uint32_t a = al[i], b = al[j]; return std::make_pair(std::min(a, b), std::max(a, b)); };
    k.sub[key(0, 1)] = c.pick(vals); k.sub[key(1, 2)] = c.pick(vals); k.sub[key(0, 2)] = c.pick(vals);
    if(c.flip()) k.transp = 20;
    static std::map<int, Dict*> ds; auto &d = ds[ai]; if(!d) d = dict(al, 3);
    ErrorValues e; k.apply(e); std::string cfg = show(k); c.log("%s", cfg.c_str()); c.state(mc::hashStr(cfg));
    for(auto &q : allWords(al, c.quick ? 2 : 3, 0)) compare(c, *d, e, k, q, {0, 10, 100, 200}, cfg);
    e.setInsertionError(40); k.ins = 40; e.setStartInsertionError(5); k.startIns = 5; cfg = show(k);
    for(auto &q : allWords(al, 2, 0)) compare(c, *d, e, k, q, {0, 100}, cfg);
}
// Substring mode: short queries inside longer words, around the length limit.
SCENARIO(substring_mode, 2) {
    static std::vector<Letters> words{U"a", U"ab", U"abc", U"abcd", U"xabc", U"xxabc", U"abcx", U"abcxxxxxx", U"xxxabcxxx", U"axbxc", U"xaxbxcx", U"bca", U"acb", U"b", U"xxxxxxxxxxxab", U"abxxxxxxxxxxx"};
    static Dict *d = nullptr; if(!d) { d = new Dict(); d->words = words; for(size_t i = 0; i < words.size(); i++) d->ix.insertWord(ref::word(words[i]), (WordID)i); }
    int mode = c.choose(4); ErrorValues e; ref::Costs k;
    if(mode != 0) { e.setSubstringMode(); k.startIns = 15; k.endDel = 15; k.limit = 3; }
    if(mode == 2) { e.setSubstringStartLimit(1); k.limit = 1; }
    if(mode == 3) { e.setStartInsertionError(3); k.startIns = 3; e.setInsertionError(60); k.ins = 60; e.setEndDeletionError(0); k.endDel = 0; }
    static std::vector<Letters> qs = allWords(U"abc", 4, 0); int q = c.choose((int)qs.size());
    c.log("mode %d query %s", mode, ref::show(qs[q]).c_str()); c.state(mc::mix(mode, q));
    for(size_t n = 0; n < 6; n++) { int s = e.getStartInsertionError(n), w = n >= k.limit ? k.startIns : k.ins; if(s != w) c.fail("c09-start", "mode %d: start insertion error for length %zu is %d, expected %d", mode, n, s, w); }
    if(e.getInsertionError() != k.ins || e.getDeletionError() != k.del || e.getEndDeletionError() != k.endDel || e.getTransposeError() != k.transp) c.fail("c09-getters", "mode %d: a cost reads back wrongly", mode);
    compare(c, *d, e, k, qs[q], {0, 14, 15, 29, 30, 45, 60, 100, 115, 200, 300}, show(k));
}
// Long words, cheap operations: costs accumulate over many edits.
SCENARIO(accumulation, 2) {
    static std::vector<int> vals{1, 15, 40, 100}; int n = 1 + c.choose(c.quick ? 12 : 40); ref::Costs k;
    int kind = c.choose(5); int v = c.pick(vals); Letters base(n, U'm'), q = U"k" + base + U"l", w = q;
    k.limit = 0;
    switch(kind) { case 0: k.ins = v; w = U"kl"; break; case 1: k.del = v; q = U"kl"; break; case 2: k.endDel = v; w = q + Letters(n, U'e'); break; case 3: k.startIns = v; w = Letters(n, U's') + q; break; default: k.sub[{'m', 'o'}] = v; std::replace(w.begin(), w.end(), U'm', U'o'); }
    Dict d; d.words = {w, q + U"q", U"k", w + w}; if(std::find(d.words.begin(), d.words.begin() + 1, q) == d.words.begin() + 1) d.words.push_back(q);
    for(size_t i = 0; i < d.words.size(); i++) d.ix.insertWord(ref::word(d.words[i]), (WordID)i);
    ErrorValues e; k.apply(e); c.state(mc::mix(n * 8 + kind, v)); c.log("%s n=%d", show(k).c_str(), n);
    compare(c, d, e, k, q, {0, v, v * (n - 1), v * n - 1, v * n, v * n + 1, 100 * n, 200}, show(k));
}
// One index, two cost tables changed between lookups: every lookup uses the costs as they are then, and nothing of earlier ones.
SCENARIO(changing, 2) {
    static std::vector<Letters> words{U"a", U"ab", U"ba", U"abc", U"acb", U"xab", U"xxxab", U"abxx", U"abcab", U"abcdefgh", U"bb"};
    static std::vector<Letters> qs{U"ab", U"", U"ba", U"abc", U"a", U"xbcaab"};
    Dict d; auto add = [&](const Letters &w) { d.words.push_back(w); d.ix.insertWord(ref::word(w), (WordID)(d.words.size() - 1)); };
    for(auto &w : words) add(w);
    ErrorValues e[2]; ref::Costs k[2]; std::string cfg; uint64_t h = 9; int added = 0;
    static const int N = 11;
    auto settle = [&](int o, int op) {
        auto &E = e[o]; auto &K = k[o];
        switch(op) {
        case 0: E.setInsertionError(30); K.ins = 30; break;
        case 1: E.setDeletionError(40); K.del = 40; break;
        case 2: E.setEndDeletionError(10); K.endDel = 10; break;
        case 3: E.setStartInsertionError(5); K.startIns = 5; break;
        case 4: E.setTransposeError(0); K.transp = 0; break;
        case 5: E.setSubstringStartLimit(2); K.limit = 2; break;
        case 6: E.setError(Letter('a'), Letter('b'), 20); K.sub[{'a', 'b'}] = 20; break;
        case 7: E.setError(Letter('c'), Letter('a'), 130); K.sub[{'a', 'c'}] = 130; break;
        case 8: E.setSubstringMode(); K.startIns = 15; K.endDel = 15; K.limit = 3; break;
        case 9: E.clearErrors(); K.sub.clear(); break;
        case 10: add(added++ ? U"abcdefghijkl" : U"aabbccddeeff"); break;
        }
    };
    int depth = c.quick ? 3 : 4;
    for(int i = 0; i < depth; i++) {
        int o = c.choose(2), op = c.choose(N); if(op == 10 && added == 2) op = 9;
        settle(o, op); h = mc::mix(h, o * 16 + op); c.state(h);
        cfg = "after history; table " + std::to_string(o) + ": " + show(k[o]); c.log("table %d operation %d: %s", o, op, cfg.c_str());
        for(int which : {o, 1 - o}) for(size_t q = 0; q < qs.size(); q++) { if(which != o && q > 2) break; compare(c, d, e[which], k[which], qs[q], {which == o ? 1000 : 100}, show(k[which]) + (which == o ? " (changed last)" : " (the other)")); }
        if(e[o].getInsertionError() != k[o].ins || e[o].getDeletionError() != k[o].del || e[o].getEndDeletionError() != k[o].endDel || e[o].getTransposeError() != k[o].transp) c.fail("c09-getters", "a cost reads back wrongly: %s", cfg.c_str());
        for(size_t n = 0; n < 5; n++) if(e[o].getStartInsertionError(n) != k[o].start(n)) c.fail("c09-start", "start insertion error for length %zu is %d: %s", n, e[o].getStartInsertionError(n), cfg.c_str());
    }
}
// Costs of every size of number.
SCENARIO(large_costs, 2) {
    static std::vector<int> vals{1, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 100000, 1000000}; int kind = c.choose(6), v = c.pick(vals), rest = c.flip() ? 1000000 : 100; ref::Costs k; k.ins = k.del = k.endDel = k.startIns = k.transp = rest;
    switch(kind) { case 0: k.ins = v; break; case 1: k.del = v; break; case 2: k.endDel = v; break; case 3: k.startIns = v; break; case 4: k.transp = v; break; default: k.sub[{'a', 'b'}] = v; k.sub[{'a', 0x4e00}] = v; }
    static Dict *d = nullptr; if(!d) d = dict(U"ab\x4e00", 3);
    ErrorValues e; k.apply(e); c.state(mc::mix(kind * 2 + (rest > 100), v)); c.log("%s", show(k).c_str());
    if(e.getInsertionError() != k.ins || e.getDeletionError() != k.del || e.getEndDeletionError() != k.endDel || e.getTransposeError() != k.transp || e.getStartInsertionError(3) != k.startIns) c.fail("c09-getters", "a cost reads back wrongly: %s", show(k).c_str());
    for(auto &q : allWords(U"ab", 3, 0)) compare(c, *d, e, k, q, {v - 1, v, v + 1, 2 * v, 2 * v + rest, 10000000}, show(k));
}
// Words far deeper than any call stack, reached because one kind of edit is free (or the maximum is huge), with branches at several depths.
SCENARIO(deep_words, 2) {
    static std::vector<size_t> ns{1000, 20000, 65535, 65537, 131072, 300000}; size_t n = c.pick(ns); int kind = c.choose(6), at = c.choose(4);
    ref::Costs k; int big = 200; Letters base(n, U'm'), q = U"ab";
    switch(kind) { case 0: k.endDel = 0; break; case 1: k.startIns = 0; break; case 2: k.del = 0; break; case 3: k.endDel = 0; k.del = 0; k.startIns = 0; break; case 4: k.endDel = 0; k.transp = 0; q = U"am"; break; default: big = 1 << 30; }
    Dict d; Letters w = kind == 1 ? base + q : kind == 2 ? U"a" + base + U"b" : q + base; size_t cut = at == 0 ? 1 : at == 1 ? n / 2 : at == 2 ? n - 1 : n;
    d.words = {w, w.substr(0, cut) + U"xb", U"ab", w.substr(0, cut) + U"yab", w + U"ab"};
    if(d.words[1].size() == 3 && n < 4) return;
    for(size_t i = 0; i < d.words.size(); i++) { d.ix.insertWord(ref::word(d.words[i]), (WordID)i); c.step(); }
    ErrorValues e; k.apply(e); c.state(mc::mix(n * 8 + kind, at)); c.log("%s n=%zu branch at %zu", show(k).c_str(), n, cut);
    compare(c, d, e, k, q, {0, 200, big}, show(k)); compare(c, d, e, k, U"", {200, big}, show(k));
}
MC_MAIN
