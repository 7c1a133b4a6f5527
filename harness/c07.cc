// C07: what an index knows.
#include "ref.hh"
using namespace Columbus;
using ref::Letters;

struct Model { std::map<Letters, std::pair<WordID, size_t>> w; };
static void verify(mc::Ctx &c, const LevenshteinIndex &ix, const Model &m, const std::vector<Letters> &probes, const std::vector<WordID> &idProbes) {
    size_t maxc = 0; std::set<WordID> ids;
    for(auto &x : m.w) {
        c.eval(); maxc = std::max(maxc, x.second.second); ids.insert(x.second.first);
        if(!ix.hasWord(ref::word(x.first))) c.fail("c07-lost", "%s was inserted but is not reported", ref::show(x.first).c_str());
        if(ix.wordCount(x.second.first) != x.second.second) c.fail("c07-count", "%s was inserted %zu times, reported %zu", ref::show(x.first).c_str(), x.second.second, ix.wordCount(x.second.first));
    }
    for(auto &p : probes) if(ix.hasWord(ref::word(p)) != (m.w.count(p) > 0)) c.fail("c07-phantom", "presence of %s reported wrongly", ref::show(p).c_str());
    for(auto i : idProbes) if(!ids.count(i) && ix.wordCount(i) != 0) c.fail("c07-phantom-count", "identifier %u was never inserted but has count %zu", i, ix.wordCount(i));
    if(ix.numWords() != m.w.size()) c.fail("c07-num", "%zu distinct words, reported %zu", m.w.size(), ix.numWords());
    if(ix.maxCount() != maxc) c.fail("c07-max", "largest count is %zu, reported %zu", maxc, ix.maxCount());
    c.outcome(mc::mix(mc::mix(m.w.size(), maxc), ids.size()));
}
static void add(mc::Ctx &c, LevenshteinIndex &ix, Model &m, const Letters &l, WordID id) {
    c.step(); ix.insertWord(ref::word(l), id); if(l.empty()) return; auto &x = m.w[l]; x.first = id; x.second++;
}
static const std::vector<Letters> &probes() {
    static std::vector<Letters> p = [] { std::vector<Letters> v; for(auto s : {"", "a", "ab", "abc", "abd", "b", "ba", "bac", "c", "abcd", "aa", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xf0\x9f\x98\x81", "bb"}) v.push_back(ref::letters(s)); return v; }();
    return p;
}
static const std::vector<WordID> &idp() { static std::vector<WordID> v{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 100, 65536, 65537, 0x7fffffff, 0x80000001, 0xfffffffe}; return v; }
SCENARIO(histories, 2) {
    struct E { Letters l; WordID id; };
    static std::vector<E> pool{{U"a", 0}, {U"ab", 7}, {U"abc", 2}, {U"b", 65536}, {U"", 9}, {U"ba", 0x80000000u}, {ref::letters("\xf0\x9f\x98\x80"), 3}, {ref::letters("\xc3\xa9"), 65537 * 2}};
    int depth = 1 + c.choose(c.quick ? 5 : 7); if(c.quick && depth > 5) return;
    LevenshteinIndex ix; Model m; uint64_t h = 1;
    for(int d = 0; d < depth; d++) {
        int i = c.choose((int)pool.size()); c.log("insert %s id %u", ref::show(pool[i].l).c_str(), pool[i].id);
        add(c, ix, m, pool[i].l, pool[i].id); h = mc::mix(h, i); c.state(h);
        if(d + 1 == depth - 1) { IndexMatches im; ErrorValues *e = nullptr; (void)e; verify(c, ix, m, probes(), idp()); }
    }
    verify(c, ix, m, probes(), idp());
}
SCENARIO(repeats, 2) {
    // interleaved repetitions with counts crossing byte and 16-bit boundaries
    static std::vector<int> n{1, 2, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537};
    int a = c.pick(n), b = c.pick(n); if(c.quick && (a > 60000 && b > 60000)) return;
    LevenshteinIndex ix; Model m; Word wa("alpha"), wb("beta");
    for(int i = 0; i < std::max(a, b); i++) { if(i < a) { ix.insertWord(wa, 5); c.step(); } if(i < b) { ix.insertWord(wb, 6); c.step(); } }
    m.w[U"alpha"] = {5, (size_t)a}; m.w[U"beta"] = {6, (size_t)b};
    verify(c, ix, m, probes(), idp()); c.state(mc::mix(a, b));
    add(c, ix, m, U"alp", 1); add(c, ix, m, U"", 2); add(c, ix, m, U"betas", 3); verify(c, ix, m, {U"al", U"alph", U"alpha", U"bet", U"beta", U"betas", U"alp"}, idp());
}
SCENARIO(growth, 1) {
    int shape = c.choose(5); size_t n = c.quick && shape > 1 ? 2000 : 70000; if(shape == 4) n = c.quick ? 400 : 2000; if(shape == 2 && !c.quick) n = 40000;
    LevenshteinIndex ix; Model m;
    for(size_t i = 0; i < n; i++) {
        Letters l;
        switch(shape) {
        case 0: for(char ch : std::to_string(i * 7919 % 100003)) l += (char32_t)ch; break;
        case 1: l = U"pre"; for(int b = 0; b < 17; b++) l += (i >> b & 1) ? U'y' : U'x'; break;
        case 2: l = Letters(1, (char32_t)(0x4E00 + i % 20000)); if(i >= 20000) l += U'a'; break;
        case 3: for(size_t k = 0; k < 30; k++) l += (char32_t)('a' + (i * (k + 7) + k) % 19); for(char ch : std::to_string(i)) l += (char32_t)ch; break;
        default: l = Letters(i + 1, U'e');
        }
        if(m.w.count(l)) continue;
        add(c, ix, m, l, (WordID)(i * 3 + 1)); if(i % 5 == 0) add(c, ix, m, l, (WordID)(i * 3 + 1));
        if((i & (i + 1)) == 0) verify(c, ix, m, probes(), idp());
    }
    verify(c, ix, m, probes(), {0, 3, 6}); c.state(shape);
}
MC_MAIN
