// C06: word identifiers.
#include "ref.hh"
#include <memory>
using namespace Columbus;
using ref::Letters;

struct Model { std::map<Letters, WordID> ids; };
static void verify(mc::Ctx &c, const WordStore &st, const Model &m, const std::vector<Letters> &probes) {
    std::set<WordID> issued; for(auto &x : m.ids) issued.insert(x.second);
    for(auto &x : m.ids) {
        c.eval();
        if(!st.hasWord(x.second)) c.fail("c06-id-lost", "identifier %u of %s is no longer known", x.second, ref::show(x.first).c_str());
        Word w = st.getWord(x.second);
        if(ref::lettersOf(w) != x.first) c.fail("c06-wrong-word", "identifier %u of %s maps to %s", x.second, ref::show(x.first).c_str(), ref::show(w).c_str());
    }
    for(auto &p : probes) { c.eval(); bool has = st.hasWord(ref::word(p)); if(has != (m.ids.count(p) > 0)) c.fail(has ? "c06-phantom" : "c06-lost", "membership of %s reported %d", ref::show(p).c_str(), has); }
    std::vector<WordID> no{0xffffffffu, 0x7fffffffu, 0x80000000u, (WordID)issued.size() + 1000, 65536u};
    for(WordID i = 0; i < 24; i++) no.push_back(i);
    no.push_back((WordID)issued.size()); no.push_back((WordID)issued.size() + 1);
    for(WordID i : no) {
        if(issued.count(i)) continue;
        if(st.hasWord(i)) c.fail("c06-phantom-id", "identifier %u was never issued but is reported known", i);
        bool t = false; try { st.getWord(i); } catch(std::out_of_range &) { t = true; }
        if(!t) c.fail("c06-phantom-get", "getWord of the unknown identifier %u did not throw out_of_range", i);
    }
}
static void add(mc::Ctx &c, WordStore &st, Model &m, const Letters &l) {
    c.step(); WordID id = st.getID(ref::word(l));
    auto i = m.ids.find(l);
    if(i != m.ids.end()) { if(i->second != id) c.fail("c06-changed", "identifier of %s changed from %u to %u", ref::show(l).c_str(), i->second, id); }
    else { for(auto &x : m.ids) if(x.second == id) c.fail("c06-shared", "%s and %s share identifier %u", ref::show(l).c_str(), ref::show(x.first).c_str(), id); m.ids[l] = id; }
}
static const std::vector<Letters> &probes() {
    static std::vector<Letters> p = [] { std::vector<Letters> v; for(auto s : {"", "a", "ab", "abc", "abd", "b", "ba", "bac", "c", "abcd", "aa", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xf0\x9f\x98\x81", "a\xc3\xa9", "bb", "ca"}) v.push_back(ref::letters(s)); return v; }();
    return p;
}
// Every sequence of requests over prefix-sharing words; questions are asked in between.
SCENARIO(histories, 2) {
    static std::vector<Letters> pool = [] { std::vector<Letters> v; for(auto s : {"a", "ab", "abc", "b", "", "ba", "\xf0\x9f\x98\x80", "\xf0\x9f\x98\x81", "\xc3\xa9"}) v.push_back(ref::letters(s)); return v; }();
    int depth = 1 + c.choose(c.quick ? 5 : 6);
    WordStore st; Model m; uint64_t h = 1;
    for(int d = 0; d < depth; d++) {
        int i = c.choose((int)pool.size());
        c.log("getID(%s)", ref::show(pool[i]).c_str());
        st.hasWord(ref::word(pool[(i + 1) % pool.size()])); try { st.getWord(d + 3); } catch(std::out_of_range &) {}
        add(c, st, m, pool[i]); h = mc::mix(h, i); c.state(h);
    }
    verify(c, st, m, probes());
    for(auto &x : std::map<Letters, WordID>(m.ids)) add(c, st, m, x.first);
    verify(c, st, m, probes());
    uint64_t o = 0; for(auto &x : m.ids) o = mc::mix(o, mc::hashSeq(x.first)); c.outcome(o);
}
// All orders of adding the words of a small vocabulary.
SCENARIO(orders, 2) {
    static std::vector<std::vector<Letters>> sets{{U"a", U"ab", U"abc", U"abcd", U"b", U"bc"}, {U"x", U"y", U"z", U"xy", U"yx", U"xx"}, {U"abcdef", U"abcdeg", U"abcde", U"abd", U"ac", U"f"}};
    std::vector<Letters> rest = c.pick(sets), all = rest; WordStore st; Model m;
    int take = c.quick ? 5 : 6;
    while(take-- && !rest.empty()) { int i = c.choose((int)rest.size()); c.log("getID(%s)", ref::show(rest[i]).c_str()); add(c, st, m, rest[i]); rest.erase(rest.begin() + i); }
    std::vector<Letters> pr = all; for(auto &w : all) { pr.push_back(w + U"q"); pr.push_back(w.substr(0, w.size() - 1)); }
    verify(c, st, m, pr); c.state(mc::hashSeq(c.choices)); c.outcome(m.ids.size());
}
// Growth: many words of several shapes; everything is re-checked at each power of two and at the end.
SCENARIO(growth, 1) {
    int shape = c.choose(6);
    size_t n = shape == 4 ? (c.quick ? 300 : 1500) : 70000; if(shape == 2) n = c.quick ? 1200 : 20000;
    auto make = [&](size_t i) -> Letters {
        switch(shape) {
        case 0: { Letters l; size_t x = i; do { l += (char32_t)('a' + x % 26); x /= 26; } while(x); return l + U"_"; }
        case 1: { Letters l = U"commonprefix"; for(char ch : std::to_string(i)) l += (char32_t)ch; return l; }
        case 2: return Letters(1, (char32_t)(0x4E00 + i % 20000)) + (i >= 20000 ? Letters(U"z") : Letters());   // one node with thousands of children
        case 3: { Letters l; for(int b = 0; b < 17; b++) l += (i >> b & 1) ? U'b' : U'a'; return l; }
        case 4: return Letters(i + 1, U'd');   // one long chain
        default: { Letters l; for(size_t k = 0; k < 40; k++) l += (char32_t)('a' + (i * (k + 3) + k * k) % 23); for(char ch : std::to_string(i)) l += (char32_t)ch; return l; }
        }
    };
    WordStore st; std::vector<WordID> ids; std::set<WordID> seen; std::vector<Letters> words;
    for(size_t i = 0; i < n; i++) {
        Letters l = make(i); c.step();
        if(st.hasWord(ref::word(l))) c.fail("c06-phantom", "word %zu %s present before it was added", i, ref::show(l).c_str());
        WordID id = st.getID(ref::word(l));
        if(!seen.insert(id).second) c.fail("c06-shared", "word %zu %s got an identifier already issued (%u)", i, ref::show(l).c_str(), id);
        ids.push_back(id); words.push_back(l);
        if(((i + 1) & i) == 0 || i + 1 == n) for(size_t k = 0; k <= i; k++) {
            if(k > 64 && i + 1 != n && k % 7) continue;
            c.eval(); Word w = ref::word(words[k]);
            if(!st.hasWord(w) || st.getID(w) != ids[k]) c.fail("c06-lost", "after %zu words, word %zu %s lost its identifier", i + 1, k, ref::show(words[k]).c_str());
            if(ref::lettersOf(st.getWord(ids[k])) != words[k]) c.fail("c06-wrong-word", "after %zu words, identifier %u maps to %s", i + 1, ids[k], ref::show(st.getWord(ids[k])).c_str());
        }
    }
    if(st.hasWord((WordID)n) && !seen.count((WordID)n)) c.fail("c06-phantom-id", "identifier %zu never issued", n);
    c.state(shape); c.outcome(seen.size());
}
MC_MAIN
