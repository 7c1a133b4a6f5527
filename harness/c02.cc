// C02: histories of operations on words, against plain values.
#include "ref.hh"
#include <memory>
using namespace Columbus;
using ref::Letters;

static void same(mc::Ctx &c, const Word &w, const Letters &want, int slot) {
    c.eval();
    if(w.length() != want.size()) c.fail("c02-length", "word %d: expected %s, got length %u", slot, ref::show(want).c_str(), w.length());
    for(unsigned i = 0; i < w.length(); i++) if((Letter_)w[i] != (Letter_)want[i]) c.fail("c02-letters", "word %d: expected %s got %s", slot, ref::show(want).c_str(), ref::show(w).c_str());
    std::string u = w.asUtf8();
    if(u != ref::utf8(want)) c.fail("c02-utf8", "word %d: UTF-8 %s, expected %s", slot, ref::showBytes(u).c_str(), ref::showBytes(ref::utf8(want)).c_str());
    Word fresh = ref::word(want);
    if(!(w == fresh) || w != fresh || !(fresh == w) || w < fresh || fresh < w) c.fail("c02-equal", "word %d: %s differs from a fresh word with the same letters", slot, ref::show(want).c_str());
    if(!(w == u) || !(w == u.c_str()) || w != u || w != u.c_str()) c.fail("c02-equal-text", "word %d: %s differs from its own text", slot, ref::show(want).c_str());
    if(w.hash() != fresh.hash()) c.fail("c02-hash", "word %d: %s: hash differs from that of an equal word", slot, ref::show(want).c_str());
    for(unsigned i : {w.length(), w.length() + 1, 0xffffffffu}) {
        bool t = false; try { (void)w[i]; } catch(std::out_of_range &) { t = true; }
        if(!t) c.fail("c02-range", "word %d (length %u): reading letter %u did not throw", slot, w.length(), i);
    }
}
static const std::vector<std::string> &texts() { static std::vector<std::string> t{"", "a", "ab", "\xc3\x89\xf0\x9f\x98\x80", "Zy"}; return t; }
static const std::vector<std::string> &badTexts() { static std::vector<std::string> t{"a b", "\xff", "x\t", "caf\xc3\xa9 au lait"}; return t; }

template<int SLOTS> static void history(mc::Ctx &c, int maxDepth, int minDepth) {
    int depth = minDepth + c.choose(maxDepth - minDepth + 1);
    std::unique_ptr<Word> w[SLOTS]; Letters m[SLOTS];
    for(int s = 0; s < SLOTS; s++) w[s].reset(new Word());
    enum { TEXT, STR, BAD, BADSTR, COPY, MOVE, COPYCTOR, MOVECTOR, JOIN, SWAP, RAW, NKIND };
    struct Op { int kind, s, a, b; };
    static std::vector<Op> ops = [] {
        std::vector<Op> o;
        for(int s = 0; s < SLOTS; s++) {
            for(int i = 0; i < (int)texts().size(); i++) o.push_back({i % 2 ? STR : TEXT, s, i, 0});
            for(int i = 0; i < (int)badTexts().size(); i++) o.push_back({i % 2 ? BADSTR : BAD, s, i, 0});
            for(int t = 0; t < SLOTS; t++) { o.push_back({COPY, s, t, 0}); if(t != s) { o.push_back({MOVE, s, t, 0}); o.push_back({COPYCTOR, s, t, 0}); o.push_back({MOVECTOR, s, t, 0}); } }
            for(int a = 0; a < SLOTS; a++) for(int b = 0; b < SLOTS; b++) o.push_back({JOIN, s, a, b});
            o.push_back({RAW, s, 0, 0});
        }
        for(int s = 0; s < SLOTS; s++) for(int t = s + 1; t < SLOTS; t++) o.push_back({SWAP, s, t, 0});
        return o; }();
    for(int d = 0; d < depth; d++) {
        Op o = ops[c.choose((int)ops.size())]; c.step();
        switch(o.kind) {
        case TEXT: c.log("w%d = text %s", o.s, texts()[o.a].c_str()); *w[o.s] = texts()[o.a].c_str(); m[o.s] = ref::letters(texts()[o.a]); break;
        case STR: c.log("w%d = string %s", o.s, texts()[o.a].c_str()); *w[o.s] = texts()[o.a]; m[o.s] = ref::letters(texts()[o.a]); break;
        case BAD: case BADSTR: {
            c.log("w%d = refused %s", o.s, ref::showBytes(badTexts()[o.a]).c_str());
            bool t = false;
            try { if(o.kind == BAD) *w[o.s] = badTexts()[o.a].c_str(); else *w[o.s] = badTexts()[o.a]; } catch(std::exception &) { t = true; }
            if(!t) c.fail("c02-not-refused", "assigning %s was accepted", badTexts()[o.a].c_str());
            break; }
        case COPY: c.log("w%d = w%d", o.s, o.a); *w[o.s] = *w[o.a]; m[o.s] = m[o.a]; break;
        case MOVE: c.log("w%d = move(w%d)", o.s, o.a); *w[o.s] = std::move(*w[o.a]); m[o.s] = m[o.a]; m[o.a] = ref::lettersOf(*w[o.a]); break; // moved-from: some valid word
        case COPYCTOR: c.log("w%d copy-constructed from w%d", o.s, o.a); w[o.s].reset(new Word(*w[o.a])); m[o.s] = m[o.a]; break;
        case MOVECTOR: c.log("w%d move-constructed from w%d", o.s, o.a); w[o.s].reset(new Word(std::move(*w[o.a]))); m[o.s] = m[o.a]; m[o.a] = ref::lettersOf(*w[o.a]); break;
        case JOIN: { c.log("w%d = w%d.join(w%d)", o.s, o.a, o.b); Letters j = m[o.a] + m[o.b]; *w[o.s] = w[o.a]->join(*w[o.b]); m[o.s] = j; break; }
        case SWAP: c.log("swap(w%d, w%d)", o.s, o.a); std::swap(*w[o.s], *w[o.a]); std::swap(m[o.s], m[o.a]); break;
        case RAW: { c.log("w%d = word from its own letters", o.s); std::vector<Letter> l; for(auto x : m[o.s]) l.push_back(Letter((Letter_)x)); l.push_back(Letter(0)); *w[o.s] = Word(l.data(), l.size()); break; }
        }
    }
    uint64_t h = SLOTS;
    for(int s = 0; s < SLOTS; s++) { same(c, *w[s], m[s], s); h = mc::mix(h, mc::hashSeq(m[s])); }
    for(int s = 0; s < SLOTS; s++) for(int t = 0; t < SLOTS; t++) {
        if((*w[s] == *w[t]) != (m[s] == m[t]) || (*w[s] != *w[t]) != (m[s] != m[t])) c.fail("c02-equal-pair", "words %s and %s compared wrongly", ref::show(m[s]).c_str(), ref::show(m[t]).c_str());
        if((*w[s] < *w[t]) != (m[s] < m[t])) c.fail("c02-order", "order of %s and %s is wrong", ref::show(m[s]).c_str(), ref::show(m[t]).c_str());
    }
    c.state(h); c.outcome(h);
}
SCENARIO(two_words, 2) { history<2>(c, c.quick ? 3 : 4, 1); }
SCENARIO(three_words, 2) { history<3>(c, c.quick ? 2 : 3, 1); }

// Order, equality and hash of all pairs of short words.
SCENARIO(pairs, 1) {
    static std::vector<Letters> pool = [] {
        std::vector<std::string> sym{"a", "b", "\xc4\x81", "\xef\xbf\xbd", "\xf0\x9f\x98\x80", "\xe4\xb8\xad", "\xc3\xbf"};
        std::vector<Letters> v{Letters()}, cur{Letters()};
        for(int n = 0; n < 3; n++) { std::vector<Letters> nx; for(auto &p : cur) for(auto &s : sym) nx.push_back(p + ref::letters(s)); cur.swap(nx); v.insert(v.end(), cur.begin(), cur.end()); }
        return v; }();
    int i = c.choose((int)pool.size());
    Word a = ref::word(pool[i]); std::string ua = ref::utf8(pool[i]);
    same(c, a, pool[i], 0);
    for(size_t j = 0; j < pool.size(); j++) {
        Word b = ref::word(pool[j]); c.step(); c.eval();
        bool eq = pool[i] == pool[j];
        if((a == b) != eq || (a != b) == eq || (b == ua) != eq || (b != ua) == eq || (b == ua.c_str()) != eq) c.fail("c02-equal-pair", "words %s and %s compared wrongly", ref::show(pool[i]).c_str(), ref::show(pool[j]).c_str());
        if((a < b) != (pool[i] < pool[j])) c.fail("c02-order", "order of %s and %s is wrong", ref::show(pool[i]).c_str(), ref::show(pool[j]).c_str());
        if(eq && a.hash() != b.hash()) c.fail("c02-hash", "equal words %s hash differently", ref::show(pool[i]).c_str());
        Word j1 = a.join(b);
        same(c, j1, pool[i] + pool[j], 1);
        same(c, a, pool[i], 0); same(c, b, pool[j], 2);
    }
    c.state(mc::hashSeq(pool[i])); c.outcome(mc::hashSeq(pool[i]));
}
SCENARIO(long_words, 1) {
    int n = c.choose(c.quick ? 80 : 700); if(n > 60) n = 60 + (n - 60) * 13;
    Letters l; for(int i = 0; i < n; i++) l += (char32_t)('a' + i % 26);
    Word a = ref::word(l); same(c, a, l, 0);
    Word b = a; same(c, b, l, 1); b = b.join(b); same(c, b, l + l, 1); same(c, a, l, 0);
    Word d; d = a; same(c, d, l, 2); a = std::move(b); same(c, a, l + l, 0); same(c, d, l, 2);
    // words differing in one letter, at every position (at a few in very long words), by one in either byte of the letter, and its prefixes
    for(int at = 0; at < n; at++) {
        if(n > 140 && at > 3 && at < n - 3 && at % 61) continue;
        for(int k = 0; k < 3; k++) {
            Letters x = l; x[at] = k == 0 ? x[at] + 1 : k == 1 ? x[at] + 0x100 : x[at] ^ 1; if(x[at] != (char32_t)ref::lower(x[at])) continue; Word e = ref::word(x); c.eval();
            if(d == e || !(d != e) || (d < e) != (l < x) || (e < d) != (x < l)) c.fail("c02-order", "words of %d letters that differ at %d: == %d != %d < %d %d", n, at, (int)(d == e), (int)(d != e), (int)(d < e), (int)(e < d));
        }
        Letters x = l.substr(0, at); Word e = ref::word(x); if(d == e || !(e < d) || d < e) c.fail("c02-order", "a word of %d letters against its prefix of %d", n, at);
    }
    if(n) { Letters x = l; x[n - 1] = 'A' + 32 + 25; x += U'q'; Word e = ref::word(x); if((a < e) != (l + l < x) || (e < d) != (x < l) || (d < e) != (l < x)) c.fail("c02-order", "order of long words is wrong (length %d)", n); }
    c.state(n); c.outcome(n); c.step();
}
MC_MAIN
