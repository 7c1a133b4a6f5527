// C03: which letter sequences may form a word.
#include "ref.hh"
using namespace Columbus;
using ref::Letters;

static void attempt(mc::Ctx &c, const Letters &l) {
    bool ws = false; bool nul = false; for(auto x : l) { if(ref::isWs(x)) ws = true; if(!x) nul = true; }
    bool ok = !ws && !nul && ref::surrogatesOk(l);
    c.state(mc::hashSeq(l)); c.outcome(mc::mix(mc::hashSeq(l), ok));
    if(c.verbose) c.log("letters %s: %s", ref::show(l).c_str(), ok ? "valid" : "invalid");
    for(int term = 0; term < 2; term++) {
        std::vector<Letter> v; for(auto x : l) v.push_back(Letter((Letter_)x));
        if(term) v.push_back(Letter(0));
        else if(l.empty() || l.back() == 0) { if(!l.empty()) continue; }
        Letter *heap = new Letter[v.size()]; for(size_t i = 0; i < v.size(); i++) heap[i] = v[i];   // exact size, so over-reads are caught
        bool refused = false; std::string other; c.step(); c.eval();
        try {
            Word w(heap, v.size());
            if(ok && ref::lettersOf(w) != l) { delete[] heap; c.fail("c03-altered", "letters %s became %s", ref::show(l).c_str(), ref::show(w).c_str()); }
            if(!ok) { delete[] heap; c.fail(ws ? "c03-whitespace" : nul ? "c03-null" : "c03-surrogate", "invalid letter sequence %s accepted as %s", ref::show(l).c_str(), ref::show(w).c_str()); }
            if(w.asUtf8() != ref::utf8(l)) { delete[] heap; c.fail("c03-utf8", "letters %s export as %s", ref::show(l).c_str(), ref::showBytes(w.asUtf8()).c_str()); }
        } catch(std::invalid_argument &) { refused = true; }
        catch(std::exception &e) { other = e.what(); refused = true; }
        delete[] heap;
        if(!ok && other.size()) c.fail("c03-wrong-exception", "invalid letter sequence %s refused with another exception: %s", ref::show(l).c_str(), other.c_str());
        if(ok && refused) c.fail("c03-refused", "valid letter sequence %s refused", ref::show(l).c_str());
    }
}
static Letters alphabet() {
    if(ref::wide) return Letters(U"a \t\n\r\u00e9\U0001F600\v\u00a0") + U'\0';
    Letters l; for(uint32_t x : {(uint32_t)'a', (uint32_t)' ', 0xD800u, 0xDBFFu, 0xDC00u, 0xDFFFu, 0xD7FFu, 0xE000u, (uint32_t)'\n', (uint32_t)'\t', (uint32_t)'\r', 0u}) l += (char32_t)x; return l;
}
SCENARIO(sequences, 2) {
    Letters al = alphabet(), l; int max = c.quick ? 5 : 6;
    l += al[c.choose((int)al.size())]; attempt(c, l);
    l += al[c.choose((int)al.size())]; attempt(c, l);
    std::vector<Letters> cur{l};
    for(int n = 2; n < max; n++) { std::vector<Letters> nx; for(auto &p : cur) for(auto x : al) { nx.push_back(p + x); attempt(c, nx.back()); } cur.swap(nx); }
}
SCENARIO(empty, 0) { attempt(c, Letters()); }
SCENARIO(every_letter, 1) {
    int b = c.choose(256);
    for(uint32_t x = b << 8; x < (uint32_t)(b + 1) << 8; x++) {
        if(!x || (ref::wide && x >= 0xD800 && x < 0xE000)) continue;
        Letters l(1, (char32_t)x); attempt(c, l); attempt(c, U"a" + l); attempt(c, l + U"a");
        if(!ref::wide) { attempt(c, l + Letters(1, (char32_t)0xDC00)); attempt(c, Letters(1, (char32_t)0xD83D) + l); attempt(c, Letters(1, (char32_t)0xD83D) + l + Letters(1, (char32_t)0xDE00)); }
    }
}
// Whitespace anywhere in text.
SCENARIO(text, 2) {
    static std::vector<std::string> sym{"a", "\xc3\xa9", "\xf0\x9f\x98\x80", " ", "\t", "\n", "\r", "\v", "\xc2\xa0"};
    std::vector<std::string> cur{c.pick(sym) + c.pick(sym)};
    auto one = [&](const std::string &s) {
        Letters l = ref::letters(s); bool ws = false; for(auto x : l) if(ref::isWs(x)) ws = true;
        for(int way = 0; way < 4; way++) {
            bool bad = false; c.step(); c.eval();
            try { Word w; if(way == 0) { Word v(s.c_str()); w = v; } else if(way == 1) { Word v(s); w = v; } else if(way == 2) w = s; else w = s.c_str();
                if(ws) c.fail("c03-whitespace", "text with whitespace %s accepted", ref::showBytes(s).c_str());
                if(ref::lettersOf(w) != l) c.fail("c03-altered", "text %s became %s", ref::showBytes(s).c_str(), ref::show(w).c_str());
            } catch(std::invalid_argument &) { bad = true; }
            if(bad && !ws) c.fail("c03-refused", "text %s refused", ref::showBytes(s).c_str());
        }
        c.outcome(mc::mix(mc::hashStr(s), ws));
    };
    one(cur[0]);
    for(int n = 2; n < (c.quick ? 4 : 6); n++) { std::vector<std::string> nx; for(auto &p : cur) for(auto &x : sym) { nx.push_back(p + x); one(nx.back()); } cur.swap(nx); }
}
// Joining never produces a broken word either, and long words are checked to the end.
SCENARIO(long_sequences, 2) {
    int n = 1 + c.choose(c.quick ? 40 : 200), kind = c.choose(7);
    for(int at = 0; at < n; at++) {
        Letters l(n, U'x');
        static const uint32_t ins[] = {' ', 0xD83D, 0xDE00, '\n', '\r', '\t', 0};
        if(ref::wide && (kind == 1 || kind == 2)) continue;
        l[at] = (char32_t)ins[kind]; attempt(c, l);
        if(!ref::wide && kind == 1) { Letters p = l; p.insert(p.begin() + at + 1, (char32_t)0xDE00); attempt(c, p); p.insert(p.begin() + at + 1, (char32_t)0xDE00); attempt(c, p); p = l; p.insert(p.begin() + at + 1, (char32_t)0xD83D); attempt(c, p); }
    }
}
// The same in words longer than any plausible buffer, in letters and in text.
// A null inside a text that knows its length.
SCENARIO(nulls_in_text, 1) {
    static std::vector<std::string> sym{"a", "\xc3\xa9", "\xf0\x9f\x98\x80", std::string(1, '\0'), "B", "\xe4\xb8\xad"};
    auto one = [&](const std::string &s) {
        bool null = s.find('\0') != std::string::npos; Letters l = ref::letters(s); for(auto &x : l) x = ref::lower(x);
        for(int way = 0; way < 3; way++) {
            bool bad = false; c.step(); c.eval(); Word w("zz");
            try { if(way == 0) { Word v(s); w = v; } else if(way == 1) w = s; else { Word v("kept"); v = s; w = std::move(v); } } catch(std::invalid_argument &) { bad = true; }
            if(bad && (ref::lettersOf(w) != U"zz" || w.asUtf8() != "zz")) c.fail("c03-refused-changed", "refused text %s changed the word", ref::showBytes(s).c_str());
            if(bad != null) c.fail("c03-null", "text %s %s", ref::showBytes(s).c_str(), bad ? "refused" : "with a null letter accepted");
            if(!bad && ref::lettersOf(w) != l) c.fail("c03-altered", "text %s became %s", ref::showBytes(s).c_str(), ref::show(w).c_str());
            if(w == std::string("zz") + '\0' || w == s + '\0' || !(w != s + '\0' + "a")) c.fail("c03-null-equal", "a word equals a text with a null letter");
        }
        c.state(mc::hashStr(s)); c.outcome(null);
    };
    std::vector<std::string> cur{c.pick(sym)}; one(cur[0]);
    for(int n = 1; n < (c.quick ? 5 : 6); n++) { std::vector<std::string> nx; for(auto &p : cur) for(auto &x : sym) { nx.push_back(p + x); one(nx.back()); } cur.swap(nx); }
    for(int n : {31, 64, 255, 256, 257, 4096, 65536}) { std::string s; while((int)s.size() < n) s += cur[n % cur.size()][0] ? "abc" : "xyz"; for(int at : {0, 1, n / 2, n - 1}) { std::string t = s; t[at] = 0; one(t); } }
}
SCENARIO(very_long, 2) {
    static std::vector<int> ns{199, 255, 256, 257, 300, 511, 512, 513, 1000, 1025, 2049, 4095, 4096, 4097, 65535, 65536, 65537}; int n = c.pick(ns), kind = c.choose(8);
    static const uint32_t ins[] = {' ', 0xD83D, 0xDE00, '\n', '\r', '\t', 0, 'y'};
    if(ref::wide && (kind == 1 || kind == 2)) return;
    std::set<int> where{0, 1, n / 2, n - 2, n - 1}; for(int p = 64; p < n; p *= 2) { where.insert(p - 1); where.insert(p); where.insert(p + 1 < n ? p + 1 : p); }
    if(n <= 300) for(int i = 0; i < n; i++) where.insert(i);
    for(int at : where) {
        Letters l(n, U'x'); l[at] = (char32_t)ins[kind]; attempt(c, l);
        if(kind == 1 && at + 1 < n) { l[at + 1] = 0xDE00; attempt(c, l); }
        if(kind != 1 && kind != 2 && kind != 6) for(const char *fill : {"x", "\xc3\xa9", "\xf0\x9f\x98\x80"}) {
            std::string s; for(int i = 0; i < n; i++) { if(i == at) s += (char)ins[kind]; else s += fill; }
            for(int way = 0; way < 4; way++) {
                bool bad = false; c.step(); c.eval();
                try { Word w("zz"); if(way == 0) { Word v(s.c_str()); w = v; } else if(way == 1) { Word v(s); w = v; } else if(way == 2) w = s; else w = s.c_str();
                    if(kind != 7) c.fail("c03-whitespace", "text of %d symbols with whitespace at %d accepted", n, at);
                    if(w.asUtf8() != s) c.fail("c03-altered", "text of %d symbols altered", n);
                } catch(std::invalid_argument &) { bad = true; }
                if(bad && kind == 7) c.fail("c03-refused", "text of %d symbols refused", n);
            }
        }
    }
}
MC_MAIN
