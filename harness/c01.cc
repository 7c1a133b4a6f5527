// C01: text <-> letters, against an independent UTF-8 codec and ICU's per-code-point lower-casing.
#include "ref.hh"
using namespace Columbus;
using ref::Letters; using ref::CP;

static void checkWord(mc::Ctx &c, const Word &w, const Letters &want, const char *how) {
    c.eval();
    if(w.length() != want.size()) c.fail("c01-length", "%s: %zu letters expected (%s), got %u (%s)", how, want.size(), ref::show(want).c_str(), w.length(), ref::show(w).c_str());
    for(unsigned i = 0; i < w.length(); i++) if((Letter_)w[i] != (Letter_)want[i]) c.fail("c01-letter", "%s: expected %s got %s", how, ref::show(want).c_str(), ref::show(w).c_str());
    std::string u = w.asUtf8();
    if(u != ref::utf8(want)) c.fail("c01-utf8", "%s: word %s exports as %s, expected %s", how, ref::show(want).c_str(), ref::showBytes(u).c_str(), ref::showBytes(ref::utf8(want)).c_str());
    if(!(w == u)) c.fail("c01-utf8-eq", "%s: word differs from its own UTF-8", how);
}
// Every way to make a word from text; all must agree.
static void allWays(mc::Ctx &c, const std::string &s, bool all) {
    std::vector<CP> cps; bool ok = ref::dec(s, cps); Letters want; bool ws = false;
    if(ok) { want = ref::toLetters(cps); for(auto l : want) if(ref::isWs(l)) ws = true; }
    c.state(mc::hashStr(s));
    if(c.verbose) c.log("text %s %s", ref::showBytes(s).c_str(), !ok ? "(ill-formed)" : ws ? "(whitespace)" : "");
    for(int way = 0; way < (all ? 4 : 1); way++) {
        bool thrown = false; c.step();
        try {
            if(way == 0) { Word w(s.c_str()); if(ok && !ws) checkWord(c, w, want, "Word(const char*)"); }
            else if(way == 1) { Word w(s); if(ok && !ws) checkWord(c, w, want, "Word(string)"); }
            else if(way == 2) { Word w("previous"); w = s.c_str(); if(ok && !ws) checkWord(c, w, want, "operator=(const char*)"); }
            else { Word w; w = s; if(ok && !ws) checkWord(c, w, want, "operator=(string)"); }
        } catch(std::exception &e) { thrown = true; if(ok && !ws) c.fail("c01-refused", "well-formed text %s refused: %s", ref::showBytes(s).c_str(), e.what()); }
        if(!thrown && !ok) { Word w(s.c_str()); c.fail("c01-illformed", "ill-formed text %s accepted as %s", ref::showBytes(s).c_str(), ref::show(w).c_str()); }
    }
    c.outcome(mc::mix(mc::hashSeq(want), ok + 2 * ws));
}

SCENARIO(every_scalar_value, 1) {
    int block = c.choose(0x1100);
    c.log("block U+%04X", block << 8);
    static const char *pre[] = {"", "a", "\xc3\xa9", "", "\xe4\xb8\xad"}; static const char *post[] = {"", "B", "\xf0\x9f\x98\x80", "", "\xf0\x90\x90\x80"};
    for(CP cp = block << 8; cp < (CP)(block + 1) << 8; cp++) {
        if(cp == 0 || (cp >= 0xD800 && cp <= 0xDFFF)) continue;
        for(int k = 0; k < (c.quick && block >= 0x30 ? 2 : 5); k++) {
            std::string s = pre[k] + ref::enc(cp) + post[k]; if(k == 3) s += s;
            allWays(c, s, k == 0 && block < 0x30);
        }
    }
}
SCENARIO(surrogate_code_points, 1) {
    int b = c.choose(32);
    for(CP cp = 0xD800 + b * 64; cp < (CP)0xD800 + (b + 1) * 64; cp++) {
        allWays(c, ref::enc(cp), true);
        allWays(c, ref::enc(0xD83D) + ref::enc(cp), false);
        allWays(c, "a" + ref::enc(cp) + "b", false);
    }
}
SCENARIO(short_byte_strings, 1) {
    int a = 1 + c.choose(255);
    std::string s(1, (char)a); allWays(c, s, true);
    for(int b = 1; b < 256; b++) { s.resize(1); s += (char)b; allWays(c, s, false); allWays(c, "a" + s, false); allWays(c, s + "z", false); }
}
static const std::vector<unsigned char> &classBytes() {
    static std::vector<unsigned char> v{0x01, 'A', 'z', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xff};
    return v;
}
SCENARIO(class_byte_strings, 2) {
    auto &B = classBytes();
    std::string s; s += (char)B[c.choose((int)B.size())]; s += (char)B[c.choose((int)B.size())];
    for(auto x : B) { std::string t = s + (char)x; allWays(c, t, true); for(auto y : B) { std::string u = t + (char)y; allWays(c, u, false);
        if(!c.quick) for(auto z : B) allWays(c, u + (char)z, false); } }
}
// Mixed widths: the work buffer is sized from the byte length and shrunk depending on the produced length.
SCENARIO(mixed_widths, 2) {
    static std::vector<std::string> sym{"A", "z", "\xc3\x89", "\xd0\x96", "\xe4\xb8\xad", "\xe1\xba\x9e", "\xf0\x90\x90\x80", "\xf0\x9f\x98\x80"};
    std::string s = c.pick(sym) + c.pick(sym);
    int n = c.quick ? 2 : 4;
    std::vector<std::string> cur{s};
    allWays(c, s, true);
    for(int k = 0; k < n; k++) { std::vector<std::string> nx; for(auto &p : cur) for(auto &x : sym) { nx.push_back(p + x); allWays(c, nx.back(), k < 2); } cur.swap(nx); }
}
SCENARIO(every_length, 2) {
    static std::vector<std::string> unit{"A", "\xc3\x89", "\xe4\xb8\xad", "\xf0\x90\x90\x80", "A\xe4\xb8\xad", "\xc3\x89\xe4\xb8\xad", "AB\xf0\x90\x90\x80", "\xe4\xb8\xad\xe4\xb8\xad\xc3\x89" };
    auto &u = c.pick(unit); int block = c.choose(c.quick ? 10 : 60);
    for(int n = block * 40; n < (block + 1) * 40; n++) { std::string s; for(int i = 0; i < n; i++) s += u; allWays(c, s, n < 100); }
}
SCENARIO(long_lengths, 2) {
    static std::vector<std::string> unit{"A", "\xc3\x89", "\xe4\xb8\xad", "\xf0\x90\x90\x80"};
    static std::vector<int> at{1023, 4095, 8191, 16383, 32767, 65535, 131071};
    auto &u = c.pick(unit); int n = c.pick(at); if(c.quick && n > 70000) return;
    for(int d = -2; d <= 3; d++) { std::string s, t; s.reserve((n + d) * u.size()); for(int i = 0; i < (n + d) / (int)u.size(); i++) s += u; allWays(c, s, false); }
    std::string s; for(int i = 0; i < n; i++) s += u; allWays(c, s, false); allWays(c, s + "\xff", false); allWays(c, s.substr(0, s.size() - 1) + (u.size() > 1 ? "" : "\xe4"), false);
}
MC_MAIN
