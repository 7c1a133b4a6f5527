// C05: splitting text.
#include "ref.hh"
using namespace Columbus;
using ref::Letters;

static void one(mc::Ctx &c, const std::string &s) {
    std::vector<std::string> runs; std::string cur;
    for(char ch : s) { if(ref::isWs((unsigned char)ch)) { if(cur.size()) runs.push_back(cur); cur.clear(); } else cur += ch; }
    if(cur.size()) runs.push_back(cur);
    bool ok = true; std::vector<ref::CP> v; ref::Text want;
    for(auto &r : runs) { if(!ref::dec(r, v)) ok = false; else want.push_back(ref::toLetters(v)); }
    c.state(mc::hashStr(s)); c.step(); c.eval();
    if(c.verbose) c.log("split %s", ref::showBytes(s.substr(0, 100)).c_str());
    bool threw = false; ref::Text got;
    char *exact = new char[s.size() + 1]; memcpy(exact, s.c_str(), s.size() + 1);
    try { WordList l = splitToWords(exact); for(size_t i = 0; i < l.size(); i++) got.push_back(ref::lettersOf(l[i])); } catch(std::exception &) { threw = true; }
    delete[] exact;
    if(threw) { if(ok) c.fail("c05-refused", "well-formed text %s refused", ref::showBytes(s).c_str()); }
    else {
        if(!ok) c.fail("c05-accepted", "ill-formed text %s accepted", ref::showBytes(s).c_str());
        if(got != want) c.fail("c05-runs", "text %s split into %s, expected %s", ref::showBytes(s).c_str(), ref::show(got).c_str(), ref::show(want).c_str());
    }
    uint64_t h = threw; for(auto &w : got) h = mc::mix(h, mc::hashSeq(w)); c.outcome(h);
}
static void grow(mc::Ctx &c, const std::vector<std::string> &sym, const std::string &start, int n) {
    std::vector<std::string> cur{start}; one(c, start);
    for(int k = 0; k < n; k++) { std::vector<std::string> nx; for(auto &p : cur) for(auto &x : sym) { nx.push_back(p + x); one(c, nx.back()); } cur.swap(nx); }
}
SCENARIO(small_alphabet, 2) { static std::vector<std::string> s{"a", " ", "\xc3\x89", "\n"}; std::string st = c.pick(s) + c.pick(s); grow(c, s, st, c.quick ? 5 : 7); }
SCENARIO(full_alphabet, 2) { static std::vector<std::string> s{"a", "B", " ", "\t", "\n", "\r", "\v", "\xc2\xa0", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xff", "\xc3", "\f"}; std::string st = c.pick(s) + c.pick(s); grow(c, s, st, c.quick ? 2 : 3); }
SCENARIO(trivial, 0) { one(c, ""); for(auto x : {" ", "a", "\t", "\n", "\r", "\xc3\xa9"}) one(c, x); }
// Word lengths up and down: the work buffer is reused and grown.
SCENARIO(run_lengths, 2) {
    static std::vector<int> len{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 257, 1000, 4096};
    int a = c.pick(len), b = c.pick(len);
    for(int d : len) for(int g = 0; g < 3; g++) { if(c.quick && d > 300 && g) continue; std::string gap = g == 0 ? " " : g == 1 ? "\t\n" : std::string(17, '\r');
        std::string s = std::string(a, 'a') + gap + std::string(b, 'b') + gap + std::string(d, 'c'); one(c, s); if(g) one(c, gap + s + gap); std::string u; for(int i = 0; i < d; i++) u += "\xe4\xb8\xad"; one(c, s + gap + u); }
}
SCENARIO(many_words, 1) {
    int n = c.choose(c.quick ? 60 : 400); if(n > 40) n = 40 + (n - 40) * 31;
    std::string s; for(int i = 0; i < n; i++) { if(i) s += " "; s += "w" + std::to_string(i); } one(c, s); one(c, s + "\n"); one(c, " " + s + " \xff"); one(c, s + " " + s);
}
// runs, gaps and numbers of words on both sides of 2^15, 2^16 and 2^17
SCENARIO(sixteen_bits, 2) {
    static std::vector<int> ns{32767, 32768, 65534, 65535, 65536, 65537, 70000, 131073}; int n = c.pick(ns), kind = c.choose(7); std::string r(n, 'a'), s; c.log("kind %d size %d", kind, n);
    switch(kind) {
    case 0: s = r + " tail"; break; case 1: s = "head " + r; break; case 2: s = "head" + std::string(n, '\n') + "tail"; break; case 3: for(int i = 0; i < n; i++) s += i % 2 ? "a " : "b\t"; break;
    case 4: s = r + " " + r + "b c"; break; case 5: for(int i = 0; i < n; i++) s += "\xf0\x9f\x98\x80"; s += " x"; break; default: s = std::string(n, ' ') + "a" + std::string(n, ' '); }
    one(c, s); one(c, s + "\xff");
}
// Texts that know their length, given to documents and queries: a null letter ends nothing.
SCENARIO(texts_with_nulls, 1) {
    static std::vector<std::string> sym{"a", " ", std::string(1, '\0'), "\xc3\x89", "\xff", "\n"};
    Matcher m; { Corpus k; Document d(1); d.addText(Word("f"), "a"); k.addDocument(d); m.index(k); }
    auto one2 = [&](const std::string &s) {
        bool null = s.find('\0') != std::string::npos, refused = false, ill = false; c.step(); c.eval(); c.state(mc::hashStr(s));
        WordList want; if(!null) try { want = splitToWords(s.c_str()); } catch(std::exception &) { ill = true; }
        Document d(2); Word f("f"); d.addText(f, "old text");
        try { d.addText(f, s); } catch(std::exception &) { refused = true; }
        if(refused != (null || ill)) c.fail("c05-null", "adding text %s: %s", ref::showBytes(s).c_str(), refused ? "refused" : "accepted");
        if(refused) want = splitToWords("old text");
        if(d.getText(f) != want) c.fail("c05-text", "after adding %s the document holds other words", ref::showBytes(s).c_str());
        refused = false; size_t n = 0, e = 0;
        try { n = m.match(s).size(); } catch(std::exception &) { refused = true; }
        if(refused != (null || ill)) c.fail("c05-null", "query %s: %s", ref::showBytes(s).c_str(), refused ? "refused" : "accepted");
        if(!refused) { e = m.match(splitToWords(s.c_str())).size(); if(n != e) c.fail("c05-query", "query %s finds %zu documents, its words %zu", ref::showBytes(s).c_str(), n, e); }
        c.outcome(mc::mix(null * 2 + ill, n));
    };
    std::vector<std::string> cur{c.pick(sym)}; one2(cur[0]);
    for(int n = 1; n < (c.quick ? 5 : 6); n++) { std::vector<std::string> nx; for(auto &p : cur) for(auto &x : sym) { nx.push_back(p + x); one2(nx.back()); } cur.swap(nx); }
}
MC_MAIN
