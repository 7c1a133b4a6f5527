// C04: exporting into caller-supplied buffers of every size; exact heap blocks under AddressSanitizer catch any stray byte.
#include "ref.hh"
#include "columbus.h"
using namespace Columbus;
using ref::Letters;

static void exportTo(mc::Ctx &c, const Word &w, const std::string &want, unsigned n, bool cApi) {
    char *buf = new char[n];      // exactly n bytes
    memset(buf, 0x5a, n);
    bool threw = false; c.step(); c.eval();
    if(c.verbose) c.log("export %s (%zu bytes) into %u bytes%s", ref::showBytes(want.substr(0, 40)).c_str(), want.size(), n, cApi ? " (C)" : "");
    if(cApi) col_word_as_utf8((ColWord)&w, buf, n);
    else try { w.toUtf8(buf, n); } catch(std::exception &) { threw = true; }
    bool fits = want.size() + 1 <= n;
    std::string got = n ? std::string(buf, strnlen(buf, n)) : "";
    bool terminated = n && got.size() < n;
    delete[] buf;
    if(fits) {
        if(threw) c.fail("c04-refused", "text of %zu bytes refused by a buffer of %u", want.size(), n);
        if(!terminated || got != want) c.fail("c04-text", "text %s in a buffer of %u bytes became %s", ref::showBytes(want).c_str(), n, ref::showBytes(got).c_str());
    } else {
        if(!cApi && !threw) c.fail("c04-no-exception", "text of %zu bytes in a buffer of %u: no exception", want.size(), n);
        if(n && !terminated) c.fail("c04-unterminated", "text of %zu bytes in a buffer of %u bytes: not NUL-terminated", want.size(), n);
    }
    c.outcome(mc::mix(want.size() * 4 + fits * 2 + threw, n));
}
static void allSizes(mc::Ctx &c, const Letters &l) {
    Word w = ref::word(l); std::string want = ref::utf8(l); c.state(mc::hashSeq(l));
    for(unsigned n = 0; n <= want.size() + 4; n++) { exportTo(c, w, want, n, false); exportTo(c, w, want, n, true); }
    for(unsigned n : {(unsigned)want.size() * 2 + 7, 4096u}) { exportTo(c, w, want, n, false); exportTo(c, w, want, n, true); }
}
SCENARIO(short_words, 2) {
    static std::vector<std::string> sym{"a", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80"};
    Letters l = ref::letters(c.pick(sym) + c.pick(sym)); std::vector<Letters> cur{l}; allSizes(c, l); allSizes(c, l.substr(0, ref::wide || l[0] < 0xD800 || l[0] > 0xDFFF ? 1 : 2));
    for(int n = 2; n < (c.quick ? 4 : 6); n++) { std::vector<Letters> nx; for(auto &p : cur) for(auto &x : sym) { nx.push_back(p + ref::letters(x)); allSizes(c, nx.back()); } cur.swap(nx); }
}
SCENARIO(empty_word, 0) { allSizes(c, Letters()); Word w; exportTo(c, w, "", 0, false); exportTo(c, w, "", 1, false); exportTo(c, w, "", 1, true); exportTo(c, w, "", 0, true); }
SCENARIO(long_words, 2) {
    static std::vector<std::string> sym{"a", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "ab\xf0\x9f\x98\x80"};
    auto &s = c.pick(sym); int n = 1 + c.choose(c.quick ? 60 : 400); if(n > 50) n = 50 + (n - 50) * 17;
    std::string t; for(int i = 0; i < n; i++) t += s;
    Letters l = ref::letters(t); Word w = ref::word(l); std::string want = ref::utf8(l); c.state(mc::hashSeq(l));
    for(int d = -6; d <= 4; d++) { if((int)want.size() + d < 0) continue; exportTo(c, w, want, want.size() + d, false); exportTo(c, w, want, want.size() + d, true); }
    for(unsigned k : {0u, 1u, 2u, 3u, 5u, (unsigned)want.size() / 2, (unsigned)want.size() / 2 + 1}) { exportTo(c, w, want, k, false); exportTo(c, w, want, k, true); }
    if(w.asUtf8() != want) c.fail("c04-as-utf8", "asUtf8 of a word of %zu letters is wrong", l.size());
}
MC_MAIN
