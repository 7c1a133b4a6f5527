// C11: accent, keyboard and number-pad presets.
#include "ref.hh"
#include <fstream>
#include <sys/stat.h>
using namespace Columbus;
using ref::Letters;

struct Model {
    std::map<std::pair<uint32_t, uint32_t>, int> single; std::map<uint32_t, int> group; std::vector<int> err;
    int cost(uint32_t a, uint32_t b) const {
        if(a == b) return 0;
        if(a > b) std::swap(a, b);
        auto s = single.find({a, b}); if(s != single.end()) return s->second;
        auto g = group.find(a), h = group.find(b); if(g != group.end() && h != group.end() && g->second == h->second) return err[g->second];
        return 100;
    }
    void set(uint32_t a, uint32_t b, int e) { if(a > b) std::swap(a, b); single[{a, b}] = e; }
    bool setGroup(const Letters &l, int e) { for(auto x : l) if(group.count(x)) return false; err.push_back(e); for(auto x : l) group[x] = (int)err.size() - 1; return true; }
    void clear() { single.clear(); group.clear(); err.clear(); }
    // Presets, from the documentation of the layouts.
    bool accents(const std::string &file) {   // false: refused (file missing, or a letter already in a group)
        std::ifstream f(file.c_str()); if(!f) return false; Model old = *this;   // a refused preset changes nothing
        std::string line; while(std::getline(f, line)) { if(line.empty()) continue; std::vector<ref::CP> cps; if(!ref::dec(line, cps) || line.find(' ') != line.npos || !setGroup(ref::toLetters(cps), 30)) { *this = old; return false; } }
        return true;
    }
    void keyboard() {
        // Rows of the Finnish layout; each row is shifted right of the one above, so a key touches the keys below it at the same and the previous position.
        std::vector<Letters> rows{ref::letters("1234567890+"), ref::letters("qwertyuiop\xc3\xa5"), ref::letters("asdfghjkl\xc3\xb6\xc3\xa4'"), ref::letters("zxcvbnm,.-")};
        for(size_t r = 0; r < rows.size(); r++) for(size_t k = 0; k < rows[r].size(); k++) {
            if(k + 1 < rows[r].size()) set(rows[r][k], rows[r][k + 1], 30);
            if(r + 1 < rows.size()) { if(k < rows[r + 1].size()) set(rows[r][k], rows[r + 1][k], 30); if(k && k - 1 < rows[r + 1].size()) set(rows[r][k], rows[r + 1][k - 1], 30); }
        }
    }
    void pad() {
        std::vector<std::vector<Letters>> keys{{U"", U"abc", U"def"}, {U"ghi", U"jkl", U"mno"}, {U"pqrs", U"tuv", U"wxyz"}};
        for(int r = 0; r < 3; r++) for(int k = 0; k < 3; k++) {
            uint32_t digit = '1' + r * 3 + k;
            for(auto l : keys[r][k]) set(digit, l, 0);
            int dr[] = {-1, 1, 0, 0}, dk[] = {0, 0, -1, 1};
            for(int n = 0; n < 4; n++) { int rr = r + dr[n], kk = k + dk[n]; if(rr < 0 || rr > 2 || kk < 0 || kk > 2) continue; for(auto l : keys[rr][kk]) set(digit, l, 50); }
        }
    }
};
static std::string shareDir() { const char *r = getenv("VERIF_REPO"); return std::string(r ? r : "/repo") + "/share/"; }
static const char *LATIN = "latinAccentedLetterGroups.txt", *GREEK = "greekAccentedLetterGroups.txt";
static Letters probeSet(const std::string &dir) {
    std::set<uint32_t> s; for(uint32_t x = '!'; x < 127; x++) s.insert(ref::lower(x));
    for(auto f : {LATIN, GREEK}) { std::ifstream i((dir + f).c_str()); std::string line; while(std::getline(i, line)) for(auto x : ref::letters(line)) s.insert(x); }
    for(auto x : ref::letters("\xc3\xa5\xc3\xa4\xc3\xb6\xc7\xbf\xc8\x81\xe4\xb8\xad")) s.insert(x);
    Letters l; for(auto x : s) l += (char32_t)x; return l;
}
static void verify(mc::Ctx &c, const ErrorValues &e, const Model &m, const Letters &probe) {
    uint64_t h = 1; std::vector<std::vector<int>> seen;
    for(auto a : probe) for(auto b : probe) {
        int g = e.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)), w = m.cost(a, b);
        if(g != w) c.fail("c11-cost", "cost of %s for %s is %d, expected %d", ref::show(Letters(1, a)).c_str(), ref::show(Letters(1, b)).c_str(), g, w);
        h = mc::mix(h, g);
    }
    c.eval(probe.size() * probe.size()); c.outcome(h);
}
static void apply(mc::Ctx &c, int k, ErrorValues &e, Model &m, const std::string &dir) {
    bool want = true, threw = false; c.step();
    static const char *names[] = {"addAccents(latin)", "addAccents(greek)", "addKeyboardErrors", "addNumberpadErrors", "addStandardErrors", "clearErrors", "setError(a,1)", "setGroupError"};
    c.log("%s", names[k]);
    try { switch(k) {
        case 0: e.addAccents(latinAccentGroup); break; case 1: e.addAccents(greekAccentGroup); break; case 2: e.addKeyboardErrors(); break; case 3: e.addNumberpadErrors(); break;
        case 4: e.addStandardErrors(); break; case 5: e.clearErrors(); break; case 6: e.setError(Letter('a'), Letter('1'), 77); e.setError(Letter('q'), Letter('w'), 5); break;
        default: e.setGroupError(Word("zx1\xd0\xb6"), 12);
    } } catch(std::exception &) { threw = true; }
    switch(k) {
        case 0: want = m.accents(dir + LATIN); break; case 1: want = m.accents(dir + GREEK); break; case 2: m.keyboard(); break; case 3: m.pad(); break;
        case 4: { Model old = m; want = m.accents(dir + LATIN) && m.accents(dir + GREEK); if(want) m.keyboard(); else m = old; break; } case 5: m.clear(); break; case 6: m.set('a', '1', 77); m.set('q', 'w', 5); break;
        default: want = m.setGroup(ref::letters("zx1\xd0\xb6"), 12);
    }
    if(want == threw) c.fail("c11-refusal", "%s %s", names[k], want ? "refused" : "not refused although it cannot be applied");
}
SCENARIO(combinations, 2) {
    static Letters probe = probeSet(shareDir());
    setenv("COLUMBUS_DATADIR", shareDir().c_str(), 1);
    int n = 1 + c.choose(c.quick ? 3 : 4); ErrorValues e; Model m; uint64_t h = 1;
    for(int i = 0; i < n; i++) { int k = c.choose(8); apply(c, k, e, m, shareDir()); h = mc::mix(h, k); c.state(h); }
    verify(c, e, m, probe);
}
// Where the data files are looked for, and data files of various shapes.
SCENARIO(data_files, 2) {
    static std::string tmp; if(tmp.empty()) { char b[] = "/tmp/c11-XXXXXX"; if(!mkdtemp(b)) throw mc::HarnessError{"mkdtemp"}; tmp = std::string(b) + "/"; static struct Clean { std::string d; ~Clean() { unlink((d + LATIN).c_str()); unlink((d + GREEK).c_str()); rmdir(d.c_str()); } } cl{tmp}; }
    static Letters probe = probeSet(shareDir());
    static std::vector<std::string> contents{"", "\n", "a\xc3\xa1\n", "a\xc3\xa1", "ab\n\ncd\n", "AB\nCD\n", "a\xc3\xa1\xc8\x81\xe4\xb8\xad\nb1\n", "ab\nbc\nde\n", "<missing>", "x\n", "aab\n", "ab cd\n", "ab\n\xff\ncd\n"};
    int where = c.choose(6), content = c.choose((int)contents.size());
    const std::string &txt = contents[content];
    unlink((tmp + LATIN).c_str()); unlink((tmp + GREEK).c_str());
    if(txt != "<missing>") { std::ofstream(tmp + LATIN) << txt; }
    std::ofstream(tmp + GREEK) << "\xce\xb1\xce\xac\n";
    std::string dir = tmp; bool readable = txt != "<missing>";
    switch(where) {
    case 0: setenv("COLUMBUS_DATADIR", tmp.c_str(), 1); break;
    case 1: setenv("COLUMBUS_DATADIR", tmp.substr(0, tmp.size() - 1).c_str(), 1); break;
    case 2: setenv("COLUMBUS_DATADIR", (tmp + "nonexistent").c_str(), 1); dir = tmp + "nonexistent/"; readable = false; break;
    case 3: unsetenv("COLUMBUS_DATADIR"); dir = COLUMBUS_DATADIR; readable = access((dir + LATIN).c_str(), R_OK) == 0; break;
    case 4: setenv("COLUMBUS_DATADIR", "", 1); dir = "/"; readable = access((dir + LATIN).c_str(), R_OK) == 0; break;
    default: setenv("COLUMBUS_DATADIR", (tmp + "/").c_str(), 1);
    }
    c.log("where %d content %s", where, ref::showBytes(txt).c_str());
    ErrorValues e; Model m; c.step(); c.state(where * 100 + content);
    bool threw = false, want;
    try { e.addAccents(latinAccentGroup); } catch(std::exception &) { threw = true; }
    want = readable && m.accents(dir + LATIN);
    setenv("COLUMBUS_DATADIR", shareDir().c_str(), 1);
    if(want == threw) c.fail("c11-file", "data directory case %d, content %s: accents %s", where, ref::showBytes(txt).c_str(), threw ? "refused" : "not refused");
    verify(c, e, m, probe);
    if(!want) { // nothing may prevent trying again
        Model m2 = m; e.addAccents(latinAccentGroup); m2.accents(shareDir() + LATIN); verify(c, e, m2, probe); }
}
// The data files themselves: every line is a group, no letter in two groups.
SCENARIO(installed_files, 0) {
    setenv("COLUMBUS_DATADIR", shareDir().c_str(), 1);
    ErrorValues e; e.addAccents(latinAccentGroup); e.addAccents(greekAccentGroup); c.step(); size_t pairs = 0;
    for(auto f : {LATIN, GREEK}) { std::ifstream i((shareDir() + f).c_str()); std::string line; while(std::getline(i, line)) { Letters l = ref::letters(line); for(auto a : l) for(auto b : l) { pairs++; int g = e.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)); if(g != (a == b ? 0 : 30)) c.fail("c11-line", "letters <%x> <%x> of one line cost %d", (unsigned)a, (unsigned)b, g); } } }
    if(pairs < 50) c.fail("c11-empty", "accent data files hold only %zu pairs", pairs);
    c.eval(pairs); c.state(pairs); c.outcome(pairs);
}
MC_MAIN
