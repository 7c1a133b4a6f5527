"""C24: the Python module against the C++ library, operation for operation.
PY is the module built from python/columbus.cc, X the same library called directly through py_shim.cc."""
import sys, os, ctypes, gc, itertools, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc
import columbus as PY
from ctypes import c_int, c_uint, c_size_t, c_void_p, c_char_p, c_double, byref
X = ctypes.CDLL(os.environ['C24_SHIM'])
P = ctypes.POINTER
def sig(name, res, *args): f = getattr(X, name); f.restype, f.argtypes = res, list(args)
H = c_void_p
for n, r, a in (('x_word', c_int, (c_char_p, c_size_t, P(H))), ('x_word_str', c_int, (H, c_char_p, c_size_t)), ('x_word_len', c_size_t, (H,)), ('x_list', H, ()), ('x_list_copy', H, (H,)),
    ('x_list_add', c_int, (H, H)), ('x_list_get', c_int, (H, c_size_t, P(H))), ('x_list_len', c_size_t, (H,)), ('x_split', c_int, (c_char_p, c_size_t, P(H))), ('x_doc', H, (c_size_t,)), ('x_doc_copy', H, (H,)),
    ('x_doc_count', c_size_t, (H,)), ('x_doc_id', c_size_t, (H,)), ('x_doc_text', c_int, (H, H, P(H))), ('x_doc_add', c_int, (H, H, c_char_p, c_size_t)), ('x_corpus', H, ()), ('x_corpus_add', c_int, (H, H)),
    ('x_corpus_len', c_size_t, (H,)), ('x_res', H, ()), ('x_res_add', c_int, (H, H)), ('x_res_id', c_int, (H, c_size_t, P(c_size_t))), ('x_res_rel', c_int, (H, c_size_t, P(c_double))), ('x_res_len', c_size_t, (H,)),
    ('x_matcher', H, ()), ('x_index', c_int, (H, H)), ('x_match', c_int, (H, c_char_p, c_size_t, P(H))), ('x_ev', H, (H,)), ('x_iw', H, (H,)), ('x_ev_new', H, ()), ('x_iw_new', H, ()), ('x_ev_standard', c_int, (H,)),
    ('x_ev_substring', None, (H,)), ('x_ev_end', None, (H, c_int)), ('x_ev_set', c_int, (H, c_uint, c_uint, c_int)), ('x_ev_get', c_int, (H, c_uint, c_uint)), ('x_ev_clear', None, (H,)), ('x_default', c_int, ()),
    ('x_default_end', c_int, ()), ('x_iw_set', c_int, (H, H, c_double)), ('x_iw_get', c_double, (H, H)), ('x_letter_bits', c_int, ()), ('x_free', None, (c_int, H))): sig(n, r, *a)
MAXLETTER = (1 << X.x_letter_bits()) - 1
NEW = dict(w=lambda t: word(t))
class Refused(Exception): pass
class Dir:
    """The direct call: a handle and what deletes it. Views keep their owner."""
    def __init__(s, h, kind=None, owner=None): s.h, s.kind, s.owner = H(h) if not isinstance(h, H) else h, kind, owner
    def __del__(s):
        if s.kind is not None: X.x_free(s.kind, s.h)
def made(kind, f, *a):
    o = H()
    if f(*a, byref(o)): raise Refused()
    return Dir(o, kind)
def done(rc):
    if rc: raise Refused()
def enc(t): return t if isinstance(t, bytes) else t.encode('utf-8')      # raises for lone surrogates
def d_word(t): b = enc(t); return made(0, X.x_word, b, len(b))
def d_str(w):
    b = ctypes.create_string_buffer(8192); done(X.x_word_str(w.h, b, 8192)); return b.value.decode('utf-8')
def d_wordval(w): return (d_str(w), X.x_word_len(w.h))
def d_listval(l): return [d_wordval(made(0, X.x_list_get, l.h, i)) for i in range(X.x_list_len(l.h))]
def d_resval(r):
    out = []
    for i in range(X.x_res_len(r.h)):
        a, b = c_size_t(), c_double(); done(X.x_res_id(r.h, i, byref(a))); done(X.x_res_rel(r.h, i, byref(b))); out.append((a.value, b.value))
    return out
def d_text(d, w):
    o = H(); done(X.x_doc_text(d.h, w.h, byref(o))); return Dir(o, None, d)
def p_wordval(w): return (w.get_string(), len(w))
def p_listval(l): return [p_wordval(l[i]) for i in range(len(l))]
def p_resval(r): return [(r.get_document_id(i), r.get_relevancy(i)) for i in range(len(r))]
def attempt(f, *a):
    try: return ('ok', f(*a))
    except (mc.Violation, mc.HarnessError): raise
    except Exception as e: return ('refused', type(e).__name__)
def same(c, key, what, p, d):
    """Outcome of both calls: both refused, or both accepted with equal values."""
    c.step(); c.eval()
    c.log('%s -> python %r, c++ %r' % (what, p, d))
    if p[0] != d[0]: c.fail(key, '%s: Python %r, C++ %r' % (what, p, d))
    if p[0] == 'ok' and not eq(p[1], d[1]): c.fail(key, '%s: Python gives %r, C++ gives %r' % (what, p[1], d[1]))
def eq(a, b): return type(a) == type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b
class Both:
    """One object on either side."""
    def __init__(s, p, d): s.p, s.d = p, d
def word(t): return Both(PY.Word(t), d_word(t))
def doc(i, fields):
    b = Both(PY.Document(i), Dir(X.x_doc(i), 2))
    for f, t in fields: addText(b, f, t)
    return b
def addText(b, f, t):
    w = word(f); b.p.add_text(w.p, t); e = enc(t); done(X.x_doc_add(b.d.h, w.d.h, e, len(e)))
def corpus(docs):
    b = Both(PY.Corpus(), Dir(X.x_corpus(), 3))
    for d in docs: b.p.add_document(d.p); done(X.x_corpus_add(b.d.h, d.d.h))
    return b
def matcher(): return Both(PY.Matcher(), Dir(X.x_matcher(), 5))
def indexBoth(m, cp): m.p.index(cp.p); done(X.x_index(m.d.h, cp.d.h))
def d_match(m, t): b = enc(t); return made(4, X.x_match, m.h, b, len(b))
def fieldview(b, f):
    """get_text on both sides."""
    w = word(f)
    return attempt(lambda: p_listval(b.p.get_text(w.p))), attempt(lambda: d_listval(d_text(b.d, w.d)))
def compareDoc(c, key, b, fields=('f', 'g', '')):
    if (len(fields), b.p.get_id(), b.p.field_count()) != (len(fields), X.x_doc_id(b.d.h), X.x_doc_count(b.d.h)):
        c.fail(key, 'document: Python id %r fields %r, C++ %r %r' % (b.p.get_id(), b.p.field_count(), X.x_doc_id(b.d.h), X.x_doc_count(b.d.h)))
    for f in fields: same(c, key, 'get_text(%r)' % f, *fieldview(b, f))
def query(c, key, m, t): same(c, key, 'match(%r)' % (t,), attempt(lambda: p_resval(m.p.match(t))), attempt(lambda: d_resval(d_match(m.d, t))))
LETTERS = [0, ord('a'), ord('b'), ord('x'), 511, 512, 0x4e00, MAXLETTER]
def compareCosts(c, key, p, d, letters=LETTERS):
    for a in letters:
        for b in letters:
            x, y = p.get_substitute_error(a, b), X.x_ev_get(d.h, a, b); c.eval()
            if not eq(x, y): c.fail(key, 'get_substitute_error(%d, %d): Python gives %r, C++ gives %r' % (a, b, x, y))
def compareWeights(c, key, p, d, fields=('f', 'g', 'F', '')):
    for f in fields:
        w = word(f); x, y = p.get_weight(w.p), X.x_iw_get(d.h, w.d.h); c.eval()
        if not eq(x, y): c.fail(key, 'get_weight(%r): Python gives %r, C++ gives %r' % (f, x, y))

def d_split(t): e = enc(t); return made(1, X.x_split, e, len(e))
# ---------------------------------------------------------------- texts
SYMS = ['a', 'B', ' ', '\0', '\u00df', '\u0130', '\u4e2d', '\U0001f600', '\ud800', '\t', '-', '\u00c4']
@mc.scenario(1)
def texts(c):
    n = c.choose(3 if c.quick else 4); t = ''.join(c.pick(SYMS) for _ in range(n)); k = 'text'
    wp, wd = attempt(PY.Word, t), attempt(d_word, t)
    same(c, k, 'Word(%r)' % t, (wp[0], None), (wd[0], None))
    if wp[0] == 'ok': same(c, k, 'value of Word(%r)' % t, attempt(p_wordval, wp[1]), attempt(d_wordval, wd[1]))
    def split(): return d_listval(d_split(t))
    ls = attempt(PY.split_to_words, t)
    same(c, k, 'split_to_words(%r)' % t, attempt(p_listval, ls[1]) if ls[0] == 'ok' else ls, attempt(split))
    if ls[0] == 'ok':
        it = [p_wordval(w) for w in itertools.islice(ls[1], 20)]
        if it != p_listval(ls[1]): c.fail(k, 'iterating over split_to_words(%r) gives %r, indexing %r' % (t, it, p_listval(ls[1])))
    b = doc(7, []); f = word('f'); e = attempt(enc, t)
    same(c, k, 'add_text(%r)' % t, attempt(lambda: b.p.add_text(f.p, t)), attempt(lambda: done(X.x_doc_add(b.d.h, f.d.h, enc(t), len(enc(t))))))
    compareDoc(c, k, b, ('f',))
    m = matcher(); indexBoth(m, corpus([b, doc(8, [('f', 'ab a'), ('g', 'b')])]))
    for q in (t, 'ab', 'a b'): query(c, k, m, q)
    c.state(mc.hsh(t)); c.outcome(mc.hsh(repr((wp[0], ls[0]))))

BYTES = [b'a', b' ', b'\xc3', b'\xa4', b'\xff', b'\xed\xa0\x80', b'\0']
@mc.scenario(1)
def byte_texts(c):   # bytes objects, also ill-formed: never more permissive than C++, and equal where accepted
    n = c.choose(3 if c.quick else 4); t = b''.join(c.pick(BYTES) for _ in range(n)); k = 'bytes'
    for what, p, d in (('Word', lambda: p_wordval(PY.Word(t)), lambda: d_wordval(d_word(t))), ('match', lambda: p_resval(PY.Matcher().match(t)), lambda: d_resval(d_match(matcher().d, t)))):
        x, y = attempt(p), attempt(d)
        if x[0] == 'ok': same(c, k, '%s(%r)' % (what, t), x, y)
        else: c.step(); c.eval()
    c.outcome(mc.hsh(repr(x)))

# ---------------------------------------------------------------- numbers
INTS = [0, 1, 255, 256, 511, 512, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, -1, -2**31, -2**31 - 1, -2**63, 2**70]
@mc.scenario(1)
def identifiers(c):
    i = c.pick(INTS); k = 'identifier'
    p = attempt(PY.Document, i)
    if not 0 <= i < 2**64:
        c.eval()
        if p[0] == 'ok': c.fail(k, 'Document(%d) accepted, with id %r' % (i, p[1].get_id()))
        return
    if p[0] != 'ok': c.fail(k, 'Document(%d) refused: %s' % (i, p[1]))
    d = Dir(X.x_doc(i), 2); b = Both(p[1], d)
    same(c, k, 'get_id of Document(%d)' % i, ('ok', b.p.get_id()), ('ok', X.x_doc_id(d.h)))
    addText(b, 'f', 'word'); other = c.choose(3)
    docs = [b] + ([doc(i ^ 1, [('f', 'word')])] if other == 1 else [doc(3, [('f', 'xword')])] if other == 2 and i != 3 else [])
    m = matcher(); indexBoth(m, corpus(docs)); query(c, k, m, 'word')
    cc = Both(PY.Document(b.p), Dir(X.x_doc_copy(d.h), 2)); compareDoc(c, k, cc, ('f',))
    c.state(mc.mix(i, other))

@mc.scenario(1)
def positions(c):
    i = c.pick(INTS + [2, 3]); n = c.choose(4); k = 'position'
    l = Both(PY.WordList(), Dir(X.x_list(), 1))
    for j in range(n): w = word('ab'[:j % 3] + 'c'); l.p.add_word(w.p); done(X.x_list_add(l.d.h, w.d.h))
    m = matcher(); indexBoth(m, corpus([doc(10 + j, [('f', 'word' + 'xy'[:j])]) for j in range(n)]))
    rp, rd = m.p.match('word'), d_match(m.d, 'word')
    same(c, k, 'length of the list', ('ok', len(l.p)), ('ok', X.x_list_len(l.d.h))); same(c, k, 'number of results', ('ok', len(rp)), ('ok', X.x_res_len(rd.h)))
    def did(): o = c_size_t(); done(X.x_res_id(rd.h, i, byref(o))); return o.value
    def drel(): o = c_double(); done(X.x_res_rel(rd.h, i, byref(o))); return o.value
    def dget(): return d_wordval(made(0, X.x_list_get, l.d.h, i))
    inrange = 0 <= i < 2**64
    for what, p, d in (('get_document_id', lambda: rp.get_document_id(i), did), ('get_relevancy', lambda: rp.get_relevancy(i), drel), ('list[]', lambda: p_wordval(l.p[i]), dget)):
        same(c, k, '%s(%d) of %d' % (what, i, n), attempt(p), attempt(d) if inrange else ('refused', 'out of range'))
    if inrange and i >= n:
        try: l.p[i]
        except IndexError: pass
        except OverflowError: pass
        except Exception as e: c.fail(k, 'list[%d] of %d raises %r, so iterating over the list fails' % (i, n, e))
    it = [p_wordval(w) for w in itertools.islice(l.p, n + 3)]
    if it != d_listval(l.d): c.fail(k, 'iterating gives %r, C++ has %r' % (it, d_listval(l.d)))
    c.state(mc.mix(i, n))

COSTS = [0, 1, 30, 100, -5, 2**31 - 1, -2**31]
@mc.scenario(2)
def costs(c):
    a, b = c.pick(LETTERS), c.pick(LETTERS); v = c.pick(COSTS); std = c.choose(2); k = 'cost'
    p, d = PY.ErrorValues(), Dir(X.x_ev_new(), 6)
    if std: p.add_standard_errors(); done(X.x_ev_standard(d.h))
    same(c, k, 'set_error(%d, %d, %d)' % (a, b, v), attempt(p.set_error, a, b, v), attempt(lambda: done(X.x_ev_set(d.h, a, b, v))))
    compareCosts(c, k, p, d)
    p.clear_errors(); X.x_ev_clear(d.h); compareCosts(c, k, p, d)
    c.state(mc.mix(mc.mix(mc.mix(a, b), v), std)); c.outcome(mc.mix(p.get_substitute_error(a, b), v))

@mc.scenario(1)
def cost_ranges(c):  # letters and costs that do not fit are refused and change nothing
    i = c.pick(INTS); where = c.choose(3); k = 'cost-range'
    p, d = PY.ErrorValues(), Dir(X.x_ev_new(), 6)
    args = [97, 98, 5]; args[where] = i
    fits = 0 <= i <= MAXLETTER if where < 2 else -2**31 <= i < 2**31
    same(c, k, 'set_error%r' % (tuple(args),), attempt(p.set_error, *args), attempt(lambda: done(X.x_ev_set(d.h, *args))) if fits else ('refused', 'out of range'))
    compareCosts(c, k, p, d)
    if where < 2:
        g = [97, 98]; g[where] = i
        same(c, k, 'get_substitute_error%r' % (tuple(g),), attempt(p.get_substitute_error, *g), attempt(lambda: X.x_ev_get(d.h, *g)) if fits else ('refused', 'out of range'))
    else:
        m = matcher(); indexBoth(m, corpus([doc(1, [('f', 'abcdef')])])); ep, ed = m.p.get_errorvalues(), Dir(X.x_ev(m.d.h), None, m.d)
        same(c, k, 'set_end_deletion_error(%d)' % i, attempt(ep.set_end_deletion_error, i), attempt(lambda: X.x_ev_end(ed.h, i)) if fits else ('refused', 'out of range'))
        if not fits or 0 <= i <= 1000: query(c, k, m, 'abc'); query(c, k, m, 'abcdef')
    c.state(mc.mix(i, where))

@mc.scenario(1)
def defaults(c):
    k = 'default'; inst = c.choose(2); o = PY.ErrorValues() if inst else PY.ErrorValues
    same(c, k, 'get_default_error', ('ok', o.get_default_error()), ('ok', X.x_default()))
    same(c, k, 'get_substring_default_end_deletion_error', ('ok', o.get_substring_default_end_deletion_error()), ('ok', X.x_default_end()))
    compareCosts(c, k, PY.ErrorValues(), Dir(X.x_ev_new(), 6), range(0, 600, 37))
    p, d = PY.ErrorValues(), Dir(X.x_ev_new(), 6)
    p.add_standard_errors(); done(X.x_ev_standard(d.h)); L = list(range(97, 123)) + list(range(48, 58)) + [0xe4, 0xe5, 0xf6, 0xe9, 0x3ac, 0x3b1, 600]
    compareCosts(c, k, p, d, L); c.state(inst); c.outcome(inst)

FLOATS = [0, 1, 0.0, 0.5, -1.5, 2.0**-1074, 1e308, 5, 2**40, float('inf'), 0.1, True]
@mc.scenario(1)
def weights(c):
    v = c.pick(FLOATS); f = c.pick(['f', 'F', '', '\u00c4', 'longname']); via = c.choose(2); k = 'weight'
    if via: m = matcher(); p, d = m.p.get_indexweights(), Dir(X.x_iw(m.d.h), None, m.d)
    else:
        r = attempt(PY.IndexWeights)
        if r[0] != 'ok': c.fail(k, 'IndexWeights() refused: %r' % (r,))
        p, d = r[1], Dir(X.x_iw_new(), 7)
    w = word(f)
    same(c, k, 'set_weight(%r, %r)' % (f, v), attempt(p.set_weight, w.p, v), attempt(lambda: done(X.x_iw_set(d.h, w.d.h, v))))
    compareWeights(c, k, p, d, ('f', 'g', '', '\u00c4', '\u00e4', 'longname'))
    c.state(mc.mix(mc.hsh(f), FLOATS.index(v))); c.outcome(mc.hsh(repr(p.get_weight(w.p))))

# ---------------------------------------------------------------- histories over one world
WORDS = ['f', 'g', 'abc', '\u00c4\U0001f600', '']
class World:
    def __init__(s):
        s.l = Both(PY.WordList(), Dir(X.x_list(), 1)); s.l2 = Both(PY.WordList(), Dir(X.x_list(), 1))
        s.d = doc(1, []); s.e = doc(2**40 + 3, [('f', 'abc abd'), ('g', 'xyz')]); s.c = corpus([s.e]); s.m = matcher(); s.m2 = matcher(); s.r = Both(PY.MatchResults(), Dir(X.x_res(), 4))
        indexBoth(s.m2, s.c)
        s.q = Both(s.m2.p.match('abc'), d_match(s.m2.d, 'abc'))
        s.views = []
def ops():
    O = []
    def op(f, *a): O.append((f.__name__ + repr(a), lambda w, c: f(w, c, *a)))
    def add_word(w, c, t, which): x = word(t); l = (w.l, w.l2)[which]; l.p.add_word(x.p); done(X.x_list_add(l.d.h, x.d.h))
    def grow(w, c): [add_word(w, c, 'w%d' % i, 0) for i in range(20)]
    def copy_list(w, c): w.l2 = Both(PY.WordList(w.l.p), Dir(X.x_list_copy(w.l.d.h), 1))
    def take_word(w, c, i):
        p, d = attempt(lambda: w.l.p[i]), attempt(lambda: made(0, X.x_list_get, w.l.d.h, i)); same(c, 'history', 'list[%d]' % i, (p[0], None), (d[0], None))
        if p[0] == 'ok': w.views.append((p[1], d_wordval(d[1])))
    def split(w, c, t): w.l = Both(PY.split_to_words(t), d_split(t))
    def add_text(w, c, f, t, which): addText((w.d, w.e)[which], f, t)
    def copy_doc(w, c): w.d = Both(PY.Document(w.e.p), Dir(X.x_doc_copy(w.e.d.h), 2))
    def view_text(w, c, f, i): 
        x = word(f); p, d = attempt(lambda: w.e.p.get_text(x.p)), attempt(lambda: d_text(w.e.d, x.d)); same(c, 'history', 'get_text(%r)' % f, (p[0], None), (d[0], None))
        if p[0] == 'ok':
            y = attempt(lambda: p[1][i]), attempt(lambda: made(0, X.x_list_get, d[1].h, i)); same(c, 'history', 'get_text(%r)[%d]' % (f, i), (y[0][0], None), (y[1][0], None))
            if y[0][0] == 'ok': w.views.append((y[0][1], d_wordval(y[1][1])))
    def new_doc(w, c): w.e = doc(9, [('h', 'other words abc')])
    def add_document(w, c, which): x = (w.d, w.e)[which]; w.c.p.add_document(x.p); done(X.x_corpus_add(w.c.d.h, x.d.h))
    def new_corpus(w, c): w.c = corpus([])
    def index(w, c, which): 
        m = (w.m, w.m2)[which]; same(c, 'history', 'index', attempt(lambda: m.p.index(w.c.p)), attempt(lambda: done(X.x_index(m.d.h, w.c.d.h))))
    def match(w, c, t): w.q = Both(w.m2.p.match(t), d_match(w.m2.d, t))
    def add_results(w, c): w.r.p.add_results(w.q.p); done(X.x_res_add(w.r.d.h, w.q.d.h))
    def add_self(w, c): w.r.p.add_results(w.r.p); done(X.x_res_add(w.r.d.h, w.r.d.h))
    def new_results(w, c): w.r = Both(PY.MatchResults(), Dir(X.x_res(), 4))
    def ev(w): return w.m2.p.get_errorvalues(), H(X.x_ev(w.m2.d.h))
    def standard(w, c): p, d = ev(w); same(c, 'history', 'add_standard_errors', attempt(lambda: p.add_standard_errors()), attempt(lambda: done(X.x_ev_standard(d))))
    def substring(w, c): p, d = ev(w); p.set_substring_mode(); X.x_ev_substring(d)
    def enddel(w, c, v): p, d = ev(w); p.set_end_deletion_error(v); X.x_ev_end(d, v)
    def setcost(w, c, a, b, v): p, d = ev(w); p.set_error(a, b, v); done(X.x_ev_set(d, a, b, v))
    def clear(w, c): p, d = ev(w); p.clear_errors(); X.x_ev_clear(d)
    def weight(w, c, f, v): x = word(f); w.m2.p.get_indexweights().set_weight(x.p, v); done(X.x_iw_set(X.x_iw(w.m2.d.h), x.d.h, v))
    def new_matcher(w, c): w.m2 = matcher()
    for t in ('abc', 'f', ''): op(add_word, t, 0)
    op(add_word, 'g', 1); op(grow); op(copy_list); op(take_word, 0); op(take_word, 1); op(split, 'b A \u00c4 abc'); op(split, '')
    for f, t in (('f', 'abc xyz'), ('g', 'abd'), ('f', ''), ('', 'abc')): op(add_text, f, t, 0)
    op(add_text, 'f', 'qqq rrr', 1); op(add_text, 'h', 'abcd', 1); op(copy_doc); op(view_text, 'f', 1); op(view_text, 'g', 0); op(new_doc)
    op(add_document, 0); op(add_document, 1); op(new_corpus); op(index, 0); op(index, 1)
    for t in ('abd', 'xyz abc', ''): op(match, t)
    op(add_results); op(add_self); op(new_results); op(standard); op(substring); op(enddel, 0); op(setcost, ord('c'), ord('d'), 3); op(setcost, 0x4e00, ord('x'), 7); op(clear)
    op(weight, 'f', 2.5); op(weight, 'g', 0.0); op(new_matcher)
    return O
OPS = ops()
def observe(c, w):
    k = 'history'
    same(c, k, 'list', ('ok', p_listval(w.l.p)), ('ok', d_listval(w.l.d))); same(c, k, 'second list', ('ok', p_listval(w.l2.p)), ('ok', d_listval(w.l2.d)))
    same(c, k, 'size of the corpus', ('ok', (w.c.p.size(), len(w.c.p))), ('ok', (X.x_corpus_len(w.c.d.h),) * 2))
    compareDoc(c, k, w.d); compareDoc(c, k, w.e, ('f', 'g', 'h'))
    same(c, k, 'results', ('ok', p_resval(w.r.p)), ('ok', d_resval(w.r.d))); same(c, k, 'last match', ('ok', p_resval(w.q.p)), ('ok', d_resval(w.q.d)))
    for m in (w.m, w.m2):
        for q in ('abc', 'abd xyz'): query(c, k, m, q)
    compareCosts(c, k, w.m2.p.get_errorvalues(), Dir(X.x_ev(w.m2.d.h), None, w.m2.d), LETTERS[1:5]); compareWeights(c, k, w.m2.p.get_indexweights(), Dir(X.x_iw(w.m2.d.h), None, w.m2.d), ('f', 'g', 'h'))
    for p, want in w.views:
        c.eval()
        if p_wordval(p) != want: c.fail(k, 'a word taken from another object was %r and is now %r' % (want, p_wordval(p)))
    return mc.hsh(repr((p_listval(w.l.p), p_listval(w.l2.p), p_resval(w.r.p), p_resval(w.q.p), len(w.c.p), w.e.p.get_id(), w.e.p.field_count(), w.d.p.field_count())))
@mc.scenario(2)
def histories(c):
    n = c.choose(2 if c.quick else 3); n += 1       # length 1..2 (3)
    w = World(); plan = [c.choose(len(OPS)) for _ in range(n)]
    for i in plan: c.log(OPS[i][0]); OPS[i][1](w, c); c.step()
    c.state(observe(c, w)); c.outcome(observe(c, w))

# ---------------------------------------------------------------- lifetimes
def lifetimes_list():
    def text_of_deleted(c, keep):
        d = PY.Document(1); d.add_text(PY.Word('f'), 'abc def'); t = d.get_text(PY.Word('f')); w = t[1]
        yield; del d; yield
        if p_listval(t) != [('abc', 3), ('def', 3)]: c.fail('lifetime', 'text of a deleted document: %r' % p_listval(t))
        del t; yield
        if w.get_string() != 'def': c.fail('lifetime', 'word of a deleted text: %r' % w.get_string())
    def text_while_growing(c, keep):
        d = PY.Document(1); d.add_text(PY.Word('f'), 'abc def'); t = d.get_text(PY.Word('f')); w = t[0]; yield
        for i in range(40): d.add_text(PY.Word('g%d' % i), 'other'); 
        yield
        if p_listval(t) != [('abc', 3), ('def', 3)]: c.fail('lifetime', 'text after other fields were added: %r' % p_listval(t))
        d.add_text(PY.Word('f'), 'ghi jkl mno'); yield
        if p_listval(t) not in ([('abc', 3), ('def', 3)], [('ghi', 3), ('jkl', 3), ('mno', 3)], [('abc', 3), ('def', 3), ('ghi', 3), ('jkl', 3), ('mno', 3)]): c.fail('lifetime', 'text after it was replaced: %r' % p_listval(t))
        d.add_text(PY.Word('f'), ''); yield
        if w.get_string() != 'abc': c.fail('lifetime', 'word taken from a text that was replaced: %r' % w.get_string())
    def word_of_list(c, keep):
        l = PY.WordList(); l.add_word(PY.Word('abc')); w = l[0]; yield
        for i in range(70): l.add_word(PY.Word('w%d' % i))
        yield
        if w.get_string() != 'abc': c.fail('lifetime', 'word taken before the list grew: %r' % w.get_string())
        l2 = PY.WordList(l); v = l2[3]; del l; yield
        if w.get_string() != 'abc' or v.get_string() != 'w2': c.fail('lifetime', 'word of a deleted list')
        l2.add_word(l2[0]); l2.add_word(v); yield
        if l2[len(l2) - 1].get_string() != 'w2' or l2[len(l2) - 2].get_string() != 'abc': c.fail('lifetime', 'words of the list added to itself')
    def words_added(c, keep):
        l = PY.WordList(); w = PY.Word('abc'); l.add_word(w); l.add_word(w); yield; del w; yield
        if p_listval(l) != [('abc', 3), ('abc', 3)]: c.fail('lifetime', 'words added and deleted: %r' % p_listval(l))
    def split_result(c, keep):
        w = PY.split_to_words('abc def')[1]; yield; v = list(PY.split_to_words('x y z')); yield
        if w.get_string() != 'def' or [x.get_string() for x in v] != ['x', 'y', 'z']: c.fail('lifetime', 'word of a temporary list')
    def costs_of_matcher(c, keep):
        m = PY.Matcher(); e = m.get_errorvalues(); i = m.get_indexweights(); e2 = m.get_errorvalues(); yield; del m; yield
        e.set_error(97, 98, 7); i.set_weight(PY.Word('f'), 2.0); e.add_standard_errors(); yield
        if e2.get_substitute_error(97, 98) != e.get_substitute_error(97, 98) or i.get_weight(PY.Word('f')) != 2.0: c.fail('lifetime', 'costs or weights of a deleted matcher')
        e.clear_errors(); del e; yield
        if e2.get_substitute_error(97, 98) != PY.ErrorValues.get_default_error(): c.fail('lifetime', 'costs of a deleted matcher after clearing')
    def results_of_matcher(c, keep):
        m = PY.Matcher(); cp = PY.Corpus(); d = PY.Document(5); d.add_text(PY.Word('f'), 'abc'); cp.add_document(d); yield; del d; yield
        m.index(cp); del cp; yield
        r = m.match('abc'); want = p_resval(r); del m; yield
        if p_resval(r) != want or want[0][0] != 5: c.fail('lifetime', 'results of a deleted matcher: %r, were %r' % (p_resval(r), want))
        s = PY.MatchResults(); s.add_results(r); del r; yield
        if p_resval(s) != want: c.fail('lifetime', 'results added: %r, were %r' % (p_resval(s), want))
    def copies(c, keep):
        d = PY.Document(5); d.add_text(PY.Word('f'), 'abc'); e = PY.Document(d); l = PY.split_to_words('a b'); k = PY.WordList(l); yield
        d.add_text(PY.Word('g'), 'x'); l.add_word(PY.Word('c')); e.add_text(PY.Word('f'), 'zzz'); yield
        if (e.field_count(), d.field_count(), len(k), len(l)) != (1, 2, 2, 3) or p_listval(d.get_text(PY.Word('f'))) != [('abc', 3)]: c.fail('lifetime', 'a copy changes with the original')
        del d, l; yield
        if p_listval(e.get_text(PY.Word('f'))) != [('zzz', 3)] or p_listval(k) != [('a', 1), ('b', 1)]: c.fail('lifetime', 'a copy of a deleted object')
    def matcher_in_loop(c, keep):
        views = []; yield
        for i in range(10): m = PY.Matcher(); e = m.get_errorvalues(); e.set_error(97, 98, i); views.append(e)
        yield; del m, e; yield
        if [v.get_substitute_error(97, 98) for v in views] != list(range(10)): c.fail('lifetime', 'costs of separate matchers: %r' % [v.get_substitute_error(97, 98) for v in views])
    return [v for k, v in list(locals().items())]
LIVES = lifetimes_list()
@mc.scenario(2)
def lifetimes(c):
    """Two object histories interleaved in every way, with or without a collection after each step."""
    a, b = c.pick(LIVES), c.pick(LIVES); two = c.choose(2); coll = c.choose(1 if two and c.quick else 2)
    runs = [a(c, None)] + ([b(c, None)] if two else [])
    c.log('%s%s' % (a.__name__, ' interleaved with ' + b.__name__ if two else ''))
    if not two and LIVES.index(b): return
    while runs:
        i = c.choose(len(runs)) if len(runs) > 1 else 0
        c.step(); c.eval()
        try: next(runs[i])
        except StopIteration: runs.pop(i)
        if coll: gc.collect()
        junk = [PY.Word('junk%d' % j) for j in range(3)]      # reuse what was freed
    c.state(mc.hsh(a.__name__ + b.__name__)); c.outcome(mc.mix(coll, two))

# ---------------------------------------------------------------- wrong arguments, and every method present
def methods():
    w, l, d, cp, r, m, e, i = PY.Word('f'), PY.WordList(), PY.Document(1), PY.Corpus(), PY.MatchResults(), PY.Matcher(), PY.ErrorValues(), PY.Matcher().get_indexweights()
    d.add_text(w, 'abc')
    # callable, good arguments, kind of each argument
    return [(PY.Word, ['x'], 't'), (PY.WordList, [], ''), (PY.WordList, [l], 'L'), (l.add_word, [w], 'W'), (l.__getitem__, [0], 'i'), (l.__len__, [], ''), (w.get_string, [], ''), (w.__len__, [], ''), (PY.split_to_words, ['a b'], 's'),
        (PY.Document, [1], 'i'), (PY.Document, [d], 'D'), (d.field_count, [], ''), (d.get_id, [], ''), (d.get_text, [w], 'W'), (d.add_text, [w, 'a'], 'Wt'), (PY.Corpus, [], ''), (cp.size, [], ''), (cp.__len__, [], ''), (cp.add_document, [d], 'D'),
        (PY.MatchResults, [], ''), (r.add_results, [r], 'R'), (r.get_document_id, [0], 'i'), (r.get_relevancy, [0], 'i'), (r.__len__, [], ''), (PY.Matcher, [], ''), (m.index, [cp], 'C'), (m.match, ['abc'], 't'), (m.get_errorvalues, [], ''),
        (m.get_indexweights, [], ''), (PY.ErrorValues, [], ''), (e.add_standard_errors, [], ''), (e.set_substring_mode, [], ''), (e.set_end_deletion_error, [3], 'i'), (e.set_error, [1, 2, 3], 'iii'), (e.get_substitute_error, [1, 2], 'ii'),
        (PY.ErrorValues.get_default_error, [], ''), (PY.ErrorValues.get_substring_default_end_deletion_error, [], ''), (e.clear_errors, [], ''), (i.set_weight, [w, 1.5], 'Wf'), (i.get_weight, [w], 'W')]
WRONG = dict(t=[None, 3, 2.5, [], ['a'], PY.Word('a')], s=[None, 3, [], b'a', PY.Word('a')], i=['1', None, 'a', [], PY.Word('a'), 2.5], f=['1', None, [], PY.Word('a')],
             W=[None, 3, 'f', b'f', PY.WordList(), PY.Document(1)], L=['a', 3, [], PY.Word('a'), PY.Document(1)], D=['a', -1.5, [], PY.Word('a'), PY.WordList()], R=[None, 3, [], PY.Corpus()], C=[None, 3, [], PY.Document(1), PY.MatchResults()])
@mc.scenario(1)
def wrong_arguments(c):
    ms = methods(); n = c.choose(len(ms)); f, good, kinds = ms[n]; how = c.choose(3); k = 'arguments'
    if how == 0:      # too few, too many
        bad = c.choose(2)
        if bad == 0 and not good: return
        if bad == 0 and f in (PY.WordList, PY.Document, PY.MatchResults) and not good[:-1] and f is not PY.Document: return   # WordList() is valid too
        args = good + [PY.Matcher()] if bad else good[:-1]
    elif how == 1:    # wrong type at one place
        if not good: return
        at = c.choose(len(good)); kind = kinds[at]; v = c.pick(WRONG[kind])
        if f is PY.WordList and kind == 'L' and v is None: return
        if f is PY.Document and isinstance(v, PY.Document): return
        if kind == 's' and v == b'a':
            pass
        args = list(good); args[at] = v
        if kind == 'D' and f is PY.Document and v == -1.5: pass
    else:             # the right call still works afterwards
        x = attempt(f, *good); c.step(); c.eval()
        if x[0] != 'ok' and not (x[1] in ('IndexError',) and f.__name__ in ('__getitem__', 'get_document_id', 'get_relevancy')): c.fail(k, '%s%r refused: %s' % (f.__name__, tuple(good), x[1]))
        return
    x = attempt(f, *args); c.step(); c.eval(); c.outcome(mc.hsh(repr((f.__name__, x[0]))))
    c.log('%s%r -> %r' % (f.__name__, tuple(args), x))
    if x[0] == 'ok' and not (how == 1 and isinstance(v, bytes)): c.fail(k, '%s%r accepted: %r' % (f.__name__, tuple(args), x[1]))

# ---------------------------------------------------------------- whole searches
TEXTS = ['', 'abc', 'abd', 'abc abd', 'xyz abcd', '\u00e4bc']
@mc.scenario(2)
def searches(c):
    docs = []
    for j in range(2): docs.append((c.pick(TEXTS), c.pick(TEXTS[:4])))
    k = 'search'
    setup = c.choose(6); m = matcher(); p, d = m.p.get_errorvalues(), H(X.x_ev(m.d.h))
    if setup == 1: p.add_standard_errors(); done(X.x_ev_standard(d))
    if setup == 2: p.set_substring_mode(); X.x_ev_substring(d)
    if setup == 3: p.set_error(ord('c'), ord('d'), 1); done(X.x_ev_set(d, ord('c'), ord('d'), 1))
    if setup == 4: w = word('g'); m.p.get_indexweights().set_weight(w.p, 3.25); done(X.x_iw_set(X.x_iw(m.d.h), w.d.h, 3.25))
    if setup == 5: p.set_end_deletion_error(0); X.x_ev_end(d, 0)
    bs = [doc(5 + j, ([('f', a)] if a else []) + ([('g', b)] if b else [])) for j, (a, b) in enumerate(docs)]
    indexBoth(m, corpus(bs))
    for q in ('abc', 'ab', 'abd abc', '\u00c4bc', 'xyz', '', 'a'): query(c, k, m, q)
    c.state(mc.hsh(repr(docs) + str(setup))); c.outcome(mc.hsh(repr(p_resval(m.p.match('abc')))))
@mc.scenario(1)
def surface(c):   # nothing the module offers is left out above
    ms = methods(); c.eval()
    have = {n: {x for x in vars(getattr(PY, n)) if not x.startswith('_')} | ({'__len__'} & set(vars(getattr(PY, n)))) | ({'__getitem__'} & set(vars(getattr(PY, n)))) for n in dir(PY) if isinstance(getattr(PY, n), type)}
    used = {f.__name__ for f, _, _ in ms}
    for n, s in have.items():
        for x in s:
            if x not in used: c.log('not exercised: %s.%s' % (n, x))
    for n in ('Corpus', 'Word', 'WordList', 'Document', 'MatchResults', 'Matcher', 'ErrorValues', 'IndexWeights'):
        if n not in have: c.fail('surface', 'the module lacks ' + n)
sys.exit(mc.main())
