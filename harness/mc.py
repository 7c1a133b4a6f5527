"""Explorer for harnesses written in Python: same enumeration and same command line as mc.hh."""
import sys, json, mmap, os, struct, array, ctypes
class Violation(Exception):
    def __init__(s, key, msg): s.key, s.msg = key, msg
class Pruned(BaseException): pass
class HarnessError(Exception): pass
SCENARIOS = []
def scenario(depth):
    def d(f): SCENARIOS.append((f.__name__, depth, f)); return f
    return d
M = (1 << 64) - 1
def mix(h, v):
    h ^= ((v & M) + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)) & M
    h = h * 0xff51afd7ed558ccd & M
    return h ^ h >> 32
def hsh(s):
    h = 1469598103934665603
    for b in s.encode('utf-8', 'surrogatepass') if isinstance(s, str) else s: h = (h ^ b) * 1099511628211 & M
    return h
class Ctx:
    def __init__(c):
        c.choices, c.arity, c.pos = [], [], 0
        c.verbose = c.fixed = False; c.quick = True
        c.transitions = c.evaluations = 0; c.states, c.outcomes = set(), set()
        c.sh = None; c.depth = 0; c.shard, c.nshards, c.ordinal, c.fresh = 0, 1, 0, True
        c.known, c.hits, c.kmsg = set(), {}, {}
    def choose(c, n):
        if c.pos < len(c.choices):
            r = c.choices[c.pos]
            if c.fixed:
                if not 0 <= r < n: raise HarnessError('replay diverged')
                if len(c.arity) <= c.pos: c.arity.append(n)
            elif c.arity[c.pos] != n: raise HarnessError('nondeterministic scenario: arity changed')
        else:
            r = 0; c.choices.append(0); c.arity.append(n)
        if c.sh and c.pos < 65000: struct.pack_into('<i', c.sh, 16 + 4 * c.pos, r); struct.pack_into('<I', c.sh, 12, c.pos + 1)
        c.pos += 1
        if c.pos == c.depth and not c.fixed:
            if c.fresh: c.ordinal += 1; c.fresh = False
            if c.nshards > 1 and c.ordinal % c.nshards != c.shard: raise Pruned()
        return r
    def pick(c, v): return v[c.choose(len(v))]
    def log(c, s):
        if c.verbose: print('  ' + s, file=sys.stderr, flush=True)
    def step(c): c.transitions += 1
    def eval(c, n=1): c.evaluations += n
    def state(c, h): c.states.add(h & M)
    def outcome(c, h): c.outcomes.add(h & M)
    def fail(c, key, msg): raise Violation(key, msg)
def run_once(fn, c):
    c.pos = 0
    try: fn(c); return None
    except Violation as v:
        if v.key in c.known: c.hits[v.key] = c.hits.get(v.key, 0) + 1; c.kmsg.setdefault(v.key, v.msg); return None
        return v
    except HarnessError: raise
    except Exception as e:
        import traceback; return Violation('unexpected-exception', 'unexpected exception: %r %s' % (e, traceback.format_exc(limit=-3)))
def main():
    a = sys.argv[1:]; o = {}; c = Ctx()
    while a:
        k = a.pop(0)
        if k == '--list': print('\n'.join(s[0] for s in SCENARIOS)); return 0
        if k == '--known': c.known.add(a.pop(0))
        else: o[k] = a.pop(0)
    c.quick = o.get('--tier', 'quick') == 'quick'
    if '--shard' in o: c.shard, c.nshards = map(int, o['--shard'].split('/'))
    if '--crash' in o:
        with open(o['--crash'], 'w+b') as f: f.truncate(16 + 4 * 65000); c.sh = mmap.mmap(f.fileno(), 16 + 4 * 65000)
    if '--replay' in o:
        name, _, ch = o['--replay'].partition(':'); fn = [s for s in SCENARIOS if s[0] == name][0][2]
        c.verbose = c.fixed = True; c.choices = [int(x) for x in ch.split(',') if x]
        try: v = run_once(fn, c)
        except HarnessError as e: print('HARNESS-ERROR', e); return 2
        if v: print('REPLAY-VIOLATION key=%s %s' % (v.key, v.msg)); return 1
        print('REPLAY-OK'); return 0
    out = []; total = 0; viol = None; n = 0
    for si, (name, depth, fn) in enumerate(SCENARIOS):
        if viol or ('--only' in o and o['--only'] != name): continue
        c.choices, c.arity, c.depth, c.ordinal, c.fresh = [], [], depth, 0, True
        if c.sh: struct.pack_into('<I', c.sh, 8, si)
        execs = maxd = 0; t0, e0 = c.transitions, c.evaluations; samples = []; nxt = 1
        while True:
            n += 1
            if c.sh: struct.pack_into('<I', c.sh, 12, 0); struct.pack_into('<Q', c.sh, 0, n)
            tb, eb = c.transitions, c.evaluations; pruned = False; v = None
            try:
                v = run_once(fn, c)
                if depth == 0 or c.pos < depth:
                    if c.fresh: c.ordinal += 1; c.fresh = False
                    if c.nshards > 1 and c.ordinal % c.nshards != c.shard: v = None; pruned = True
            except Pruned: pruned = True
            except HarnessError as e: print('HARNESS-ERROR', e, name, file=sys.stderr); return 2
            if c.pos < len(c.choices) and not v: print('HARNESS-ERROR run used fewer choices', file=sys.stderr); return 2
            if pruned: c.transitions, c.evaluations = tb, eb
            else:
                execs += 1; maxd = max(maxd, len(c.choices))
                if execs == nxt and len(samples) < 6: nxt *= 10; samples.append(name + ':' + ','.join(map(str, c.choices))[:400])
            if v: viol = dict(scenario=name, choices=','.join(map(str, c.choices[:c.pos])), key=v.key, msg=v.msg[:4000]); break
            while c.choices and c.choices[-1] + 1 >= c.arity[-1]: c.choices.pop(); c.arity.pop()
            if not c.choices: break
            c.choices[-1] += 1
            if len(c.choices) <= depth: c.fresh = True
        total += execs
        out.append(dict(name=name, executions=execs, transitions=c.transitions - t0, evaluations=c.evaluations - e0, max_choices=maxd, states=0, outcomes=0, samples=samples))
    js = dict(scenarios=out, executions=total, transitions=c.transitions, evaluations=c.evaluations, outcomes=len(c.outcomes), state_cap=False, known={k: dict(hits=h, msg=c.kmsg[k]) for k, h in c.hits.items()})
    if viol: js['violation'] = viol
    if '--stats' in o: json.dump(js, open(o['--stats'], 'w'))
    else: print(json.dumps(js))
    for k, s in (('--states', c.states), ('--outcomes', c.outcomes)):
        if k in o: open(o[k], 'wb').write(array.array('Q', sorted(s)).tobytes())
    return 1 if viol else 0
