#!/usr/bin/env python3
"""Driver: python3 run.py <property id> [--tier quick|thorough] | --replay FILE | --setup
Builds the library from /repo's working tree together with the property's harness, lets the harness enumerate its
bounded space (sharded over the cores), confirms anything suspicious by replaying it alone, writes evidence."""
import sys, os, json, time, hashlib, glob, re, subprocess, shutil, struct, signal, tempfile, array
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('COLUMBUS_REPO', '/repo')
sys.path.insert(0, VERIF)
BUILD = os.path.join(VERIF, 'build')
JOBS = min(8, os.cpu_count() or 8)
CXX = 'g++'

class Broken(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

# ---------------------------------------------------------------- building
def header(letter):
    s = open(REPO + '/include/ColumbusCore.hh.in').read()
    sub = dict(SO_VERSION='1.1.0', ABI_VERSION='1', CMAKE_INSTALL_PREFIX='/usr/local', COL_LIB_BASENAME='columbus',
               SO_VERSION_MAJOR='1', LETTER_TYPE='uint32_t' if letter == 32 else 'uint16_t',
               INTERNAL_ENCODING='UTF-32LE' if letter == 32 else 'UTF-16LE')
    for k, v in sub.items(): s = s.replace('${%s}' % k, v)
    return re.sub(r'^#cmakedefine (\w+)', r'#define \1', s, flags=re.M)

FLAVOURS = {
    # flags for library objects; link = flags for the harness executable
    'asan16': dict(letter=16, flags='-O1 -g -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS', link='-fsanitize=address'),
    'asan32': dict(letter=32, flags='-O1 -g -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS', link='-fsanitize=address', optional=True),
    'nosparse16': dict(letter=16, nosparse=True, flags='-O1 -g -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS', link='-fsanitize=address', optional=True),
    'plain16': dict(letter=16, flags='-O1 -g', link=''),
    'trie16': dict(letter=16, narrow=True, flags='-O1 -g -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS', link='-fsanitize=address', optional=True),
    'sched16': dict(letter=16, flags='-O1 -g -fsanitize=thread -U_FORTIFY_SOURCE -D_GLIBCXX_EXTERN_TEMPLATE=0', link='-no-pie', sched=True),
    'so16': dict(letter=16, flags='-O1 -g -fPIC -fsanitize=address -fno-omit-frame-pointer', link='-fsanitize=address', so=True),
}

def sources():
    r = sorted(glob.glob(REPO + '/src/*.cc'))
    if not r: raise Broken('no sources in %s/src' % REPO)
    return r

def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def build_lib(name):
    fl = FLAVOURS[name]
    inputs = [f for d in ('src', 'include', 'python') for f in sorted(glob.glob(REPO + '/' + d + '/**', recursive=True)) if os.path.isfile(f) and not f.endswith('.pyc')]
    hdr = header(fl['letter'])
    if fl.get('narrow'):
        hdr, n = re.subn(r'typedef\s+uint32_t\s+TrieOffset\s*;', 'typedef uint16_t TrieOffset;', hdr)
        if n != 1: raise Broken('TrieOffset typedef not found: the narrowed-address-space build is not available')
    if fl.get('nosparse'): hdr = re.sub(r'^#define HAS_SPARSE_HASH.*$', '/* no sparsehash */', hdr, flags=re.M)
    d = os.path.join(BUILD, '%s-%s' % (name, digest(inputs, hdr + fl['flags'] + REPO)))
    if os.path.exists(d + '/ok'): return d
    for old in sorted(glob.glob(os.path.join(BUILD, name + '-*')), key=os.path.getmtime)[:-5]: shutil.rmtree(old, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/inc')
    open(d + '/inc/ColumbusCore.hh', 'w').write(hdr)
    base = [CXX, '-std=c++11', '-w', '-DBUILDING_COLUMBUS', '-I' + d + '/inc', '-I' + REPO + '/include'] + fl['flags'].split()
    for h in sorted(glob.glob(REPO + '/src/pch/*.hh')): base += ['-include', h]   # the project's own build force-includes it
    def cc(src):
        o = d + '/' + os.path.basename(src) + '.o'
        r = sh(base + ['-c', src, '-o', o])
        return (r.returncode, src, r.stdout)
    with ThreadPoolExecutor(JOBS) as ex:
        for rc, src, out in ex.map(cc, sources()):
            if rc: raise Broken('compiling %s (%s) failed:\n%s' % (src, name, out[-3000:]))
    if fl.get('so'):
        r = sh([CXX, '-shared', '-o', d + '/libcolumbus.so.1', '-Wl,-soname,libcolumbus.so.1'] + fl['link'].split() + sorted(glob.glob(d + '/*.o')) + ['-licuuc'])
        if r.returncode: raise Broken('linking library failed:\n' + r.stdout[-3000:])
        os.symlink('libcolumbus.so.1', d + '/libcolumbus.so')
    open(d + '/ok', 'w').close()
    return d

def build(flavour, harness, extra_flags=''):
    fl = FLAVOURS[flavour]
    d = build_lib(flavour)
    src = os.path.join(VERIF, 'harness', harness)
    deps = [src] + sorted(glob.glob(VERIF + '/harness/*.hh')) + sorted(glob.glob(VERIF + '/harness/rt_*'))
    exe = os.path.join(d, harness.replace('.cc', '') + '-' + digest(deps, extra_flags))
    if os.path.exists(exe): return exe
    hflags = [] if fl.get('sched') else [f for f in fl['flags'].split()]
    cmd = [CXX, '-std=c++17', '-w', '-DFLAVOUR_' + flavour, '-I' + d + '/inc', '-I' + REPO + '/include', '-I' + VERIF + '/harness'] + hflags + \
          extra_flags.split() + ([] if fl.get('sched') else [src]) + sorted(f for f in glob.glob(d + '/*.cc.o'))   # scheduled: the instrumented copies of inline functions come first
    if fl.get('sched'):
        ro = d + '/rt.%d.o' % os.getpid()
        r = sh([CXX, '-std=c++17', '-O2', '-g', '-w', '-c', VERIF + '/harness/rt_sched.cc', '-o', ro])
        if r.returncode: raise Broken('compiling scheduler runtime failed:\n' + r.stdout[-3000:])
        cmd += [src, ro]
    tmp = exe + '.tmp%d' % os.getpid()
    cmd += ['-o', tmp] + fl['link'].split() + ['-licuuc', '-lpthread', '-ldl']
    r = sh(cmd)
    if fl.get('sched'): os.unlink(ro)
    if r.returncode: raise Broken('building harness %s (%s) failed:\n%s' % (harness, flavour, r.stdout[-4000:]))
    os.rename(tmp, exe)
    return exe

def prepare_python():
    """The Python module and the shim for direct calls, sharing one library."""
    py = '/usr/bin/python3'
    d = build_lib('so16'); fl = FLAVOURS['so16']
    ver = sh([py, '-c', 'import sys, sysconfig; print("%d%d" % sys.version_info[:2], sysconfig.get_paths()["include"])']).stdout.split()
    asan = [sh([CXX, '-print-file-name=' + l]).stdout.strip() for l in ('libasan.so', 'libstdc++.so')]
    def one(src, out, extra):
        out = os.path.join(d, out)
        if os.path.exists(out): return
        r = sh([CXX, '-std=c++11', '-w', '-shared', '-I' + d + '/inc', '-I' + REPO + '/include'] + fl['flags'].split() + [src, '-o', out + '.tmp', '-L' + d, '-lcolumbus', '-Wl,-rpath,' + d] + extra)
        if r.returncode: raise Broken('building %s failed:\n%s' % (src, r.stdout[-3000:]))
        os.rename(out + '.tmp', out)
    shim = VERIF + '/harness/py_shim.cc'; sname = 'shim-%s.so' % digest([shim], '')
    with ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(one, REPO + '/python/columbus.cc', 'columbus.so', ['-I' + ver[1], '-lboost_python' + ver[0]]), ex.submit(one, shim, sname, [])]: f.result()
    return [py, VERIF + '/harness/c24.py'], dict(PYTHONPATH=d, C24_SHIM=os.path.join(d, sname), LD_PRELOAD=' '.join(asan), PYTHONMALLOC='malloc', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')

# ---------------------------------------------------------------- running
ENV = dict(os.environ)
ENV.update(ASAN_OPTIONS='detect_leaks=0:exitcode=99:quarantine_size_mb=8:malloc_context_size=12:allocator_may_return_null=0:handle_abort=0:detect_odr_violation=0:detect_stack_use_after_return=0',
           LC_ALL='C.UTF-8', COLUMBUS_DATADIR=REPO + '/share/', VERIF_REPO=REPO)
SHARED_HEAD = struct.Struct('<QII')

def read_shared(path):
    try:
        b = open(path, 'rb').read()
        ex, sc, n = SHARED_HEAD.unpack_from(b)
        n = min(n, 65000)
        return ex, sc, list(struct.unpack_from('<%di' % n, b, SHARED_HEAD.size))
    except Exception: return 0, 0, []

def progress(path):
    try:
        with open(path, 'rb') as f: return f.read(16)
    except Exception: return b''

class Job:
    def __init__(s, target, shard, nshards, tmp):
        s.target, s.shard, s.nshards = target, shard, nshards
        b = os.path.join(tmp, '%s-%d' % (target['name'].replace('/', '_'), shard))
        s.stats, s.states, s.outcomes, s.crash, s.log = b + '.json', b + '.st', b + '.oc', b + '.crash', b + '.log'
        s.rc = None; s.hung = False; s.secs = 0

def command(target, args, tier, known):
    c = list(target['argv']) + ['--tier', tier] + args
    for k in known: c += ['--known', k]
    if target.get('fork'): c += ['--fork']
    if target.get('only'): c += ['--only', target['only']]
    return c

def cpu_seconds(pid):
    try: f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split(); return sum(map(int, f[11:15])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError): return 0.0

def run_job(job, tier, known, hang, stop, memlimit=None):
    if stop: return job
    args = ['--shard', '%d/%d' % (job.shard, job.nshards), '--stats', job.stats, '--states', job.states, '--outcomes', job.outcomes, '--crash', job.crash]
    t0 = time.time()
    env = dict(ENV); env.update(job.target.get('env', {}))
    with open(job.log, 'wb') as lf:
        p = subprocess.Popen(command(job.target, args, tier, known), stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=job.target.get('cwd', '/tmp'), start_new_session=True)
        last, lt, lc = b'', time.time(), 0.0
        while True:
            try: job.rc = p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5); break
            except subprocess.TimeoutExpired: pass
            cur = progress(job.crash); cpu = cpu_seconds(p.pid)
            if cur != last: last, lt, lc = cur, time.time(), cpu
            # processor time, because other work may slow the machine down; and a deadlock uses none
            if stop or cpu - lc > hang or time.time() - lt > 4 * hang:
                job.hung = not stop
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); job.rc = -9; break
    job.secs = time.time() - t0
    if job.rc != 0: stop.append(job)
    return job

def tail(path, n=6000):
    try:
        b = open(path, 'rb').read().decode('utf-8', 'replace'); return b if len(b) < 2 * n else b[:n] + '\n...\n' + b[-n:]
    except Exception: return ''

def crash_summary(text):
    for pat in (r'ERROR: AddressSanitizer:[^\n]*', r'SUMMARY:[^\n]*', r'[^\n]*Assertion[^\n]*', r'terminate called[^\n]*(\n[^\n]*what[^\n]*)?', r'Segmentation fault', r'FATAL[^\n]*'):
        m = re.search(pat, text)
        if m: return m.group(0)[:300]
    return ''

def replay(target, spec, tier, known, limit, tmp):
    log = os.path.join(tmp, 'replay.log')
    env = dict(ENV); env.update(target.get('env', {}))
    with open(log, 'wb') as lf:
        p = subprocess.Popen(command({**target, 'only': None}, ['--replay', spec], tier, known), stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=target.get('cwd', '/tmp'), start_new_session=True)
        try: rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = 'hang'
    text = tail(log)
    return rc, text

def known_findings(pid):
    known, fixed = {}, []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid: known[m.group(2)] = m.group(3)
    return known

def scenario_names(target):
    env = dict(ENV); env.update(target.get('env', {}))
    return subprocess.run(list(target['argv']) + ['--list'], stdout=subprocess.PIPE, text=True, env=env, cwd=target.get('cwd', '/tmp')).stdout.split()

def check(pid, tier):
    from checks import CHECKS
    ck = CHECKS[pid]; t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = known_findings(pid)
    notes, targets = [], []
    for t in ck['targets']:
        try:
            if 'prepare' in t: argv, env = t['prepare'](sys.modules[__name__])
            else: argv, env = [build(t['flavour'], t['harness'], t.get('flags', ''))], {}
            targets.append(dict(t, argv=argv, env={**env, **t.get('env', {})}, name=t.get('name', t.get('flavour', '') + '/' + t.get('harness', ''))))
        except Broken as e:
            if t.get('optional') or FLAVOURS.get(t.get('flavour'), {}).get('optional'): notes.append(str(e)[:500]); print('note: ' + str(e)[:500])
            else: raise
    if not targets: raise Broken('nothing to run')
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='mc-', dir='/tmp')
    try: return explore(ck, pid, tier, seed, known, notes, targets, tmp, t0, tb)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def explore(ck, pid, tier, seed, known, notes, targets, tmp, t0, tb):
    jobs = []
    for t in targets:
        n = t.get('shards', 16)
        jobs += [Job(t, i, n, tmp) for i in range(n)]
    stop = []
    hang = ck.get('hang', 90)
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda j: run_job(j, tier, known, hang, stop), jobs))
    if any(j.rc == DIVERGED for j in stop) and not any(j.rc == 1 for j in stop):
        # The library keeps state between executions (a lazily created static, say): run each in a process of its own.
        notes = list(notes) + ['every execution ran in a process of its own, because the library keeps state between executions']
        for t in targets: t['fork'] = True
        jobs = [Job(t, i, t.get('shards', 16), tmp) for t in targets for i in range(t.get('shards', 16))]
        stop = []
        with ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda j: run_job(j, tier, known, hang, stop), jobs))
    bad = [j for j in stop if j.rc != 0 and (j.rc != -9 or j.hung)]
    if bad: return report(ck, pid, tier, seed, known, targets, bad, tmp, t0)
    # merge
    agg = dict(executions=0, transitions=0, evaluations=0); states, outs = set(), set(); scen = {}; khits = {}; samples = []; cap = False
    for j in jobs:
        try: st = json.load(open(j.stats))
        except Exception as e: raise Broken('no statistics from %s shard %d: %s\n%s' % (j.target['name'], j.shard, e, tail(j.log)))
        for k in agg: agg[k] += st[k]
        cap |= st['state_cap']
        salt = hash_name(j.target['name'])
        for path, dst in ((j.states, states), (j.outcomes, outs)):
            a = array.array('Q'); b = open(path, 'rb').read(); a.frombytes(b)
            dst.update(a)
        for s in st['scenarios']:
            x = scen.setdefault((j.target['name'], s['name']), dict(executions=0, transitions=0, evaluations=0, max_choices=0))
            for k in ('executions', 'transitions', 'evaluations'): x[k] += s[k]
            x['max_choices'] = max(x['max_choices'], s['max_choices'])
            if len(samples) < 12 and s['samples'] and not any(y.startswith(j.target['name'] + ' ' + s['name']) for y in samples): samples.append(j.target['name'] + ' ' + s['samples'][-1])
        for k, v in st['known'].items():
            khits.setdefault(k, [0, v['msg']])[0] += v['hits']
    for k, (n, m) in sorted(khits.items()): print('KNOWN-FINDING: property=%s %s [%s; %d executions; e.g. %s]' % (pid, known[k], k, n, m[:200]))
    empty = [k for k, v in scen.items() if v['executions'] == 0]
    if agg['executions'] == 0: raise Broken('vacuous: nothing was executed')
    detail = ['%s %s' % k + ': %d executions, %d operations, %d checks, deepest %d choices' % (v['executions'], v['transitions'], v['evaluations'], v['max_choices']) for k, v in sorted(scen.items())]
    wall = time.time() - t0
    if ck['level'] == 'fault_enumeration':
        cov = dict(evaluations=agg['executions'], distinct_nontrivial=len(outs), rule=ck['rule'], samples=samples or detail[:1], per_scenario=detail, operations=agg['transitions'], exhaustive=not cap)
    else:
        cov = dict(states=len(states), transitions=agg['transitions'], traces_validated_against_impl=agg['executions'], oracle_checks=agg['evaluations'],
                   distinct_outcomes=len(outs), samples=samples or detail[:1], per_scenario=detail, exhaustive=not cap)
    cov['bounds'] = ck['bounds'][tier] if isinstance(ck['bounds'], dict) else ck['bounds']
    if notes: cov['notes'] = notes
    if cap: cov['cap'] = 'the set of distinct states/outcomes kept for the statistics was capped; the enumeration itself was completed'; cov['exhaustive'] = True
    ev = dict(property=pid, tier=tier, seed=seed, level=ck['level'], coverage=cov, assumptions=ck.get('assumptions', []), wall_s=round(wall, 2), violations=0)
    write_evidence(pid, ev)
    for d in detail: print('  ' + d)
    print('%s: held on %d executions (%d operations, %d oracle checks, %d distinct states, %d distinct outcomes); build %.1fs total %.1fs' % (pid, agg['executions'], agg['transitions'], agg['evaluations'], len(states), len(outs), tb, wall))
    return 0

DIVERGED = 3   # mc.hh

def hash_name(s): return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)

def write_evidence(pid, ev):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    p = VERIF + '/evidence/%s.json' % pid
    with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)

def report(ck, pid, tier, seed, known, targets, bad, tmp, t0):
    """Replay before report. Prefer a plain mismatch over a crash over a hang."""
    order = lambda j: (0 if j.rc == 1 else 2 if j.hung else 1, j.shard)
    errors = []
    for j in sorted(bad, key=order)[:4]:
        text = tail(j.log)
        if j.rc in (2, DIVERGED): errors.append('%s shard %d: %s' % (j.target['name'], j.shard, text[-1500:])); continue
        if j.rc == 1:
            try: v = json.load(open(j.stats))['violation']
            except Exception as e: errors.append('unreadable violation: %s %s' % (e, text[-1500:])); continue
            spec, what = v['scenario'] + ':' + v['choices'], '[%s] %s' % (v['key'], v['msg'])
        else:
            ex_, sc, ch = read_shared(j.crash)
            names = scenario_names(j.target)
            if sc >= len(names): errors.append('process died before its first execution: rc=%s %s' % (j.rc, text[-1500:])); continue
            spec = names[sc] + ':' + ','.join(map(str, ch))
            what = 'does not terminate' if j.hung else 'process died (rc %s) %s' % (j.rc, crash_summary(text))
        rc, rtext = replay(j.target, spec, tier, known, ck.get('hang', 90) * 3, tmp)
        confirmed = rc not in (0, 2)
        isolated = confirmed
        if not confirmed:
            # depends on earlier executions in the same process: repeat the whole deterministic shard
            j2 = Job(j.target, j.shard, j.nshards, tmp)
            run_job(j2, tier, known, ck.get('hang', 90) * 2, [])
            if j2.rc not in (0, 2, DIVERGED): confirmed = True; rtext += '\n--- shard re-run ---\n' + tail(j2.log)
        if confirmed:
            if isolated and rc != 1: what = ('does not terminate' if rc == 'hang' else 'process died (rc %s) %s' % (rc, crash_summary(rtext)))
            rd = VERIF + '/replays'; os.makedirs(rd, exist_ok=True)
            path = '%s/%s-%s.json' % (rd, pid, hashlib.sha256((j.target['name'] + spec).encode()).hexdigest()[:10])
            json.dump(dict(property=pid, target=j.target['name'], tier=tier, spec=spec, shard='%d/%d' % (j.shard, j.nshards), isolated=isolated, what=what,
                           how='python3 %s/run.py %s --replay %s' % (VERIF, pid, path), output=rtext), open(path, 'w'), indent=1)
            write_evidence(pid, dict(property=pid, tier=tier, seed=seed, level=ck['level'], wall_s=round(time.time() - t0, 2), violations=1,
                coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=1, distinct_nontrivial=1, rule='stopped at the first violation', samples=[spec[:500]], what=what[:1000])))
            print('property %s: %s' % (pid, what))
            print('execution: %s %s' % (j.target['name'], spec[:1500]))
            print('\n'.join('    ' + l for l in rtext.splitlines()[:60]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        errors.append('not reproduced: %s %s rc=%s\n%s' % (what, spec[:300], rc, rtext[-1500:]))
    raise Broken('; '.join(errors) or 'jobs failed')

def do_replay(pid, path):
    from checks import CHECKS
    ck = CHECKS[pid]; r = json.load(open(path))
    for t in ck['targets']:
        name = t.get('name', t.get('flavour', '') + '/' + t.get('harness', ''))
        if name != r['target']: continue
        if 'prepare' in t: argv, env = t['prepare'](sys.modules[__name__])
        else: argv, env = [build(t['flavour'], t['harness'], t.get('flags', ''))], {}
        tgt = dict(t, argv=argv, env={**env, **t.get('env', {})}, name=name)
        tmp = tempfile.mkdtemp(prefix='mc-', dir='/tmp')
        try: rc, text = replay(tgt, r['spec'], r['tier'], known_findings(pid), 300, tmp)
        finally: shutil.rmtree(tmp, ignore_errors=True)
        print(text); print('replay result:', rc)
        return 0 if rc == 0 else 1
    return 2

def main():
    a = sys.argv[1:]
    if a == ['--setup']:
        for f in ('asan16',):
            try: build_lib(f)
            except Broken as e: print(e); return 1
        print('ok'); return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    if not os.environ.get('MC_NOLOCK'): lock = open(BUILD + '/.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)   # one check at a time
    try:
        if '--replay' in a: return do_replay(pid, a[a.index('--replay') + 1])
        return check(pid, tier)
    except Broken as e:
        print('CHECK ERROR %s: %s' % (pid, e)); return 2
if __name__ == '__main__': sys.exit(main())
