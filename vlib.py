"""Shared machinery: build from /repo, run drivers, fold histories, run TLC, report."""
import os, sys, json, time, hashlib, subprocess, shutil, re, tempfile, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 4
SCR = None          # scratch dir of this run
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class HarnessError(Exception): pass
def log(*a): print(*a, file=sys.stderr, flush=True)

def scratch():
    global SCR
    if SCR is None:
        base = os.path.join(V, 'scratch'); os.makedirs(base, exist_ok=True)
        SCR = tempfile.mkdtemp(prefix='r', dir=base)
    return SCR
def cleanup():
    if SCR: shutil.rmtree(SCR, ignore_errors=True)

# ---------------------------------------------------------------- building
SKIP = {'UnixSignal.cpp', 'Sockets.cpp'}     # need external headers; drivers that want them compile them with stubs
def libsrc():
    return [f for f in sorted(os.listdir(REPO)) if f.endswith('.cpp') and not f.endswith('Test.cpp') and f not in SKIP]
BASEFL = ['-std=gnu++17', '-include', 'unistd.h', '-w', '-g1', '-I' + REPO, '-I' + os.path.join(V, 'drivers')]
VARIANTS = {
    'vs':   ['-O1', '-fsanitize=thread'],
    'asan': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'plain': ['-O2'],
}
def _sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode('utf8', 'replace')
def _hash(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def _repo_headers():
    out = b''
    for f in sorted(os.listdir(REPO)):
        if f.endswith('.h'): out += f.encode() + open(os.path.join(REPO, f), 'rb').read()
    return out
def build(name, variant, driver, lib=None, flags=(), link=(), extra=()):
    """Compile driver + lib sources of /repo with the variant; returns the executable.  Objects are cached by content."""
    bd = os.path.join(V, 'build', 'cache'); os.makedirs(bd, exist_ok=True)
    fl = BASEFL + VARIANTS[variant] + list(flags)
    hdr = _repo_headers()
    dh = b''.join(open(os.path.join(V, d, f), 'rb').read() for d in ('drivers', 'vsched') for f in sorted(os.listdir(os.path.join(V, d))) if f.endswith('.h'))
    for f in [driver] + list(extra):        # sources of /repo that a driver includes
        for m in re.findall(r'#include "(\w+\.cpp)"', open(os.path.join(V, 'drivers', f)).read()): hdr_dep = os.path.join(REPO, m); dh += open(hdr_dep, 'rb').read()
    jobs = []
    def add(src, fl, dep):
        o = os.path.join(bd, _hash(src, open(src, 'rb').read(), dep, ' '.join(fl), REPO) + '.o')
        jobs.append((src, fl, o)); return o
    objs = [add(os.path.join(V, 'drivers', driver), fl, hdr + dh)]
    libobjs = [add(os.path.join(REPO, s), fl, hdr) for s in (libsrc() if lib is None else lib)]
    for s in extra: objs.append(add(os.path.join(V, 'drivers', s), fl, hdr + dh))
    if variant == 'vs':
        objs.append(add(os.path.join(V, 'vsched', 'vs.cpp'), ['-O2', '-g1', '-w', '-std=gnu++17'], dh))
    def comp(j):
        src, fl, o = j
        if os.path.exists(o): return None
        tmp = o + '.%d.tmp.o' % os.getpid()
        rc, out = _sh(['g++'] + fl + ['-c', src, '-o', tmp])
        if rc: return 'compile %s failed:\n%s' % (src, out[-3000:])
        os.replace(tmp, o); return None
    with ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(comp, jobs):
            if e: raise HarnessError(e)
    exe = os.path.join(scratch(), name)
    lf = ['-fsanitize=address'] if variant == 'asan' else []
    if variant == 'vs': lf += ['-rdynamic']
    ar = exe + '.a'
    rc, out = _sh(['ar', 'rcs', ar] + libobjs)
    if rc: raise HarnessError('ar failed:\n' + out)
    rc, out = _sh(['g++'] + lf + objs + [ar] + list(link) + ['-o', exe, '-lsqlite3', '-lpthread', '-ldl'])
    if rc: raise HarnessError('link failed:\n' + out[-3000:])
    return exe

# ---------------------------------------------------------------- controlled-scheduler runs
def run_vs(exe, only=None, iters=2000, dfsprogs=0, dfsmax=300, bound=2, per=8, budget=20, acc=0, shards=None, seed=None, tag=''):
    shards = shards or NCPU
    ps, outs = [], []
    for k in range(shards):
        o = os.path.join(scratch(), '%s%s.%d.jsonl' % (os.path.basename(exe), tag, k)); outs.append(o)
        cmd = [exe, '-o', o, '-seed', str(seed if seed is not None else SEED), '-shard', str(k), '-nshards', str(shards), '-iters', str(iters), '-dfsprogs', str(dfsprogs),
               '-dfsmax', str(dfsmax), '-bound', str(bound), '-per', str(per), '-budget', str(budget), '-acc', str(acc)]
        if only: cmd += ['-only', only]
        ps.append(subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=scratch()))
    for p in ps:
        try: _, err = p.communicate(timeout=budget * 6 + 120)
        except subprocess.TimeoutExpired: p.kill(); raise HarnessError('driver did not finish')
        if p.returncode: raise HarnessError('driver %s ended with %s: %s' % (exe, p.returncode, err.decode('utf8', 'replace')[-2000:]))
    hs, stat = [], {}
    for o in outs:
        with open(o, 'rb') as f:
            for line in f:
                d = json.loads(line.decode('latin1'))
                if 'stat' in d:
                    for k, v in d['stat'].items(): stat[k] = stat.get(k, 0) + v
                else: hs.append(d)
        os.unlink(o)
    return hs, stat
REPKEYS = ['s', 'prog', 'ps', 'ss', 'mode', 'mem', 'syn', 'sp', 'early', 'punct']
def replay_vs(exe, h, acc=0):
    f = os.path.join(scratch(), 'rep.txt')
    with open(f, 'w') as g:
        for k in REPKEYS: g.write('%s %s\n' % (k, h[k]))
        for x in h.get('pct', []): g.write('pct %d\n' % x)
        if h.get('ch'): g.write('ch ' + ' '.join(map(str, h['ch'])) + '\n')
    o = os.path.join(scratch(), 'rep.out')
    rc, out = _sh([exe, '-replay', f, '-o', o, '-acc', str(acc)], cwd=scratch())
    if rc: raise HarnessError('replay failed: ' + out[-500:])
    for line in open(o, 'rb'):
        d = json.loads(line.decode('latin1'))
        if 'ev' in d: return d
    return None

# ---------------------------------------------------------------- folding histories
def fold(h):
    """events -> {init, ev, ops}: calls annotated with their result, times and the deletions made by their thread"""
    ops, ev, cur, init, end = [], [], {}, [], None
    orphan = []
    for e in h['ev']:
        k = e['e']
        if k == 'c':
            ops.append({'op': e['op'], 'a': e['a'], 't': e['t'], 't0': e['v'], 't1': e['v'], 'r': [], 'dl': [], 'fin': 0, 'punct': h.get('punct', 0), 'sp': h.get('sp', 0)})
            cur[e['t']] = len(ops); ev.append({'e': 'c', 'i': len(ops)})
        elif k == 'r':
            i = cur.pop(e['t']); o = ops[i - 1]; o['r'] = e['r']; o['t1'] = e['v']; o['fin'] = 1; o['dl'].sort(); ev.append({'e': 'r', 'i': i})
        elif k == 'x':
            if e['t'] in cur: ops[cur[e['t']] - 1]['dl'].append(e['id'])
            else: orphan.append(e['id'])
        elif k == 'i': init = e['a']
        elif k == 'end': end = e; ev.append({'e': 'end', 'k': e['k'] if not orphan else 'orphan', 'w': e.get('w', '')})
        elif k == 'bad': pass
        elif k == 'm': pass
    if end is None: ev.append({'e': 'end', 'k': 'truncated', 'w': ''})
    return {'init': init, 'ev': ev, 'ops': ops}

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=1, heap='2g', timeout=800, extra=(), deadlock=False, dirs=()):
    """Run TLC on tla/<module>.tla with config text cfg.  Returns dict(rc, out, states, distinct)."""
    d = tempfile.mkdtemp(dir=scratch())
    for f in os.listdir(os.path.join(V, 'tla')):
        if f.endswith('.tla'): os.symlink(os.path.join(V, 'tla', f), os.path.join(d, f))
    for f, txt in dirs: open(os.path.join(d, f), 'w').write(txt)
    open(os.path.join(d, 'M.cfg'), 'w').write(cfg)
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', '-Djava.io.tmpdir=' + d, '-Xss16m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE', '-lncheck', 'final']
    if not deadlock: cmd.append('-deadlock')
    cmd += list(extra) + ['-config', 'M.cfg', module]
    t = time.time()
    try: r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired: raise HarnessError('TLC timed out on ' + module)
    out = r.stdout.decode('utf8', 'replace')
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    res = {'rc': r.returncode, 'out': out, 'states': int(m[-1][0]) if m else 0, 'distinct': int(m[-1][1]) if m else 0, 'wall': time.time() - t}
    shutil.rmtree(d, ignore_errors=True)
    return res

LINRUN = """---- MODULE LinRun ----
EXTENDS %s, Json, IOUtils
VARIABLES tr, pos, st, ph
Traces == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Lin WITH InitState <- %sInit, Step <- %sStep, Opt <- %sOpt
====
"""
def validate(module, prefix, traces):
    """Are the folded histories behaviours of the object specification?  Returns (set of rejected indexes, states, distinct)."""
    if not traces: return set(), 0, 0
    n = min(NCPU, max(1, (len(traces) + 39) // 40))
    files = []
    for k in range(n):
        f = os.path.join(scratch(), 'tr%d.%d.ndjson' % (k, random.getrandbits(40))); files.append(f)
        with open(f, 'w') as g:
            for i in range(k, len(traces), n):
                d = dict(traces[i]); d['id'] = i; g.write(json.dumps(d) + '\n')
    text = LINRUN % (module, prefix, prefix, prefix)
    def one(f): return tlc('LinRun', 'SPECIFICATION TSpec\n', env={'TRACE': f}, dirs=[('LinRun.tla', text)])
    acc, st, di = set(), 0, 0
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, files):
            if 'Model checking completed. No error' not in r['out']:
                raise HarnessError('TLC failed on %s:\n%s' % (module, r['out'][-3500:]))
            st += r['states']; di += r['distinct']
            for m in re.finditer(r'<<"ACC", (\d+)>>', r['out']): acc.add(int(m.group(1)))
    for f in files: os.unlink(f)
    return set(range(len(traces))) - acc, st, di

# ---------------------------------------------------------------- sequential histories
SEQRUN = """---- MODULE SeqRun ----
EXTENDS %s, Json, IOUtils
VARIABLES tr, pos, st
SRTraces == ndJsonDeserialize(IOEnv.TRACE)
SRInit == tr \\in 1..Len(SRTraces) /\\ pos = 1 /\\ st \\in %sInit(SRTraces[tr])
SRNext == LET h == SRTraces[tr] IN
  \\/ /\\ pos <= Len(h.ops) /\\ h.ops[pos].op /= "crash"
     /\\ IF pos < Len(h.ops) THEN h.ops[pos + 1].op /= "crash" ELSE TRUE
     /\\ \\E x \\in %sStep(st, h.ops[pos]) : st' = x
     /\\ pos' = pos + 1 /\\ tr' = tr
     /\\ IF pos = Len(h.ops) THEN PrintT(<<"ACC", h.id>>) ELSE TRUE
TSpec == SRInit /\\ [][SRNext]_<<tr, pos, st>>
====
"""
SEQDIAG = SEQRUN.replace('/\\ tr\' = tr\n', '/\\ tr\' = tr /\\ PrintT(<<"AT", h.id, pos>>)\n')
def run_seq(exe, only=None, iters=200, seed=None, shards=None, timeout=600, hist=None, env=None, cap=0, batch=64, limit=60):
    shards = 1 if hist is not None else (shards or NCPU)
    ps, outs = [], []
    for k in range(shards):
        o = os.path.join(scratch(), '%s.%s.%d.%d.jsonl' % (os.path.basename(exe), only or 'all', k, random.getrandbits(30))); outs.append(o)
        cmd = [exe, '-o', o, '-seed', str(seed if seed is not None else SEED), '-shard', str(k), '-nshards', str(shards), '-iters', str(iters), '-cap', str(cap), '-batch', str(batch), '-limit', str(limit)]
        if only: cmd += ['-only', only]
        if hist is not None: cmd += ['-hist', str(hist)]
        wd = os.path.join(scratch(), 'wd%d.%d' % (k, random.getrandbits(30))); os.makedirs(wd)
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=67'); e.update(env or {})
        ps.append(subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=wd, env=e))
    for p in ps:
        try: _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired: p.kill(); raise HarnessError('driver did not finish')
        if p.returncode: raise HarnessError('driver %s ended with %s: %s' % (exe, p.returncode, err.decode('utf8', 'replace')[-2000:]))
    hs = []
    for o in outs:
        with open(o, 'rb') as f:
            for line in f: hs.append(json.loads(line.decode('latin1')))
        os.unlink(o)
    return hs
def generate(module, consts, cap=0):
    """Operation sequences generated by TLC from a Gen module: one for every transition of its state graph.  Returns the script file."""
    allp, st, di = [], 0, 0
    for c in consts:
        r = tlc(module, 'CONSTANTS %s\nSPECIFICATION GSpec\nVIEW View\n' % c, heap='4g')
        if 'Model checking completed. No error' not in r['out']: raise HarnessError('TLC failed on %s:\n%s' % (module, r['out'][-3000:]))
        st += r['states']; di += r['distinct']
        for m in re.finditer(r'^"PATH(.*)"$', r['out'], re.M):
            allp.append(';'.join(' '.join(map(str, o)) for o in json.loads(m.group(1).replace('\\"', '"'))))
    allp.sort()
    keep = [a for a, b in zip(allp, allp[1:] + ['']) if not (b == a or b.startswith(a + ';'))]
    total = len(keep)
    if cap and total > cap: keep = random.Random(SEED).sample(keep, cap)
    f = os.path.join(scratch(), 'script.%s.%d' % (module, random.getrandbits(40)))
    with open(f, 'w') as g:
        for k in keep: g.write(k + '\n')
    return f, len(keep), total, st, di
def validate_seq(module, prefix, hs, diag=False, timeout=800):
    """Are the recorded histories behaviours of the specification?  Returns (rejected index -> position or None, states, transitions)."""
    hs2 = [(i, h) for i, h in enumerate(hs) if h['ops']]
    if not hs2: return {}, 0, 0
    n = min(NCPU, max(1, (len(hs2) + 9) // 10)); files = []
    for k in range(n):
        f = os.path.join(scratch(), 'sq%d.%d.ndjson' % (k, random.getrandbits(40))); files.append(f)
        with open(f, 'w') as g:
            for i, h in hs2[k::n]: g.write(json.dumps({'id': i, 'ops': h['ops'], 's': h.get('s', '')}) + '\n')
    text = (SEQDIAG if diag else SEQRUN) % (module, prefix, prefix)
    def one(f):
        # A result the specification cannot even evaluate (wrong shape) is a rejection of that history.
        bad = set()
        while True:
            r = tlc('SeqRun', 'SPECIFICATION TSpec\n', env={'TRACE': f}, dirs=[('SeqRun.tla', text)], timeout=timeout, heap='3g')
            if 'Model checking completed. No error' in r['out'] or 'evaluating the nested' not in r['out'] or len(bad) >= 4: break
            m = re.findall(r'^/\\ tr = (\d+)', r['out'], re.M)
            if not m: break
            L = open(f).read().split('\n'); bad.add(json.loads(L.pop(int(m[-1]) - 1))['id']); L = [x for x in L if x]
            if not L: r['out'] = 'Model checking completed. No error'; break
            open(f, 'w').write('\n'.join(L) + '\n')
        if len(bad) >= 4: r['out'] = 'Model checking completed. No error' + r['out']; r['part'] = True
        return r
    acc, st, di, at = set(), 0, 0, {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, files):
            if 'Model checking completed. No error' not in r['out']: raise HarnessError('TLC failed on %s:\n%s' % (module, r['out'][-3500:]))
            st += r['states']; di += r['distinct']
            for m in re.finditer(r'<<"ACC", (\d+)>>', r['out']): acc.add(int(m.group(1)))
            for m in re.finditer(r'<<"AT", (\d+), (\d+)>>', r['out']): at[int(m.group(1))] = max(at.get(int(m.group(1)), 0), int(m.group(2)))
    for f in files: os.unlink(f)
    return {i: at.get(i, 0) for i, _ in hs2 if i not in acc}, di, st
