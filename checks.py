"""The checks, one per property."""
import os, json, re, random
from vlib import *
import models as D

CHECKS = {}
NOTYET = {}
TECH = {
 'conc': ('TLA+ object specification; TLC validates histories recorded from the real code under a controlled scheduler',
          'Every distinct history explored is decided by TLC against the TLA+ specification (linearization search, blocked threads, deletions, virtual time). Schedules: bounded-preemption enumeration of small programs plus randomized and PCT schedules; sequentially consistent memory; trusts the scheduler and pthread stand-ins in vsched/.'),
 'hb':   ('TLA+ happens-before specification (vector clocks); TLC checks access traces recorded from the real code',
          'Every memory access of the explored executions is checked for an ordered predecessor by TLC; covers the executions explored, compiler-instrumented accesses only.'),
 'seq':  ('TLA+ sequential specification; TLC validates operation histories recorded from the real code',
          'Each recorded call is decided by TLC against the specification; histories are seeded-random (C20, C21, C30, C31, C41 also TLC-generated transition covers of a model), bounded in length; memory errors are observed with AddressSanitizer.'),
 'fun':  ('TLA+ function definitions evaluated by TLC against call/result tables recorded from the real code',
          'Each recorded input/result pair is decided by evaluating the TLA+ definition; inputs are enumerated over small domains and sampled with seeded boundary-biased generators elsewhere.'),
}
def register(pid, level, run, replay=None, tech='conc'): CHECKS[pid] = {'level': level, 'run': run, 'replay': replay, 'technique': TECH[tech][0], 'note': TECH[tech][1]}

# ================================================================ concurrent objects
def dedupe(hs):
    out, seen = [], set()
    for h in hs:
        f = fold(h); k = json.dumps(f, sort_keys=True)
        if k not in seen: seen.add(k); out.append((h, f))
    return out

def describe(h):
    s = []
    for e in h['ev']:
        if e['e'] == 'c': s.append('T%d:%s(%s)' % (e['t'], e['op'], ','.join(map(str, e['a']))))
        elif e['e'] == 'r': s.append('T%d=%s@%d' % (e['t'], e['r'], e['v']))
        elif e['e'] == 'x': s.append('T%d deletes %d' % (e['t'], e['id']))
        elif e['e'] == 'end': s.append('END %s %s' % (e['k'], e.get('w', '')))
    return '%s/%s punct=%d: ' % (h['s'], h['mode'], h['punct']) + ' '.join(s)

def conc(ctx, driver, parts, iters, dfsprogs, dfsmax=400, bound=2, cap=None, link=(), budget=25):
    """parts: list of (scenario, module, prefix).  Explore schedules of the real code; TLC judges every distinct history."""
    exe = build(driver, 'vs', driver + '.cpp', link=link)
    for sc, mod, pfx in parts:
        hs, st = run_vs(exe, only=sc, iters=iters, dfsprogs=dfsprogs, dfsmax=dfsmax, bound=bound, budget=budget)
        hf = dedupe(hs)
        # keep every abnormal ending, cap the rest
        if cap and len(hf) > cap:
            odd = [x for x in hf if x[0]['ev'][-1]['k'] not in ('done', 'stuck')]
            if len(odd) > 400: odd.sort(key=lambda x: len(x[0]['ev'])); odd = odd[:200] + random.Random(SEED).sample(odd[200:], 200)
            rest = [x for x in hf if x[0]['ev'][-1]['k'] in ('done', 'stuck')]
            random.Random(SEED).shuffle(rest); hf = odd + rest[:max(0, cap - len(odd))]
        rej, states, distinct = validate(mod, pfx, [f for _, f in hf])
        ctx.add('schedules_executed', st['exec']); ctx.add('traces_validated_against_impl', len(hf))
        ctx.add('states', distinct); ctx.add('transitions', states); ctx.add('preemption_bounded_programs', st['dfs']); ctx.add('programs_enumerated_completely', st['dfs_complete'])
        ctx.add('scheduling_points', st['steps'])
        if hf: ctx.sample(describe(hf[len(hf) // 2][0])[:1500])
        shown = 0
        for i in sorted(rej, key=lambda i: (hf[i][0]['mode'] == 'dfs', len(hf[i][0]['ev']))):
            h = hf[i][0]
            if shown >= 3: break
            h2 = confirm(exe, h, mod, pfx)
            if h2 is None: ctx.add('unreproduced', 1); continue
            shown += 1
            ctx.violation('not a behaviour of %s: %s' % (mod, describe(h2)), {'kind': 'conc', 'driver': driver, 'module': mod, 'prefix': pfx, 'history': h2, 'link': list(link)})

def confirm(exe, h, mod, pfx, tries=3):
    for _ in range(tries):
        h2 = replay_vs(exe, h)
        if h2 is not None and validate(mod, pfx, [fold(h2)])[0]: return h2
    return None

def conc_replay(ctx, d):
    exe = build(d['driver'], 'vs', d['driver'] + '.cpp', link=d.get('link', ()))
    h2 = replay_vs(exe, d['history'])
    print(describe(h2))
    return bool(validate(d['module'], d['prefix'], [fold(h2)])[0])

def races(ctx, driver, scenarios, iters, link=(), cap=400, budget=20):
    exe = build(driver, 'vs', driver + '.cpp', link=link)
    for sc in scenarios:
        hs, st = run_vs(exe, only=sc, iters=iters, acc=1, budget=budget)
        rej = race_reject(hs[:cap], ctx)
        ctx.add('schedules_executed', st['exec']); ctx.add('traces_validated_against_impl', len(hs[:cap]))
        shown = 0
        for i, pos in rej:
            if shown >= 2: break
            h2 = replay_vs(exe, hs[i], acc=1)
            if h2 is None: continue
            r2 = race_reject([h2], None)
            if not r2: ctx.add('unreproduced', 1); continue
            shown += 1
            ctx.violation('data race in %s: %s' % (sc, race_text(exe, h2, r2[0][1])), {'kind': 'race', 'driver': driver, 'history': h2, 'link': list(link), 'where': race_text(exe, h2, r2[0][1])})
def race_fold(h):
    ev = [{'t': e['t'], 'k': e['k'], 'o': e['o']} for e in h['ev'] if e['e'] == 'm']
    nt = 1 + max([e['t'] for e in ev] + [e['o'] for e in ev if e['k'] in 'CBEJ'] + [0])
    no = max([e['o'] for e in ev if e['k'] in 'rw'] + [1])
    return {'nt': nt, 'no': no, 'ev': ev or [{'t': 0, 'k': 'B', 'o': 0}]}
def race_reject(hs, ctx):
    fs = [race_fold(h) for h in hs]
    if not fs: return []
    n = min(NCPU, max(1, (len(fs) + 19) // 20)); files = []
    for k in range(n):
        f = os.path.join(scratch(), 'hb%d.%d.ndjson' % (k, random.getrandbits(40))); files.append(f)
        with open(f, 'w') as g:
            for i in range(k, len(fs), n): g.write(json.dumps(dict(fs[i], id=i)) + '\n')
    rej, acc = [], set()
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda f: tlc('HB', 'SPECIFICATION TSpec\n', env={'TRACE': f}), files):
            if 'Model checking completed. No error' not in r['out']: raise HarnessError('TLC failed on HB:\n' + r['out'][-3000:])
            if ctx: ctx.add('states', r['distinct']); ctx.add('transitions', r['states'])
            for m in re.finditer(r'<<"RACE", (\d+), (\d+)>>', r['out']): rej.append((int(m.group(1)), int(m.group(2))))
            for m in re.finditer(r'<<"ACC", (\d+)>>', r['out']): acc.add(int(m.group(1)))
    for i in range(len(fs)):
        if i not in acc and i not in [x[0] for x in rej]: raise HarnessError('HB: trace neither accepted nor rejected')
    for f in files: os.unlink(f)
    return sorted(set(rej))
def race_text(exe, h, pos):
    ms = [e for e in h['ev'] if e['e'] == 'm']; e = ms[pos - 1]
    prev = [x for x in ms[:pos - 1] if x['k'] in 'rw' and x['o'] == e['o'] and x['t'] != e['t'] and 'w' in (x['k'], e['k'])]
    ad = [hex(max(0, x['p'] - 1)) for x in ([prev[-1]] if prev else []) + [e]]
    rc, out = subprocess.getstatusoutput('addr2line -f -C -s -e %s %s' % (exe, ' '.join(ad)))
    L = out.split('\n')
    names = ['%s (%s)' % (L[i], L[i + 1]) for i in range(0, len(L) - 1, 2)]
    return ' and '.join('T%d %s in %s' % (x['t'], 'writes' if x['k'] == 'w' else 'reads', n) for x, n in zip(([prev[-1]] if prev else []) + [e], names))
def race_replay(ctx, d):
    exe = build(d['driver'], 'vs', d['driver'] + '.cpp', link=d.get('link', ()))
    h2 = replay_vs(exe, d['history'], acc=1); r = race_reject([h2], None)
    if r: print(race_text(exe, h2, r[0][1]))
    return bool(r)
# ================================================================ sequential histories and tables
def sdesc(h, pos):
    o = h['ops'][min(pos, len(h['ops']) - 1)]
    before = ' '.join('%s%s=%s' % (x['op'], json.dumps(x['a']).replace(' ', ''), json.dumps(x['r']).replace(' ', '')) for x in h['ops'][max(0, pos - 4):pos])
    return '%s#%s op %d %s%s=%s %s (after: %s)' % (h['s'], h['h'], pos + 1, o['op'], json.dumps(o['a'])[:400], json.dumps(o['r'])[:400], h.get('why', ''), before[-500:])
def seq(ctx, driver, parts, variant='asan', link=(), extra=(), flags=(), lib=None, env=None, batch=64, timeout=700, limit=60, evals=True):
    """parts: list of (scenario, module, prefix, iters, cap)."""
    exe = build(driver, variant, driver + '.cpp', lib=lib, link=link, extra=extra, flags=flags)
    spec = {'driver': driver, 'variant': variant, 'link': list(link), 'extra': list(extra), 'flags': list(flags), 'lib': lib, 'env': env}
    groups = {}
    gens = {}
    for sc, mod, pfx, iters, cap, *gen in parts:
        e = env
        if gen:
            gens[sc] = [gen[0][0], list(gen[0][1]), cap]
            f, n, tot, st, di = generate(*gens[sc]); e = dict(env or {}, SCRIPT=f)
            ctx.add('states', di); ctx.add('transitions', st); ctx.add('spec_generated_histories', n); ctx.add('spec_generated_histories_available', tot)
        hs = run_seq(exe, only=sc, iters=iters, cap=0 if gen else cap, env=e, batch=batch, timeout=timeout, limit=limit)
        if not hs: raise HarnessError('no histories from ' + sc)
        ctx.add('histories_recorded', len(hs))
        groups.setdefault((mod, pfx), []).append(hs)
    for (mod, pfx), hss in groups.items():
        uniq, seen = [], set()
        for hs in hss:
            for h in hs:
                k = hash(json.dumps(h['ops'])) if len(h['ops']) else 0
                if k in seen: continue
                seen.add(k); uniq.append(h)
            h = hs[len(hs) // 2]; ctx.sample('%s#%d: %s' % (h['s'], h['h'], json.dumps(h['ops'])[:700]))
        random.Random(SEED).shuffle(uniq)
        rej, di, st = validate_seq(mod, pfx, uniq)
        ctx.add('states', di); ctx.add('transitions', st); ctx.add('traces_validated_against_impl', len(uniq))
        ctx.add('evaluations', sum(len(h['ops']) for h in uniq)); ctx.add('distinct_nontrivial', ctx.count_ops(uniq))
        shown = 0
        for i in sorted(rej, key=lambda i: len(uniq[i]['ops'])):
            if shown >= 3: break
            gen = gens.get(uniq[i]['s'])
            h2 = confirm_seq(exe, uniq[i], mod, pfx, env, gen)
            if h2 is None: ctx.add('unreproduced', 1); continue
            shown += 1
            ctx.violation('not a behaviour of %s: %s' % (mod, sdesc(*h2)), dict(spec, gen=gen, kind='seq', module=mod, prefix=pfx, s=h2[0]['s'], h=h2[0]['h'], seed=h2[0]['seed'], op=h2[0]['ops'][min(h2[1], len(h2[0]['ops']) - 1)]))
def confirm_seq(exe, h, mod, pfx, env, gen=None, tries=2):
    if gen: env = dict(env or {}, SCRIPT=generate(*gen)[0])
    for _ in range(tries):
        hs = run_seq(exe, only=h['s'], hist=h['h'], seed=h['seed'], env=env, iters=h['h'] + 1)
        if hs:
            r, _, _ = validate_seq(mod, pfx, hs, diag=True)
            if 0 in r: return hs[0], r[0]
    return None
def seq_replay(ctx, d):
    exe = build(d['driver'], d['variant'], d['driver'] + '.cpp', lib=d['lib'], link=d['link'], extra=d['extra'], flags=d['flags'])
    r = confirm_seq(exe, {'s': d['s'], 'h': d['h'], 'seed': d['seed']}, d['module'], d['prefix'], d['env'], d.get('gen'))
    if r: print(sdesc(*r))
    return r is not None
def any_replay(ctx, d): return {'conc': conc_replay, 'race': race_replay, 'seq': seq_replay}[d['kind']](ctx, d)

def T(q, t): return t if THOROUGH else q
def both(*fs):
    def run(ctx):
        for f in fs: f(ctx)
    return run
def C(driver, *parts, it=None, dfs=None):
    def run(ctx):
        conc(ctx, driver, parts, iters=T(it or 4000, 80000), dfsprogs=T(dfs or 16, 160), dfsmax=T(400, 4000), bound=T(2, 3), cap=T(4500, 60000), budget=T(25, 400))
    return run
register('C01', 'model_checking', C('prim', ('mutex', 'Mutex', 'M')), any_replay)
register('C02', 'model_checking', both(D.multi, C('prim', ('multi', 'Mutex', 'M'))), any_replay)
register('C03', 'model_checking', C('prim', ('signal', 'Mutex', 'M')), any_replay)
register('C04', 'model_checking', C('prim', ('rwlock', 'RWLockSpec', 'RW')), any_replay)
register('C05', 'model_checking', both(D.queue, C('queue', ('queue', 'Queue', 'Q'), ('queues', 'Queue', 'Q'))), any_replay)
def c06(ctx):
    D.timed(ctx)
    C('queue', ('queuet', 'Queue', 'Q'), it=3000, dfs=16)(ctx)
    C('cont', ('wwaitt', 'WaitQueue', 'WQ'), ('mapt', 'IMap', 'IM'), ('priot', 'PrioQueue', 'PQ'), ('connt', 'ConnQueue', 'CQ'), it=1500, dfs=8)(ctx)
register('C06', 'model_checking', c06, any_replay)
register('C07', 'model_checking', both(D.conn, C('cont', ('conn', 'ConnQueue', 'CQ'))), any_replay)
register('C08', 'model_checking', both(D.wait, C('cont', ('wwait', 'WaitQueue', 'WQ'))), any_replay)
register('C09', 'model_checking', both(D.keys, C('cont', ('map', 'IMap', 'IM'))), any_replay)
register('C10', 'model_checking', both(D.keys, C('cont', ('prio', 'PrioQueue', 'PQ'))), any_replay)
register('C11', 'model_checking', both(D.sem, C('prim', ('sem', 'Sem', 'S'))), any_replay)
register('C12', 'model_checking', both(D.ref, C('cont', ('refcnt', 'RefCnt', 'RC'))), any_replay)
register('C14', 'model_checking', C('prim', ('thread', 'ThreadSpec', 'TH')), any_replay)
def c13(ctx):
    n = T(250, 3000)
    races(ctx, 'queue', ['queue', 'queuet', 'queues'], n, cap=T(250, 3000))
    races(ctx, 'prim', ['mutex', 'multi', 'signal', 'rwlock', 'sem', 'thread'], n, cap=T(200, 3000))
    races(ctx, 'cont', ['wwait', 'map', 'prio', 'conn', 'refcnt'], n, cap=T(200, 3000))
    races(ctx, 'shared', ['mem', 'console', 'rex'], T(120, 2000), cap=T(120, 2000))
    races(ctx, 'cfg', ['conf', 'report'], T(250, 3000), cap=T(250, 3000))
    races(ctx, 'logv', ['logs'], T(700, 5000), cap=T(700, 5000))
register('C13', 'model_checking', c13, any_replay, 'hb')
def S(driver, *parts, **kw):
    def run(ctx):
        seq(ctx, driver, [(sc, mod, pfx, T(n, tn), T(cap, 0)) for sc, mod, pfx, n, tn, cap in parts], **kw)
    return run
def G(driver, *parts, **kw):
    """histories generated by TLC: (scenario, module, prefix, generator, quick constants, cap, thorough constants)"""
    def run(ctx): seq(ctx, driver, [(sc, mod, pfx, 0, T(cap, 0), (gm, T(qc, tc))) for sc, mod, pfx, gm, qc, cap, tc in parts], **kw)
    return run
register('C40', 'model_checking', S('lists', *[(s, 'Lists', 'L', 400, 6000, 3000) for s in ('pfifo_enum', 'plist_enum', 'slist_enum')], *[(s, 'Lists', 'L', 400, 6000, 0) for s in ('pfifo', 'plist', 'slist')]), any_replay, 'seq')
def gvec(c, sc): return (sc, 'Vec', 'V', 'GenVec', ['Class=%d Slots=2 Depth=4 Small=FALSE' % c, 'Class=%d Slots=3 Depth=4 Small=TRUE' % c], 3000, ['Class=%d Slots=2 Depth=6 Small=FALSE' % c, 'Class=%d Slots=3 Depth=5 Small=TRUE' % c])
register('C41', 'model_checking', both(S('vec', ('vec', 'Vec', 'V', 1200, 20000, 0), ('bitv', 'Vec', 'V', 1200, 20000, 0), ('soft', 'Vec', 'V', 1200, 20000, 0)), G('vec', gvec(1, 'vec_tlc'), gvec(2, 'bitv_tlc'), gvec(3, 'soft_tlc'))), any_replay, 'seq')
register('C42', 'model_checking', both(D.algebra('PackTrip', 'HexTrip', 'RevTwice'), S('bits', ('fields', 'Bits', 'B', 500, 10000, 0), ('fields_enum', 'Bits', 'B', 0, 0, 0), ('convert', 'Bits', 'B', 1200, 20000, 0))), any_replay, 'fun')
register('C43', 'model_checking', both(D.algebra('ParityIsLfsr', 'CodewordsDivide', 'OneErrorShows', 'Linear'), S('bits', ('parity', 'Bits', 'B', 1000, 16000, 0), ('parity_enum', 'Bits', 'B', 0, 0, 0))), any_replay, 'fun')
register('C44', 'model_checking', both(D.algebra('PunctTrip', 'MapTrip', 'RevTwice'), S('bits', ('maps', 'Bits', 'B', 1500, 20000, 0))), any_replay, 'fun')
register('C45', 'model_checking', both(D.algebra('B64Trip', 'HexCodeTrip'), S('text', ('enc', 'Text', 'T', 700, 12000, 0))), any_replay, 'fun')
register('C46', 'model_checking', both(D.algebra('UrlTrip'), S('text', ('url_enum', 'Text', 'T', 0, 0, 0), ('url', 'Text', 'T', 400, 8000, 0))), any_replay, 'fun')
register('C47', 'model_checking', both(D.algebra('SplitRejoins', 'GcdDivides'), S('text', ('fmt_enum', 'Text', 'T', 0, 0, 0), ('fmt_big', 'Text', 'T', 200, 1500, 0), ('words', 'Text', 'T', 900, 15000, 0), ('strs', 'Text', 'T', 900, 15000, 0), ('stamp', 'Text', 'T', 300, 5000, 0))), any_replay, 'fun')
register('C48', 'model_checking', both(D.algebra('CivilKnown', 'CivilNext'), S('text', ('times', 'Text', 'T', 1500, 20000, 0))), any_replay, 'fun')

register('C49', 'model_checking', S('misc', ('f16', 'Misc', 'Mi', 2500, 60000, 0)), any_replay, 'fun')
register('C52', 'model_checking', both(S('misc', ('stats', 'Misc', 'Mi', 500, 8000, 0), ('bits', 'Misc', 'Mi', 400, 8000, 0), ('scalars', 'Misc', 'Mi', 900, 12000, 0), ('memst', 'Misc', 'Mi', 300, 6000, 0)),
    C('shared', ('mem', 'Shared', 'SH'), it=2000, dfs=12)), any_replay, 'seq')
register('C53', 'model_checking', both(S('misc', ('regex', 'Misc', 'Mi', 800, 20000, 0)), C('shared', ('console', 'Shared', 'SH'), ('rex', 'Shared', 'SH'), it=1200, dfs=10)), any_replay, 'seq')
register('C20', 'model_checking', both(D.cache, S('conf', ('conf', 'Conf', 'Co', 2500, 40000, 0)), G('conf', ('conf_tlc', 'Conf', 'Co', 'GenConf', ['Depth=8 Vals={0,1} Hows={0,1}'], 0, ['Depth=10 Vals={0,1} Hows={0,1,2,3}']))), any_replay, 'seq')
register('C21', 'model_checking', both(D.cache, S('conf', ('vis', 'Conf', 'Cv', 4000, 60000, 0)), G('conf', ('vis_tlc', 'Conf', 'Cv', 'GenVis', ['Depth=8 Tabs={1,2} Keys={1} Cap=7 Steps={1,5,6}', 'Depth=8 Tabs={1} Keys={1,3} Cap=7 Steps={1,5,6}'], 4000, ['Depth=9 Tabs={1,2} Keys={1,3} Cap=7 Steps={1,5,6}']))), any_replay, 'seq')
register('C22', 'model_checking', S('conf', ('valid', 'Conf', 'Co', 2500, 40000, 0)), any_replay, 'fun')
register('C24', 'model_checking', S('conf', ('gensql', 'Conf', 'Co', 2500, 20000, 0)), any_replay, 'fun')
register('C27', 'model_checking', S('conf', ('kv', 'Conf', 'Co', 4000, 40000, 0)), any_replay, 'seq')
register('C23', 'model_checking', C('cfg', ('conf', 'ConfLin', 'CL'), it=3000, dfs=12), any_replay)
register('C26', 'model_checking', both(D.report, C('cfg', ('report', 'Report', 'RP'), it=3000, dfs=12)), any_replay)
register('C25', 'model_checking', S('db', ('db', 'Db', 'Db', 3000, 40000, 0)), any_replay, 'seq')
def SL(*parts): return S('log', *parts, extra=('logg.cpp',), batch=1)
def GL(*parts): return G('log', *parts, extra=('logg.cpp',), batch=1)
def logv(n): return C('logv', ('logs', 'LogLin', 'LL'), it=n, dfs=10)
register('C30', 'model_checking', both(SL(('alarms', 'Log', 'Lg', 1500, 20000, 0)), GL(('alarms_tlc', 'Log', 'Lg', 'GenLog', ['Depth=9 Kind=0'], 0, ['Depth=14 Kind=0'])), logv(2500)), any_replay, 'seq')
register('C31', 'model_checking', both(SL(('levels', 'Log', 'Lg', 2500, 40000, 0)), GL(('levels_tlc', 'Log', 'Lg', 'GenLog', ['Depth=9 Kind=1'], 0, ['Depth=14 Kind=1']))), any_replay, 'seq')
register('C32', 'model_checking', both(SL(('sinks', 'Log', 'Lg', 1500, 20000, 0)), logv(2500)), any_replay, 'seq')
register('C50', 'model_checking', both(S('sock', ('res', 'Sock', 'Sk', 800, 12000, 0), ('socks', 'Sock', 'Sk', 900, 12000, 0), ('many', 'Sock', 'Sk', 4, 40, 0)),
    S('sock', ('res', 'Sock', 'Sk', 800, 12000, 0), flags=('-DSOCK_PLAIN_RESOLVER',)), C('resv', ('resolve', 'Shared', 'SH'), it=1000, dfs=10)), any_replay, 'seq')
register('C51', 'model_checking', S('self', ('self', 'Self', 'Se', 2200, 14000, 0)), any_replay, 'seq')
