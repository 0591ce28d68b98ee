#!/usr/bin/env python3
"""run.py <property> : decide one property on the current /repo tree.   run.py --replay <file> : re-judge a reported violation."""
import sys, os, json, time, traceback
import vlib
from vlib import *
import checks

class Ctx:
    def __init__(s, pid, level):
        s.pid, s.level, s.t0 = pid, level, time.time()
        s.cov = {}; s.assume = []; s.viol = []; s.samples = []; s.known = []
        s.kf = [k for k in load_known() if k.get('property') == pid and not k.get('fixed')]
        s.kf_hit = set()
    def add(s, k, n=1): s.cov[k] = s.cov.get(k, 0) + n
    def note(s, k, v): s.cov[k] = v
    def sample(s, x):
        if len(s.samples) < 3: s.samples.append(x)
    def violation(s, what, data):
        for k in s.kf:
            if all(str(v) in json.dumps(data, sort_keys=True) for v in k['match']):
                s.kf_hit.add(k['what']); return
        s.viol.append((what, data))
    def count_ops(s, hs):
        """distinct operations (name, arguments, result) not seen before in this run"""
        if not hasattr(s, 'seen_ops'): s.seen_ops = set()
        n = len(s.seen_ops)
        for h in hs:
            for o in h['ops']: s.seen_ops.add(hash((o['op'], json.dumps(o['a']), json.dumps(o['r']))))
        return len(s.seen_ops) - n
    def left(s, total): return max(1.0, total - (time.time() - s.t0))

def load_known():
    f = os.path.join(V, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else []

def setup():
    """Checks that the toolchain works; every check builds what it needs from /repo itself."""
    try:
        build('setup', 'vs', 'prim.cpp')
        print('setup ok'); return 0
    finally: vlib.cleanup()
def main():
    if sys.argv[1] == '--setup': return setup()
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2])); pid = d['property']; rep = d
    else: pid = sys.argv[1]; rep = None
    c = checks.CHECKS[pid]
    ctx = Ctx(pid, c['level'])
    try:
        if rep is not None:
            bad = c['replay'](ctx, rep['data'])
            print('REJECTED' if bad else 'ACCEPTED', rep['what'])
            return 1 if bad else 0
        c['run'](ctx)
        ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': c['level'], 'coverage': dict(ctx.cov), 'assumptions': ctx.assume, 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(ctx.viol)}
        ev['coverage']['samples'] = ctx.samples
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for k in sorted(ctx.kf_hit): print('KNOWN-FINDING: property=%s %s' % (pid, k))
        if ctx.viol:
            os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
            for n, (what, data) in enumerate(ctx.viol[:5]):
                f = os.path.join(V, 'replays', '%s-%d.json' % (pid, n))
                json.dump({'property': pid, 'what': what, 'data': data}, open(f, 'w'), indent=1)
                print('# ' + what[:600])
                print('VIOLATION property=%s replay=%s' % (pid, f))
            return 1
        print('OK property=%s %s wall=%.1fs' % (pid, {k: v for k, v in ctx.cov.items() if isinstance(v, int)}, time.time() - ctx.t0))
        return 0
    except HarnessError as e:
        log('HARNESS ERROR: %s' % e); return 3
    except Exception:
        traceback.print_exc(); return 3
    finally:
        vlib.cleanup()
sys.exit(main())
