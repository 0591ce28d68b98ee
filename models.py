"""Design models: exhaustive TLC runs of small transition systems, including variants that must fail (so that a model which
cannot tell a broken discipline from a sound one is noticed)."""
import re
from vlib import *

def prog(*ts): return 'PROG == <<%s>>' % ', '.join('<<%s>>' % ', '.join('<<"%s", %d>>' % o for o in t) for t in ts)
def mc(ctx, module, defs='', consts=None, inv=(), props=(), spec='Spec', constraint=None, bad=False, timeout=700, heap='6g', workers=4):
    """Run one configuration.  bad: the configuration must be refuted."""
    name = 'R' + module
    text = '---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (name, module, defs)
    cfg = 'SPECIFICATION %s\n' % spec
    for k, v in (consts or {}).items(): cfg += 'CONSTANT %s %s %s\n' % (k, '<-' if isinstance(v, str) and re.match(r'^[A-Z]+$', v) and v not in ('TRUE', 'FALSE') else '=', v)
    if inv: cfg += 'INVARIANTS %s\n' % ' '.join(inv)
    if props: cfg += 'PROPERTIES %s\n' % ' '.join(props)
    r = tlc(name, cfg, workers=workers, heap=heap, timeout=timeout, dirs=[(name + '.tla', text)])
    good = 'Model checking completed. No error' in r['out']
    refuted = re.search(r'Invariant \w+ is violated|Temporal properties were violated|Action property \w+ is violated|is violated', r['out']) is not None
    if bad and not refuted: raise HarnessError('design model %s: a variant that must fail passes or does not run (%s %s)\n%s' % (module, defs, consts, r['out'][-3000:]))
    if not bad and not good: raise HarnessError('design model %s fails (%s %s)\n%s' % (module, defs, consts, r['out'][-4000:]))
    ctx.add('design_model_configurations'); ctx.add('states', r['distinct']); ctx.add('transitions', r['states'])
    if bad: ctx.add('design_model_variants_refuted')
    return r

MINV = ('ExactlyOnce', 'FifoPerKey', 'LowAndTimeAreTrue', 'NoLostWakeup')
def mon(ctx, p, put='signal', take='broadcast', loop='TRUE', spur='FALSE', re='TRUE', live=True, **kw):
    mc(ctx, 'DMonitor', prog(*p), dict(Prog='PROG', OnPut='"%s"' % put, OnTake='"%s"' % take, Loop=loop, Spurious=spur, Recheck=re), inv=MINV, props=('Gets',) if live else (), spec='Fair' if live else 'Spec', **kw)
W, R, Tm, N, Lo, X = 'w', 'r', 't', 'n', 'low', 'clear'
def queue(ctx):        # InterthreadQueue: one key, signal after a write, broadcast after a read
    mon(ctx, [[(W, 1), (W, 1)], [(R, 1)], [(R, 1)]]); mon(ctx, [[(W, 1)], [(W, 1)], [(R, 1)], [(Tm, 1)], [(N, 1)]], spur='TRUE', live=False)
    mon(ctx, [[(W, 1), (W, 1)], [(R, 1)], [(R, 1)]], put='ifempty', bad=True)      # signal only on the step from empty
    mon(ctx, [[(W, 1)], [(R, 1)], [(N, 1)]], loop='FALSE', live=False, bad=True)   # the item may be gone when the reader comes back
def timed(ctx):
    mon(ctx, [[(W, 1), (W, 1)], [(Tm, 1), (N, 1)], [(R, 1)]], spur='TRUE', live=False); mon(ctx, [[(W, 1)], [(Tm, 1)]])
    mon(ctx, [[(W, 1)], [(Tm, 1)]], re='FALSE', live=False, bad=True)              # the clock is looked at before the queue
def wait(ctx):         # InterthreadQueueWithWait: a writer at the mark sleeps on the read signal
    mon(ctx, [[(W, 1), (W, 1), (Lo, 0)], [(R, 1)], [(R, 1)]]); mon(ctx, [[(W, 1), (Lo, 0)], [(W, 1), (Lo, 1)], [(R, 1), (N, 1)]], spur='TRUE', live=False)
    mon(ctx, [[(W, 1), (W, 1), (Lo, 0)], [(Lo, 1)], [(R, 1), (R, 1)]], take='signal', bad=True)    # one signal, two marks
    mon(ctx, [[(W, 1), (W, 1), (Lo, 1)], [(W, 1)], [(R, 1), (N, 1)]], spur='TRUE', loop='FALSE', live=False, bad=True)
    mon(ctx, [[(W, 1), (Lo, 0)], [(R, 1)]], take='none', bad=True)
def keys(ctx):         # InterthreadMap: readers of different keys share one signal
    mon(ctx, [[(W, 1), (W, 2)], [(R, 1)], [(R, 2)]], put='broadcast'); mon(ctx, [[(W, 1)], [(W, 2)], [(R, 1)], [(Tm, 2)], [(N, 1)]], put='broadcast', spur='TRUE', live=False)
    mon(ctx, [[(W, 1), (W, 2)], [(R, 1)], [(R, 2)]], put='signal', bad=True)
def conn(ctx):         # a connected chain is one monitor: reads of any member broadcast
    mon(ctx, [[(W, 1), (W, 2), (Lo, 0)], [(R, 1)], [(R, 2)]], put='broadcast')
def multi(ctx):
    M = lambda perm, own, keep='FALSE', **kw: mc(ctx, 'DMulti', 'PERM == %s\nOWN == %s' % (perm, own), dict(Perm='PERM', Own='OWN', Keep=keep), **kw)
    I = ('Holds', 'Restored', 'NoDeadlock')
    M('<< <<1,2,3>>, <<3,2,1>>, <<2,3,1>> >>', '<<{}, {}, {}>>', inv=I + ('NoHoldAndWait',))
    M('<< <<1,2,3>>, <<2,3,1>> >>', '<<{}, {}>>', inv=I + ('NoHoldAndWait',), props=('AllDone',), spec='Fair')
    for own in ('{1}', '{2}', '{3}', '{1, 3}'): M('<< <<1,2,3>>, <<3,1,2>> >>', '<<%s, {}>>' % own, inv=I)
    M('<< <<1,2,3>>, <<3,2,1>> >>', '<<{}, {}>>', keep='TRUE', inv=I + ('NoHoldAndWait',), bad=True)
def ref(ctx):
    R = lambda n, c, a, **kw: mc(ctx, 'DRef', '', dict(N=n, MaxCopies=c, Atomic=a), inv=('OnceAtMost', 'NotWhileUsed', 'InTheEnd'), **kw)
    R(3, 2, 'TRUE'); R(2, 1, 'FALSE', bad=True)
def cache(ctx):
    K = lambda drop, back, test='TRUE', inv=('Recent',), props=('OwnWritesSeen', 'SetBackSeen'), **kw: mc(ctx, 'DConfCache', '', dict(Vals='{1}', MaxT=T(5, 7), Age=3, DropOnSet=drop, Back=back, BackTest=test), inv=inv, props=props, **kw)
    K('TRUE', 'FALSE'); K('TRUE', 'TRUE', inv=()); K('FALSE', 'FALSE', bad=True); K('TRUE', 'TRUE', 'FALSE', inv=(), bad=True)
def report(ctx):
    P = lambda two, back, excl, **kw: mc(ctx, 'DReport', '', dict(Names='{1, 2}', MaxInc=2, MaxRuns=3, TwoStep=two, PutBack=back, ClearExcl=excl), inv=('Conserved', 'NonNegative'), **kw)
    P('FALSE', 'TRUE', 'TRUE'); P('TRUE', 'TRUE', 'TRUE', bad=True); P('FALSE', 'FALSE', 'TRUE', bad=True); P('FALSE', 'TRUE', 'FALSE', bad=True)
def sem(ctx):
    S = lambda loop, tr='{}', **kw: mc(ctx, 'DSem', '', dict(Getters='{1, 2, 3}', Posters='{4, 5}', MaxPosts=3, Loop=loop, Trial=tr), inv=('AtMostPosts', 'NoSleeper'), **kw)
    S('TRUE'); S('TRUE', '{3}'); S('FALSE', bad=True)
def algebra(*names):
    def run(ctx): mc(ctx, 'DAlgebra', '', {}, inv=names)
    return run
def T(q, t): return t if THOROUGH else q
ALL = dict(queue=queue, timed=timed, wait=wait, keys=keys, conn=conn, multi=multi, ref=ref, cache=cache, report=report, sem=sem,
    crc=algebra('ParityIsLfsr', 'CodewordsDivide', 'OneErrorShows', 'Linear'), bits=algebra('PackTrip', 'HexTrip', 'RevTwice'), maps=algebra('PunctTrip', 'MapTrip'),
    b64=algebra('B64Trip', 'HexCodeTrip'), url=algebra('UrlTrip'), fmt=algebra('SplitRejoins', 'GcdDivides'), civil=algebra('CivilKnown', 'CivilNext'))
