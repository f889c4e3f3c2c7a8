"""C02: concurrent callers get the same results as sequential ones.

A run is 2 to 4 threads, each with its own list of evaluations (and, in some runs, re-applications of
the settings already in force), executed under a deterministic scheduler that decides after every
bytecode instruction of the library which thread goes on. The schedule (list of preemptions at chosen
instructions) is drawn from the seed: the instructions each thread reaches when run alone are recorded
first, then preemption points are drawn uniformly over the distinct instructions, a share of them over
those that write memory other threads may see. Every result is
compared with the one the same thread gets when it runs alone in a fresh process."""
import random

from ..common import *
from ..gen import Gen, gen_text, bounded_call, calls_for, altform
from ..sched import Sched, pick_points, hot_places

PROP = 'C02'
RULE = ('one run = 2-4 real threads under one seeded schedule of instruction-level preemptions; distinct = distinct sequences of context '
        'switches that really happened together with the operations; trivial = no preemption took effect')
COMPONENTS = {'real': ['all of dice_calc except the parser, on real interpreter threads serialised by the simulator'], 'stub': ['locks (simulated)', 'standard output', 'function bodies (generated)'], 'oracle': ['the same thread alone in a fresh process']}
ASSUMPTIONS = ['preemption between bytecode instructions of library code (the granularity at which CPython with the GIL switches); C code of the interpreter is atomic']
RUNS = {'quick': 2600, 'thorough': 60000}
SHRINK = ['schedule', 'threads.*', 'shared']
SHRINK_EXPR = ['threads.*.*.1']


def generate(rng, idx, tier):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    st = gen_settings(rng, 0.3)
    funcs, call = bounded_call(rng, rng.choice([1, 2]), eff(st), budget=500)
    g = Gen(rng, floats=rng.random() < 0.2, zero_probs=rng.random() < 0.2)
    shared, env, menv = [], [], {}
    for i in range(rng.choice([0, 1, 2])):
        e = rng.choice([['roll', rng.choice([2, 3]), rng.choice([2, 3, 4])], ['roll1', 4], ['seq', 1, 2, 3], ['rv', [1, 2, 5], [1, 2, 1]], ['strseq', 'a', 'b']])
        shared.append(e)
        try:
            menv[f'S{i}'] = Model().ev(e)
            env.append((f'S{i}', 's' if e[0] == 'seq' else 'd'))
        except Unknown:
            pass
    common = None
    threads = []

    def expr():
        for _ in range(30):
            e = getattr(g, rng.choice(['die', 'die', 'pool', 'any']))(rng.choice([0, 0, 1, 1, 2]), env)
            try:
                Model(eff(st), budget=500).ev(e, menv)
                return e
            except TooBig:
                continue
            except Unknown:
                continue
            except Exception:
                return e
        return ['roll', 2, 4]
    reapply = rng.random() < 0.4
    for t in range(n):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            if x < 0.3:
                c = calls_for(rng, funcs, 1, eff(st), budget=400)
                ops.append(['eval', c[0] if c else call])
            elif x < 0.36:
                ops.append(['eval', gen_text(rng)])
            elif x < 0.42:
                ops.append(['eval', ['call', 'output', [expr()], {'print_': False, 'blocks_width': rng.choice([None, 30])}]])
            elif x < 0.48:
                ops.append(['eval', ['lib', 'explode_X', ['roll', rng.choice([1, 2]), 3]]])
            elif x < 0.54 and common:
                ops.append(['eval', common])
            else:
                common = expr()
                ops.append(['eval', common])
            if reapply and rng.random() < 0.5:
                if st and rng.random() < 0.8:
                    k = rng.choice(sorted(st))
                    ops.append(['set', k, st[k]])
                elif not st:
                    ops.append(rng.choice([['reset'], ['set', 'maximum function depth', 10], ['set', 'position order', 'highest first'], ['set', 'explode depth', 2]]))
        threads.append(ops)
    if rng.random() < 0.12:
        threads = [[[op[0], altform(rng, op[1])] if op[0] == 'eval' else op for op in ops] for ops in threads]
    x = rng.random()
    if x < 0.2:
        threads[1] = list(threads[0])
    elif x < 0.6:    # the same operations on other numbers
        for t in range(1, n):
            threads[t] = [[op[0], varied(rng, op[1], st, funcs, menv)] if op[0] == 'eval' else op for op in threads[0]]
            if len(threads[t]) == 1 and rng.random() < 0.5:
                threads[t] += threads[t]
        if rng.random() < 0.5:
            threads[0] = threads[0] + threads[0]
    return {'threads': threads, 'shared': shared, 'settings': st, 'funcs': funcs, 'one_func_table': rng.random() < 0.5, 'deep': rng.random() < 0.25,
            'sched_seed': rng.getrandbits(40), 'density': rng.choice([1, 1, 2, 3, 5, 8, 12, 30]), 'meet': rng.choice([0, 0, 0, 1, 1, 2])}


def varied(rng, e, st, funcs, menv):
    for _ in range(6):
        v = vary(rng, e)
        try:
            Model(eff(st), budget=500, funcs=funcs).ev(v, menv)
            return v
        except (TooBig, RecursionError):
            continue
        except Exception:
            return v
    return e


def vary(rng, e):
    if isinstance(e, list):
        return e[:1] + [vary(rng, x) for x in e[1:]] if e and isinstance(e[0], str) else [vary(rng, x) for x in e]
    if type(e) is int and 0 < e < 20 and rng.random() < 0.4:
        return max(1, e + rng.choice([-1, 1, 2]))
    return e


def meeting(rng, sites, hot):
    """two threads in the same function: the first stops in it, the second goes on until it is in it, too, then the first continues"""
    b = rng.randrange(1, len(sites))
    both = sorted({x[:3] for x in sites[0]} & {x[:3] for x in sites[b]})
    if not both:
        return []
    warm = [f for f in both if any((*f, o) in hot for o in {x[3] for x in sites[0] if x[:3] == f})]
    f = rng.choice(warm if warm and rng.random() < 0.6 else both)
    at = pick_points(rng, [x if x[:3] == f else None for x in sites[0]], 1, {x for x in sites[0] if x[:3] == f})[0]
    there = rng.choice([k for k, x in enumerate(sites[b]) if x[:3] == f]) + int(10 ** rng.uniform(0, rng.choice([1.5, 3]))) - 1
    out = [[0, at, b], [b, there, 0]]
    if rng.random() < 0.5:
        out.append([0, at + int(10 ** rng.uniform(0, rng.choice([1.5, 3]))), b])
    return out


def bodies(L, trace, which, out):
    """builds the shared values and the thread bodies; out[i] collects the observations of thread i"""
    funcs = trace['funcs']
    base = Real(funcs)
    env = {}
    for i, e in enumerate(trace['shared']):
        try:
            env[f'S{i}'] = base.ev(e)
        except Exception:
            env[f'S{i}'] = 1

    def body(i):
        R = base if trace['one_func_table'] else Real(funcs)

        def go():
            for op in trace['threads'][i]:
                if op[0] == 'eval':
                    out[i].append(observe(lambda: R.ev(op[1], env), deep=trace['deep']))
                elif op[0] == 'set':
                    out[i].append(observe(lambda: L.settings_set(op[1], op[2])))
                else:
                    out[i].append(observe(L.settings_reset))
        return go
    if trace['one_func_table']:
        for f in funcs:
            base.user_func(f)
    return [body(i) for i in which]


def alone(trace, i, record):
    L = seam.load()
    apply_settings(L, trace['settings'])
    out = {i: []}
    bs = bodies(L, trace, [i], out)
    s = Sched(bs, [], seam.SRC, record=record)
    s.run()
    return out[i], (s.sites[0] if record else None)


def draw(trace, sites):
    rng = random.Random(trace['sched_seed'])
    n = len(sites)
    sched = []
    if trace['meet']:
        for _ in range(trace['meet']):
            sched += meeting(rng, sites, hot_places(seam.SRC))
        return sched
    for _ in range(trace['density']):
        t = rng.randrange(n)
        pts = pick_points(rng, sites[t], 1, hot_places(seam.SRC) if rng.random() < 0.6 else None, rng.random() < 0.5)
        if pts:
            sched.append([t, pts[0], rng.choice([j for j in range(n) if j != t])])
    return sched


def run(trace):
    r = Run(trace)
    want, sites = [], []
    need = 'schedule' not in trace
    for i in range(len(trace['threads'])):
        w = fork_obs(alone, trace, i, need)
        if w[0] == 'gone':
            return r.fail('alone', 'a thread run alone ends the process').result()
        want.append(w[0])
        sites.append(w[1])
    if need:
        trace = dict(trace)
        trace['schedule'] = draw(trace, sites)
        r.trace = trace
    L = seam.load()
    apply_settings(L, trace['settings'])
    out = {i: [] for i in range(len(trace['threads']))}
    bs = bodies(L, trace, range(len(trace['threads'])), out)
    s = Sched(bs, trace['schedule'], seam.SRC)
    s.run()
    r.steps = sum(s.local)
    pre = [x for x in s.switches if x[3] == 'preempt']
    r.fault('preemption', len(pre))
    r.fault('blocked on a lock', sum(1 for x in s.switches if x[3] == 'block'))
    r.probe('threads', len(bs))
    sig = digest([trace['threads'], s.switches])
    r.mark('interleavings', digest(s.switches))
    if any(op[0] != 'eval' for t in trace['threads'] for op in t):
        r.probe('settings re-applied concurrently')
    r.log.append([trace['threads'], s.switches, out])
    if s.deadlock or s.overrun:
        return r.fail('no-progress', f'{"deadlock" if s.deadlock else "endless run"} after switches {s.switches[-6:]}').result(sig)
    for i, ops in enumerate(trace['threads']):
        for op, got, exp in zip(ops, out[i], want[i]):
            if got != exp:
                return r.fail('interference', f'thread {i}: {op} gives {short(got)}, alone {short(exp)}; switches {s.switches[:8]}').result(sig)
    # afterwards, alone again: the library must be sound
    for i, ops in enumerate(trace['threads']):
        out2 = {i: []}
        bodies(L, trace, [i], out2)[0]()
        for op, got, exp in zip(ops, out2[i], want[i]):
            if got != exp:
                return r.fail('lasting-damage', f'after the concurrent phase {op} gives {short(got)}, alone in a fresh process {short(exp)}').result(sig)
    return r.result(sig, trivial=not pre)
