"""C15: programs can be compiled and run concurrently.

A run is 2 or 3 real threads, each compiling and executing its own list of programs, under the deterministic
scheduler of simdice.sched: compilations are preempted at chosen lines of the compiler, executions at chosen
bytecode instructions of the library. Preemption points are drawn uniformly over the distinct places each thread
reaches when it runs alone (places in the parser generator count for a smaller share). Compiled texts,
rejections and outputs are compared with the ones of a fresh process, during and after the concurrent phase."""
import random

from ..common import *
from .. import corpus
from ..prog import gen_program, text, EXTRA, LIB, mutate_text
from ..sched import PlaceSched, record_places, hot_places
from .c07 import exec_obs

PROP = 'C15'
RULE = ('one run = 2-3 real threads compiling and executing programs under one seeded schedule; distinct = distinct sequences of context '
        'switches that really happened together with the operations; trivial = no preemption took effect')
COMPONENTS = {'real': ['dice_calc.parser, dice_calc, RestrictedPython, on real interpreter threads serialised by the simulator'], 'stub': ['locks (simulated)', 'standard output'], 'oracle': ['the same thread alone in a fresh process']}
ASSUMPTIONS = ['preemption between lines of the compiler (compilations) or bytecode instructions of the library (executions), each at one of its first 12 (compilations) or 40 (executions) occurrences in the thread',
               'programs that change settings are left out: settings are process-wide by design']
RUNS = {'quick': 1100, 'thorough': 20000}
CORPUS = {'quick': 160, 'thorough': 1200}
SHRINK = ['schedule', 'threads.*']
POOL = None


def prepare(seed, tier):
    global POOL
    rng = random.Random(f'C15 corpus {seed}')
    POOL = []
    for i in range(CORPUS[tier]):
        kw = {'sets': False}
        if rng.random() < 0.2:
            kw['redefine'] = rng.choice(sorted(LIB))
        if rng.random() < 0.15:
            kw['fail'] = rng.choice(['div', 'name'])
        t = text(gen_program(rng, budget=300, **kw))
        x = rng.random()
        if x < 0.2:
            t = mutate_text(rng, t)
        elif x < 0.3:
            t = rng.choice([e for e in EXTRA if 'set ' not in e])
        POOL.append((t, rng.choice([None, None, None, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}, {'COMPILER_FLAG_FUNC_EXIST_CHECK': False}, {'COMPILER_FLAG_OPERATOR_ON_INT': True}])))
    corpus.build(POOL)


def generate(rng, idx, tier):
    compiling = rng.random() < 0.5
    n = rng.choice([2, 2, 3])
    threads = []
    for _ in range(n):
        ops = []
        for _ in range(1 if compiling else rng.choice([1, 2, 3])):
            t, f = rng.choice(POOL)
            c = corpus.TABLE[corpus.key(t, f)]
            if compiling:
                ops.append({'op': 'compile', 'text': t, 'flags': f, 'run': rng.random() < 0.3})
            else:
                while c[0] != 'py':
                    t, f = rng.choice(POOL)
                    c = corpus.TABLE[corpus.key(t, f)]
                ops.append({'op': 'exec', 'py': c[1], 'safe': rng.random() < 0.5, 'globals': rng.choice([None, None, {'A': rng.randint(1, 9)}])})
        threads.append(ops)
    if rng.random() < 0.2:
        threads[1] = [dict(o) for o in threads[0]]
    return {'threads': threads, 'compiling': compiling, 'shared_flags': rng.random() < 0.5, 'sched_seed': rng.getrandbits(40), 'density': rng.choice([1, 1, 2, 3, 5, 8, 16]), 'meet': rng.choice([0, 0, 0, 1, 2])}


def do(L, op, flags):
    if op['op'] == 'exec':
        return exec_obs(L, op['py'], dict(op['globals'] or {}), op['safe'])[0]
    got = corpus.compile_obs(op['text'], flags)
    if op['run'] and got[0] == 'py':
        return [got, exec_obs(L, got[1], {}, True)[0]]
    return [got]


def bodies(L, trace, which, out):
    pool = {}

    def flags_of(op):
        f = op.get('flags')
        if f is None:
            return None
        return pool.setdefault(digest(f), dict(f)) if trace['shared_flags'] else dict(f)

    def body(i):
        fl = [flags_of(op) for op in trace['threads'][i]]

        def go():
            for op, f in zip(trace['threads'][i], fl):
                out[i].append(do(L, op, f))
        return go
    return [body(i) for i in which]


def alone(trace, i, record):
    L = seam.load()
    out = {i: []}
    go = bodies(L, trace, [i], out)[0]
    if not record:
        go()
        return out[i], None
    return out[i], record_places(go, seam.SRC, opcode=not trace['compiling'], most=12 if trace['compiling'] else 40)


def draw(trace, sites):
    rng = random.Random(trace['sched_seed'])
    n = len(sites)
    out = []
    own = [[x for x in s if '/ply/' not in x[0][0]] for s in sites]
    hot = {(f[len(seam.SRC):], *rest) for f, *rest in hot_places(seam.SRC)} if not trace['compiling'] else ()
    hots = [[x for x in s if tuple(x[0]) in hot] for s in own]
    for _ in range(trace['meet']):     # two threads in the same function: the first stops in it, the second goes on until it is in it, too
        b = rng.randrange(1, n)
        both = sorted({tuple(x[0][:3]) for x in own[0]} & {tuple(x[0][:3]) for x in own[b]})
        if both:
            f = rng.choice(both)
            for t, to in ((0, b), (b, 0)):
                place, most = rng.choice([x for x in own[t] if tuple(x[0][:3]) == f])
                out.append([t, list(place), rng.randrange(most), to])
    for _ in range(0 if trace['meet'] else trace['density']):
        t = rng.randrange(n)
        pick = hots[t] if hots[t] and rng.random() < 0.5 else own[t] if own[t] and rng.random() < 0.65 else sites[t]
        if pick:
            place, most = rng.choice(pick)
            out.append([t, list(place), rng.randrange(most), rng.choice([j for j in range(n) if j != t])])
    return out


def run(trace):
    r = Run(trace)
    want, sites = [], []
    need = 'schedule' not in trace
    for i in range(len(trace['threads'])):
        w = fork_obs(alone, trace, i, need)
        if w[0] == 'gone':
            return r.fail('alone', 'a thread run alone ends the process').result()
        want.append(w[0])
        sites.append(w[1])
    if need:
        trace = dict(trace)
        trace['schedule'] = draw(trace, sites)
        r.trace = trace
    L = seam.load()
    out = {i: [] for i in range(len(trace['threads']))}
    bs = bodies(L, trace, range(len(trace['threads'])), out)
    s = PlaceSched(bs, trace['schedule'], seam.SRC, opcode=not trace['compiling'])
    s.run()
    r.steps = sum(s.local)
    pre = [x for x in s.switches if x[3] == 'preempt']
    r.fault('preemption of a compilation' if trace['compiling'] else 'preemption of an execution', len(pre))
    r.fault('blocked on a lock', sum(1 for x in s.switches if x[3] == 'block'))
    r.probe('threads', len(bs))
    ops = [[{k: v for k, v in op.items()} for op in t] for t in trace['threads']]
    sig = digest([ops, s.switches])
    r.mark('interleavings', digest(s.switches))
    r.log.append([s.switches, digest(out)])
    if s.deadlock or s.overrun:
        return r.fail('no-progress', f'{"deadlock" if s.deadlock else "endless run"} after switches {s.switches[-6:]}').result(sig)
    for i, t in enumerate(trace['threads']):
        for op, got, exp in zip(t, out[i], want[i]):
            if got != exp:
                return r.fail('interference', f'thread {i}: {op} gives {short(got, 400)}, alone {short(exp, 400)}; switches {s.switches[:8]}').result(sig)
    for i, t in enumerate(trace['threads']):
        out2 = {i: []}
        bodies(L, trace, [i], out2)[0]()
        for op, got, exp in zip(t, out2[i], want[i]):
            if got != exp:
                return r.fail('lasting-damage', f'after the concurrent phase {op} gives {short(got, 400)}, alone in a fresh process {short(exp, 400)}').result(sig)
    return r.result(sig, trivial=not pre)
