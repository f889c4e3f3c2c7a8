"""C07: program runs are isolated and report each output once, in order.

A run is a history of program executions (restricted and unrestricted) in one process: generated
programs that define variables and functions (also with the names of library functions), set
settings, fail part-way at a chosen statement, or use names only an earlier program defined; host
values passed in as extra globals, some of which raise when used. Outputs are compared with the
model's reading of the abstract program, and with a fresh process where the model has no opinion."""
import random

from ..common import *
from .. import corpus
from ..engine import parallel
from ..model import MDie, MSeq
from ..prog import gen_program, text, denote, LIB, ProgModel
from ..real import FAULT_KINDS, BODY_FAULTS

PROP = 'C07'
RULE = ('one run = one seeded history of 3 to 12 program executions in one process; distinct = distinct event logs; trivial = fewer than '
        'two executions')
COMPONENTS = {'real': ['dice_calc, RestrictedPython, the Python compiler'], 'stub': ['standard output', 'host functions passed as globals'], 'oracle': ['simdice.prog: interpreter of the abstract program', 'forked process in which the library was never used']}
ASSUMPTIONS = ['most programs are compiled once, in a fresh process, when the corpus is built; a share is compiled again inside the run']
RUNS = {'quick': 2600, 'thorough': 50000}
CORPUS = {'quick': 500, 'thorough': 4000}
SHRINK = ['ops']
POOL = None


def prepare(seed, tier):
    global POOL
    rng = random.Random(f'C07 corpus {seed}')
    POOL = []
    for i in range(CORPUS[tier]):
        kw = {}
        if rng.random() < 0.25:
            kw['redefine'] = rng.choice(sorted(LIB))
        if rng.random() < 0.25:
            kw['fail'] = rng.choice(['div', 'name', 'set'])
        POOL.append(gen_program(rng, budget=1500, **kw))
    # programs that only make sense if an earlier program leaked
    for v in ['A', 'B', 'C', 'X', 'Y', 'NAME', 'ROLLS', 'HIT', 'I', 'J', 'T', 'N', 'S', 'D', 'M']:
        POOL.append([['output', 1, None], ['output', ['var', v], None]])
    for f in ['foo_X', 'bar_X', 'attack_X', 'sum_X', 'hit_X', 'foo_X_with_X', 'attack_X_and_X', 'bar_X_of_X']:
        POOL.append([['output', 2, None], ['output', ['user', f] + [1] * f.count('X'), None]])
    for f in sorted(LIB):
        POOL.append([['output', ['lib', f] + [2] * LIB[f].split().count('X'), None], ['output', ['lib', f] + [['roll', 2, 3]] * LIB[f].split().count('X'), ['again']]])
    # programs with many outputs
    for n in (70, 150, 300):
        POOL.append([['loop', 'I', ['seq', ['range', 1, n]], [['output', ['bin', '+', ['var', 'I'], 1], ['row ', ['v', 'I']] if n != 150 else None]]]])
    POOL.append([['assign', 'A', 0], ['loop', 'I', ['seq', ['range', 1, 40]], [['assign', 'A', ['bin', '+', ['var', 'A'], ['var', 'I']]], ['if', [[['bin', '>', ['var', 'A'], 100], [['output', ['roll', 1, 4], None]]]], [['output', ['var', 'A'], ['sum ', ['v', 'A']]]]]]]])
    corpus.build([(text(p), UNCHECKED) for p in POOL])


UNCHECKED = {'COMPILER_FLAG_FUNC_EXIST_CHECK': False}


def generate(rng, idx, tier):
    ops = []
    for _ in range(rng.choice([3, 4, 6, 8, 12] if rng.random() > .01 else [70])):
        p = rng.choice(POOL)
        op = {'op': 'run', 'prog': p, 'safe': rng.random() < 0.6, 'compile': rng.random() < 0.03}
        x = rng.random()
        if x < 0.12:
            op['globals'] = {'HOST': rng.randint(1, 9), rng.choice(['A', 'B', 'FOO']): rng.randint(10, 20)}
        elif x < 0.2:
            op['boom'] = [rng.choice(['roll', 'get_seq', 'settings_set', 'myrange']), rng.choice([0, 1, 2, 4]), rng.choice(BODY_FAULTS)]
        earlier = [o['prog'] for o in ops if o['op'] == 'run']
        if earlier and rng.random() < 0.2:
            op['prog'] = rng.choice(earlier)
        if not op.get('boom') and not op.get('globals') and rng.random() < 0.15 and "'set'" not in repr(op['prog']):
            # a host function that runs another program while this one runs
            inner = [p for p in (rng.choice(POOL) for _ in range(8)) if "'set'" not in repr(p) and "'func'" not in repr(p)]
            if inner:
                op['nested'] = {'name': rng.choice(['roll', 'roll', 'get_seq', 'myrange']), 'at': rng.choice([0, 0, 1, 2, 3]), 'prog': inner[0], 'safe': rng.random() < 0.5}
        ops.append(op)
        if rng.random() < 0.06:
            ops.append({'op': 'reset'})
        if rng.random() < 0.1:
            ops.append({'op': 'raw', 'text': rng.choice(['A = 5\nB = A\nraise ValueError(A)', 'def explode_X(x):\n  return 1\noutput(explode_X(2))', 'roll = 5\noutput(roll)', 'output = 3', 'def get_seq(*a):\n  return 0\nget_seq = get_seq\noutput(get_seq(1))', 'HIT = [1]\noutput(HIT[0])', 'import os', 'X: int = 4\noutput(X)', 'settings_set = 4\noutput(settings_set)']), 'safe': rng.random() < 0.5})
    return {'ops': ops}


def fresh(pytext, settings, glob, safe):
    L = seam.load()
    apply_settings(L, settings)
    return exec_obs(L, pytext, dict(glob), safe)[0]


def exec_obs(L, pytext, glob, safe):
    ex = L.safe_exec if safe else L.unsafe_exec
    try:
        res = ex(pytext, glob) if glob else ex(pytext)
    except BaseException as e:
        return ['exc', type(e).__name__], None, e
    return see(res), res, None


def see(res):
    try:
        return ['outs', [[[canon(a, deep=False) for a in args], sorted(kw.items())] for args, kw in res]]
    except Exception as e:
        return ['strange', type(e).__name__, str(type(res))]


def match(got, outs):
    """None or how the observed outputs differ from the denoted ones"""
    if got[0] != 'outs':
        return f'the run gave {short(got)} instead of {len(outs)} outputs'
    if len(got[1]) != len(outs):
        return f'{len(got[1])} outputs instead of {len(outs)}'
    for i, ((args, kw), (v, name)) in enumerate(zip(got[1], outs)):
        if len(args) != 1 or dict(kw).get('named') != name or set(dict(kw)) - {'named'}:
            return f'output {i} was reported as {len(args)} values with {kw}, expected name {name!r}'
        d = agrees(args[0], v)
        if d:
            return f'output {i}: {d}'
    return None


def run(trace):
    r = Run(trace)
    st = {}
    want = []
    pys = []
    inners = {}
    for n, op in enumerate(trace['ops']):      # expectations: model first, fresh process where it has none
        if op['op'] == 'reset':
            st = {}
            want.append(None)
            pys.append(None)
            continue
        if op['op'] == 'raw':
            want.append(['any'])
            pys.append(op['text'])
            continue
        t = text(op['prog'])
        c = corpus.expect(t, UNCHECKED)
        if c[0] != 'py':
            return r.fail('rejected', f'the program {t!r} is rejected: {c[1:]}').result()
        pys.append(c[1])
        if op.get('boom'):
            want.append(['boom'])
            continue
        if op.get('nested'):
            q = op['nested']['prog']
            ci = corpus.expect(text(q), UNCHECKED)
            inners[n] = ci[1], fork_obs(fresh, ci[1], st, {}, op['nested']['safe'])
        k, outs, s = denote(op['prog'], eff(st), 8000, op.get('globals'))
        if k == 'ok' or k == 'fail':
            want.append([k, outs])
            st = {x: s[x] for x in DEFAULTS if s[x] != DEFAULTS[x]}
            r.probe('decided by the model')
        else:
            want.append(['fresh', fork_obs(fresh, c[1], st, op.get('globals') or {}, op['safe'])])
            st = follow_settings(op['prog'], st)
            if st is None:
                trace = dict(trace, ops=trace['ops'][:len(want)])
                break
            r.probe('decided by a fresh process')
    L = seam.load()
    lib0 = lib_view(L)
    kept = []
    runs = 0
    for n_op, (op, exp, py) in enumerate(zip(trace['ops'], want, pys)):
        if op['op'] == 'reset':
            r.note('reset', observe(L.settings_reset))
            continue
        glob = dict(op.get('globals') or {})
        g0 = dict(glob)
        if op['op'] == 'raw':
            got, res, _ = exec_obs(L, py, None, op['safe'])
            r.note('raw', py, got)
            if got[0] == 'exc':
                r.fault('failing program')
        else:
            if op.get('compile'):
                t = text(op['prog'])
                c = observe(lambda: L.compile_anydice(t, flags=dict(UNCHECKED)), deep=False)
                if c != ['text', py]:
                    return r.fail('compile', f'compiling {t!r} in this history gives {short(c, 300)}').result()
            boom = op.get('boom')
            if boom:
                name, at, kind = boom
                orig = L.get_lib()[name]
                n = [0]
                exc = FAULT_KINDS[kind]('host')

                def hook(*a, **kw):
                    n[0] += 1
                    if n[0] > at:
                        raise exc
                    return orig(*a, **kw)
                glob[name] = hook
                g0 = dict(glob)
            inner_got = []
            if op.get('nested'):
                q = op['nested']
                outer = L.get_lib()[q['name']]
                cnt = [0]

                def host(*a, **kw):
                    cnt[0] += 1
                    if cnt[0] == q['at'] + 1:
                        inner_got.append(exec_obs(L, inners[n_op][0], None, q['safe'])[0])
                    return outer(*a, **kw)
                glob[q['name']] = host
                g0 = dict(glob)
            got, res, e = exec_obs(L, py, glob, op['safe'])
            runs += 1
            if inner_got:
                r.fault('program run inside another one')
                r.note('inner', digest(inner_got))
                if inner_got[0] != inners[n_op][1]:
                    return r.fail('inner-run', f'{inners[n_op][0]!r} run while {py!r} was running gives {short(inner_got[0], 300)}, {short(inners[n_op][1], 300)} in a fresh process').result()
            r.note('run', digest(op['prog']), op['safe'], digest(got))
            r.mark('programs', digest(op['prog']))
            if boom:
                if n[0] > at:
                    r.fault('host function raises ' + boom[2])
                    if e is not exc:
                        return r.fail('error-lost', f'{py!r}: {exc!r} raised by a host function did not reach the caller, got {short(got)}').result()
                # which of the program's settings took effect depends on where it stopped: start over
                observe(L.settings_reset)
                for k, v in settings_before(trace['ops'], op).items():
                    observe(lambda: L.settings_set(k, v))
            elif exp[0] == 'ok':
                d = match(got, exp[1])
                if d:
                    return r.fail('wrong-outputs', f'{"restricted" if op["safe"] else "unrestricted"} run of {py!r} with {g0}: {d}').result()
            elif exp[0] == 'fail':
                r.fault('program fails part-way')
                if got[0] != 'exc':
                    return r.fail('should-fail', f'{py!r} must fail part-way but gave {short(got, 400)}').result()
            elif got != exp[1]:
                return r.fail('history-dependence', f'{py!r} gives {short(got, 300)} after this history, {short(exp[1], 300)} in a fresh process').result()
        if set(glob) != set(g0) or any(glob[k] is not g0[k] for k in g0):
            return r.fail('globals-modified', f'running {py!r} changed the globals passed in: {sorted(set(glob) ^ set(g0))}').result()
        if res is not None:
            kept.append((res, see(res)))
        for old, was in kept:
            if see(old) != was:
                return r.fail('outputs-changed', f'outputs returned earlier changed after running {py!r}: {short(was)} -> {short(see(old))}').result()
        now = lib_view(L)
        if now != lib0:
            return r.fail('library-changed', f'after {py!r} the names offered to programs changed: {sorted(set(now) ^ set(lib0)) or [k for k in now if now[k] != lib0[k]]}').result()
    return r.result(trivial=runs < 2)


def lib_view(L):
    return {k: id(v) for k, v in L.get_lib().items()}


def follow_settings(prog, st):
    """settings after a program the model cannot evaluate: only if no setting is involved"""
    return st if "'set'" not in repr(prog) else None


def settings_before(ops, op):
    st = {}
    for o in ops:
        if o is op:
            break
        if o['op'] == 'reset':
            st = {}
        elif o['op'] == 'run' and not o.get('boom'):
            k, _, s = denote(o['prog'], eff(st), 8000, o.get('globals'))
            if k in ('ok', 'fail'):
                st = {x: s[x] for x in DEFAULTS if s[x] != DEFAULTS[x]}
    return st
