"""C04: dice and sequences never change once obtained.

A run keeps every die and sequence it ever obtained (and every list, dict and tuple it passed in) and
applies a seeded series of operations to them: rolls, arithmetic, in-place operators, selections,
function calls, outputs, sampling, methods, running program text over them, changing the lists they
were made from, and failing variants of these (raising bodies, sinks and iterators, type errors,
settings changes). After every operation every live value is observed again, in a forked copy of the
process with all settings at their defaults and again in place."""
import copy
import operator
import random

from ..common import *
from ..gen import Gen, gen_text, bounded_call
from ..model import MDie, MSeq
from ..real import Plan, BODY_FAULTS, ITER_FAULTS, FAULT_KINDS, canon_num

PROP = 'C04'
RULE = ('one run = one seeded series of 6 to 24 operations over a growing set of live values, all observed after each; distinct = distinct '
        'event logs; trivial = no live value was used by a later operation')
COMPONENTS = {'real': ['all of dice_calc except the parser'], 'stub': ['sinks, function bodies and iterators (generated)', 'standard output'], 'oracle': ['first observation of each value']}
ASSUMPTIONS = ['Seq.set_one_indexed, an explicit mutator, is not called']
RUNS = {'quick': 4000, 'thorough': 30000}
SHRINK = ['ops']
SHRINK_EXPR = ['ops.*.expr']

METHODS = ['mean', 'std', 'get_cdf', '__floor__', '__ceil__', '__trunc__', '__round__', '__hash__', '__repr__', '__str__', '__neg__', '__pos__', '__invert__', '__abs__', '__len__', '__bool__']
IOPS = ['iadd', 'isub', 'imul', 'ifloordiv', 'imod', 'iand', 'ior', 'imatmul', 'ipow', 'itruediv']


def unchanging(rng, v):
    """operations whose result equals their operand: an implementation may be tempted to hand out the operand itself"""
    n = ['len', v]
    one = rng.choice([1, ['rv', [1], [1]], ['seq', 1], ['roll1', 1], ['rv', [1, 2], [3, 0]]])
    return [['roll', one, v], ['roll', one, v], ['bin', '+', v, 0], ['bin', '+', 0, v], ['bin', '*', v, 1], ['bin', '//', v, 1], ['bin', '-', v, 0], ['bin', '**', v, 1], ['bin', '+', v, ['seq']], ['mix', [v], [rng.choice([1, 3])]], ['mix', [v, ['blank']], [1, 1]], ['mix', [v, v], [1, 1]],
            ['mix', [v, 5], [1, 0]], ['lib', 'highest_of_X_and_X', v, -99], ['lib', 'absolute_X', v], ['lib', 'highest_X_of_X', n, v], ['lib', 'lowest_X_of_X', n, v], ['lib', 'middle_X_of_X', n, v], ['lib', 'sort_X', v], ['filter', v, 99], ['un', 'neg', ['un', 'neg', v]],
            ['un', 'pos', v], ['un', 'abs', v], ['roll1', ['roll1', v]], ['seq', v], ['roll', 0, v], ['bin', '+', ['blank'], v], ['bin', '|', v, 0], ['roll', ['roll1', v], 2] if rng.random() < .3 else ['roll', 1, v]]


def generate(rng, idx, tier):
    g = Gen(rng, floats=rng.random() < 0.3, zero_probs=rng.random() < 0.3)
    ops, env, menv = [], [], {}
    n = 0
    funcs = {}

    def new(e, kind):
        nonlocal n
        name = f'L{n}'
        n += 1
        ops.append({'op': 'new', 'name': name, 'expr': e})
        try:
            v = Model(None, budget=4000, funcs=funcs).ev(e, menv)
        except Exception:
            return name
        if isinstance(v, MDie) and len(v.w) <= 40 and v.n <= 6:
            menv[name] = v
            env.append((name, 'd'))
        elif isinstance(v, MSeq):
            menv[name] = v
            env.append((name, 's'))
        return name
    everything = []
    for _ in range(rng.choice([2, 3])):
        everything.append(new(rng.choice([['roll', rng.choice([1, 2, 3]), rng.choice([2, 3, 4, 6])], g.rv(), g.seq(0), ['roll1', rng.choice([3, 4, 6, 8])], ['roll', 2, ['seq', 1, 2, 4]], ['roll', rng.choice([1, 2]), ['strseq', 'a', rng.choice(['b', 3, 'a']), 1]], ['strseq', 'q', 2], ['blank']]), 'd'))
    huge = rng.random() < .15  # weights beyond the library's own limit, which scales results (never operands)
    if huge:
        for _ in range(rng.choice([1, 2])):
            k = rng.choice([2, 3, 4])
            everything.append(new(['rv', sorted(rng.sample(range(-2, 9), k)), [10 ** rng.choice([29, 31, 32, 35, 40]) * rng.choice([1, 2, 3]) + rng.randint(1, 99)] + [rng.choice([1, 7, 10 ** 30, 10 ** 33 + 1]) for _ in range(k - 1)]], 'd'))
    for _ in range(rng.choice([5, 8, 12, 20])):
        x = rng.random()
        v = rng.choice(everything)
        w = rng.choice(everything)
        var, war = ['var', v], ['var', w]
        if huge and rng.random() < .35:
            e = rng.choice([['bin', rng.choice(['+', '-', '*', '==', '<', '//']), war, var], ['bin', '+', var, war], ['mix', [var, war], [1, 2]], ['roll', 2, var], ['roll', war, var], ['at', 1, ['roll', 2, var]], ['lib', 'highest_of_X_and_X', var, war], ['roll1', var], ['bin', '*', var, 3]])
            try:
                Model(None, budget=2500).ev(e, menv)
            except Exception:
                continue
            everything.append(new(e, None))
        elif x < 0.42:
            for _ in range(20):
                e = getattr(g, rng.choice(['die', 'die', 'pool', 'any', 'seq']))(rng.choice([0, 1, 1, 2]), env)
                try:
                    Model(None, budget=2500).ev(e, menv)
                    everything.append(new(e, None))
                    break
                except TooBig:
                    continue
                except Exception:
                    from ..gen import cheap
                    if cheap(e):
                        everything.append(new(e, None))
                        break
        elif x < 0.5:
            e = rng.choice(unchanging(rng, var) if rng.random() < .6 else [['roll1', var], ['un', 'pos', var], ['roll', 1, var], ['mix', [var], [1]], ['lib', 'middle_X_of_X', ['len', var], var], ['mix', [var, war], [2, 3]], ['seq', var, war], ['at', 1, var], ['filter', var, war], ['bin', '==', var, war], ['lib', 'sort_X', var], ['lib', 'reverse_X', var], ['roll', ['var', rng.choice(everything)], 2]])
            everything.append(new(e, None))
        elif x < 0.55:
            ops.append({'op': 'iop', 'f': rng.choice(IOPS), 'a': v, 'b': rng.choice([w, 2, 3, 'T'])})
        elif x < 0.62:
            ops.append({'op': 'meth', 'm': rng.choice(METHODS), 'a': v})
        elif x < 0.68:
            ops.append({'op': 'output', 'a': v, 'kw': {'named': rng.choice([None, 'x']), 'cdf_cut': rng.choice([0, 10]), 'blocks_width': rng.choice([None, 30])}, 'fault': rng.choice([None, None, 'error', 'interrupt', 'oserror'])})
        elif x < 0.73:
            ops.append({'op': 'sample', 'a': v, 'n': rng.choice([None, 0, 1, 5, 20])})
        elif x < 0.78:
            size = rng.choice([0, 1, 2, 3, 3, 3, 4, 5, 6, 9, 17])
            kind = rng.random()
            vals = [rng.choice([True, False]) if rng.random() < .2 and kind < .5 else g.literal() if kind < .7 else rng.randint(-3, 9) for _ in range(size)]
            ops.append({'op': 'lists', 'vals': vals, 'probs': [rng.choice([1, 2, 3]) for _ in range(rng.choice([size, size, size, 3]))], 'how': rng.choice(['rv', 'seq', 'seq', 'from_seq', 'from_rvs', 'roll', 'strseq', 'nested', 'plus', 'at', 'seqseq', 'seqs']), 'name': f'L{n}', 'with': v})
            if rng.random() < .4:
                ops.append({'op': 'mutate', 'how': rng.choice(['append', 'clear', 'set', 'reverse'])})
            everything.append(f'L{n}')
            n += 1
        elif x < 0.83:
            ops.append({'op': 'mutate', 'how': rng.choice(['append', 'clear', 'set', 'reverse'])})
        elif x < 0.88:
            ops.append({'op': 'body', 'args': [v, w], 'types': rng.choice(['ns', 'sd', 'nd', 'ss', 'dd', 'sn']), 'at': rng.choice([None, 0, 1, 2]), 'kind': rng.choice(BODY_FAULTS)})
        elif x < 0.92:
            ops.append({'op': 'exec', 'a': v, 'text': rng.choice(['output(roll(2, X))', 'X = roll(X, 2)\noutput(X)', 'output(X + 1)\noutput(1 @ X)', 'output(explode_X(X))', 'output(X, named="x")\nraise ValueError("x")', 'output(get_seq([X, X]))'])})
        elif x < 0.96:
            ops.append({'op': 'set', 'k': (c := change_one(rng))[0], 'v': c[1]} if rng.random() < 0.8 else {'op': 'reset'})
        else:
            ops.append({'op': 'iterfail', 'a': v, 'at': rng.choice([0, 1, 2]), 'f': rng.choice(['add', 'radd', 'get_seq', 'roll', 'matmul', 'from_rvs']), 'kind': rng.choice(ITER_FAULTS)})
    return {'ops': ops}


def shallow(v):
    return canon(v, deep=False)


def deep_prints(L, live):
    observe(L.settings_reset)
    return {k: observe(lambda: v) for k, v in live.items()}


def it_fail(items, at, exc):
    for i, x in enumerate(items):
        if i == at:
            raise exc
        yield x
    if at >= len(items):
        raise exc


def run(trace):
    r = Run(trace)
    L = seam.load()
    live, first, first_deep = {}, {}, {}
    held = []      # (container, deep copy)
    used = 0
    R = Real()
    MUT = (L.MetaRV, L.MetaSeq)

    def keep(name, v):
        if isinstance(v, MUT):
            live[name] = v

    def hold(c):
        held.append([c, copy.deepcopy(c)])
        return c

    for op in trace['ops']:
        k = op['op']
        kept = []
        raised = None

        def go():
            nonlocal used
            if k == 'new':
                v = R.ev(op['expr'], live)
                kept.append((op['name'], v))
                return v
            if k == 'iop':
                if op['a'] not in live:
                    return None
                x = live[op['a']]
                b = live.get(op['b'], op['b']) if isinstance(op['b'], str) else op['b']
                if b == 'T' if isinstance(b, str) else False:
                    b = hold([1, 2])
                used += 1
                x = getattr(operator, op['f'])(x, b)
                return x
            if op.get('a') is not None and op['a'] not in live:
                return None
            a = live.get(op.get('a'))
            used += 1
            if k == 'meth':
                return getattr(a, op['m'])()
            if k == 'output':
                def sink(text):
                    if op['fault']:
                        r.fault('sink raises ' + op['fault'])
                        raise FAULT_KINDS[op['fault']]('sink')
                return L.output(a, print_fn=sink, **op['kw'])
            if k == 'sample':
                random.seed(5)
                return L.roller(a, op['n'])
            if k == 'lists':
                vals, probs = hold(list(op['vals'])), hold(list(op['probs']))
                w = live.get(op['with'], 3)
                h = op['how']
                if h == 'rv':
                    v = L.RV(vals, probs)
                elif h == 'seq':
                    v = L.get_seq(vals)
                elif h == 'from_seq':
                    v = L.RV.from_seq(vals)
                elif h == 'from_rvs':
                    v = L.RV.from_rvs(hold_shallow(held, [w, 2, w]), hold(probs[:3] + [1] * (3 - len(probs))))
                elif h == 'roll':
                    v = L.roll(2, vals)
                elif h == 'strseq':
                    v = L.roll(2, L.get_seq(hold(['a', 'b', 2])))
                elif h == 'nested':
                    v = L.Seq(hold([vals, [1, [2, 3]]]))
                elif h == 'seqseq':
                    v = L.Seq(vals)
                elif h == 'seqs':
                    v = L.Seq(w, vals)
                elif h == 'plus':
                    v = w + vals
                else:
                    v = hold([1, 2]) @ w
                kept.append((op['name'], v))
                return v
            if k == 'body':
                return body_call(L, op, live, r, keep_inner)
            if k == 'exec':
                return len(L.unsafe_exec(op['text'], {'X': a}))
            if k == 'set':
                return L.settings_set(op['k'], op['v'])
            if k == 'reset':
                return L.settings_reset()
            if k == 'iterfail':
                exc = FAULT_KINDS[op['kind']]('iter')
                r.fault('iterator raises ' + op['kind'])
                it = it_fail([1, 2, 3], op['at'], exc)
                f = op['f']
                if f == 'add':
                    return a + it
                if f == 'radd':
                    return it + a
                if f == 'get_seq':
                    return L.get_seq(a, it)
                if f == 'roll':
                    return L.roll(a, it)
                if f == 'matmul':
                    return it @ a
                return L.RV.from_rvs(it_fail([a, a, 2], op['at'], exc))
            return None
        inner = []

        def keep_inner(name, v):
            inner.append((name, v))
        if k == 'mutate':
            # the caller changes lists it passed in earlier; nothing already obtained may follow
            for h in held:
                c = h[0]
                if isinstance(c, list) and c and not any(isinstance(x, MUT) for x in c):
                    if op['how'] == 'append':
                        c.append(77)
                    elif op['how'] == 'clear':
                        c.clear()
                    elif op['how'] == 'set':
                        c[0] = 99
                    else:
                        c.reverse()
                    h[1] = copy.deepcopy(c)
                    r.fault('caller changes a list it passed in')
            got = ['none']
        else:
            got = observe(go, deep=False)
        if got[0] == 'exc':
            r.fault('failing operation')
        r.note(k, op.get('expr') or op.get('a'), digest(got))
        for name, v in kept + inner:
            keep(name, v)
        # observe everything
        now_deep = fork_obs(deep_prints, L, live)
        if isinstance(now_deep, list):
            return r.fail('process-died', f'observing the live values after {op} ended the process').result()
        for name, v in live.items():
            now = observe(lambda: v, deep=False)
            if name not in first:
                first[name] = now
                first_deep[name] = now_deep[name]
                r.probe('live values')
                continue
            if now != first[name] or now_deep[name] != first_deep[name]:
                what = f'{short(first[name])} -> {short(now)}' if now != first[name] else f'{short(first_deep[name], 400)} -> {short(now_deep[name], 400)}'
                return r.fail('value-changed', f'{op} changed {name}: {what}').result()
        for c, was in held:
            try:
                same = same_container(c, was)
            except Exception:
                same = True
            if not same:
                return r.fail('container-changed', f'{op} changed the caller\'s {was!r} to {c!r}').result()
    return r.result(trivial=not used)


def hold_shallow(held, c):
    held.append([c, list(c)])
    return c


def same_container(c, was):
    if type(c) is not type(was):
        return False
    if isinstance(c, (list, tuple)):
        return len(c) == len(was) and all(same_container(x, y) if isinstance(x, (list, tuple, dict)) else (x is y or type(x) is type(y) and isinstance(x, (int, float, str)) and x == y) for x, y in zip(c, was))
    return True


def body_call(L, op, live, r, keep_inner):
    """a decorated function whose body keeps the values it is given and then fails"""
    t = {'n': L.T_N, 's': L.T_S, 'd': L.T_D}
    n = [0]

    def fn(A, B):
        k = n[0]
        n[0] += 1
        if n[0] > 200:
            return 0
        if k < 3:
            keep_inner(f'B{len(live)}_{k}', A)
            keep_inner(f'C{len(live)}_{k}', B)
        if op['at'] == k:
            r.fault('body raises ' + op['kind'])
            raise FAULT_KINDS[op['kind']]('body')
        return A if k % 2 else 1
    fn.__annotations__ = {'A': t[op['types'][0]], 'B': t[op['types'][1]]}
    return L.anydice_casting()(fn)(live.get(op['args'][0], 2), live.get(op['args'][1], 3))
