"""C03: results do not depend on what was computed before.

A run is a history of evaluations (succeeding and failing), settings changes and resets in one
process. Each evaluation is compared with (i) the same expression as the first thing a fresh process
does under the settings now in force and (ii) the reference model, where it has an opinion."""
import json

from ..common import *
from ..gen import Gen, gen_text, bounded_call, altform
from .. import real

PROP = 'C03'
RULE = ('one run = one seeded history of 6 to 260 evaluations and settings changes in one process; distinct = distinct event logs '
        '(expressions, observations); trivial = fewer than two evaluations')
COMPONENTS = {'real': ['all of dice_calc except parser'], 'stub': ['standard output'], 'oracle': ['forked process in which the library was never used', 'simdice.model']}
ASSUMPTIONS = ['error messages are not compared, only error types', 'weights above 10e30 are compared with a fresh process only']
RUNS = {'quick': 4000, 'thorough': 30000}
SHRINK = ['ops']
SHRINK_EXPR = ['ops.*.1']


def variants(rng, e):
    """expressions that share parts with e: same pool rolled again, other number types, other sizes"""
    if isinstance(e, list) and e and e[0] == 'roll':
        n, d = e[1], e[2]
        out = [['roll', n, ['roll1', d]], ['roll', d, n] if isinstance(d, int) and isinstance(n, int) and 0 < d < 7 else e, ['at', 1, e], ['roll', ['seq', n], d]]
        if isinstance(d, list) and d and d[0] == 'seq' and all(isinstance(x, (int, float)) for x in d[1:]):
            out += [['roll', n, ['seq'] + [float(x) if isinstance(x, int) else (int(x) if x == int(x) else x) for x in d[1:]]], ['roll', n, ['seq'] + [float(x) for x in d[1:]]],
                    ['roll', n, d + d[1:]], ['roll', n, ['rv', d[1:], [1] * (len(d) - 1)]] if len(d) > 1 else e, ['roll', n, ['seq'] + d[:0:-1]]]
        if isinstance(d, int) and d > 0:
            out += [['roll', n, ['seq', ['range', 1, d]]], ['roll', n, ['seq'] + [float(i) for i in range(1, d + 1)]], ['roll', n, ['rv', list(range(1, d + 1)) + [d + 2], [1] * d + [0]]]]
        if isinstance(d, list) and d and d[0] == 'rv':
            out += [['roll', n, ['rv', d[1], [2 * p for p in d[2]]]], ['roll', n, ['rv', [float(x) for x in d[1]], d[2]]], ['roll', n, ['rv', d[1] + [9], d[2] + [0]]]]
        if isinstance(n, int):
            out += [['roll', n + 1, d], ['roll', 2 * n, d] if 0 < n < 6 else e, ['roll', -n, d], ['roll', float(n), d]]
        return rng.choice(out)
    if isinstance(e, list) and len(e) > 1:
        subs = [x for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ('roll', 'bin', 'at', 'lib', 'rv', 'seq', 'roll1', 'un')]
        if subs:
            return rng.choice(subs)
    return e


def nodes(e, path=()):
    """paths of the sub-expressions of e"""
    if isinstance(e, list) and e and isinstance(e[0], str):
        yield path
        for i, x in enumerate(e[1:], 1):
            if isinstance(x, list):
                yield from nodes(x, path + (i,))


def refloat(rng, xs):
    k = rng.random()
    f = (lambda x: float(x)) if k < .4 else (lambda x: int(x) if x == int(x) else x) if k < .6 else (lambda x: float(x) if rng.random() < .5 else x)
    return [f(x) if isinstance(x, (int, float)) else x for x in xs]


HASHTWIN = {-1: -2, -2: -1, 0: 2 ** 61 - 1, 1: 2 ** 61, 2: 2 ** 61 + 1}     # numbers of equal hash


def hashtwin(rng, e):
    if isinstance(e, list):
        return [e[0]] + [hashtwin(rng, x) for x in e[1:]] if e and isinstance(e[0], str) and e[0] != 'rv' else ['rv', [hashtwin(rng, x) for x in e[1]], e[2]] if e and e[0] == 'rv' else e
    return HASHTWIN.get(e, e) if type(e) is int and e < 0 else e


def local(rng, e):
    """an expression that a careless cache could mix up with e: equal values of other types, other weights, same parts in another arrangement"""
    k = e[0]
    if k in ('rv', 'seq') and rng.random() < 0.15:
        x = hashtwin(rng, e)
        if x != e:
            return x
        return ['rv', [rng.choice([-1, -2]), *e[1][1:]], e[2]] if k == 'rv' else ['seq', rng.choice([-1, -2]), *e[2:]] if len(e) > 1 else e
    if k == 'rv':
        v, p = e[1], e[2]
        q = list(p)
        rng.shuffle(q)
        j = rng.randrange(len(v))
        return rng.choice([['rv', refloat(rng, v), p], ['rv', refloat(rng, v), p], ['rv', v, q], ['rv', v, [3 * x for x in p]], ['rv', v + [rng.randint(-2, 8)], p + [0]], ['rv', [-x for x in v], p], ['roll1', ['seq'] + v], ['rv', v[:j] + v[j + 1:] or [1], p[:j] + p[j + 1:] or [1]], ['rv', [x + 0.5 for x in v], p]])
    if k == 'seq' and len(e) > 1:
        flat = all(isinstance(x, (int, float)) for x in e[1:])
        return rng.choice([['seq'] + refloat(rng, e[1:]), ['seq'] + refloat(rng, e[1:]), ['seq'] + e[:0:-1], ['seq'] + e[1:] + [e[-1]], ['rv', e[1:], [1] * (len(e) - 1)] if flat else e, ['seq', *e[1:], 0]])
    if k == 'roll':
        n, d = e[1], e[2]
        out = [['roll', n, ['roll1', d]]]
        if isinstance(d, int) and 0 < d <= 12:
            fs = list(range(1, d + 1))
            out += [['roll', n, ['seq'] + refloat(rng, fs)], ['roll', n, ['rv', fs, [rng.choice([1, 1, 2]) for _ in fs]]], ['roll', n, ['rv', refloat(rng, fs), [1] * d]], ['roll', n, ['rv', fs + [d + 1], [1] * d + [0]]]]
        if isinstance(n, int) and abs(n) < 6:
            out += [['roll', n + 1, d], ['roll', -n, d], ['roll', ['rv', [n], [1]], d], ['roll', ['seq', n], d], ['bin', '+', e, 0]]
        return rng.choice(out)
    if k == 'roll1':
        return ['roll', 1, e[1]] if not isinstance(e[1], int) or e[1] <= 0 or e[1] > 12 else ['rv', refloat(rng, range(1, e[1] + 1)), [1] * e[1]]
    if k == 'lib' and e[1] in ('highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X'):
        return ['lib', rng.choice(['highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X'])] + e[2:]
    if k == 'lib' and len(e) == 4:
        return ['lib', e[1], e[3], e[2]]
    if k == 'bin' and e[1] in ('+', '-', '*', '==', '<', '<=', '>', '>='):
        return ['bin', rng.choice(['+', '-', '*', '==', '<', '<=', '>', '>=']), e[2], e[3]] if rng.random() < .5 else ['bin', e[1], e[3], e[2]]
    if k == 'at':
        return ['at', rng.choice([1, 2, 3, ['seq', 1, 2], ['seq', 2, 1]]), e[2]]
    if k == 'strseq':
        xs = e[1:]
        return rng.choice([['strseq'] + [str(x) for x in xs], ['strseq'] + xs[::-1], ['strseq'] + [float(x) if isinstance(x, int) else x for x in xs], ['strseq'] + xs + xs[:1]])
    return e


def tweak(rng, e):
    e = json.loads(json.dumps(e))
    for _ in range(rng.choice([1, 1, 2])):
        ps = [p for p in nodes(e)]
        if not ps:
            return e
        p = rng.choice(ps)
        if not p:
            e = local(rng, e)
        else:
            x = e
            for i in p[:-1]:
                x = x[i]
            x[p[-1]] = local(rng, x[p[-1]])
    return e


def similar(rng, e, st):
    for _ in range(8):
        x = tweak(rng, e) if rng.random() < .6 else variants(rng, e)
        if x == e:
            continue
        try:
            Model(eff(st), budget=6000).ev(x)
        except TooBig:
            continue
        except Exception:
            pass
        return x
    return e


CONTEXTS = [['lib', 'explode_X', '*'], ['lib', 'maximum_of_X', '*'], ['lib', 'sort_X', '*'], ['lib', 'reverse_X', '*'], ['lib', 'absolute_X', '*'], ['lib', 'highest_X_of_X', 1, '*'], ['lib', 'lowest_X_of_X', 1, '*'], ['lib', 'middle_X_of_X', 1, '*'],
            ['lib', 'highest_of_X_and_X', '*', 2], ['lib', 'lowest_of_X_and_X', 2, '*'], ['lib', 'count_X_in_X', 2, '*'], ['lib', 'X_contains_X', '*', 1], ['roll', 2, '*'], ['roll', 3, '*'], ['at', 1, ['roll', 2, '*']], ['at', ['seq', 1, 2], ['roll', 3, '*']],
            ['bin', '+', '*', '*'], ['bin', '*', '*', 2], ['bin', '-', 1, '*'], ['bin', '==', '*', '*'], ['bin', '>', '*', 2], ['un', 'neg', '*'], ['un', 'abs', '*'], ['filter', '*', 1], ['mix', ['*', 1], [2, 1]], ['roll', '*', 2], ['meth', 'get_cdf', '*'], ['meth', 'mean', '*'],
            ['meth', 'std', '*'], ['meth', 'get_vals_probs', '*', 0.2], ['call', 'output', ['*'], {'print_': False}], ['call', 'explode_X', ['*'], {'depth': 3}], ['call', 'roller', ['*', 0], {}], ['meth', '__floor__', '*'], ['meth', '__round__', '*'], ['meth', '__hash__', '*'], ['gwf', 2, '*']]


CONSTS = [['call', 'output', ['*'], {'print_': False}], ['call', 'output', ['*'], {'print_': False}], ['call', 'output', ['*'], {'print_': False, 'show_pdf': False, 'named': 'n'}], ['lib', 'explode_X', '*'], ['call', 'roller', ['*', 2], {}], ['call', 'roller', ['*', 0], {}], ['mix', ['*', ['roll1', 2]], [1, 1]], ['roll', 2, ['seq', '*']], ['lib', 'highest_X_of_X', 1, '*'], ['lib', 'maximum_of_X', '*'], ['bin', '+', ['roll', 1, ['seq', '*']], '*'], ['at', 1, ['roll', 2, ['seq', '*']]],
          ['filter', ['rv', ['*', 9], [1, 1]], '*'], ['lib', 'absolute_X', '*'], ['rv', ['*'], [1]], ['roll1', ['rv', ['*'], [3]]]]


def fits(e, st, menv=None):
    """cheap enough to evaluate, as far as the model can tell"""
    try:
        Model(eff(st), budget=6000).ev(e, menv or {})
    except (TooBig, RecursionError):
        return False
    except Exception:
        pass
    return True


def context(rng):
    return rng.choice(CONTEXTS)


def fill(c, e):
    return e if c == '*' else [fill(x, e) for x in c] if isinstance(c, list) else c


def generate(rng, idx, tier):
    kind = rng.random()
    ops = []
    users = None
    st = {}
    if kind < 0.06:
        # a long history of many different rolls, and things done with them
        size = rng.randint(60, 230) if rng.random() < .93 else rng.choice([300, 540, 1100])
        pool = [['roll', rng.randint(2, 9), rng.choice([rng.randint(1, 30), ['seq'] + [rng.randint(-9, 40) for _ in range(rng.randint(2, 4))], ['rv', [rng.randint(0, 9), rng.randint(10, 19)], [rng.randint(1, 5), rng.randint(1, 5)]]])] for _ in range(size)]
        if rng.random() < .6:
            cs = [c for c in rng.sample(CONTEXTS + CONSTS[:2], 3) + [['at', 1, '*'], ['*']]]
            if rng.random() < .5:
                pool = [rng.choice([['roll1', e[2]], ['roll', 2, e[2]], ['bin', rng.choice(['+', '-']), ['roll1', e[2]], ['roll1', 4]]]) for e in pool]
            c = rng.choice(cs)
            pool = [y for y in ((e if c == ['*'] else fill(c, e)) for e in pool) if fits(y, st)]
        for e in pool:
            ops.append(['do', e])
        for e in rng.sample(pool, min(12, len(pool))):
            ops.append(['eval', e])
            ops.append(['eval', variants(rng, e)])
        return {'ops': ops}
    if kind < 0.07:
        # pools of more dice than the stack has frames, where each possible roll is needed
        d = rng.choice([['seq', 7], ['seq', 7], ['rv', [3], [2]], ['roll1', 1], ['roll', 30, ['seq', 1, 2]]])
        for n in rng.sample([40, 120, 300, 450, 600, 800, 1200, 2000, 3000], rng.choice([2, 3, 4])):
            e = ['roll', n, d] if d[0] != 'roll' else ['roll', n // 20, d[2]]
            ops.append(['eval', rng.choice([['lib', rng.choice(['sort_X', 'reverse_X']), e], ['lib', 'X_contains_X', e, 7], ['at', ['seq', 1, 2], e], ['at', rng.choice([1, n]), e], e])])
        return {'ops': ops}
    g = Gen(rng, floats=rng.random() < 0.4, zero_probs=rng.random() < 0.35)
    if kind < 0.3:
        return {'ops': held_history(rng, g)}
    made = []
    for _ in range(rng.choice([6, 10, 14, 20])):
        x = rng.random()
        if x < 0.14:
            k, v = change_one(rng)
            ops.append(['set', k, v])
            st[k] = v
        elif x < 0.18:
            ops.append(['reset'])
            st = {}
        elif x < 0.26 and not users:
            users, call = bounded_call(rng, 2, eff(st), budget=3000)
            ops.append(['eval', call])
            made.append(call)
        elif x < 0.5 and made:
            e = rng.choice(made)
            ops.append(['eval', e if rng.random() < 0.35 else similar(rng, e, st)])
        elif x < 0.54:
            # two expressions that a careless cache could mix up, inside the same context
            e = g.bounded(rng.choice(['die', 'pool']), rng.choice([0, 1]), eff(st), budget=1500)
            c = context(rng)
            for y in (fill(c, e), fill(c, similar(rng, e, st))):
                if fits(y, st):
                    ops.append(['eval', y])
        elif x < 0.55:
            # operands of equal hash
            e = ['rv', rng.sample([-1, -2, 3, 0, 5], 2), [1, rng.randint(1, 3)]] if rng.random() < .6 else ['seq', rng.choice([-1, -2]), rng.randint(0, 3)]
            c = context(rng)
            for y in (e, hashtwin(rng, e)):
                if fits(fill(c, y), st):
                    ops.append(['eval', fill(c, y)])
        elif x < 0.58:
            # the same number as different types where a number is made into a die, and the dice that are constant by computation
            n = rng.choice([0, 1, 1, 2, 3, 5])
            for v in rng.sample([n, float(n), n == 1 if n < 2 else n, -n, -float(n)], rng.choice([2, 3])):
                ops.append(['eval', fill(rng.choice(CONSTS), v)])
            if n < 2:
                ops.append(['eval', rng.choice([['roll', 0, 6], ['filter', ['roll1', 2], ['seq', 1, 2]], ['un', 'not', ['rv', [0], [1]]], ['un', 'not', ['roll1', 2]]])])
        elif x < 0.62:
            ops.append(['eval', gen_text(rng)])
            made.append(ops[-1][1])
        else:
            e = g.bounded(rng.choice(['die', 'die', 'pool', 'any']), rng.choice([0, 0, 1, 2]), eff(st), budget=2500)
            ops.append(['eval', e])
            made.append(e)
    if rng.random() < 0.06:
        ops = [['eval', altform(rng, op[1], rng.choice([0.4, 1]))] if op[0] == 'eval' else op for op in ops]
    return {'ops': ops, 'funcs': users}


def held_history(rng, g):
    """the same objects used again and again, under changing settings"""
    ops, st, names, menv = [], {}, [], {}
    for i in range(rng.choice([1, 2, 2, 3])):
        e = g.bounded(rng.choice(['die', 'pool', 'pool', 'seq']), rng.choice([0, 0, 1]), eff(st), budget=400)
        x = rng.random()
        if x < 0.25:
            e = ['roll', rng.choice([2, 3, 4]), rng.choice([3, 4, 6, ['rv', [1, 2, 6], [3, 1, 2]], ['seq', 0, 1, 1, 5]])]
        elif x < 0.35:
            e = ['strseq', 'a', 'b', 2] if rng.random() < .5 else ['roll', 2, ['strseq', 'a', 'b']]
        elif x < 0.45:
            e = ['rv', [rng.choice([-1.5, 0.5, 1.0, 2]), 3, 7], [rng.choice([0, 1]), 2, 5]]
        ops.append(['hold', f'H{i}', e])
        try:
            menv[f'H{i}'] = Model(eff(st), budget=6000).ev(e)
        except Exception:
            pass
        names.append(f'H{i}')
        if rng.random() < .15:
            k, v = change_one(rng)
            ops.append(['set', k, v])
            st[k] = v
    for _ in range(rng.choice([6, 10, 14])):
        x = rng.random()
        if x < 0.32:
            k, v = ('position order', rng.choice(['lowest first', 'highest first'])) if x < 0.2 else change_one(rng)
            ops.append(['set', k, v])
            st[k] = v
        elif x < 0.36:
            ops.append(['reset'])
            st = {}
        else:
            v = ['var', rng.choice(names)]
            w = rng.choice([v, ['var', rng.choice(names)], 2, ['roll', 2, 2], 1, ['seq', 1, 2]])
            e = rng.choice([fill(context(rng), v), fill(context(rng), v), fill(rng.choice([c for c in CONSTS if c[1] != 'roller']), v), ['at', rng.choice([1, 1, 2, 3, ['seq', 1, 2], ['seq', 2]]), v], ['at', rng.choice([1, 2, ['seq', 1, 2]]), v], ['bin', rng.choice(['+', '-', '*', '==', '<', '&']), v, w], ['bin', rng.choice(['+', '-', '==', '<=']), w, v],
                            ['call', 'output', [v], {'print_': False, 'cdf_cut': rng.choice([0, 1, 10, 30]), 'blocks_width': rng.choice([None, 40, 90])}], ['meth', 'get_vals_probs', v, rng.choice([0, 0.05, 0.2, 0.5])], ['filter', v, w], ['mix', [v, w], [rng.choice([1, 2]), rng.choice([1, 3])]], ['len', v], ['roll', rng.choice([1, 2, 3]), v], ['call', 'explode_X', [v], {'depth': rng.choice([1, 2, 3])}],
                            ['lib', rng.choice(['highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X']), rng.choice([1, 2]), v], v])
            if fits(e, st, menv):
                ops.append(['held', e])
    for e in [op[1] for op in ops if op[0] == 'held'][:2]:
        ops.append(['held', e])
    return ops


def _held(defs, expr, settings):
    L = seam.load()
    env = {}
    try:
        for name, e, st in defs:
            L.settings_reset()
            apply_settings(L, st)
            env[name] = make(e)
        L.settings_reset()
        apply_settings(L, settings)
    except Exception as e:
        return ['settings-rejected', type(e).__name__]
    return observe(lambda: Real().ev(expr, env))


def make(e):
    try:
        return Real().ev(e)
    except Exception:
        return 1


def held_model(defs, expr, got, st):
    if any(eff(s)[k] != eff(st)[k] for _, _, s in defs for k in ('RV_TRUNC', 'RV_IGNORE_ZERO_PROBS')):
        return None, False    # where values are cut is not modelled for dice made under other settings
    try:
        made = {n: Model(eff(s), budget=60000) for n, _, s in defs}
        menv = {n: made[n].ev(e) for n, e, _ in defs}
        now = Model(eff(st), budget=60000)
        now.floats = any(m.floats for m in made.values())
        m = now.ev(expr, menv)
    except Exception:
        return None, False
    return agrees(got, m), True


def run(trace):
    r = Run(trace)
    P = Pristine()
    funcs = trace.get('funcs')
    st, want, defs = {}, [], []
    for op in trace['ops']:      # expectations first: forks of this still unused process
        if op[0] == 'set':
            st[op[1]] = op[2]
        elif op[0] == 'reset':
            st = {}
        elif op[0] == 'eval':
            want.append((P.eval(op[1], st, funcs), dict(st)))
        elif op[0] == 'hold':
            defs.append((op[1], op[2], dict(st)))
        elif op[0] == 'held':
            want.append((fork_obs(_held, list(defs), op[1], dict(st)), dict(st)))
    L = seam.load()
    it = iter(want)
    env = {}
    evals = 0
    for op in trace['ops']:
        if op[0] == 'set':
            got = observe(lambda: L.settings_set(op[1], op[2]))
            r.note('set', op[1], op[2], got)
            r.probe('settings change')
        elif op[0] == 'reset':
            r.note('reset', observe(L.settings_reset))
            r.probe('settings reset')
        elif op[0] == 'do':
            c = observe(lambda: Real(funcs).ev(op[1]), deep=False)
            r.note('do', digest([op[1], c]))
        elif op[0] == 'hold':
            env[op[1]] = make(op[2])
            r.note('hold', op[1], op[2])
        elif op[0] == 'held':
            exp, s = next(it)
            got = observe(lambda: Real().ev(op[1], env))
            evals += 1
            r.note('held', op[1], digest(got))
            r.mark('expressions', digest([defs, op[1], sorted(s.items(), key=str)]))
            if got[0] == 'exc':
                r.fault('failing evaluation')
                r.mark('errors', got[1])
            if got != exp:
                return r.fail('history-dependence', f'{op[1]} with {[d[:2] for d in defs]} under {s} gives {short(got)} after this history, {short(exp)} in a fresh process').result()
            d, opinion = held_model(defs, op[1], got, s)
            r.probe('model has an opinion' if opinion else 'fresh process only')
            if d:
                return r.fail('model', f'{op[1]} with {[d[:2] for d in defs]} under {s}: {d}').result()
        else:
            exp, s = next(it)
            got = observe(lambda: Real(funcs).ev(op[1]))
            evals += 1
            r.note('eval', op[1], digest(got))
            r.mark('expressions', digest([op[1], sorted(s.items(), key=str)]))
            if got[0] == 'exc':
                r.fault('failing evaluation')
                r.mark('errors', got[1])
            if got != exp:
                return r.fail('history-dependence', f'{op[1]} under {s} gives {short(got)} after this history, {short(exp)} in a fresh process').result()
            d, opinion = model_check(op[1], got, eff(s), funcs)
            r.probe('model has an opinion' if opinion else 'fresh process only')
            if d:
                return r.fail('model', f'{op[1]} under {s}: {d}').result()
    return r.result(trivial=evals < 2)
