"""C10: casting runs a function once per possible outcome, and mixes exactly.

A run is a history of calls of a few decorated functions (generated signatures: annotated and plain
parameters, defaults, keyword-only) with numbers, sequences, lists, one-shot iterators, dice, pools and
the empty die as arguments. The bodies are the simulator's: they record what they receive, call the
same function again from inside, return numbers, sequences, dice or nothing depending on the arguments,
and raise at the planned invocation. Invocations are compared as a multiset with the model's, results
with the exact mixture."""
from collections import Counter

from ..common import *
from ..gen import Gen
from ..model import MDie, MSeq, _Blank, is_num, BLANK
from ..real import FAULT_KINDS, BODY_FAULTS, canon_num

PROP = 'C10'
RULE = 'one run = one seeded history of 3 to 9 calls of decorated functions; distinct = distinct event logs; trivial = no call expanded a die'
COMPONENTS = {'real': ['dice_calc decorators, dice, sequences'], 'stub': ['function bodies'], 'oracle': ['simdice.model: expansion and mixture', 'record of invocations']}
ASSUMPTIONS = ['arguments have no zero-probability outcomes (whether such an outcome is possible is not defined)']
RUNS = {'quick': 6000, 'thorough': 100000}
SHRINK = ['ops']
NAMES = ['A', 'B', 'C', 'E']


def gen_func(rng, i):
    ps = []
    k = rng.choice([1, 1, 2, 2, 2, 3, 4])
    kwonly = rng.randrange(k) if rng.random() < 0.15 else None
    for j in range(k):
        p = {'name': NAMES[j], 't': rng.choice(['n', 'n', 's', 's', 'd', None, 'other'])}
        if j >= 1 and rng.random() < 0.15 or (ps and 'default' in ps[-1]):
            p['default'] = rng.choice([1, 7, 3])
        if kwonly is not None and j > kwonly:
            p['kw'] = True
        ps.append(p)
    res = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        res.append(rng.choice([['mix_args'], ['mix_args'], ['num', rng.randint(-3, 9)], ['die', rng.choice([2, 3, 4])], ['pool', 2, rng.choice([2, 3])], ['seq', [rng.randint(0, 4) for _ in range(rng.randint(0, 3))]],
                               ['list', [rng.randint(0, 4), 2]], ['gen', [1, rng.randint(0, 5)]], ['none'], ['blank'], ['bool', rng.random() < 0.5], ['float', rng.choice([0.5, 1.5, 2.0])], ['rv', [1, 4], [1, 3]]]))
    if rng.random() < 0.2:   # dice of many different totals, to be mixed
        res = [rng.choice([['die', rng.choice([2, 3, 5, 7, 11, 13, 4, 6, 9])], ['rv', [1, 4, rng.randint(5, 8)], [rng.randint(1, 4), rng.randint(1, 9), rng.randint(1, 9)]], ['pool', rng.choice([2, 3]), rng.choice([2, 3, 5])]]) for _ in range(rng.choice([3, 5, 7]))]
    if all(x[0] in ('none', 'blank') for x in res) and rng.random() < 0.8:
        res.append(['mix_args'])
    return {'params': ps, 'results': res, 'deco': rng.choice(['depth', 'type']), 'reenter': rng.random() < 0.2, 'verbose': rng.random() < 0.1, 'name': rng.choice(['fn', 'fn', 'g', f'h{i}'])}


HEAVY = [3 ** 20, 7 ** 13, 2 ** 41 + 1, 10 ** 13 + 7, 3 ** 31, 1, 5]


def gen_arg(rng, g, t, wide=False):
    x = rng.random()
    if wide == 'heavy' and x < 0.8:     # weights whose products need more than 53 bits
        n = rng.choice([2, 2, 3])
        d = ['rv', list(range(n)), [rng.choice(HEAVY) + rng.randint(0, 5) for _ in range(n)]]
        return d if t != 's' or x < 0.6 else ['roll', 2, d]
    if wide == 'wide' and x < 0.8:     # many outcomes with different weights, so that a call has hundreds of combinations
        n = rng.choice([5, 12, 20, 30, 60]) if t != 's' or x < .4 else 0
        if n:
            return ['rv', list(range(n)), [rng.randint(1, 40) for _ in range(n)]]
        return ['roll', rng.choice([3, 4]), ['rv', list(range(8)), [rng.randint(1, 9) for _ in range(8)]]]
    if x < 0.2:
        return rng.choice([0, 1, 2, 5, -1])
    if x < 0.24 and t != 's':
        return rng.choice([0.5, 2.0])
    if x < 0.38:
        return ['seq'] + [rng.randint(-1, 5) for _ in range(rng.choice([0, 1, 2, 3]))]
    if x < 0.44:
        return ['pylist', [rng.randint(0, 4) for _ in range(rng.choice([1, 2, 3]))], rng.choice(['list', 'tuple', 'gen', 'range'])]
    if x < 0.48:
        return ['blank']
    if x < 0.7:
        return rng.choice([['roll1', rng.choice([1, 2, 3, 4, 6])], ['rv', [1, 2, 5], [1, 2, 3]], ['rv', [-1, 3], [5, 1]], ['bin', '+', ['roll1', 2], ['roll1', 3]], ['roll1', ['seq', 1, 1, 4]], ['roll1', -3], ['mix', [['roll1', 2], 4], [1, 2]]])
    if x < 0.93:
        return ['roll', rng.choice([2, 2, 3, 3, 4, 5]), rng.choice([2, 3, ['seq', 0, 1], ['rv', [1, 2], [1, 3]], ['seq', 1, 1, 2], 4, -2, 1])]
    return g.bounded('die', 1, budget=300)


def generate(rng, idx, tier):
    g = Gen(rng)
    funcs = [gen_func(rng, i) for i in range(rng.choice([1, 2, 3]))]
    ops = []
    st = {}
    wide = rng.choice([None] * 28 + ['wide', 'heavy', 'heavy'])
    if wide == 'wide' and rng.random() < 0.6:        # results with large weights, hundreds of them: their product leaves the range of floats
        for f in funcs:
            f['results'] = [['own', rng.choice([10 ** 6, 10 ** 12, 10 ** 15]), rng.randint(1, 10 ** 5)], ['mix_args']][:rng.choice([1, 1, 2])]
    for _ in range(rng.choice([3, 4, 6, 9]) if wide != 'wide' else 3):
        if rng.random() < 0.06:
            k = rng.choice(['position order', 'RV_TRUNC', 'maximum function depth'])
            v = {'position order': 'lowest first', 'RV_TRUNC': True, 'maximum function depth': 3}[k]
            ops.append({'op': 'set', 'k': k, 'v': v})
            st[k] = v
            continue
        f = rng.randrange(len(funcs))
        for _ in range(20):
            args, kwargs = [], {}
            named = rng.random() < 0.2
            for p in funcs[f]['params']:
                if 'default' in p and rng.random() < 0.5:
                    named = True
                    continue
                a = gen_arg(rng, g, p['t'], wide)
                if named or p.get('kw'):
                    kwargs[p['name']] = a
                else:
                    args.append(a)
            op = {'op': 'call', 'f': f, 'args': args, 'kwargs': kwargs}
            if rng.random() < 0.25:   # equal arguments are one and the same object, also in later calls
                op['share'] = True
                for j in range(1, len(args)):
                    if rng.random() < 0.7:
                        args[j] = args[0]
            n = predict(funcs[f], op, st, 40000 if wide else 6000)
            if n is not None:
                break
        else:
            continue
        if rng.random() < 0.35 and n[1] > 0:
            op['fault'] = {'at': rng.choice([0, 0, n[1] - 1, rng.randrange(n[1])]), 'kind': rng.choice(BODY_FAULTS)}
            ops.append(op)
            op = {k: v for k, v in op.items() if k != 'fault'}
            if rng.random() < 0.3:
                continue
        ops.append(op)
    return {'ops': ops, 'funcs': funcs}


# ------------------------------------------------------------ the bodies, on both sides
def weight_real(L, v):
    if isinstance(v, L.BlankRV) or v is None:
        return 3
    if isinstance(v, (int, float)):
        return int(v * 4)
    if isinstance(v, L.MetaRV):
        return int(max(v.vals) * 4)
    return sum((i + 1) * int(x * 4) for i, x in enumerate(v))


def weight_model(v):
    if isinstance(v, _Blank):
        return 3
    if isinstance(v, (int, float)):
        return int(v * 4)
    if isinstance(v, MDie):
        return int(max(v.w) * 4)
    return sum((i + 1) * int(x * 4) for i, x in enumerate(v))


def result_real(L, spec, w):
    k = spec[0]
    if k == 'mix_args':
        return w
    if k in ('num', 'bool', 'float'):
        return spec[1]
    if k == 'die':
        return L.roll(spec[1])
    if k == 'pool':
        return L.roll(spec[1], spec[2])
    if k == 'seq':
        return L.get_seq(list(spec[1]))
    if k == 'list':
        return list(spec[1])
    if k == 'gen':
        return (x for x in spec[1])
    if k == 'rv':
        return L.RV(spec[1], spec[2])
    if k == 'own':
        return L.RV([1, 4], [spec[1], spec[2] + w % 100000])
    return None if k == 'none' else L.BlankRV()


def result_model(m, spec, w):
    k = spec[0]
    if k == 'mix_args':
        return w
    if k in ('num', 'bool', 'float'):
        return spec[1]
    if k == 'die':
        return m.roll(1, spec[1])
    if k == 'pool':
        return m.roll(spec[1], spec[2])
    if k in ('seq', 'list', 'gen'):
        return MSeq(spec[1])
    if k == 'rv':
        return m.mk(zip(spec[1], spec[2]))
    if k == 'own':
        return m.mk([(1, spec[1]), (4, spec[2] + w % 100000)])
    return None if k == 'none' else BLANK


def see_real(L, v):
    """what a body received, comparable with see_model"""
    if isinstance(v, L.BlankRV):
        return ['blank']
    if isinstance(v, (int, float)):
        return ['num', float(v)]
    if isinstance(v, L.MetaRV):
        t = sum(v.probs)
        from fractions import Fraction
        return ['die', sorted([float(x), str(Fraction(p, t))] for x, p in zip(v.vals, v.probs)), len(v)]
    if isinstance(v, L.MetaSeq):
        return ['seq', [float(x) for x in v]]
    return ['other', type(v).__name__]


def see_model(v):
    if isinstance(v, _Blank):
        return ['blank']
    if isinstance(v, (int, float)):
        return ['num', float(v)]
    if isinstance(v, MDie):
        if v.quirk:
            raise Unknown()
        return ['die', sorted([float(x), str(p)] for x, p in v.w.items()), v.n]
    return ['seq', [float(x) for x in v]]


def arg_model(m, a):
    if isinstance(a, list) and a[0] == 'pylist':
        return MSeq(a[1])
    return m.ev(a)


def arg_real(L, a):
    if isinstance(a, list) and a[0] == 'pylist':
        xs = list(a[1])
        return {'list': lambda: xs, 'tuple': lambda: tuple(xs), 'gen': lambda: (x for x in xs), 'range': lambda: iter(xs)}[a[2]]()
    return Real().ev(a)


def shared(L, a, objects):
    if not isinstance(a, list) or a[0] == 'pylist':
        return arg_real(L, a)
    k = str(a)
    if k not in objects:
        objects[k] = arg_real(L, a)
    return objects[k]


def predict(f, op, st, budget=40000):
    """(expected result, invocations, list of what each receives) or None if the model has no opinion"""
    m = Model(eff(st), budget=budget)
    ps = f['params']
    got = []
    try:
        vals, types, names = [], [], []
        for i, p in enumerate(ps):
            if i < len(op['args']):
                a = op['args'][i]
            elif p['name'] in op['kwargs']:
                a = op['kwargs'][p['name']]
            else:
                continue
            v = arg_model(m, a)
            if p['t'] in (None, 'other') and isinstance(a, list) and a[0] == 'pylist':
                raise Unknown()
            if isinstance(v, MDie) and v.quirk:
                raise Unknown()
            vals.append(v)
            types.append(p['t'] if p['t'] in ('n', 's', 'd') else None)
            names.append(p['name'])
        given = dict(zip(names, range(len(names))))

        def body(a):
            full = [a[given[p['name']]] if p['name'] in given else p['default'] for p in ps]
            got.append([see_model(x) for x in full])
            w = sum((i + 1) * weight_model(x) for i, x in enumerate(full))
            return result_model(m, f['results'][w % len(f['results'])], w)
        expanded = any((t == 'n' or t == 's') and isinstance(v, MDie) for t, v in zip(types, vals)) and not any(t in ('n', 's') and isinstance(v, _Blank) for t, v in zip(types, vals))
        res = m.cast(types, vals, body)
        if f['deco'] == 'depth' and res is None:
            res = BLANK
        return res, len(got), got, expanded
    except (Unknown, TooBig, ArithmeticError, TypeError, ValueError):
        return None


def small_weights(f, op):
    """the weights of this call stay below the limit (10e30) above which the library scales them down"""
    if any(x[0] in ('die', 'pool', 'rv', 'own') for x in f['results']):
        return False
    total = 1
    for a in list(op['args']) + list(op['kwargs'].values()):
        if not isinstance(a, list) or a[0] in ('seq', 'pylist', 'blank'):
            continue
        n, d = (a[1], a[2]) if a[0] == 'roll' else (1, a[1] if a[0] == 'roll1' else a)
        if not isinstance(n, int):
            return False
        n = abs(n)
        if isinstance(d, int):
            total *= max(1, abs(d)) ** n
        elif d[0] == 'rv':
            total *= sum(d[2]) ** n
        elif d[0] == 'seq':
            total *= max(1, len(d) - 1) ** n
        else:
            return False
    return total < 10 ** 30


def build(L, f, state):
    ps = f['params']
    parts = []
    star = False
    for p in ps:
        if p.get('kw') and not star:
            parts.append('*')
            star = True
        parts.append(p['name'] + (f'={p["default"]}' if 'default' in p else ''))
    ns = {'_run': lambda *a: state['body'](f, a)}
    name = f['name']
    exec(f"def {name}({', '.join(parts)}):\n    return _run({', '.join(p['name'] for p in ps)})", ns)
    fn = ns[name]
    fn.__annotations__ = {p['name']: {'n': L.T_N, 's': L.T_S, 'd': L.T_D, 'other': str}[p['t']] for p in ps if p['t']}
    return (L.anydice_casting() if f['deco'] == 'depth' else L.anydice_type_casting(verbose=True) if f.get('verbose') else L.anydice_type_casting())(fn)


def run(trace):
    r = Run(trace)
    L = seam.load()
    state = {}
    made = [build(L, f, state) for f in trace['funcs']]
    st = {}
    expanded_any = False
    objects = {}
    for op in trace['ops']:
        if op['op'] == 'set':
            L.settings_set(op['k'], op['v'])
            st[op['k']] = op['v']
            r.note('set', op['k'])
            continue
        f = trace['funcs'][op['f']]
        p = predict(f, op, st)
        if p is None:
            continue
        want, n, want_args, expanded = p
        expanded_any = expanded_any or (expanded and n > 1)
        calls = []
        inner = []
        fault = op.get('fault')
        exc = FAULT_KINDS[fault['kind']]('body') if fault else None
        level = [0]

        def body(spec, a):
            seen = [see_real(L, x) for x in a]
            if level[0]:
                inner[-1].append(seen)
            else:
                calls.append(seen)
                if fault and len(calls) - 1 == fault['at']:
                    raise exc
                if spec['reenter']:      # the body calls the function it belongs to
                    level[0] = 1
                    inner.append([])
                    try:
                        made[op['f']](*[again(L, q) for q in spec['params'] if not q.get('kw')], **{q['name']: again(L, q) for q in spec['params'] if q.get('kw')})
                    finally:
                        level[0] = 0
            w = sum((i + 1) * weight_real(L, x) for i, x in enumerate(a))
            return result_real(L, spec['results'][w % len(spec['results'])], w)
        state['body'] = body
        raised = []

        def go():
            try:
                arg = (lambda a: shared(L, a, objects)) if op.get('share') else (lambda a: arg_real(L, a))
                return made[op['f']](*[arg(a) for a in op['args']], **{k: arg(a) for k, a in op['kwargs'].items()})
            except BaseException as e:
                raised.append(e)
                raise
        got = observe(go, deep=False)
        r.note('call', digest([op, f]), len(calls), digest(got))
        r.mark('signatures', '/'.join(str(q['t']) for q in f['params']))
        where = f'{f["name"]}({", ".join(q["name"] + (":" + q["t"] if q["t"] else "") for q in f["params"])}) called with {short(op["args"])} {op["kwargs"] or ""}'
        cnt = lambda xs: Counter(map(str, xs))
        if fault:
            r.fault('invocation raises ' + fault['kind'])
            if not raised:
                return r.fail('error-lost', f'{where}: {exc!r} raised by invocation {fault["at"]} did not reach the caller').result()
            if raised[0] is not exc:
                return r.fail('error-changed', f'{where}: invocation {fault["at"]} raised {exc!r}, the caller saw {raised[0]!r}').result()
            if len(calls) != fault['at'] + 1:
                return r.fail('called-after-failure', f'{where}: {len(calls)} invocations although number {fault["at"] + 1} raised').result()
            if cnt(calls) - cnt(want_args):
                return r.fail('invocations', f'{where}: unexpected invocation {list(cnt(calls) - cnt(want_args))[:2]}').result()
            continue
        if raised:
            return r.fail('raised', f'{where} raised {raised[0]!r}').result()
        if cnt(calls) != cnt(want_args):
            extra, missing = list((cnt(calls) - cnt(want_args)).elements())[:2], list((cnt(want_args) - cnt(calls)).elements())[:2]
            return r.fail('invocations', f'{where}: {len(calls)} invocations, expected {n}; undue {extra}, missing {missing}').result()
        if f['reenter'] and inner and any(cnt(x) != cnt(inner[0]) for x in inner):
            return r.fail('invocations', f'{where}: a nested call of the same function was expanded differently from one invocation to the next').result()
        if f['reenter'] and inner:
            q = predict(f, {'args': [again_expr(x) for x in f['params'] if not x.get('kw')], 'kwargs': {x['name']: again_expr(x) for x in f['params'] if x.get('kw')}}, st)
            if q and cnt(inner[0]) != cnt(q[2]):
                return r.fail('invocations', f'{where}: a nested call of the same function made {len(inner[0])} invocations, expected {q[1]}').result()
        if expanded:
            d = agrees(got, want, exact=small_weights(f, op))
            if d:
                return r.fail('mixture', f'{where}: {d}').result()
            r.probe('mixtures compared')
    return r.result(trivial=not expanded_any)


def again_expr(p):
    return {'n': ['roll1', 2], 's': ['roll', 2, 2], 'd': 3}.get(p['t'], 1)


def again(L, p):
    return Real().ev(again_expr(p))
