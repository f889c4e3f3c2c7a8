"""C09: random rolling follows the die and only the random source.

The source of randomness is Python's generator, whose state the simulator sets: from a seed, or to a
crafted state whose next outputs are extreme (all bits zero, all bits one, or alternating) - computed by
inverting the generator's output transformation, nothing is patched. A run is a history of draws,
re-seeding, saving and restoring the state, other evaluations and settings changes. Draws are compared
with those of a fresh process given the same die and state; long draws are compared with the exact
distribution by a bound that cannot fail by chance (probability below 1e-12 per comparison)."""
import math
import random
from collections import Counter
from fractions import Fraction

from ..common import *
from ..gen import Gen, gen_text
from ..model import MDie, MSeq

PROP = 'C09'
RULE = ('one run = one seeded history of draws and generator states, or one long series of draws; distinct = distinct event logs; trivial = '
        'nothing was drawn')
COMPONENTS = {'real': ['dice_calc.roller and the dice it samples', 'the random module'], 'stub': ['state of the random generator (seeded or crafted)'], 'oracle': ['fresh process with the same die and generator state', 'exact distribution, by a large-deviation bound']}
ASSUMPTIONS = ['frequencies: a deviation is reported when draws*KL(observed||exact) > 32, which by the Chernoff bound has probability below 1.3e-14 per outcome; smaller biases are not detected']
RUNS = {'quick': 2600, 'thorough': 40000}
SHRINK = ['ops']
SHRINK_EXPR = ['ops.*.expr']
LIMIT = 32.0


# ------------------------------------------------------------ crafted generator states
def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(7):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def crafted(words):
    """state whose next outputs are the given 32-bit words, repeated"""
    w = [untemper(words[i % len(words)]) for i in range(624)]
    return (3, tuple(w) + (0,), None)


EXTREMES = {'zeros': [0], 'ones': [0xffffffff], 'alternate': [0, 0, 0xffffffff, 0xffffffff], 'low': [0, 64], 'half': [0x80000000, 0], 'justbelow': [0x7fffffff, 0xffffffff]}


def set_state(s):
    if isinstance(s, str):
        random.setstate(crafted(EXTREMES[s]))
    else:
        random.seed(s)


# ------------------------------------------------------------ generation
SPECIAL = [['rv', [1, 2, 3], [0, 5, 0]], ['rv', [1, 2, 3, 4], [0, 1, 1, 0]], ['rv', [1, 2], [1, 999]], ['rv', [0, 1], [10 ** 17, 1]], ['rv', [1, 2, 3], [10 ** 25, 10 ** 25, 0]],
           ['rv', [1, 5, 9], [2000, 1, 1]], ['roll', 20, 6], ['roll', 3, ['strseq', 'a', 'b']], ['strseq', 'x', 'y', 3], 5, ['seq', 1, 2, 2], ['seq'], ['roll', 40, 6],
           ['rv', [-3, 0, 7], [1, 2, 4]], ['rv', [1, 2], [0, 0]], ['blank'], ['rv', [0.5, 1.0, 2], [1, 2, 3]], ['roll1', 1], ['roll1', 100], ['rv', [1, 2, 3, 4, 5], [1, 0, 0, 0, 1]],
           ['roll', 2, ['rv', [1, 2, 3], [0, 1, 0]]], ['rv', [7], [0]], ['rv', [1, 2, 3, 4], [3, 2, 2, 3]], ['roll', 100, 2]]


def gen_die(rng):
    if rng.random() < 0.55:
        return rng.choice(SPECIAL)
    g = Gen(rng, floats=rng.random() < 0.3, zero_probs=rng.random() < 0.5)
    return g.bounded(rng.choice(['die', 'die', 'any', 'pool']), rng.choice([0, 0, 1]), budget=1500)


def generate(rng, idx, tier):
    if rng.random() < 0.3:
        e = gen_die(rng)
        for _ in range(10):
            e = gen_die(rng)
            if e not in (['blank'], ['rv', [1, 2], [0, 0]], ['rv', [7], [0]]):
                break
        return {'ops': [{'op': 'freq', 'expr': e, 'seed': rng.randrange(1 << 32), 'shape': rng.choice(['one', 'tuple', 'pairs', 'triples', 'mixed']), 'n': rng.choice([3000, 6000, 6000, 20000]),
                         'other': gen_die(rng) if rng.random() < 0.4 else None}]}
    dice = [gen_die(rng) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.5:      # dice that differ only by their weights or by a few outcomes
        d = rng.choice([x for x in dice if x[:1] == ['rv']] if any(isinstance(x, list) and x[0] == 'rv' for x in dice) and all(isinstance(x, list) for x in dice) else [['rv', [1, 2, 3, 4][:rng.randint(2, 4)], [1, 2, 3, 5]]])
        if rng.random() < 0.3:      # large ones
            n = rng.choice([8, 12, 16, 20, 33, 64, 100])
            d = ['rv', list(range(1, n + 1)), [rng.choice([0, 1, 1, 3]) for _ in range(n - 1)] + [1]]
        v = d[1]
        p = (d[2] + [1] * len(v))[:len(v)]
        dice = [['rv', v, p]]
        for _ in range(rng.choice([1, 2, 3])):
            q = [rng.choice([0, 1, 1, 2, 7]) for _ in p] if rng.random() < .7 else p[::-1]
            dice.append(['rv', [x + rng.choice([0, 0, 0, 10]) for x in v] if rng.random() < .3 else v, q if any(q) else p])
    ops = [{'op': 'state', 's': rng.choice([rng.randrange(1 << 40), rng.choice(sorted(EXTREMES))])}]
    for _ in range(rng.choice([4, 8, 14])):
        x = rng.random()
        if x < 0.55:
            ops.append({'op': 'draw', 'expr': rng.choice(dice), 'n': rng.choice([None, None, 0, 1, 2, 3, 10, 40, 63, 100, 257, 1100 if rng.random() < .3 else 5])})
            if rng.random() < 0.4:
                ops[-1]['drop'] = True      # the die is made for this draw and dropped after it
        elif x < 0.65:
            ops.append({'op': 'state', 's': rng.choice([rng.randrange(1 << 40), rng.choice(sorted(EXTREMES))])})
        elif x < 0.72:
            ops.append({'op': 'save'})
        elif x < 0.82:
            ops.append({'op': 'restore'})
        elif x < 0.87:
            ops.append({'op': 'use', 'n': rng.choice([1, 3, 700])})
        elif x < 0.93:
            ops.append({'op': 'eval', 'expr': rng.choice([gen_text(rng), ['roll', 2, ['roll1', 6]], gen_die(rng)])})
        elif x < 0.98:
            k, v = change_one(rng)
            ops.append({'op': 'set', 'k': k, 'v': v})
        else:
            ops.append({'op': 'reset'})
    ops.append({'op': 'eval', 'expr': rng.choice(dice)})
    return {'ops': ops}


# ------------------------------------------------------------ running
def draw(L, v, n):
    return L.roller(v) if n is None else L.roller(v, n)


def see(x, n):
    one = lambda y: canon(y, deep=False) if isinstance(y, (int, float)) else ['sym', str(y)]
    return one(x) if n is None else [one(y) for y in x]


def fresh_draw(expr, n, state, settings):
    L = seam.load()
    apply_settings(L, settings)
    v = Real().ev(expr)
    random.setstate(state)
    out = observe(lambda: see(draw(L, v, n), n), raw=True)
    return out, hash_state(random.getstate())


def key_num(x):
    return float(x[1][1]) if x[0] == 'num' else x[1]


def hash_state(s):
    return digest([s[0], list(s[1])])


def support(L, v):
    """outcomes with non-zero probability and their exact probabilities"""
    if isinstance(v, L.MetaRV):
        tot = sum(v.probs)
        return [(x, Fraction(p, tot)) for x, p in zip(v.vals, v.probs) if p] if tot else []
    if isinstance(v, (int, float)):
        return [(v, Fraction(1))]
    xs = list(v)
    if not xs:
        return [(0, Fraction(1))]
    c = Counter(map(key_of, xs))
    return [(next(x for x in xs if key_of(x) == s), Fraction(n, len(xs))) for s, n in c.items()]


def key_of(x):
    return float(x) if isinstance(x, (int, float)) else str(x)


def kl(a, p):
    t = 0.0
    if a > 0:
        t += a * math.log(a / p) if p > 0 else math.inf
    if a < 1:
        t += (1 - a) * math.log((1 - a) / (1 - p)) if p < 1 else math.inf
    return t


def run(trace):
    r = Run(trace)
    if trace['ops'] and trace['ops'][0]['op'] == 'freq':
        return freq(r, trace['ops'][0])
    pr = Pristine()
    st = {}
    evals = {}
    rejected = set()
    for i, op in enumerate(trace['ops']):       # results of evaluations, while this process is pristine
        if op['op'] == 'set':
            st[op['k']] = op['v']
        elif op['op'] == 'reset':
            st = {}
        elif op['op'] == 'eval':
            evals[i] = pr.eval(op['expr'], st)
    L = seam.load()
    st = {}
    saved = None
    last = None
    drawn = 0
    live = {}
    checks = []
    for i, op in enumerate(trace['ops']):
        k = op['op']
        if k == 'state':
            set_state(op['s'])
            r.fault('extreme generator output', isinstance(op['s'], str))
            r.note(k, op['s'])
        elif k == 'save':
            saved = random.getstate()
        elif k == 'restore' and saved:
            random.setstate(saved)
            r.note(k)
        elif k == 'use':
            for _ in range(op['n']):
                random.random()
        elif k == 'set':
            apply_settings(L, {op['k']: op['v']})
            st[op['k']] = op['v']
        elif k == 'reset':
            L.settings_reset()
            st = {}
        elif k == 'eval':
            got = observe(lambda: Real().ev(op['expr']))
            r.note(k, digest(got))
            if got != evals[i]:
                return r.fail('later-result', f'{short(op["expr"])} evaluates to {short(got)} after these draws, {short(evals[i])} in a fresh process').result()
        elif k == 'draw':
            key = digest([op['expr'], st])
            v = None
            if key not in live or op.get('drop'):
                try:
                    v = Real().ev(op['expr'])
                except Exception:
                    continue
                first = canon(v, deep=False)
                if not op.get('drop'):
                    live[key] = (v, first)
            else:
                v, first = live[key]
            state = random.getstate()
            got = observe(lambda: see(draw(L, v, op['n']), op['n']), raw=True)
            after = hash_state(random.getstate())
            drawn += 1
            if op.get('drop'):
                r.probe('die dropped after drawing')
            r.note(k, digest(op), digest(got))
            where = f'{op["n"] if op["n"] is not None else "one"} draw(s) of {short(op["expr"])}'
            failed = isinstance(got, list) and got[:1] == ['exc']
            sup = support(L, v) if not isinstance(v, L.BlankRV) else []
            if not sup:
                r.probe('nothing to draw')
                if not failed and op['n'] != 0:
                    return r.fail('drawn-from-nothing', f'{where}: no outcome has non-zero probability, got {short(got)}').result()
                continue
            if failed and not isinstance(v, L.MetaRV):      # it could not be made into a die: so must it be in a fresh process
                checks.append((op, state, dict(st), got, after))
                continue
            if failed:
                return r.fail('error', f'{where} raised {got[1]}').result()
            items = [got] if op['n'] is None else got
            if op['n'] is not None and len(got) != op['n']:
                return r.fail('count', f'{where} returned {len(got)} values').result()
            allowed = [see(x, None) for x, _ in sup]
            loose = None
            if not isinstance(v, L.MetaRV):      # the die is only made now, under the settings in force
                loose = [float(int(key_num(x))) if eff(st)['RV_TRUNC'] and x[0] == 'num' else key_num(x) for x in allowed]
                allowed = []
            for x in items:
                if x not in allowed and (loose is None or key_num(x) not in loose):
                    return r.fail('support', f'{where} returned {x}, which has no probability (possible: {short(allowed)})').result()
            if canon(v, deep=False) != first:
                return r.fail('die-changed', f'{where} changed the die from {short(first)} to {short(canon(v, deep=False))}').result()
            checks.append((op, state, dict(st), got, after))
            r.mark('draws', digest([op, got]))
    if checks:
        r.probe('draws compared with a fresh process', len(checks))
    return r.result(trivial=not drawn) if not checks else compare(r, checks, drawn)


def compare(r, checks, drawn):
    """a fresh interpreter state is a fork taken before the library was used: replay there"""
    want = PRISTINE_ASK([(op['expr'], op['n'], state, st) for op, state, st, _, _ in checks])
    for (op, state, st, got, after), (exp, exp_after) in zip(checks, want):
        if got != exp:
            return r.fail('not-reproducible', f'{op["n"]} draws of {short(op["expr"])} under {st}: {short(got)} in this history, {short(exp)} in a fresh process with the same generator state').result()
        if after != exp_after:
            return r.fail('generator-state', f'drawing {op["n"]} of {short(op["expr"])} left the generator in a state that depends on the history').result()
    return r.result(trivial=not drawn)


def PRISTINE_ASK(reqs):
    return ORACLE(reqs)


ORACLE = None
_run = run


def run(trace):      # noqa: F811
    """the oracle process is forked first, and answers from pristine forks of itself"""
    global ORACLE
    import os
    import pickle
    qr, qw = os.pipe()
    ar, aw = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(qw)
            os.close(ar)
            with os.fdopen(qr, 'rb') as f:
                data = f.read()
            if data:
                res = [fork_obs(fresh_draw, *q) for q in pickle.loads(data)]
                with os.fdopen(aw, 'wb') as f:
                    f.write(pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(qr)
    os.close(aw)

    def ask(reqs):
        with os.fdopen(os.dup(qw), 'wb') as f:
            f.write(pickle.dumps(reqs))
        os.close(qw)
        ask.closed = True
        with os.fdopen(os.dup(ar), 'rb') as f:
            return pickle.loads(f.read())
    ask.closed = False
    ORACLE = ask
    try:
        return _run(trace)
    finally:
        if not ask.closed:
            os.close(qw)
        os.close(ar)
        os.waitpid(pid, 0)


def freq(r, op):
    L = seam.load()
    try:
        v = Real().ev(op['expr'])
        w = Real().ev(op['other']) if op['other'] is not None else None
    except Exception:
        return r.result(trivial=True)
    if isinstance(v, L.BlankRV):
        return r.result(trivial=True)
    sup = support(L, v)
    if not sup or len(sup) > 150:
        return r.result(trivial=True)
    random.seed(op['seed'])
    n = op['n'] if len(sup) < 40 else min(op['n'], 3000)
    groups = []       # independent groups of draws
    shape = op['shape']
    total = 0
    while total < n:
        if shape == 'tuple':
            g = draw(L, v, 500)
        elif shape == 'pairs':
            g = draw(L, v, 2)
        elif shape == 'triples':
            g = draw(L, v, 3)
        elif shape == 'mixed':
            g = (draw(L, v, None),) + tuple(draw(L, v, 1 + total % 3))
        else:
            g = (draw(L, v, None), draw(L, v, None))
        if w is not None:
            observe(lambda: draw(L, w, None), raw=True)
        total += len(g)
        groups.append([key_of(x) for x in g])
    p = {}
    for x, q in sup:
        p[key_of(x)] = p.get(key_of(x), 0) + float(q)
    where = f'{total} draws ({shape}) of {short(op["expr"])}'
    flat = [x for g in groups for x in g]
    r.note('freq', digest(op), digest(flat))
    r.steps += total
    r.probe('long series')
    bad = deviates(Counter(flat), p, total)
    if bad:
        return r.fail('frequency', f'{where}: outcome {bad[0]} occurred {bad[1]} times, its probability is {bad[2]:.6g}').result()
    # pairs of neighbouring draws, inside one call and across calls, must be independent
    for name, pairs in (('neighbouring', [(flat[i], flat[i + 1]) for i in range(0, len(flat) - 1, 2)]),
                        ('second-neighbour', [(flat[i], flat[i + 2]) for i in range(0, len(flat) - 3, 4)] + [(flat[i], flat[i + 2]) for i in range(1, len(flat) - 3, 4)]),
                        ('across calls', [(groups[i][-1], groups[i + 1][0]) for i in range(0, len(groups) - 1, 2)])):
        if len(pairs) < 100:
            continue
        pp = {(a, b): p.get(a, 0) * p.get(b, 0) for a in p for b in p} if len(p) <= 12 else {}
        c = Counter(pairs)
        bad = deviates(c, pp, len(pairs)) if pp else None
        same = sum(n for (a, b), n in c.items() if a == b)
        bad = bad or deviates({'equal': same}, {'equal': sum(q * q for q in p.values())}, len(pairs))
        if bad:
            return r.fail('dependence', f'{where}: {name} draws {bad[0]} occurred {bad[1]} times in {len(pairs)} pairs, independent draws have probability {bad[2]:.6g}').result()
    return r.result()


def deviates(counts, probs, n):
    for x, c in counts.items():
        if probs.get(x, 0) <= 0:
            return x, c, 0.0
    for x, q in probs.items():
        c = counts.get(x, 0)
        if n * kl(c / n, min(q, 1.0)) > LIMIT and abs(c / n - q) > 1e-9:
            return x, c, q
    return None
