"""Seeded generators of dice expressions and recursive function sets (typed: n number, s sequence, d die)."""
from .model import Model, Unknown, TooBig

CMPS = ['==', '!=', '<', '<=', '>', '>=']


class Gen:
    def __init__(self, rng, floats=False, zero_probs=False, users=None, big=1, blank=True):
        self.r = rng
        self.floats = floats
        self.zero = zero_probs
        self.users = users or {}
        self.big = big
        self.blank = blank

    # numbers
    def num(self, depth, env=()):
        r = self.r
        x = r.random()
        vs = [v for v, t in env if t == 'n']
        if vs and x < 0.4:
            return ['var', r.choice(vs)]
        if depth <= 0 or x < 0.65:
            return r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, -1, -2, 10])
        y = r.random()
        if y < 0.3:
            return ['bin', r.choice(['+', '-', '*']), self.num(depth - 1, env), self.num(depth - 1, env)]
        if y < 0.45:
            return ['bin', r.choice(CMPS), self.num(depth - 1, env), self.num(depth - 1, env)]
        if y < 0.6:
            return ['len', self.seq(depth - 1, env)]
        if y < 0.75:
            return ['at', r.choice([1, 2, 3, 0, -1]), self.seq(depth - 1, env)]
        if y < 0.85:
            return ['bin', r.choice(CMPS), self.seq(depth - 1, env), self.num(depth - 1, env)]
        if y < 0.92:
            return ['un', r.choice(['neg', 'abs']), self.num(depth - 1, env)]
        return ['bin', r.choice(['+', '-', '*']), self.seq(depth - 1, env), self.num(depth - 1, env)]

    def small(self):
        return self.r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5])

    def literal(self):
        r = self.r
        if self.floats and r.random() < 0.4:
            return r.choice([0.5, 1.0, 1.5, 2.0, -0.5, 2.25, 3.0])
        return r.choice([0, 1, 2, 3, 4, 5, 6, 7, -1, -2, -3, 10, 20])

    def seq(self, depth, env=()):
        r = self.r
        vs = [v for v, t in env if t == 's']
        if vs and r.random() < 0.5:
            return ['var', r.choice(vs)]
        x = r.random()
        if depth > 0 and x < 0.12:
            return ['lib', r.choice(['sort_X', 'reverse_X']), self.seq(depth - 1, env)]
        out = ['seq']
        for _ in range(r.choice([1, 2, 2, 3, 3, 4])):
            y = r.random()
            if y < 0.15:
                lo = r.randint(-2, 3)
                out.append(['range', lo, lo + r.randint(0, 3)])
            elif y < 0.25 and depth > 0:
                out.append(self.seq(depth - 1, env))
            elif y < 0.35 and depth > 0:
                out.append(self.num(depth - 1, env))
            elif y < 0.4 and depth > 0:
                out.append(self.die(0, env))
            else:
                out.append(self.literal())
        if r.random() < 0.04:
            out = ['seq']
        return out

    def rv(self):
        r = self.r
        k = r.randint(1, 5)
        vals = [self.literal() for _ in range(k)]
        probs = [r.choice([1, 1, 2, 3, 4, 6, 12]) for _ in range(k)]
        if self.zero and r.random() < 0.5:
            probs[r.randrange(k)] = 0
            if not any(probs):
                probs[0] = 1
        return ['rv', vals, probs]

    def faces(self, depth, env):
        r = self.r
        x = r.random()
        if x < 0.55:
            return r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 6, 8, 10, 0, -2, -4])
        if x < 0.75:
            return self.seq(0, env)
        if x < 0.9 or depth <= 0:
            return self.rv()
        return self.die(depth - 1, env)

    def pool(self, depth, env=()):
        """a pool of several dice"""
        r = self.r
        return ['roll', r.choice([2, 2, 3, 3, 4, 5]), self.faces(depth - 1, env)]

    def die(self, depth, env=()):
        r = self.r
        vs = [v for v, t in env if t == 'd']
        if vs and r.random() < 0.4:
            return ['var', r.choice(vs)]
        x = r.random()
        if depth <= 0:
            if x < 0.25:
                return ['roll1', self.faces(0, env)]
            if x < 0.8:
                n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 0, -1, -2])
                if r.random() < 0.05 * self.big:
                    n = r.choice([7, 8, 9, 12, 16, 25])
                return ['roll', n, self.faces(0, env)]
            return self.rv()
        if x < 0.22:
            op = r.choice(['+', '+', '-', '*', '//', '%', '+', '-'])
            a, b = self.die(depth - 1, env), r.choice([self.die, self.num, self.seq, self.die])(depth - 1, env)
            return ['bin', op, a, b] if r.random() < 0.7 else ['bin', op, b, a]
        if x < 0.32:
            a, b = self.die(depth - 1, env), r.choice([self.die, self.num, self.seq])(depth - 1, env)
            op = r.choice(CMPS + ['&', '|'])
            return ['bin', op, a, b] if r.random() < 0.7 else ['bin', op, b, a]
        if x < 0.36:
            return ['bin', '**', self.die(0, env), r.choice([0, 1, 2, 3])]
        if x < 0.41:
            return ['un', r.choice(['neg', 'abs', 'not', 'pos']), self.die(depth - 1, env)]
        if x < 0.55:
            sel = r.choice([1, 1, 2, 2, 3, 0, 4, ['seq', 1, 2], ['seq', 2], ['seq', 1, 3], ['seq', 2, 2, 1], ['seq', ['range', 1, 2]], ['seq', 4, 0]])
            return ['at', sel, self.pool(depth, env) if r.random() < 0.8 else self.die(depth - 1, env)]
        if x < 0.63:
            n = r.choice([self.num(0, env), self.seq(0, env), self.die(0, env)])
            return ['roll', n, r.choice([self.faces(depth - 1, env), self.die(depth - 1, env)])]
        if x < 0.67:
            return ['roll1', self.die(depth - 1, env)]
        if x < 0.86:
            return self.libcall(depth, env)
        if x < 0.9:
            return ['filter', self.die(depth - 1, env), r.choice([self.seq(0, env), 1, 2, 6])]
        if x < 0.94:
            k = r.randint(1, 3)
            return ['mix', [self.die(depth - 1, env) if r.random() < .7 else r.randint(-3, 9) for _ in range(k)], [r.randint(1, 4) for _ in range(k)]]
        if self.blank and x < 0.955 and r.random() < .8:
            return self.corner(depth, env)
        if self.users and x < 0.99:
            fid = r.choice(sorted(self.users))
            return ['user', fid] + [self.any(depth - 1, env) for _ in self.users[fid]['params']]
        return self.die(depth - 1, env)

    def corner(self, depth, env=()):
        """the empty die, the null result of a call that could not be cast, and the operators for plain numbers"""
        r = self.r
        b = r.choice([['blank'], ['blank'], ['lib', 'absolute_X', ['blank']], ['lib', 'highest_of_X_and_X', ['blank'], 2], ['roll', ['blank'], 3], ['roll', 2, ['seq']]])
        o = r.choice([self.num, self.num, self.seq, self.die])(0, env) if r.random() < .85 else r.choice([['blank'], ['lib', 'absolute_X', ['blank']]])
        x = r.random()
        if x < .4:
            op = r.choice(['+', '-', '*', '//', '%', '/', '**', '&', '|'] + CMPS)
            return ['bin', op, b, o] if r.random() < .5 else ['bin', op, o, b]
        if x < .5:
            return ['un', r.choice(['neg', 'abs', 'not', 'pos']), b]
        if x < .58:
            return ['at', r.choice([1, 2, 0, ['seq', 1, 2]]), b]
        if x < .64:
            return ['roll', r.choice([2, 1, o]), b]
        if x < .7:
            return ['meth', r.choice(['__floor__', '__round__', '__trunc__', '__ceil__', 'mean', 'std', '__str__', '__len__']), b]
        if x < .76:
            return ['lib', r.choice(['explode_X', 'maximum_of_X', 'reverse_X', 'absolute_X', 'sort_X']), b]
        if x < .88:
            s = self.seq(0, env)
            return ['bin', r.choice(['+', '-', '*', '//', '%', '/', '&', '|', '**']), r.choice([0, 1, 2, 3, 7]), s] if r.random() < .6 else ['bin', r.choice(['//', '%', '/', '&', '|', '**']), s, r.choice([1, 2, 3])]
        n = lambda: r.choice([self.num, self.num, self.seq, self.die])(0, env)
        f = r.choice(['myMatmul', 'myLen', 'myInvert', 'myAnd', 'myOr'])
        return ['my', f, n()] if f in ('myLen', 'myInvert') else ['my', f, n(), n()]

    def libcall(self, depth, env=()):
        r = self.r
        name = r.choice(['absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X',
                         'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'highest_X_of_X', 'explode_X'])
        d, n, s, p, a = (lambda: self.die(depth - 1, env)), (lambda: self.num(0, env)), (lambda: self.seq(0, env)), (lambda: self.pool(depth, env)), (lambda: self.any(depth - 1, env))
        args = {'absolute_X': lambda: [a()], 'X_contains_X': lambda: [r.choice([p, s, d])(), r.choice([n, d])()],
                'count_X_in_X': lambda: [r.choice([s, n])(), r.choice([p, s])()], 'explode_X': lambda: [d()],
                'highest_X_of_X': lambda: [r.choice([1, 2, 3, self.num(0, env)]), p()], 'lowest_X_of_X': lambda: [r.choice([1, 2, 3]), p()],
                'middle_X_of_X': lambda: [r.choice([1, 2, 3]), p()], 'highest_of_X_and_X': lambda: [a(), a()], 'lowest_of_X_and_X': lambda: [a(), a()],
                'maximum_of_X': lambda: [d()], 'reverse_X': lambda: [r.choice([s, p])()], 'sort_X': lambda: [r.choice([s, p])()]}[name]()
        return ['lib', name] + args

    def any(self, depth, env=()):
        if self.blank and depth > 0 and self.r.random() < .03:
            return self.corner(depth, env)
        return self.r.choice([self.num, self.seq, self.die, self.die, self.pool])(depth, env)

    def bounded(self, kind, depth, settings=None, budget=6000, tries=60, env=()):
        """an expression whose cost is within the budget; returns (expr, model value or None)"""
        for _ in range(tries):
            e = getattr(self, kind)(depth, env)
            m = Model(settings, budget=budget, funcs=self.users)
            try:
                v = m.ev(e)
                return e
            except Unknown:
                if cheap(e):
                    return e
            except TooBig:
                continue
            except Exception:
                return e
        return ['roll', 2, 6]


def cheap(e):
    """structural cost bound for expressions the model has no opinion on"""
    def size(x):
        return 1 + sum(size(y) for y in x[1:]) if isinstance(x, list) else 1
    return size(e) <= 16


def gen_funcs(rng, k=2, faults=False, small=True):
    """k decorated functions that may call themselves and each other; every recursive one is depth limited.

    fault points are numbered 'F<function>a' (on entry) and 'F<function>b' (after the nested call)"""
    names = ['f%d' % i for i in range(k)]
    specs = {}
    for n in names:
        ps = [[chr(65 + i), rng.choice(['n', 'n', 's', 'd', None] if i or small else ['n', 's'])] for i in range(rng.choice([1, 1, 1, 2]))]
        specs[n] = {'params': ps, 'deco': 'depth'}
    for n in names:
        ps = specs[n]['params']
        env = [(p[0], p[1] or 'n') for p in ps if p[1]]
        v, t = ps[0]
        var = ['var', v]
        num = var if t == 'n' else (['len', var] if t in ('s', 'd') else rng.choice([1, 2, 3]))
        g = Gen(rng, blank=False)
        target = rng.choice(names)
        args = []
        for q in specs[target]['params']:
            y = rng.random()
            if q[1] == 'n':
                args.append(rng.choice([['bin', '-', num, 1], ['bin', '-', num, 1], ['bin', '+', num, 1], num, ['roll1', rng.choice([2, 3])], ['bin', '//', num, 2]]))
            elif q[1] == 's':
                args.append(rng.choice([['seq', num, 1], ['seq', num], num, ['roll', 2, 2], ['seq', ['bin', '-', num, 1]]]))
            elif q[1] == 'd':
                args.append(rng.choice([['roll', 2, 2], ['roll1', 3], num, ['roll', 2, 3]]) if y < .7 or t != 'd' else var)
            else:
                args.append(rng.choice([num, 1, 2]))
        call = ['user', target] + args
        base = rng.choice([0, 1, num, g.num(1, env), ['roll1', rng.choice([2, 3, 4])], ['roll', 2, 2]])
        step = rng.choice([['bin', '+', num, call], ['bin', '+', 1, call], call, ['bin', '-', call, 1], ['bin', '+', call, call] if rng.random() < .3 else ['bin', '+', call, num], ['bin', '*', 2, call]])
        if faults:
            step = rng.choice([['fault', 'F' + n + 'a', step], ['bin', '+', call, ['fault', 'F' + n + 'b', 1]], ['bin', '+', ['fault', 'F' + n + 'a', num], ['bin', '+', call, ['fault', 'F' + n + 'b', 0]]]])
        cond = rng.choice([['bin', '<=', num, 0], ['bin', '<=', num, 1], ['bin', '!=', num, rng.choice([2, 3, 4])], ['bin', '==', num, rng.choice([-7, 12])], 0])
        body = ['if', cond, base, step]
        if faults and rng.random() < .4:
            body = ['fault', 'F' + n + 'c', body]
        specs[n]['body'] = body
    return specs


def gen_call(rng, funcs, fid, depth=0):
    g = Gen(rng, blank=False)
    args = []
    for q in funcs[fid]['params']:
        args.append(rng.choice([rng.choice([0, 1, 2, 3, 4, 5, 8]), rng.choice([1, 2, 3]), ['roll1', rng.choice([2, 3, 4])], ['roll', 2, rng.choice([2, 3])], ['seq', rng.choice([1, 2, 3]), rng.choice([0, 1, 4])]]))
    return ['user', fid] + args


def bounded_call(rng, k=2, settings=None, faults=False, budget=8000, tries=80):
    """(funcs, call) that the model can evaluate within the budget"""
    for _ in range(tries):
        funcs = gen_funcs(rng, k, faults)
        call = gen_call(rng, funcs, rng.choice(sorted(funcs)))
        m = Model(settings, budget=budget, funcs=funcs)
        try:
            m.ev(call)
            return funcs, call
        except (Unknown, TooBig):
            continue
        except RecursionError:
            continue
        except Exception:
            continue
    funcs = {'f0': {'params': [['A', 'n']], 'deco': 'depth', 'body': ['if', ['bin', '<=', ['var', 'A'], 0], 0, ['bin', '+', 1, ['user', 'f0', ['bin', '-', ['var', 'A'], 1]]]]}}
    return funcs, ['user', 'f0', 3]


def calls_for(rng, funcs, n, settings=None, budget=8000):
    """further calls of the same functions within the budget"""
    out = []
    for _ in range(n * 6):
        if len(out) >= n:
            break
        call = gen_call(rng, funcs, rng.choice(sorted(funcs)))
        try:
            Model(settings, budget=budget, funcs=funcs).ev(call)
            out.append(call)
        except Exception:
            continue
    return out


WORDS = ['A', 'B', 'hit', 'miss', 'x', '3', '-1', '2.5', 'a b', '']


def altform(rng, e, p=0.8):
    """the same expression with rolls written in the alternative notation: 2 * D * 6"""
    if not isinstance(e, (list, tuple)):
        return e
    if e[:1] == ['roll'] and type(e[1]) is int and rng.random() < p:
        return ['D', e[1], altform(rng, e[2], p)]
    if e[:1] == ['roll1'] and rng.random() < p:
        return ['D', None, altform(rng, e[1], p)]
    return type(e)(altform(rng, x, p) for x in e)


def gen_text(rng, depth=1):
    """expressions outside the model: symbolic dice, text forms, methods, helper functions"""
    g = Gen(rng, blank=False)
    x = rng.random()
    sym = lambda: ['strseq'] + [rng.choice([rng.choice(WORDS), rng.randint(0, 4)]) for _ in range(rng.randint(1, 3))]
    if x < 0.25:
        return ['roll', rng.choice([1, 2, 2, 3]), sym()]
    if x < 0.4:
        return ['bin', '+', ['roll', rng.choice([1, 2]), sym()], rng.choice([['roll', 1, sym()], rng.randint(0, 3), ['roll', 2, 3]])]
    if x < 0.5:
        return ['rolls', rng.choice(['2d6', 'd4', '3d3', '10d2', '1d8', '4d6', '2d', 'x'])]
    if x < 0.58:
        return ['D', rng.choice([1, 2, 3]), g.faces(0, ())]
    if x < 0.7:
        return ['meth', rng.choice(['mean', 'std', 'get_cdf', '__floor__', '__ceil__', '__trunc__', '__round__', '__hash__', '__repr__']), g.bounded('die', 1)]
    if x < 0.75:
        return ['meth', 'get_vals_probs', g.bounded('die', 1), rng.choice([0, 0.1, 0.25, 0.5, 0.04])]
    if x < 0.82:
        return ['call', 'output', [g.bounded('any', 1)], {'print_': False, 'blocks_width': rng.choice([None, 20, 60]), 'named': rng.choice([None, 'n', '']), 'cdf_cut': rng.choice([0, 0, 5, 20])}]
    if x < 0.87:
        return ['gwf', rng.choice([1, 2, 3]), rng.choice([4, 6, ['roll1', 8]])]
    if x < 0.93:
        return ['call', 'explode_X', [g.bounded('die', 0)], {'depth': rng.choice([0, 1, 3, 4])}]
    return ['at', rng.choice([1, 2, ['seq', 1, 2]]), ['roll', 2, sym()]]
