"""Executable reference model of the dice language, independent of the library's algorithms.

Values: int/float, MSeq (tuple), MDie (exact Fractions), BLANK / BLANK_SPECIAL.
Distributions are computed by direct enumeration (convolution one die at a time, multisets by
recursion); there is no memo table, no global state and no shared object, so a model result is by
construction independent of history, schedule and faults.

`Unknown` marks corners the model deliberately has no opinion on (then only the comparison with a
pristine process decides); `TooBig` bounds the cost of generated expressions.
"""
from fractions import Fraction
from itertools import zip_longest, combinations_with_replacement
from math import comb, factorial, ceil
import operator


class Unknown(Exception):
    pass


class TooBig(Exception):
    pass


class Injected(Exception):
    """The model reached a planned fault."""
    def __init__(self, fid):
        self.fid = fid


class MSeq(tuple):
    __slots__ = ()


class _Blank:
    def __init__(self, special):
        self.special = special

    def __repr__(self):
        return 'BLANK*' if self.special else 'BLANK'


BLANK = _Blank(False)
BLANK_SPECIAL = _Blank(True)


class MDie:
    __slots__ = ('w', 'n', 'base', 'quirk')

    def __init__(self, w, n=1, base=None, quirk=False):
        self.w = w          # value -> Fraction, sums to 1
        self.n = n          # number of dice in the pool
        self.base = base    # the die rolled n times (None: itself)
        self.quirk = quirk  # a random number of dice: selection from it is not modelled

    def pool(self):
        if self.quirk:
            raise Unknown()
        return self.n, (self.base or self)


def die(pairs):
    w = {}
    tot = 0
    for v, p in pairs:
        v = _num(v)
        w[v] = w.get(v, 0) + p
        tot += p
    if tot == 0:
        raise Unknown()
    return MDie({v: Fraction(p, 1) / tot for v, p in w.items() if p})


def _num(v):
    return int(v) if isinstance(v, bool) else v


ARITH = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv,
         '%': operator.mod, '**': operator.pow, '/': operator.truediv}
CMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
FLIP = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}
BOOL = {'&': lambda a, b: 1 if (a and b) else 0, '|': lambda a, b: 1 if (a or b) else 0}


def is_num(x):
    return isinstance(x, (int, float))


class Model:
    """settings: dict of the settings in force; funcs: user function table; plan: fault plan."""

    def __init__(self, settings=None, budget=40000, funcs=None, plan=None):
        self.s = {'position order': 'highest first', 'explode depth': 2, 'maximum function depth': 10,
                  'RV_TRUNC': False, 'RV_IGNORE_ZERO_PROBS': False}
        self.s.update(settings or {})
        self.budget = budget
        self.funcs = funcs or {}
        self.plan = plan          # object with .arrive(fid) -> may raise Injected
        self.depth = 0
        self.max_depth_seen = 0
        self.truncated = 0
        self.calls = 0
        self.floats = False

    def spend(self, n):
        self.budget -= n
        if self.budget < 0:
            raise TooBig()

    # -- construction of dice, honouring the truncation setting
    def mk(self, pairs):
        pairs = list(pairs)
        self.spend(len(pairs))
        if not self.floats and any(isinstance(v, float) for v, _ in pairs):
            self.floats = True
        if self.s['RV_TRUNC']:
            pairs = [(int(v), p) for v, p in pairs]
        return die(pairs)

    def to_die(self, x):
        if isinstance(x, MDie):
            return x
        if is_num(x):
            return self.mk([(x, 1)])
        if isinstance(x, MSeq):
            return self.mk([(v, 1) for v in x]) if x else self.mk([(0, 1)])
        raise Unknown()

    def total(self, x):
        return sum(x) if isinstance(x, MSeq) else x

    # -- operators
    def conv(self, a, b, f):
        if isinstance(a, MDie) and isinstance(b, MDie):
            self.spend(len(a.w) * len(b.w))
            return self.mk([(f(x, y), p * q) for x, p in a.w.items() for y, q in b.w.items()])
        if isinstance(a, MDie):
            return self.mk([(f(x, b), p) for x, p in a.w.items()])
        return self.mk([(f(a, y), q) for y, q in b.w.items()])

    def bin(self, op, a, b):
        a, b = _num(a), _num(b)
        ba, bb = isinstance(a, _Blank), isinstance(b, _Blank)
        if ba or bb:
            return self.bin_blank(op, a, b, ba, bb)
        if op in ARITH:
            a, b = self.total(a), self.total(b)
            f = ARITH[op]
            if is_num(a) and is_num(b):
                return f(a, b)
            return self.conv(a, b, f)
        if op in CMP:
            f = CMP[op]
            if is_num(a) and is_num(b):
                return int(f(a, b))
            if isinstance(a, MSeq) and isinstance(b, MSeq):
                if op == '!=':
                    return int(not self.bin('==', a, b))
                return int(all(f(x, y) for x, y in zip_longest(a, b, fillvalue=float('-inf'))))
            if isinstance(a, MSeq) and is_num(b):
                return sum(1 for x in a if f(x, b))
            if is_num(a) and isinstance(b, MSeq):
                return self.bin(FLIP[op], b, a)
            return self.conv(self.total(a), self.total(b), lambda x, y: 1 if f(x, y) else 0)
        if op in BOOL:
            if is_num(a) and is_num(b):
                raise Unknown()  # Python's own operators on plain numbers
            a, b = self.total(a), self.total(b)
            if is_num(a) and is_num(b):
                return BOOL[op](a, b)
            return self.conv(a, b, BOOL[op])
        raise Unknown()

    def bin_blank(self, op, a, b, ba, bb):
        if ba and bb:
            raise Unknown()
        bl, x = (a, b) if ba else (b, a)
        if bl.special:
            raise Unknown()
        if op in ('*', '//', '%', '**', '/') or op in CMP or op == '&':
            return BLANK
        if op == '|':
            return x if ba or not isinstance(x, MSeq) else self.total(x)
        if op == '+':
            return x if ba or not isinstance(x, MSeq) else self.total(x)
        if op == '-':
            if bb:
                return self.total(x)
            x = self.total(x)
            return -x if is_num(x) else self.un('neg', x)
        raise Unknown()

    def un(self, op, a):
        a = _num(a)
        if isinstance(a, _Blank):
            if a.special:
                raise Unknown()
            return a
        if isinstance(a, MSeq):
            if op == 'not':
                return 1 if sum(a) == 0 else 0
            raise Unknown()
        if is_num(a):
            if op == 'not':
                raise Unknown()
            return {'neg': operator.neg, 'pos': operator.pos, 'abs': abs}[op](a)
        if op == 'neg':
            return self.mk([(0 - v, p) for v, p in a.w.items()])
        if op == 'pos':
            return a
        if op == 'abs':
            return self.mk([(abs(v), p) for v, p in a.w.items()])
        if op == 'not':
            return self.mk([(1 if set(a.w) == {0} else 0, 1)])
        raise Unknown()

    # -- rolling
    def roll(self, n, d):
        n, d = _num(n), _num(d)
        if isinstance(n, float):
            n = ceil(n)
        if isinstance(d, float):
            d = MSeq((d,))
        if isinstance(d, _Blank):
            return BLANK
        if isinstance(n, _Blank):
            return BLANK_SPECIAL
        if isinstance(d, MSeq) and not d:
            return BLANK
        if is_num(d):
            if d > 400 or d < -400:
                raise TooBig()
            d = MSeq(range(1, d + 1)) if d > 0 else (MSeq((0,)) if d == 0 else MSeq(range(d, 0)))
        if isinstance(d, MSeq):
            d = self.to_die(d)
        if isinstance(n, MSeq):
            n = sum(n)
            if not isinstance(n, int):
                raise Unknown()
        if isinstance(n, MDie):
            if self.floats:  # whether 2 or 2.0 stands for the merged outcome decides whether this is an error
                raise Unknown()
            pairs = []
            for v, p in n.w.items():
                r = self.roll(v, d)
                pairs += [(x, p * q) for x, q in r.w.items()]
            res = self.mk(pairs)
            res.quirk = True
            return res
        if n < 0:
            return self.un('neg', self.roll(-n, d))
        if n == 0:
            return self.mk([(0, 1)])
        if n == 1:
            return d
        if n > 60:
            raise TooBig()
        acc = d.w
        for _ in range(n - 1):
            nxt = {}
            self.spend(len(acc) * len(d.w))
            for x, p in acc.items():
                for y, q in d.w.items():
                    v = x + y
                    nxt[v] = nxt.get(v, 0) + p * q
            acc = nxt
        r = self.mk(acc.items())
        r.n, r.base = n, MDie(d.w)
        return r

    # -- selection
    def expand(self, a):
        """every roll of a pool: list of (values highest first, probability)"""
        n, b = a.pool()
        vals = sorted(b.w, reverse=True)
        cnt = comb(len(vals) + n - 1, n)
        self.spend(cnt * max(n, 1))
        out = []
        for c in combinations_with_replacement(vals, n):
            m = factorial(n)
            p = Fraction(1)
            for v in set(c):
                k = c.count(v)
                m //= factorial(k)
                p *= b.w[v] ** k
            out.append((MSeq(c), m * p))
        return out

    def at(self, sel, x):
        sel, x = _num(sel), _num(x)
        if isinstance(sel, (MDie, _Blank)):
            raise Unknown()
        if isinstance(x, _Blank):
            if x.special:
                raise Unknown()
            return x
        if is_num(x):
            raise Unknown()
        idx = sel if isinstance(sel, MSeq) else (sel,)
        if not all(isinstance(i, int) for i in idx):
            raise Unknown()
        if isinstance(x, MSeq):
            return sum(x[i - 1] if 0 <= i - 1 < len(x) else 0 for i in idx)
        n, b = x.pool()
        low = self.s['position order'] == 'lowest first'
        if len(idx) == 1:
            k = idx[0]
            if k < 1 or k > n:
                return 0
            if low:
                k = n - k + 1
            return self.mk([(s[k - 1], p) for s, p in self.expand(x)])
        if low:
            raise Unknown()
        return self.mk([(sum(s[i - 1] if 0 <= i - 1 < n else 0 for i in idx), p) for s, p in self.expand(x)])

    def length(self, x):
        if isinstance(x, MSeq):
            return len(x)
        if isinstance(x, MDie):
            return x.n
        if isinstance(x, _Blank):
            return 1 if x.special else 0
        raise Unknown()

    # -- function calls with casting
    def cast(self, types, args, body):
        """types: list of 'n','s','d',None ; body(args)->value"""
        args = [_num(a) for a in args]
        hard = []
        for i, (t, a) in enumerate(zip(types, args)):
            if t is None:
                continue
            if isinstance(a, _Blank):
                if t in 'ns':
                    return BLANK_SPECIAL
                continue
            if t == 'n':
                if isinstance(a, MSeq):
                    args[i] = sum(a)
                elif isinstance(a, MDie):
                    hard.append((i, [(v, p) for v, p in a.w.items()]))
            elif t == 's':
                if isinstance(a, bool) or isinstance(a, int):
                    args[i] = MSeq((a,))
                elif isinstance(a, float):
                    raise Unknown()
                elif isinstance(a, MDie):
                    hard.append((i, self.expand(a)))
            elif t == 'd':
                if not isinstance(a, MDie):
                    args[i] = self.to_die(a)
        if not hard:
            return body(args)
        total = 1
        for _, r in hard:
            total *= len(r)
        self.spend(total * 3)
        pairs = []

        def rec(j, prob):
            if j == len(hard):
                v = body(list(args))
                v = self.total(_num(v))
                if v is None or isinstance(v, _Blank):
                    return
                if isinstance(v, MDie):
                    self.spend(len(v.w))
                    pairs.extend((x, prob * q) for x, q in v.w.items())
                else:
                    pairs.append((v, prob))
                return
            i, rolls = hard[j]
            for r, p in rolls:
                args[i] = r
                rec(j + 1, prob * p)
        rec(0, Fraction(1))
        if not pairs:
            return BLANK
        return self.mk(pairs)

    def lib(self, name, args):
        c = self.cast
        if name == 'absolute_X':
            return c(['n'], args, lambda a: -a[0] if a[0] < 0 else a[0])
        if name == 'X_contains_X':
            return c(['s', 'n'], args, lambda a: 1 if any(x == a[1] for x in a[0]) else 0)
        if name == 'count_X_in_X':
            return c(['s', 's'], args, lambda a: sum(1 for v in a[0] for x in a[1] if x == v))
        if name == 'reverse_X':
            return c(['s'], args, lambda a: MSeq(reversed(a[0])))
        if name == 'sort_X':
            return c(['s'], args, lambda a: MSeq(sorted(a[0], reverse=True)))
        if name == 'maximum_of_X':
            return c(['d'], args, lambda a: self._max(a[0]))
        if name == 'highest_of_X_and_X':
            return c(['n', 'n'], args, lambda a: a[0] if a[0] > a[1] else a[1])
        if name == 'lowest_of_X_and_X':
            return c(['n', 'n'], args, lambda a: a[0] if a[0] < a[1] else a[1])
        if name == 'highest_X_of_X':
            return c(['n', 'd'], args, lambda a: self.at(self._rng(1, a[0] + 1), self._d(a[1])))
        if name == 'lowest_X_of_X':
            return c(['n', 'd'], args, lambda a: self.at(self._rng(self._d(a[1]).n - a[0] + 1, self._d(a[1]).n + 1), a[1]))
        if name == 'middle_X_of_X':
            return c(['n', 'd'], args, lambda a: self._middle(a[0], self._d(a[1])))
        if name == 'explode_X':
            return c(['d'], args, lambda a: self._explode(self._d(a[0])))
        raise Unknown()

    def _d(self, x):
        if not isinstance(x, MDie):
            raise Unknown()
        return x

    def _rng(self, a, b):
        if not isinstance(a, int) or not isinstance(b, int):
            raise Unknown()
        if b - a > 200:
            raise TooBig()
        return MSeq(range(a, b))

    def _max(self, d):
        return max(self._d(d).w)

    def _middle(self, n, d):
        size = d.n
        if n == size:
            return d
        if n == 1:
            return self.at(1 + (size - 1) // 2, d)
        start = 1 + (size - n) // 2
        return self.at(self._rng(start, start + n), d)

    def _explode(self, d):
        top = max(d.w)
        depth = self.s['explode depth']
        if depth > 30:
            raise TooBig()
        acc = dict(d.w)
        res = acc
        for _ in range(depth):
            # res = outcome of one more level of explosion below
            self.spend(len(res) + len(d.w))
            nxt = {}
            for v, p in d.w.items():
                if v == top:
                    for x, q in res.items():
                        nxt[v + x] = nxt.get(v + x, 0) + p * q
                else:
                    nxt[v] = nxt.get(v, 0) + p
            res = nxt
        return self.mk(res.items())

    # -- expressions
    def ev(self, e, env=None):
        self.spend(1)
        if not isinstance(e, list):
            if isinstance(e, (int, float)):
                return e
            raise Unknown()
        k = e[0]
        if k == 'var':
            return env[e[1]]
        if k == 'seq':
            nums, dice = [], []
            for x in e[1:]:
                if isinstance(x, list) and x and x[0] == 'range':
                    lo, hi = self.ev(x[1], env), self.ev(x[2], env)
                    if not (is_num(lo) and is_num(hi)):
                        raise Unknown()
                    nums += list(self._rng(int(lo), int(hi) + 1))
                    continue
                v = _num(self.ev(x, env))
                if isinstance(v, MSeq):
                    nums += list(v)
                elif isinstance(v, MDie):
                    dice += sorted(v.w)
                elif isinstance(v, _Blank):
                    pass
                else:
                    nums.append(v)
            return MSeq(nums + dice)
        if k == 'rv':
            if any(p == 0 for p in e[2]):
                raise Unknown()
            return self.mk(zip(e[1], e[2]))
        if k == 'roll':
            n = self.ev(e[1], env)
            return self.roll(n, self.ev(e[2], env))
        if k == 'roll1':
            return self.roll(1, self.ev(e[1], env))
        if k == 'bin':
            a = self.ev(e[2], env)
            return self.bin(e[1], a, self.ev(e[3], env))
        if k == 'un':
            return self.un(e[1], self.ev(e[2], env))
        if k == 'at':
            a = self.ev(e[1], env)
            return self.at(a, self.ev(e[2], env))
        if k == 'len':
            return self.length(self.ev(e[1], env))
        if k == 'lib':
            args = [self.ev(x, env) for x in e[2:]]
            return self.lib(e[1], args)
        if k == 'filter':
            d = self._d(self.ev(e[1], env))
            s = self.ev(e[2], env)
            if not isinstance(s, (MSeq, int, float)):
                raise Unknown()
            drop = set(s) if isinstance(s, MSeq) else {s}
            keep = [(v, p) for v, p in d.w.items() if v not in drop]
            return self.mk(keep if keep else [(0, 1)])
        if k == 'mix':
            pairs = []
            for x, w in zip(e[1], e[2]):
                v = self.ev(x, env)
                if isinstance(v, _Blank):
                    continue
                if isinstance(v, MSeq) or w == 0:
                    raise Unknown()
                if isinstance(v, MDie):
                    pairs += [(y, q * w) for y, q in v.w.items()]
                else:
                    pairs.append((v, Fraction(w)))
            return self.mk(pairs) if pairs else BLANK
        if k == 'if':
            c = self.ev(e[1], env)
            if not is_num(c):
                raise Unknown()
            return self.ev(e[2] if c else e[3], env)
        if k == 'fault':
            if self.plan is not None:
                self.plan.arrive(e[1])
            return self.ev(e[2], env)
        if k == 'user':
            args = [self.ev(x, env) for x in e[2:]]
            return self.user(e[1], args)
        if k == 'blank':
            return BLANK
        if k == 'rolls':
            n, _, d = e[1].partition('d')
            if not d.isdigit() or (n and not n.isdigit()):
                raise Unknown()
            return self.roll(int(n or 1), int(d))
        if k == 'D':
            n = self.ev(e[1], env) if e[1] is not None else 1
            return self.roll(n, self.ev(e[2], env))
        raise Unknown()

    def user(self, fid, args):
        f = self.funcs[fid]
        if f.get('deco') == 'type':
            names = [p[0] for p in f['params']]
            self.calls += 1
            return self.cast([p[1] for p in f['params']], args, lambda a: self.ev(f['body'], dict(zip(names, a))))
        if self.depth >= self.s['maximum function depth']:
            self.truncated += 1
            return BLANK
        names = [p[0] for p in f['params']]
        types = [p[1] for p in f['params']]

        def body(a):
            self.calls += 1
            self.spend(5)
            return self.ev(f['body'], dict(zip(names, a)))
        self.depth += 1
        self.max_depth_seen = max(self.max_depth_seen, self.depth)
        try:
            r = self.cast(types, args, body)
        finally:
            self.depth -= 1
        return BLANK if r is None else r
