"""C12: iterables are read once, and a failing one fails the call cleanly.

Every entry point that takes an iterable is given one-shot iterators of several kinds (generators, list
iterators, map objects, objects of the simulator that count what is pulled), nested ones, iterators
that use the library while being read, and iterators that raise at a planned item. Results are compared
with the same call on plain lists made as the first thing in a fresh process."""
import itertools

from ..common import *
from ..gen import Gen
from ..real import FAULT_KINDS, ITER_FAULTS, BIN

PROP = 'C12'
RULE = 'one run = one seeded series of 3 to 10 calls with iterators at one or more places; distinct = distinct event logs; trivial = no iterator was read'
COMPONENTS = {'real': ['dice_calc without the parser'], 'stub': ['iterators'], 'oracle': ['the same call with lists in a fresh process', 'count of items pulled']}
ASSUMPTIONS = ['iterators raising StopIteration are excluded: Python itself takes that for the end']
RUNS = {'quick': 5000, 'thorough': 80000}
SHRINK = ['ops']
KINDS = ['gen', 'iter', 'map', 'custom', 'chain', 'reiter', 'custom', 'busy', 'tee']
FAULTS = ITER_FAULTS


def E(L):
    """entry points: name -> (number of iterables, function of them and of two other values)"""
    def casting(t, deco='depth'):
        def call(it, o):
            def fn(A, B):
                return (A if t != 'd' else 1 @ A) if t != 's' else A @ L.get_seq([5, 6, 7])
            fn.__annotations__ = {'A': {'n': L.T_N, 's': L.T_S, 'd': L.T_D}[t]}
            return (L.anydice_casting() if deco == 'depth' else L.anydice_type_casting())(fn)(it, 1)
        return call

    def back(it, o):
        @L.anydice_casting()
        def fn(A: L.T_N):
            return it if A == 1 else A
        return fn(L.roll(3))
    e = {
        'RV': (2, lambda v, p, o: L.RV(v, p)), 'RV_vals': (1, lambda v, o: L.RV(v, [1, 2, 3])), 'RV_probs': (1, lambda p, o: L.RV([4, 5, 6], p)),
        'from_seq': (1, lambda s, o: L.RV.from_seq(s)), 'from_rvs': (1, lambda s, o: L.RV.from_rvs(s)), 'from_rvs_w': (2, lambda s, w, o: L.RV.from_rvs(s, w)),
        'from_rvs_kw': (2, lambda s, w, o: L.RV.from_rvs(rvs=s, weights=w)),
        'Seq': (1, lambda s, o: L.Seq(s)), 'Seq2': (2, lambda s, t, o: L.Seq(s, 9, t)), 'get_seq': (1, lambda s, o: L.get_seq(s)), 'get_seq2': (2, lambda s, t, o: L.get_seq(s, [t, 3])),
        'roll1': (1, lambda s, o: L.roll(s)), 'roll_die': (1, lambda s, o: L.roll(2, s)), 'roll_num': (1, lambda s, o: L.roll(s, 3)), 'roll_both': (2, lambda n, s, o: L.roll(n, s)), 'roll_rv': (1, lambda s, o: L.roll(L.roll(2), s)),
        'filter': (1, lambda s, o: L.roll(2, 4).filter(s)), 'output': (1, lambda s, o: L.output(s, print_=False)), 'roller': (1, lambda s, o: seeded(L, s)),
        'select': (1, lambda s, o: s @ L.roll(3, 4)), 'select_seq': (1, lambda s, o: s @ L.get_seq([5, 6, 7])), 'seq_select': (1, lambda s, o: L.get_seq([1, 2]) @ s), 'selected': (1, lambda s, o: 2 @ L.get_seq(s)),
        'n': (1, casting('n')), 's': (1, casting('s')), 'd': (1, casting('d')), 'n_type': (1, casting('n', 't')), 's_type': (1, casting('s', 't')), 'd_type': (1, casting('d', 't')), 'result': (1, back),
        'blank_sub': (1, lambda s, o: L.BlankRV() - s), 'D': (1, lambda s, o: 2 * L.D * s),
        'dices_equal': (2, lambda s, t, o: L.RV.dices_are_equal(s, t)), 'seqs_equal': (2, lambda s, t, o: L.Seq.seqs_are_equal(s, t)),
    }
    for k in ('+', '-', '*', '//', '%', '==', '!=', '<', '<=', '>', '>=', '&', '|', '**', '/'):
        e['die ' + k] = (1, lambda s, o, f=BIN[k]: f(o, s))
        e[k + ' die'] = (1, lambda s, o, f=BIN[k]: f(s, o))
    for k in ('==', '!=', '<', '<=', '>', '>='):
        e['seq ' + k] = (1, lambda s, o, f=BIN[k]: f(L.get_seq([1, 2]), s))
        e[k + ' seq'] = (1, lambda s, o, f=BIN[k]: f(s, L.get_seq([1, 2])))
    for n in ('absolute_X', 'sort_X', 'reverse_X', 'maximum_of_X', 'explode_X'):
        e[n] = (1, lambda s, o, f=getattr(L, n): f(s))
    e['contains'] = (1, lambda s, o: L.X_contains_X(s, 2))
    e['contains_n'] = (1, lambda s, o: L.X_contains_X([1, 2, 3], s))
    e['count'] = (2, lambda s, t, o: L.count_X_in_X(s, t))
    e['highest'] = (1, lambda s, o: L.highest_X_of_X(s, L.roll(3, 3)))
    e['highest_of'] = (2, lambda s, t, o: L.highest_of_X_and_X(s, t))
    e['lowest'] = (1, lambda s, o: L.lowest_X_of_X(1, s))
    e['middle'] = (1, lambda s, o: L.middle_X_of_X(1, s))
    return e


def seeded(L, s):
    import random
    random.seed(5)
    return L.get_seq(L.roller(s, 8))


ENTRIES = None
NUMBERS_ONLY = {'RV_vals', 'RV_probs', 'RV', 'roll_num', 'select', 'select_seq', 'blank_sub', 'from_rvs_w', 'from_rvs_kw', 'seqs_equal', 'contains', 'contains_n', 'count', 'highest', 'highest_of', 'sort_X', 'Seq', 'Seq2', 'roll_both', 'seq_select'}


NOT_LONG = {'RV', 'RV_vals', 'RV_probs', 'from_rvs_w', 'from_rvs_kw', 'roll_num', 'roll_both', 'seqs_equal', 'x'}


def prepare(seed, tier):
    global ENTRIES
    ENTRIES = {k: v[0] for k, v in sorted(E(seam.load()).items())}


def gen_items(rng, name, pos, depth=1):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4])
    if depth and rng.random() < .03 and name not in NOT_LONG:
        return [rng.choice([1, 2, 3, 0, -1, 5, 4]) for _ in range(rng.choice([9, 17, 33, 65, 130, 300]))]
    if name in ('RV_vals', 'RV_probs', 'RV') or (name in ('from_rvs_w', 'from_rvs_kw') and pos == 1):
        n = 3 if rng.random() < 0.9 else n
        return [rng.choice([1, 2, 3, 5]) for _ in range(n)]
    if name in ('from_rvs', 'from_rvs_w', 'from_rvs_kw'):
        n = 3 if name != 'from_rvs' and rng.random() < 0.9 else n
        return [rng.choice([1, 4, ['roll1', rng.choice([2, 3, 4])], ['roll', 2, 2], ['rv', [1, 5], [1, 3]], ['none'], ['blank']]) for _ in range(n)]
    if name == 'roll_num' or (name == 'roll_both' and pos == 0):
        return [rng.choice([1, 1, 2, 0]) for _ in range(min(n, 2))]
    if (name.startswith('seq') or name.endswith(' seq') or name == 'seqs_equal') and rng.random() < 0.4:
        return rng.choice([[1, 2], [1, 2], [1, 2, 3], [1], [2, 1], [1.0, 2], [1, ['nest', 'gen', [2]]]])   # near what it is compared with
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.72 or depth <= 0:
            out.append(rng.choice([1, 2, 3, 0, -1, 5, 4]))
        elif x < 0.8:
            out.append(['nest', rng.choice(KINDS + ['list', 'tuple']), gen_items(rng, 'x', 0, depth - 1)])
        elif x < 0.86:
            out.append(rng.choice([['roll1', 3], ['roll', 2, 2], ['seq', 2, 2]]))
        elif x < 0.9:
            out.append(rng.choice([0.5, 2.0]))
        elif x < 0.93 and name not in NUMBERS_ONLY:
            out.append(['text', rng.choice(['a', 'bc'])])
        else:
            out.append(rng.choice([1, 2, 3]))
    return out


def generate(rng, idx, tier):
    global ENTRIES
    if ENTRIES is None:
        prepare(1, tier)
    ops = []
    for _ in range(rng.choice([3, 4, 6, 10])):
        name = rng.choice(list(ENTRIES))
        k = ENTRIES[name]
        its = [{'items': gen_items(rng, name, i), 'kind': rng.choice(KINDS)} for i in range(k)]
        if name in ('RV', 'from_rvs_w', 'from_rvs_kw') and rng.random() < .05:   # long ones of equal length
            n = rng.choice([10, 33, 64, 150])
            for it in its:
                it['items'] = [rng.choice([1, 2, 3, 5, 8]) for _ in range(n)]
        if k > 1 and rng.random() < 0.3:
            its[rng.randrange(k)]['kind'] = 'list'
        op = {'op': 'call', 'entry': name, 'its': its, 'other': rng.choice([['roll1', 3], ['roll', 2, 2], ['rv', [1, 2], [1, 4]]])}
        if rng.random() < 0.4:
            i = rng.randrange(k)
            n = len(its[i]['items'])
            op = dict(op, fail={'it': i, 'at': rng.choice([0, rng.randint(0, n), n]), 'kind': rng.choice(FAULTS)})
            ops.append(op)
            op = {a: b for a, b in op.items() if a != 'fail'}
        ops.append(op)
    return {'ops': ops}


# ------------------------------------------------------------ iterators of the simulator
class Counting:
    def __init__(self, items, fail_at=None, exc=None, hook=None):
        self.items, self.i, self.fail_at, self.exc, self.hook = items, 0, fail_at, exc, hook
        self.pulled = 0
        self.raised = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.hook:
            self.hook()
        if self.fail_at is not None and self.i == self.fail_at and not self.raised:
            self.raised = True
            raise self.exc
        if self.i >= len(self.items):
            raise StopIteration
        self.i += 1
        self.pulled += 1
        return self.items[self.i - 1]


class Reiter:
    def __init__(self, c):
        self.c = c

    def __iter__(self):
        c = self.c
        c.i = 0
        return c


def wrap(kind, items, L, fail_at=None, exc=None):
    """(iterable, counter)"""
    if kind == 'list' and fail_at is None:
        return list(items), None
    if kind == 'tuple' and fail_at is None:
        return tuple(items), None
    c = Counting(items, fail_at, exc)
    if kind in ('custom', 'list', 'tuple'):
        return c, c
    if kind == 'busy':      # uses the library while being read
        def hook():
            L.roll(2, L.get_seq([1, L.roll(2)])) + L.roll(3)
            1 @ L.roll(2, 3)
        c.hook = hook
        return c, c
    if kind == 'reiter':
        return Reiter(c), c
    if kind == 'iter' and fail_at is None:
        return iter(list(items)), None
    if kind == 'map':
        return map(lambda x: x, c), c
    if kind == 'chain':
        return itertools.chain([], c), c
    if kind == 'tee':
        return itertools.tee(c)[1], c
    return (x for x in c), c


def build(items, L, kind, lists, fail_at=None, exc=None):
    vals = []
    for x in items:
        if isinstance(x, list) and x[0] == 'nest':
            vals.append(build(x[2], L, x[1], lists)[0])
        elif isinstance(x, list):
            vals.append(Real().ev(x))
        else:
            vals.append(x)
    if lists:
        return vals, None
    return wrap(kind, vals, L, fail_at, exc)


def fresh(op):
    L = seam.load()
    its = [build(i['items'], L, None, True)[0] for i in op['its']]
    o = Real().ev(op['other'])
    return observe(lambda: E(L)[op['entry']][1](*its, o))


def run(trace):
    r = Run(trace)
    want = {}
    for op in trace['ops']:
        key = digest([op['entry'], [i['items'] for i in op['its']], op['other']])
        if key not in want:
            want[key] = fork_obs(fresh, op)
    L = seam.load()
    entries = E(L)
    read = 0
    for op in trace['ops']:
        exp = want[digest([op['entry'], [i['items'] for i in op['its']], op['other']])]
        fail = op.get('fail')
        exc = FAULT_KINDS[fail['kind']]('iterator') if fail else None
        its = []
        for i, x in enumerate(op['its']):
            bad = fail and fail['it'] == i
            its.append(build(x['items'], L, x['kind'], False, fail['at'] if bad else None, exc if bad else None))
        o = Real().ev(op['other'])
        raised = []

        def go():
            try:
                return entries[op['entry']][1](*[i for i, _ in its], o)
            except BaseException as e:
                raised.append(e)
                raise
        got = observe(go)
        read += any(c and (c.pulled or c.raised) for _, c in its)
        r.note('call', digest(op), digest(got))
        r.mark('entries', op['entry'] + ('!' if fail else ''))
        where = f'{op["entry"]} with {[(x["kind"], x["items"]) for x in op["its"]]}'
        if fail:
            c = its[fail['it']][1]
            if c is not None and c.raised:
                r.fault('iterator raises ' + fail['kind'])
                if not raised:
                    return r.fail('error-lost', f'{where}: item {fail["at"]} raised {exc!r}, but the call gave {short(got)}').result()
                if raised[0] is not exc:
                    return r.fail('error-changed', f'{where}: item {fail["at"]} raised {exc!r}, the caller saw {raised[0]!r}').result()
                continue
        if got != exp:
            return r.fail('differs', f'{where}: {short(got)}, with lists in a fresh process {short(exp)}').result()
        for x, (_, c) in zip(op['its'], its):
            if c is not None and x['kind'] != 'reiter' and c.pulled > len(x['items']):
                return r.fail('read-twice', f'{where}: {c.pulled} items pulled from an iterator of {len(x["items"])}').result()
    return r.result(trivial=not read)
