"""Drives the real library through its public API and records what is observable."""
import asyncio
import operator
import re

from . import seam

BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '%': operator.mod,
       '**': operator.pow, '/': operator.truediv, '==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le,
       '>': operator.gt, '>=': operator.ge, '&': operator.and_, '|': operator.or_}
UN = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'not': operator.invert}


class SimFault(Exception):
    """an ordinary exception planned by the simulator"""


class SimInterrupt(KeyboardInterrupt):
    """an interrupt delivered inside user code"""


class SimDeep(BaseException):
    """an exception outside the Exception hierarchy (a cancellation, a test runner's outcome)"""


class SimExit(SystemExit):
    pass


FAULT_KINDS = {
    'error': lambda i: SimFault(f'injected {i}'),
    'interrupt': lambda i: SimInterrupt(f'injected {i}'),
    'memory': lambda i: MemoryError(f'injected {i}'),
    'exit': lambda i: SimExit(f'injected {i}'),
    'oserror': lambda i: OSError(28, f'injected {i}'),
    'recursion': lambda i: RecursionError(f'injected {i}'),
    'stop': lambda i: StopIteration(f'injected {i}'),
    'typeerror': lambda i: TypeError(f'injected {i}'),
    'assertion': lambda i: AssertionError(f'injected {i}'),
    'generatorexit': lambda i: GeneratorExit(f'injected {i}'),
    'keyerror': lambda i: KeyError(f'injected {i}'),
    'attributeerror': lambda i: AttributeError(f'injected {i}'),
    'notimplemented': lambda i: NotImplementedError(f'injected {i}'),
    'stopasync': lambda i: StopAsyncIteration(f'injected {i}'),
    'unicode': lambda i: UnicodeEncodeError('ascii', 'é', 0, 1, f'injected {i}'),
    'timeout': lambda i: TimeoutError(f'injected {i}'),
    'index': lambda i: IndexError(f'injected {i}'),
    'deep': lambda i: SimDeep(f'injected {i}'),
    'zerodivision': lambda i: ZeroDivisionError(f'injected {i}'),
    'value': lambda i: ValueError(f'injected {i}'),
    'runtime': lambda i: RuntimeError(f'injected {i}'),
    'import': lambda i: ModuleNotFoundError(f'injected {i}'),
    'overflow': lambda i: OverflowError(f'injected {i}'),
    'brokenpipe': lambda i: BrokenPipeError(32, f'injected {i}'),
    'blocking': lambda i: BlockingIOError(11, f'injected {i}'),
    'eintr': lambda i: InterruptedError(4, f'injected {i}'),
    'connection': lambda i: ConnectionResetError(104, f'injected {i}'),
    'permission': lambda i: PermissionError(13, f'injected {i}'),
    'eof': lambda i: EOFError(f'injected {i}'),
    'lookup': lambda i: LookupError(f'injected {i}'),
    'buffer': lambda i: BufferError(f'injected {i}'),
    'warning': lambda i: UserWarning(f'injected {i}'),
    'name': lambda i: NameError(f'injected {i}'),
    'syntax': lambda i: SyntaxError(f'injected {i}'),
    'system': lambda i: SystemError(f'injected {i}'),
    'cancelled': lambda i: asyncio.CancelledError(f'injected {i}'),
    'group': lambda i: ExceptionGroup(f'injected {i}', [ValueError('a')]),
}
BODY_FAULTS = ['error', 'interrupt', 'memory', 'exit', 'oserror', 'recursion', 'typeerror', 'assertion', 'generatorexit', 'keyerror', 'attributeerror', 'notimplemented', 'zerodivision', 'stop', 'stopasync', 'unicode', 'timeout', 'index', 'deep',
               'value', 'runtime', 'import', 'overflow', 'brokenpipe', 'blocking', 'eintr', 'connection', 'permission', 'eof', 'lookup', 'buffer', 'warning', 'name', 'syntax', 'system', 'cancelled', 'group']
ITER_FAULTS = [k for k in BODY_FAULTS if k != 'stop']   # StopIteration ends an iterator, it does not fail


class Plan:
    """Planned faults: fire at the `at`-th arrival at fault point `fid`. Counts what really fired."""

    def __init__(self, faults, model=False):
        self.f = {}
        for x in faults:
            self.f.setdefault(x['fid'], {})[x['at']] = x['kind']
        self.n = {}
        self.fired = []
        self.exc = None
        self.model = model

    def arrive(self, fid):
        k = self.n.get(fid, 0)
        self.n[fid] = k + 1
        kind = self.f.get(fid, {}).get(k)
        if kind is not None:
            self.fired.append(kind)
            if self.model:
                from .model import Injected
                raise Injected(kind)
            self.exc = FAULT_KINDS[kind](f'{fid}:{k}')
            raise self.exc


class Real:
    def __init__(self, funcs=None, plan=None):
        self.L = seam.load()
        self.funcs = funcs or {}
        self.plan = plan
        self.made = {}
        self.depth = 0
        self.max_depth_seen = 0
        self.calls = 0
        self.on_call = None
        self.caught = []
        self.acts = []

    def act(self, a):
        """a settings change made by user code while it runs"""
        self.acts.append(a)
        if a[0] == 'reset':
            self.L.settings_reset()
        else:
            self.L.settings_set(a[1], a[2])

    def user_func(self, fid):
        f = self.made.get(fid)
        if f is None:
            spec = self.funcs[fid]
            f = self.made[fid] = self.make(spec)
        return f

    def make(self, spec):
        L = self.L
        names = [p[0] for p in spec['params']]
        body = spec['body']
        me = self

        def run(*a):
            me.calls += 1
            me.depth += 1
            if me.depth > me.max_depth_seen:
                me.max_depth_seen = me.depth
            try:
                if me.on_call:
                    me.on_call(spec, a)
                return me.ev(body, dict(zip(names, a)))
            finally:
                me.depth -= 1
        ns = {'run': run}
        exec(f"def fn({', '.join(names)}):\n    return run({', '.join(names)})", ns)
        fn = ns['fn']
        fn.__annotations__ = {p[0]: {'n': L.T_N, 's': L.T_S, 'd': L.T_D}[p[1]] for p in spec['params'] if p[1]}
        if spec.get('deco') == 'type':
            return L.anydice_type_casting()(fn)
        return L.anydice_casting()(fn)

    def ev(self, e, env=None):
        L = self.L
        if not isinstance(e, list):
            return e
        k = e[0]
        ev = self.ev
        if k == 'var':
            return env[e[1]]
        if k == 'seq':
            return L.get_seq([(L.myrange(ev(x[1], env), ev(x[2], env)) if isinstance(x, list) and x and x[0] == 'range' else ev(x, env)) for x in e[1:]])
        if k == 'rv':
            return L.RV(list(e[1]), list(e[2]))
        if k == 'roll':
            n = ev(e[1], env)
            return L.roll(n, ev(e[2], env))
        if k == 'roll1':
            return L.roll(ev(e[1], env))
        if k == 'bin':
            a = ev(e[2], env)
            return BIN[e[1]](a, ev(e[3], env))
        if k == 'un':
            return UN[e[1]](ev(e[2], env))
        if k == 'at':
            a = ev(e[1], env)
            return a @ ev(e[2], env)
        if k == 'len':
            return len(ev(e[1], env))
        if k == 'lib':
            args = [ev(x, env) for x in e[2:]]
            return getattr(L, e[1])(*args)
        if k == 'my':
            args = [ev(x, env) for x in e[2:]]
            return getattr(L, e[1])(*args)
        if k == 'filter':
            d = ev(e[1], env)
            return d.filter(ev(e[2], env))
        if k == 'mix':
            return L.RV.from_rvs([ev(x, env) for x in e[1]], list(e[2]))
        if k == 'if':
            return ev(e[2] if ev(e[1], env) else e[3], env)
        if k == 'fault':
            if self.plan is not None:
                self.plan.arrive(e[1])
            return ev(e[2], env)
        if k == 'user':
            args = [ev(x, env) for x in e[2:]]
            return self.user_func(e[1])(*args)
        if k == 'blank':
            return L.BlankRV()
        if k == 'none':
            return None
        if k == 'try':
            try:
                return ev(e[1], env)
            except BaseException as x:
                self.caught.append(type(x).__name__)
                return ev(e[2], env)
        if k == 'act':
            self.act(e[1])
            return ev(e[2], env)
        if k == 'strseq':
            return L.get_seq(list(e[1:]))
        if k == 'text':
            return e[1]
        if k == 'rolls':
            return L.roll(e[1])
        if k == 'D':
            return ev(e[1], env) * L.D * ev(e[2], env) if e[1] is not None else L.D * ev(e[2], env)
        if k == 'meth':
            return getattr(ev(e[2], env), e[1])(*[ev(x, env) for x in e[3:]])
        if k == 'call':
            return getattr(L, e[1])(*[ev(x, env) for x in e[2]], **e[3])
        if k == 'gwf':
            return L.gwf(*[ev(x, env) for x in e[1:]])
        raise ValueError(f'harness: unknown expression {e!r}')


# ------------------------------------------------------------------ observation
_ADDR = re.compile(r'0x[0-9a-f]+')


def canon_num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return ['i', v]
    if isinstance(v, float):
        return ['f', repr(v + 0.0 if v else 0.0)]
    return ['?', type(v).__name__, _ADDR.sub('', repr(v))]


def canon(v, deep=True):
    """Everything a caller can see of a value through the public API, as JSON"""
    L = seam.load()
    if v is None:
        return ['none']
    if isinstance(v, (bool, int, float)):
        return ['num', canon_num(v)]
    if isinstance(v, str):
        return ['text', v]
    if isinstance(v, L.BlankRV):
        return ['blank', str(v), len(v)]
    if isinstance(v, L.MetaSeq):
        return ['seq', [canon_num(x) for x in v], len(v), str(v)]
    if isinstance(v, L.MetaRV):
        out = ['rv', [canon_num(x) for x in v.vals], list(v.probs), len(v), str(v)]
        if deep:
            n = len(v)
            if n <= 40:
                out.append([_sel(k, v) for k in sorted({1, 2, n, n + 1} if n > 1 else {1})])
            out.append(observe(lambda: [[repr(a), repr(b)] for a, b in v.get_vals_probs()], raw=True))
            out.append(observe(lambda: [repr(v.mean()), repr(v.std())], raw=True))
        return out
    if isinstance(v, (tuple, list)):
        return ['tuple', [canon(x, deep) for x in v]]
    return ['other', type(v).__name__]


def _sel(k, v):
    def f():
        r = k @ v
        if isinstance(r, (int, float)):
            return ['num', canon_num(r)]
        return ['rv', [canon_num(x) for x in r.vals], list(r.probs)]
    return observe(f, raw=True)


def observe(fn, deep=True, raw=False):
    """Result of fn as JSON, or the exception it raised"""
    try:
        v = fn()
        return v if raw else canon(v, deep)
    except BaseException as e:
        return canon_exc(e)


def canon_exc(e):
    return ['exc', type(e).__name__]


# ------------------------------------------------------------------ comparison with the model
def model_view(c):
    """canonical observation -> what the model predicts (None: not comparable)"""
    if c[0] == 'num':
        return ('num', _val(c[1]))
    if c[0] == 'seq':
        return ('seq', [_val(x) for x in c[1]])
    if c[0] == 'rv':
        return ('rv', [(_val(v), p) for v, p in zip(c[1], c[2])], c[3])
    return tuple(c[:1])


def _val(x):
    return x[1] if x[0] == 'i' else (float(x[1]) if x[0] == 'f' else None)


def agrees(c, m, exact=False):
    """does canonical observation c agree with model value m? returns None or a description of the difference;
    exact: no weight on the way was large enough (10e30) to be scaled down"""
    from .model import MSeq, MDie, _Blank
    if isinstance(m, _Blank):
        return None if c[0] == 'blank' else f'expected the empty die, got {short(c)}'
    if isinstance(m, (int, float)):
        if c[0] == 'num' and _val(c[1]) == m:
            return None
        return f'expected {m}, got {short(c)}'
    if isinstance(m, MSeq):
        if c[0] == 'seq' and [_val(x) for x in c[1]] == list(m):
            return None
        return f'expected sequence {list(m)[:20]}, got {short(c)}'
    if isinstance(m, MDie):
        if c[0] != 'rv':
            return f'expected a die, got {short(c)}'
        tot = sum(c[2])
        if tot <= 0:
            return f'weights sum to {tot}'
        got = {}
        for v, p in zip(c[1], c[2]):
            if p:
                got[_val(v)] = got.get(_val(v), 0) + p
        if not exact and (tot > 10 ** 15 or len(m.w) > 300):
            # the library scales very large weights down: tiny outcomes may vanish
            bad = [v for v in set(got) | set(m.w) if abs(got.get(v, 0) / tot - float(m.w.get(v, 0))) > 1e-9]
        else:
            bad = [v for v in set(got) | set(m.w) if v not in got or v not in m.w or got[v] != m.w[v] * tot]
        if bad:
            v = sorted(bad, key=repr)[0]
            return f'P({v}) should be {m.w.get(v, 0)}, got {got.get(v, 0)}/{tot}'
        if not m.quirk and c[3] != m.n:
            return f'number of dice should be {m.n}, got {c[3]}'
        return None
    return f'model value {m!r}'


def short(c, n=160):
    s = str(c)
    return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------------ settings
def apply_settings(L, settings):
    for k, v in settings.items():
        L.settings_set(k, v)
