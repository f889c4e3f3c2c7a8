"""Shared by the property modules: the pristine-process oracle, the model oracle, result building."""
import json

from . import seam
from .engine import fork_call, digest, HarnessError
from .model import Model, Unknown, TooBig
from .real import Real, observe, agrees, apply_settings, canon, short

DEFAULTS = {'RV_TRUNC': False, 'RV_IGNORE_ZERO_PROBS': False, 'position order': 'highest first', 'explode depth': 2, 'maximum function depth': 10}


class Run:
    """collects what one simulated run reports"""

    def __init__(self, trace):
        self.trace = trace
        self.log = []
        self.faults = {}
        self.probes = {}
        self.violation = None
        self.steps = 0
        self.distinct = {}

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def fail(self, cls, detail):
        if self.violation is None:
            self.violation = {'class': cls, 'detail': str(detail)[:1500]}
        self.log.append(['violation', cls])
        return self

    @property
    def bad(self):
        return self.violation is not None

    def note(self, *x):
        self.log.append(list(x))
        self.steps += 1

    def mark(self, name, *items):
        self.distinct.setdefault(name, set()).update(items)

    def result(self, sig=None, trivial=False):
        return dict(violation=self.violation, log=self.log, faults=self.faults, probes=self.probes, sig=sig or digest(self.log),
                    steps=self.steps, trivial=trivial, distinct=self.distinct, trace=self.trace)


def fork_obs(fn, *args):
    """observation of fn(*args) made in a forked child: the child's changes to the library are lost"""
    kind, v = fork_call(fn, *args, wall=60)
    if kind == 'ok':
        return v
    if kind == 'err':
        raise HarnessError(v)
    return ['gone', kind]


def _one(expr, settings, funcs):
    L = seam.load()
    try:
        apply_settings(L, settings)
    except Exception as e:
        return ['settings-rejected', type(e).__name__]
    return observe(lambda: Real(funcs).ev(expr))


class Pristine:
    """What an expression evaluates to as the first thing a fresh process does. Only usable before the
    library is first used in this process."""

    def __init__(self):
        self.cache = {}

    def eval(self, expr, settings=None, funcs=None):
        st = {k: v for k, v in (settings or {}).items() if DEFAULTS.get(k, None) != v or type(DEFAULTS.get(k)) is not type(v)}
        key = json.dumps([expr, sorted(st.items()), 0 if not funcs else funcs])
        if key not in self.cache:
            self.cache[key] = fork_obs(_one, expr, st, funcs)
        return self.cache[key]


def model_check(expr, got, settings=None, funcs=None, budget=60000):
    """None if the model agrees or has no opinion; else a description. Second value: whether it had one."""
    try:
        m = Model(settings, budget=budget, funcs=funcs).ev(expr)
    except (Unknown, TooBig):
        return None, False
    except Exception:
        return None, False   # an error case: which error is left to the pristine comparison
    return agrees(got, m), True


def gen_settings(rng, p=0.5, floats=True):
    st = {}
    if rng.random() < p:
        if rng.random() < 0.5:
            st['position order'] = rng.choice(['lowest first', 'highest first', 'lowest first'])
        if rng.random() < 0.4:
            st['explode depth'] = rng.choice([1, 3, 4, 5])
        if rng.random() < 0.3:
            st['RV_TRUNC'] = rng.choice([True, True, 'true'])
        if rng.random() < 0.3:
            st['RV_IGNORE_ZERO_PROBS'] = rng.choice([True, True, 'True'])
        if rng.random() < 0.3:
            st['maximum function depth'] = rng.choice([1, 2, 3, 4, 5, 7, 12, 15])
    return st


def eff(settings):
    """settings as the model wants them: defaults filled in, truth words converted"""
    s = dict(DEFAULTS)
    for k, v in settings.items():
        if k in ('RV_TRUNC', 'RV_IGNORE_ZERO_PROBS') and isinstance(v, str):
            v = v.lower() == 'true'
        s[k] = v
    return s


def change_one(rng):
    k = rng.choice(['RV_TRUNC', 'RV_IGNORE_ZERO_PROBS', 'position order', 'explode depth', 'maximum function depth'])
    v = {'RV_TRUNC': [True, False, True, 'true', 'FALSE'], 'RV_IGNORE_ZERO_PROBS': [True, False, True, 'True', 'false'],
         'position order': ['lowest first', 'highest first', 'lowest first'], 'explode depth': [1, 2, 3, 4, 5],
         'maximum function depth': [1, 2, 3, 5, 7, 10, 12]}[k]
    return k, rng.choice(v)


__all__ = ['DEFAULTS', 'Run', 'fork_obs', 'Pristine', 'model_check', 'gen_settings', 'eff', 'change_one', 'short', 'canon', 'observe', 'Real', 'Model', 'Unknown', 'TooBig', 'agrees', 'seam', 'digest', 'apply_settings']


class Zygote:
    """A process forked before the library was first used, which answers questions about what a fresh process
    does: each question is answered by a new fork of it."""

    def __init__(self):
        import os
        import pickle
        self.pickle, self.os = pickle, os
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                with os.fdopen(r1, 'rb') as i, os.fdopen(w2, 'wb') as o:
                    while True:
                        try:
                            fn, args = pickle.load(i)
                        except EOFError:
                            break
                        pickle.dump(fork_call(fn, *args, wall=60), o)
                        o.flush()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid = pid
        self.o, self.i = os.fdopen(w1, 'wb'), os.fdopen(r2, 'rb')

    def ask(self, fn, *args):
        self.pickle.dump((fn, args), self.o)
        self.o.flush()
        kind, v = self.pickle.load(self.i)
        if kind == 'ok':
            return v
        if kind == 'err':
            raise HarnessError(v)
        return ['gone', kind]

    def close(self):
        self.o.close()
        self.i.close()
        self.os.waitpid(self.pid, 0)
