"""C01: a failed function call never uses up the function-depth budget.

A run is a history of calls of (mutually) recursive decorated functions in which the simulator makes
bodies raise at planned arrivals (ordinary errors, interrupts, exits), lets user code swallow some of
them, makes argument iterators and result merging fail, breaks standard output while the truncation
warning is printed, exhausts the interpreter's stack, and resets or changes the settings from inside
bodies. After every operation a probe recursion measures how many nested calls really run."""
from ..common import *
from ..gen import bounded_call, calls_for, gen_funcs, gen_call
from ..model import Injected
from ..real import Plan, BODY_FAULTS, ITER_FAULTS, FAULT_KINDS
import sys
import io

PROP = 'C01'
RULE = ('one run = one seeded history of 3 to 14 calls with planned faults, each followed by a depth probe; distinct = distinct event '
        'logs; trivial = no fault fired and no settings change happened in the run')
COMPONENTS = {'real': ['decorators, casting, rolling and everything below'], 'stub': ['function bodies (generated)', 'standard output'], 'oracle': ['nesting counted inside the bodies', 'simdice.model']}
ASSUMPTIONS = ['asynchronous exceptions inside the depth bookkeeping itself are not injected: no Python code can exclude them']
RUNS = {'quick': 6000, 'thorough': 120000}
SHRINK = ['ops', 'ops.*.faults']
SHRINK_EXPR = ['ops.*.expr']


def wrap_try(rng, e):
    """user code that swallows failures of nested calls"""
    if isinstance(e, list) and e and e[0] == 'user' and rng.random() < 0.6:
        return ['try', e, rng.choice([0, 1, ['user', e[1]] + e[2:]])]
    if isinstance(e, list):
        return [wrap_try(rng, x) if isinstance(x, list) else x for x in e]
    return e


def wrap_act(rng, e, act):
    if isinstance(e, list) and e and e[0] == 'user' and rng.random() < 0.6:
        return rng.choice([['act', act, e], ['bin', '+', e, ['act', act, 0]]])
    if isinstance(e, list):
        return [wrap_act(rng, x, act) if isinstance(x, list) else x for x in e]
    return e


def generate(rng, idx, tier):
    ops = []
    st = {}
    for _ in range(rng.choice([3, 5, 8, 14])):
        x = rng.random()
        if x < 0.12:
            v = rng.choice([1, 2, 3, 4, 5, 6, 10, 13])
            st['maximum function depth'] = v
            ops.append({'op': 'set', 'v': v})
            continue
        if x < 0.17:
            st = {}
            ops.append({'op': 'reset'})
            continue
        act = rng.choice([['reset'], ['set', 'maximum function depth', rng.choice([1, 2, 3, 4, 7, 11])], ['set', 'explode depth', 3], ['set', 'RV_TRUNC', True]])
        bound = eff(st)
        if 0.67 <= x < 0.8:   # the call must stay small under the limit that a body sets, too
            deepest = 10 if act[0] == 'reset' else act[2] if act[1] == 'maximum function depth' else 1
            bound = dict(bound, **{'maximum function depth': max(deepest, bound['maximum function depth'])})
        funcs, call = bounded_call(rng, rng.choice([1, 2, 2, 3]), bound, faults=True, budget=2500)
        if x < 0.55:
            fids = ['F' + f + c for f in funcs for c in 'abc']
            faults = [{'fid': rng.choice(fids), 'at': rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 9]), 'kind': rng.choice(BODY_FAULTS)} for _ in range(rng.choice([1, 1, 2, 3]))]
            deco = 'casting'
            ops.append({'op': 'call', 'funcs': funcs, 'expr': call, 'faults': faults})
        elif x < 0.67:
            fids = ['F' + f + c for f in funcs for c in 'abc']
            faults = [{'fid': rng.choice(fids), 'at': k, 'kind': rng.choice(BODY_FAULTS)} for k in range(rng.choice([1, 2, 4]))]
            funcs = {f: dict(s, body=wrap_try(rng, s['body'])) for f, s in funcs.items()}
            ops.append({'op': 'call', 'funcs': funcs, 'expr': call, 'faults': faults, 'try': 1})
        elif x < 0.8:
            if act[0] == 'reset':
                st = {}
            elif act[1] in ('maximum function depth', 'RV_TRUNC'):
                st[act[1]] = act[2]
            funcs = {f: dict(s, body=wrap_act(rng, s['body'], act)) for f, s in funcs.items()}
            fids = ['F' + f + c for f in funcs for c in 'abc']
            faults = [{'fid': rng.choice(fids), 'at': rng.choice([0, 1, 2]), 'kind': rng.choice(BODY_FAULTS)}] if rng.random() < 0.5 else []
            ops.append({'op': 'call', 'funcs': funcs, 'expr': call, 'faults': faults, 'act': 1})
        elif x < 0.83:
            ops.append({'op': 'badargs', 'funcs': funcs, 'expr': call + [1, 2, 3] if rng.random() < .5 else call[:2]})
        elif x < 0.87:
            ops.append({'op': 'iterfail', 'at': rng.choice([0, 1, 2]), 'kind': rng.choice(ITER_FAULTS), 'nest': rng.choice([0, 1, 2])})
        elif x < 0.94:
            ops.append({'op': 'badresult', 'nest': rng.choice([0, 0, 1, 3]), 'arg': rng.choice([2, 2, ['roll1', 3], ['seq', 1, 2], ['seq'], ['blank'], ['none']]),
                        'inner': rng.choice([1, ['var', 'A'], ['roll1', 2]]), 'what': rng.choice([['text', 'abc'], ['none'], ['none'], ['at', ['roll1', 2], 3], ['bin', '//', 1, 0], ['blank'], ['seq'], ['seq', 1, 2], ['roll', 2, 2], 0])})
        elif x < 0.98:
            ops.append({'op': 'warnfail', 'kind': rng.choice(['oserror', 'interrupt', 'error'])})
        else:
            ops.append({'op': 'stack'})
    return {'ops': ops}


class BadOut(io.StringIO):
    def __init__(self, exc):
        super().__init__()
        self.exc = exc
        self.hits = 0

    def write(self, s):
        self.hits += 1
        raise self.exc


def failing(at, exc):
    for i in range(3):
        if i == at:
            raise exc
        yield i + 1


def chain(nest, what, inner):
    """g0 calls g1 calls ... whose innermost body is `what`"""
    fs = {}
    for i in range(nest + 1):
        body = what if i == nest else ['user', 'g%d' % (i + 1), inner]
        fs['g%d' % i] = {'params': [['A', 'n']], 'deco': 'depth', 'body': body}
    return fs


PROBE = {'p': {'params': [['A', 'n']], 'deco': 'depth', 'body': ['bin', '+', 1, ['user', 'p', ['bin', '+', ['var', 'A'], 1]]]},
         'q': {'params': [['A', 's'], ['B', 'd']], 'deco': 'depth', 'body': ['user', 'q', ['var', 'A'], ['var', 'B']]}}


def probe(r, limit, where, which):
    e = ['user', 'p', 0] if which % 3 else ['user', 'q', ['seq', 1, 2], ['roll', 2, 2]]
    R = Real(PROBE)
    got = observe(lambda: R.ev(e))
    r.note('probe', limit, R.max_depth_seen)
    if R.max_depth_seen != limit:
        r.fail('depth-budget', f'after {where}: a call is {"truncated" if R.max_depth_seen < limit else "nested"} at depth {R.max_depth_seen}, configured maximum is {limit}')
        return
    d, _ = model_check(e, got, {'maximum function depth': limit}, PROBE)
    if d:
        r.fail('depth-budget', f'after {where}: {d}')


def run(trace):
    r = Run(trace)
    L = seam.load()
    st = {}
    events = 0
    lim = lambda: eff(st)['maximum function depth']
    for i, op in enumerate(trace['ops']):
        k = op['op']
        where = k
        if k == 'set':
            r.note('set', observe(lambda: L.settings_set('maximum function depth', op['v'])))
            st['maximum function depth'] = op['v']
        elif k == 'reset':
            r.note('reset', observe(L.settings_reset))
            st = {}
        elif k in ('call', 'badargs'):
            plan = Plan(op.get('faults', []))
            R = Real(op['funcs'], plan)
            raised = []

            def go():
                try:
                    return R.ev(op['expr'])
                except BaseException as e:
                    raised.append(e)
                    raise
            before = dict(st)
            got = observe(go)
            for kind in plan.fired:
                r.fault('body raises ' + kind)
                events += 1
            if k == 'badargs':
                r.fault('wrong number of arguments')
                events += 1
            for a in R.acts:
                events += 1
                r.probe('settings changed inside a body')
                if a[0] == 'reset':
                    st = {}
                else:
                    st[a[1]] = a[2]
            r.probe('failure swallowed by user code', len(R.caught))
            r.note(k, op['expr'], digest(got), plan.fired, R.max_depth_seen)
            where = f'{op["expr"]} which {"raised " + got[1] if got[0] == "exc" else "returned"}'
            if k == 'call' and not op.get('try') and not op.get('act'):
                if plan.fired and (not raised or raised[0] is not plan.exc):
                    return r.fail('exception-lost', f'{where}: {plan.exc!r} raised in a body did not reach the caller').result()
                if not plan.fired:
                    d, _ = model_check(op['expr'], got, eff(before), op['funcs'])
                    if d:
                        return r.fail('wrong-result', f'{where} under {before}: {d}').result()
                if R.max_depth_seen > eff(before)['maximum function depth']:
                    return r.fail('depth-budget', f'{where}: {R.max_depth_seen} calls nested, maximum {eff(before)["maximum function depth"]}').result()
        elif k == 'iterfail':
            exc = FAULT_KINDS[op['kind']]('iter')
            R = Real()

            def deep(n):
                if n == 0:
                    return L.anydice_casting()(R_fn)(failing(op['at'], exc))
                return L.anydice_casting()(lambda: deep(n - 1))()

            def R_fn(A: L.T_S):
                return 1
            got = observe(lambda: deep(op['nest']))
            r.fault('argument iterator raises ' + op['kind'])
            events += 1
            r.note(k, got)
            where = f'a call whose argument iterator raised {op["kind"]}'
        elif k == 'badresult':
            R = Real(chain(op['nest'], op['what'], op['inner']))
            got = observe(lambda: R.ev(['user', 'g0', op['arg']]))
            r.fault('result cannot be used' if got[0] == 'exc' else 'no or unusual result')
            events += 1
            r.note(k, op['what'], got)
            where = f'a call whose body returned {op["what"]}'
        elif k == 'warnfail':
            exc = FAULT_KINDS[op['kind']]('stdout')
            old, sys.stdout = sys.stdout, BadOut(exc)
            try:
                R = Real(PROBE)
                got = observe(lambda: R.ev(['user', 'p', 0]))
                hits = sys.stdout.hits
            finally:
                sys.stdout = old
            if hits:
                r.fault('stdout raises ' + op['kind'])
                events += 1
            r.note(k, got, hits)
            where = 'a truncation warning that could not be printed'
        elif k == 'stack':
            got = observe(lambda: L.settings_set('maximum function depth', 100000))
            R = Real({'p': {'params': [['A', 'n']], 'deco': 'depth', 'body': ['user', 'p', ['var', 'A']]}})
            got = observe(lambda: R.ev(['user', 'p', 0]))
            r.fault('stack exhausted')
            events += 1
            r.note(k, got[:2])
            observe(lambda: L.settings_set('maximum function depth', lim()))
            where = 'a call that exhausted the stack'
        probe(r, lim(), where, i)
        if r.bad:
            return r.result()
    return r.result(trivial=not events)
