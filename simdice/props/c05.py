"""C05: settings change only when set or reset, and all-or-nothing.

A run is a history of valid and invalid settings changes, resets, evaluations, function calls, outputs
and program runs, succeeding and failing (raising bodies, sinks, iterators, truncated recursions,
programs that set something and then fail). A plain dictionary models the settings; after every
operation each setting is observed by its effect, in a forked copy of the process."""
import io
import sys

from ..common import *
from ..gen import Gen, gen_text, bounded_call, calls_for
from ..real import Plan, BODY_FAULTS, FAULT_KINDS

PROP = 'C05'
RULE = ('one run = one seeded history of 6 to 30 operations, every setting observed by its effect after each; distinct = distinct event '
        'logs; trivial = no setting was successfully changed')
COMPONENTS = {'real': ['all of dice_calc'], 'stub': ['sinks, bodies and iterators (generated)', 'standard output'], 'oracle': ['a dictionary of the last accepted values']}
ASSUMPTIONS = ['values on the border of validity (True or 2.0 as a number) are not used']
RUNS = {'quick': 2200, 'thorough': 60000}
SHRINK = ['ops']
SHRINK_EXPR = ['ops.*.expr']

DEF = dict(DEFAULTS, DEFAULT_OUTPUT_WIDTH=180, DEFAULT_PRINT_FN='stdout')
VALID = {'RV_TRUNC': [True, False, 'true', 'False', 'TRUE'], 'RV_IGNORE_ZERO_PROBS': [True, False, 'True', 'false'],
         'position order': ['lowest first', 'highest first'], 'explode depth': [1, 2, 3, 4, 6], 'maximum function depth': [1, 2, 3, 5, 8, 10, 14],
         'DEFAULT_OUTPUT_WIDTH': [1, 10, 40, 100, 180, 250], 'DEFAULT_PRINT_FN': ['@s0', '@s1', '@bad']}
INVALID = {'RV_TRUNC': [None, 1, 0, 'yes', '', 2.5, ['x']], 'RV_IGNORE_ZERO_PROBS': [None, 1, 0, 'no', '1', []],
           'position order': ['', 'Highest First', 'lowest', None, 1, 'highest first ', True, ['lowest first']], 'explode depth': [0, -1, 1.5, '3', None, [2], float('nan')],
           'maximum function depth': [0, -3, 2.5, '10', None, [], float('inf')], 'DEFAULT_OUTPUT_WIDTH': [0, -1, '80', None, 12.5],
           'DEFAULT_PRINT_FN': [None, 'print', 3, []]}
NAMES = ['Position Order', 'explode_depth', 'EXPLODE DEPTH', 'maximum function depth ', '', None, 5, 'INTERNAL_CURR_DEPTH', 'INTERNAL_CURR_DEPTH_WARNING_PRINTED', 'RV_TRUNCATE', 'rv_trunc', 'DEFAULT_PRINT', 'depth', ['explode depth'], 'output width']
PROGRAMS = ['set "explode depth" to {n}\noutput [explode d4]', 'set "position order" to "lowest first"\noutput 1 @ 2d6', 'set "maximum function depth" to {n}\nfunction: f N:n {{ result: 1 + [f N+1] }}\noutput [f 1]',
            'set "explode depth" to 0\noutput d4', 'set "nonsense" to 4\noutput d4', 'output [explode 2d4]\nset "explode depth" to {n}', 'set "position order" to "highest first"\noutput {{1,2}}@3d4 named "x"']


def generate(rng, idx, tier):
    ops = []
    g = Gen(rng, floats=rng.random() < 0.3, zero_probs=rng.random() < 0.3)
    progs = 0
    funcs = None
    for _ in range(rng.choice([6, 10, 16, 30])):
        x = rng.random()
        if x < 0.3:
            k = rng.choice(sorted(VALID))
            ops.append({'op': 'set', 'k': k, 'v': rng.choice(VALID[k])})
        elif x < 0.42:
            if rng.random() < 0.3:
                ops.append({'op': 'set', 'k': rng.choice(NAMES), 'v': rng.choice([1, True, 'lowest first', 3, None]), 'bad': 1})
            else:
                k = rng.choice(sorted(INVALID))
                ops.append({'op': 'set', 'k': k, 'v': rng.choice(INVALID[k]), 'bad': 1})
        elif x < 0.48:
            ops.append({'op': 'reset'})
        elif x < 0.62:
            ops.append({'op': 'eval', 'expr': g.bounded(rng.choice(['die', 'any']), rng.choice([0, 1, 2]), budget=1500)})
        elif x < 0.66:
            ops.append({'op': 'eval', 'expr': rng.choice([['call', 'explode_X', [['roll1', rng.choice([2, 3])]], {'depth': rng.choice([0, 1, 4])}], ['call', 'explode_X', [['roll', 2, 2]], {'depth': 'x'}], ['lib', 'explode_X', ['roll', 1, ['strseq', 'a', 'b']]], ['lib', 'explode_X', ['roll', 1, ['strseq', 'a', 2]]],
                        ['call', 'RV', [['text', 'ab'], ['text', 'cd']], {'truncate': True}], ['rv', [1.5, 2.5], [1, 0]], ['call', 'RV', [['text', '12'], ['text', '34']], {}], gen_text(rng)])})
        elif x < 0.78:
            f, call = bounded_call(rng, 2, faults=True, budget=1200)
            fids = ['F' + n + c for n in f for c in 'abc']
            act = rng.choice([None, None, ['reset'], ['set', 'explode depth', 5], ['set', 'position order', 'lowest first'], ['set', 'DEFAULT_OUTPUT_WIDTH', 33], ['set', 'explode depth', 0], ['set', 'maximum function depth', 4]])
            if act:
                f = {n: dict(s, body=['act', act, s['body']]) for n, s in f.items()}
            ops.append({'op': 'call', 'funcs': f, 'expr': call, 'faults': [{'fid': rng.choice(fids), 'at': rng.choice([0, 1, 2]), 'kind': rng.choice(BODY_FAULTS)}] if rng.random() < 0.6 else []})
        elif x < 0.86:
            ops.append({'op': 'output', 'expr': g.bounded('any', 0), 'kw': {'blocks_width': rng.choice([None, 5, 77]), 'named': rng.choice([None, 'a', 3]), 'cdf_cut': rng.choice([0, 5, 200, -1])}, 'sink': rng.choice([None, 's0', 's1', 'bad'])})
        elif x < 0.93:
            ops.append({'op': 'exec', 'text': rng.choice(['settings_set("explode depth", 3)\noutput(roll(2))', 'settings_set("explode depth", 4)\nraise ValueError("x")', 'settings_set("position order", "nope")\noutput(1)',
                        'settings_set("RV_TRUNC", True)\noutput(RV([1.5], [1]))\nsettings_set("RV_TRUNC", 7)', 'output(roll(3))', '1/0', 'settings_set("maximum function depth", 6)\n1/0', 'x = ']), 'safe': rng.random() < 0.4})
        elif x < 0.97:
            ops.append({'op': 'sample', 'expr': ['roll', 2, 4], 'n': rng.choice([None, 3, -1, 'x'])})
        elif progs < 1:
            progs += 1
            ops.append({'op': 'program', 'text': rng.choice(PROGRAMS).format(n=rng.choice([1, 3, 4])), 'safe': rng.random() < 0.5})
    return {'ops': ops}


def sinks():
    got = []

    def s0(t):
        got.append('s0')

    def s1(t):
        got.append('s1')

    def bad(t):
        got.append('bad')
        raise OSError(28, 'sink')
    return got, {'s0': s0, 's1': s1, 'bad': bad}


def look(L, got, names):
    """each setting, by its effect"""
    o = {}
    d = L.RV([1, 2, 3], [1, 1, 1])
    a = 1 @ L.roll(2, d)
    m = dict(zip(a.vals, a.probs))
    o['position order'] = 'highest first' if m.get(3, 0) > m.get(1, 0) else ('lowest first' if m.get(3, 0) < m.get(1, 0) else 'neither')
    x = L.explode_X(L.RV([1, 2], [1, 1]))
    o['explode depth'] = max(x.vals) / 2 - 1
    v = L.RV([1.5], [1]).vals
    o['RV_TRUNC'] = v[0] == 1
    o['RV_IGNORE_ZERO_PROBS'] = len(L.RV([1, 2], [1, 0]).vals) == 1
    t = L.output(L.RV([1, 2], [1, 1]), print_=False)
    o['DEFAULT_OUTPUT_WIDTH'] = len(t.split('\n')[-1]) - 8
    del got[:]
    sys.stdout = io.StringIO()
    try:
        L.output(1)
    except OSError:
        pass
    o['DEFAULT_PRINT_FN'] = (got + (['stdout'] if sys.stdout.getvalue() else []))
    o['DEFAULT_PRINT_FN'] = o['DEFAULT_PRINT_FN'][0] if len(o['DEFAULT_PRINT_FN']) == 1 else str(o['DEFAULT_PRINT_FN'])
    sys.stdout = io.StringIO()
    R = Real({'p': {'params': [['A', 'n']], 'deco': 'depth', 'body': ['user', 'p', ['var', 'A']]}})
    R.ev(['user', 'p', 0])
    o['maximum function depth'] = R.max_depth_seen
    return o


def observe_settings(L, got, names):
    return observe(lambda: look(L, got, names), raw=True)


def norm(k, v):
    if k in ('RV_TRUNC', 'RV_IGNORE_ZERO_PROBS') and isinstance(v, str):
        return v.lower() == 'true'
    if isinstance(v, str) and v.startswith('@'):
        return v[1:]
    return v


def run(trace):
    r = Run(trace)
    L = seam.load()
    got, fns = sinks()
    st = dict(DEF)
    changed = 0

    def accept(k, v):
        nonlocal changed
        st[k] = norm(k, v)
        changed += 1
    for op in trace['ops']:
        k = op['op']
        prog_sets = None
        if k == 'set':
            v = fns[op['v'][1:]] if isinstance(op['v'], str) and op['v'].startswith('@') else op['v']
            res = observe(lambda: L.settings_set(op['k'], v))
            if op.get('bad'):
                r.fault('invalid settings change')
                if res[0] != 'exc':
                    return r.fail('accepted-invalid', f'settings_set({op["k"]!r}, {op["v"]!r}) was accepted').result()
            else:
                if res[0] == 'exc':
                    return r.fail('rejected-valid', f'settings_set({op["k"]!r}, {op["v"]!r}) raised {res[1]}').result()
                accept(op['k'], op['v'])
        elif k == 'reset':
            res = observe(L.settings_reset)
            if res[0] == 'exc':
                return r.fail('reset-failed', f'settings_reset raised {res[1]}').result()
            st = dict(DEF)
        elif k == 'eval':
            res = observe(lambda: Real().ev(op['expr']), deep=False)
        elif k == 'call':
            plan = Plan(op['faults'])
            R = Real(op['funcs'], plan)
            res = observe(lambda: R.ev(op['expr']), deep=False)
            for a in R.acts:
                if a[0] == 'reset':
                    st = dict(DEF)
                elif a != ['set', 'explode depth', 0]:
                    accept(a[1], a[2])
                r.probe('settings changed inside a body')
            for f in plan.fired:
                r.fault('body raises ' + f)
        elif k == 'output':
            kw = dict(op['kw'])
            if op['sink']:
                kw['print_fn'] = fns[op['sink']]
            res = observe(lambda: L.output(Real().ev(op['expr']), **kw), deep=False)
        elif k == 'sample':
            res = observe(lambda: L.roller(Real().ev(op['expr']), op['n']), deep=False)
            res = res[:1] if res[0] != 'exc' else res
        elif k in ('exec', 'program'):
            sets = []

            def setter(name, value):
                # what the program asked for, recorded on its way to the real settings_set
                L.settings_set(name, value)
                sets.append((name, value))
            ex = L.safe_exec if op.get('safe') else L.unsafe_exec

            def go():
                text = L.compile_anydice(op['text']) if k == 'program' else op['text']
                return len(ex(text, {'settings_set': setter}))
            res = observe(go, deep=False)
            for a, b in sets:
                accept(a, b)
                r.probe('set by a program')
        if res[0] == 'exc' and k not in ('set', 'reset'):
            r.fault('failing ' + k)
            r.mark('errors', k + ' ' + res[1])
        r.note(k, op.get('k') or op.get('expr') or op.get('text'), op.get('v'), res[:2])
        now = fork_obs(observe_settings, L, got, fns)
        if not isinstance(now, dict):
            return r.fail('unusable', f'after {op} the settings cannot be observed any more: {now}').result()
        bad = [n for n in DEF if now[n] != st[n]]
        if bad:
            n = bad[0]
            return r.fail('wrong-setting', f'after {op} (which {"raised " + res[1] if res[0] == "exc" else "succeeded"}) "{n}" is {now[n]!r}, last accepted value {st[n]!r}').result()
    return r.result(trivial=not changed)
