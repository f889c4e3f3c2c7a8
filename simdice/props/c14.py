"""C14: interrupting an evaluation at any instant leaves the library sound.

A run is a history in one process: evaluations, settings changes, samplings, outputs, compilations and program
runs, several of them aborted by an asynchronous exception that the simulator delivers at one chosen bytecode
instruction (compilations: at one chosen line) of the library. The instant is chosen so that every instruction
the operation reaches is equally likely, however often it is executed. After every abort all live values and all
settings are observed, and what follows (the aborted operation itself, things that share its parts, and
unrelated ones) is compared with a fresh process."""
import random

from ..common import *
from ..common import Zygote, _one
from .. import corpus
from ..gen import Gen, gen_text
from ..model import MDie, MSeq
from ..prog import gen_program, text
from ..sched import run_interrupted, pick_points, hot_places, Interrupt
from .c03 import variants
from .c04 import deep_prints
from .c05 import look, sinks

PROP = 'C14'
RULE = ('one run = one seeded history of 4 to 14 operations, 1 to 4 of them aborted at a chosen instruction; distinct = distinct (event log, '
        'aborted instructions); trivial = no abort happened')
COMPONENTS = {'real': ['all of dice_calc'], 'stub': ['delivery of asynchronous exceptions', 'standard output', 'seed of the random generator'], 'oracle': ['forked process in which the library was never used', 'first observation of each live value']}
ASSUMPTIONS = ['asynchronous exceptions arrive between two bytecode instructions of library code; ones arriving inside the interpreter or the standard library surface at the same places',
               'functions with the depth limit are not interrupted here: an interrupt between the counting instruction and the protected region cannot be undone in Python (C01 covers exceptions from bodies)']
RUNS = {'quick': 1400, 'thorough': 60000}
CORPUS = {'quick': 40, 'thorough': 300}
SHRINK = ['ops']
SHRINK_EXPR = ['ops.*.expr']


def using(rng, names):
    """an operation on values that already exist"""
    v, w = ['var', rng.choice(names)], ['var', rng.choice(names)]
    if rng.random() < 0.3:     # the first use of a value is where lazily made parts are made
        return rng.choice([['meth', 'mean', v], ['call', 'output', [v], {'print_': False}], ['bin', '+', v, rng.choice([0, 1])], ['at', 1, v], ['meth', 'get_vals_probs', v]])
    return rng.choice([['meth', 'mean', v], ['meth', 'std', v], ['meth', 'get_cdf', v], ['meth', 'get_vals_probs', v], ['meth', 'get_vals_probs', v, 0.1], ['meth', '__str__', v], ['meth', 'output', v],
                       ['call', 'output', [v], {'print_': False}], ['call', 'output', [v], {'print_': False, 'show_pdf': False, 'cdf_cut': 5}], ['at', 1, v], ['at', ['seq', 1, 2], v], ['at', v, ['seq', 3, 4, 5]], ['bin', '+', v, w],
                       ['bin', rng.choice(['+', '*', '==', '<', '-', '//']), v, rng.choice([1, 2, w])], ['un', rng.choice(['neg', 'abs', 'not']), v], ['roll', 2, v], ['roll', v, 2], ['roll1', v], ['roll1', ['seq', v, w]], ['mix', [v, w], [1, 2]], ['mix', [v, 3, w], [1, 2, 3]],
                       ['filter', v, ['seq', 1, 2]], ['seq', v, w], ['lib', 'explode_X', v], ['lib', 'highest_of_X_and_X', v, w], ['lib', 'count_X_in_X', 1, v], ['lib', 'sort_X', v], ['lib', 'X_contains_X', v, 2], ['len', v], ['meth', '__round__', v], ['meth', '__hash__', v]])
TEXTS = None


def small(rng):
    """a library function or operation, each as likely as the others, on small operands"""
    d = lambda: rng.choice([['roll1', rng.choice([2, 3, 4, 6])], ['rv', [1, 2, 5], [1, 0, 3]], ['rv', [0, 1], [1, 2]], ['roll', 2, 3]])
    p = lambda: ['roll', rng.choice([1, 2, 2, 3, 4]), rng.choice([2, 3, 4, ['rv', [1, 2, 4], [1, 2, 1]], ['seq', 0, 1, 1]])]
    n = lambda: rng.choice([0, 1, 1, 2, 3])
    s = lambda: ['seq'] + [rng.randint(0, 5) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    a = lambda: rng.choice([d, n, s, p])()
    return rng.choice([
        lambda: ['lib', 'absolute_X', rng.choice([d(), -2, ['un', 'neg', d()]])], lambda: ['lib', 'X_contains_X', rng.choice([s, p])(), rng.choice([n, d])()], lambda: ['lib', 'count_X_in_X', rng.choice([n, s])(), rng.choice([s, p])()], lambda: ['lib', 'explode_X', d()],
        lambda: ['call', 'explode_X', [d()], {'depth': rng.choice([0, 1, 3])}], lambda: ['lib', 'highest_X_of_X', n(), p()], lambda: ['lib', 'lowest_X_of_X', n(), p()], lambda: ['lib', 'middle_X_of_X', n(), p()], lambda: ['lib', 'highest_of_X_and_X', a(), d()], lambda: ['lib', 'lowest_of_X_and_X', d(), a()],
        lambda: ['lib', 'maximum_of_X', d()], lambda: ['lib', 'reverse_X', rng.choice([s, p])()], lambda: ['lib', 'sort_X', rng.choice([s, p])()], lambda: ['gwf', rng.choice([1, 2]), rng.choice([4, 6])], lambda: ['at', rng.choice([1, 2, ['seq', 1, 2], ['seq', 3]]), p()], lambda: ['at', p(), ['seq', 3, 1, 2]],
        lambda: ['at', rng.choice([1, 2]), s()], lambda: ['filter', d(), s()], lambda: ['mix', [d(), n(), p()], [1, 2, 3]], lambda: ['roll', d(), 3], lambda: ['roll', s(), d()], lambda: ['roll1', ['seq', d(), 1, d()]], lambda: ['bin', rng.choice(['+', '-', '*', '//', '**', '==', '<', '>=', '!=', '&', '|']), a(), d()],
        lambda: ['bin', rng.choice(['+', '*', '==', '<']), s(), rng.choice([s, d, n])()], lambda: ['un', rng.choice(['neg', 'abs', 'not', 'pos']), d()], lambda: ['meth', rng.choice(['mean', 'std', 'get_cdf', 'get_vals_probs', '__round__', '__floor__', '__ceil__', '__str__']), a() if rng.random() < .2 else d()],
        lambda: ['call', 'output', [a()], {'print_': False, 'show_pdf': rng.random() < .5, 'named': rng.choice([None, 'x']), 'cdf_cut': rng.choice([0, 5]), 'blocks_width': rng.choice([None, 20])}],
        lambda: ['rolls', rng.choice(['2d6', 'd4', '3d3'])], lambda: ['D', rng.choice([1, 2]), rng.choice([2, 4])], lambda: ['seq', n(), s(), d(), ['range', 1, 3]], lambda: ['roll', 2, ['strseq', 'a', 'b']], lambda: ['bin', '+', ['roll', 1, ['strseq', 'a', 'b']], ['roll', 1, ['strseq', 'b', 'c']]]])()


class SimTimeout(Exception):
    """what an alarm handler raises"""


EXC = {'interrupt': Interrupt, 'memory': MemoryError, 'timeout': SimTimeout}
SETS = {'RV_TRUNC': [True, False], 'RV_IGNORE_ZERO_PROBS': [True, False], 'position order': ['lowest first', 'highest first'], 'explode depth': [1, 3, 4],
        'maximum function depth': [1, 3, 7, 12], 'DEFAULT_OUTPUT_WIDTH': [30, 99]}
DEF = dict(DEFAULTS, DEFAULT_OUTPUT_WIDTH=180)


def prepare(seed, tier):
    global TEXTS
    rng = random.Random(f'C14 corpus {seed}')
    TEXTS = [text(gen_program(rng, budget=600, sets=False)) for _ in range(CORPUS[tier])]
    corpus.build([(t, None) for t in TEXTS])


def generate(rng, idx, tier):
    g = Gen(rng, floats=rng.random() < 0.3, zero_probs=rng.random() < 0.3)
    ops, made, names, menv = [], [], [], {}

    def keep(op):
        """later operations may use the value this one makes, if it is known to be small"""
        try:
            v = Model(None, budget=900).ev(op['expr'], menv)
        except Exception:
            return
        if isinstance(v, MSeq) and len(v) <= 8 or isinstance(v, MDie) and len(v.w) <= 30 and v.n <= 5:
            op['keep'] = f'K{len(names)}'
            names.append(op['keep'])
            menv[op['keep']] = v

    def expr(st):
        x = rng.random()
        if names and x < 0.45:
            for _ in range(10):
                e = using(rng, names)
                try:
                    Model(None, budget=900).ev(e if e[0] not in ('meth', 'call') else e[2] if e[0] == 'meth' else e[2][0], menv)
                    return e
                except TooBig:
                    continue
                except Exception:
                    return e
        x = rng.random()
        if made and x < 0.35:
            e = rng.choice(made)
            return e if rng.random() < 0.6 else variants(rng, e)
        if x < 0.5:
            e = gen_text(rng)
        else:
            e = g.bounded(rng.choice(['die', 'die', 'pool', 'any']), rng.choice([0, 0, 1, 2]), budget=900)
        made.append(e)
        return e
    cuts = 0
    sweep = rng.random() < 0.4      # every library function and operation, also under other settings
    if sweep and rng.random() < 0.7:
        for k in rng.sample(sorted(SETS), rng.choice([1, 1, 2])):
            ops.append({'op': 'set', 'k': k, 'v': rng.choice(SETS[k])})
    if rng.random() < 0.7:
        for _ in range(rng.choice([1, 2])):
            ops.append({'op': 'eval', 'expr': g.bounded(rng.choice(['die', 'die', 'pool', 'seq']), rng.choice([0, 0, 1]), budget=300)})
            keep(ops[-1])
    for _ in range(rng.choice([3, 5, 8, 12])):
        cut = cuts < 4 and rng.random() < 0.5
        x = rng.random()
        if sweep and x < 0.7:
            op = {'op': 'eval', 'expr': small(rng)}
            made.append(op['expr'])
        elif x < 0.62:
            op = {'op': 'eval', 'expr': expr(None)}
        elif x < 0.72:
            k = rng.choice(sorted(SETS))
            op = {'op': 'set', 'k': k, 'v': rng.choice(SETS[k])}
        elif x < 0.78:
            op = {'op': 'reset'}
        elif x < 0.85:
            op = {'op': 'sample', 'expr': rng.choice([['roll', 2, 6], ['roll1', 20], ['rv', [1, 2, 3], [1, 0, 4]], expr(None)]), 'n': rng.choice([None, 1, 7]), 'seed': rng.randint(0, 99)}
        elif x < 0.9:
            op = {'op': 'exec', 'text': rng.choice(['output(roll(2, 6))', 'A = roll(3, 4)\noutput(1 @ A)\noutput(A, named="x")', 'output(explode_X(roll(4)))\noutput(get_seq([1, myrange(2, 4)]))', 'output(highest_X_of_X(2, roll(3, 4)))\noutput(roll(3, 4) > 5)']), 'safe': rng.random() < 0.5}
        elif x < 0.93:
            op = {'op': 'compile', 'text': rng.choice(TEXTS)}
        else:
            op = {'op': 'eval', 'expr': ['call', 'output', [expr(None)], {'print_': False, 'named': rng.choice([None, 'x'])}]}
        if cut:
            cuts += 1
            op['cut'] = {'pick': rng.randint(0, 1 << 30), 'kind': rng.choice(['interrupt'] * 5 + ['memory', 'timeout'])}
            if op['op'] == 'eval' and rng.random() < 0.6:
                ops.append(op)
                op = {'op': 'eval', 'expr': op['expr']}
        elif op['op'] == 'eval' and rng.random() < 0.4:
            keep(op)
        ops.append(op)
    if not cuts:
        ops.insert(rng.randint(0, len(ops)), {'op': 'eval', 'expr': expr(None), 'cut': {'pick': rng.randint(0, 1 << 30), 'kind': 'interrupt'}})
    for _ in range(2):
        ops.append({'op': 'eval', 'expr': rng.choice(made or [['roll', 2, 6]])})
    return {'ops': ops}


# ---------------------------------------------------------------- the operations
def perform(op, settings=None, sources=()):
    """the operation's observation; in a fresh process: the values it uses are made first, each under its settings"""
    L = seam.load()
    env = {}
    if settings is not None:
        for name, (expr, st) in sorted(sources, key=lambda x: int(x[0][1:])):
            L.settings_reset()
            apply_settings(L, st)
            env[name] = Real().ev(expr, dict(env))
        if sources:
            L.settings_reset()
        apply_settings(L, settings)
    k = op['op']
    if k == 'eval':
        return observe(lambda: Real().ev(op['expr'], env))
    return observe(lambda: act(L, op, env), raw=True)


def uses(e):
    """names of the values an expression uses"""
    if isinstance(e, list):
        if len(e) == 2 and e[0] == 'var':
            return {e[1]}
        return set().union(*map(uses, e))
    return set()


def act(L, op, env=None):
    k = op['op']
    if k == 'eval':
        return Real().ev(op['expr'], env)
    if k == 'set':
        return L.settings_set(op['k'], op['v'])
    if k == 'reset':
        return L.settings_reset()
    if k == 'sample':
        d = Real().ev(op['expr'], env)
        random.seed(op['seed'])
        return canon(L.roller(d, op['n']))
    if k == 'exec':
        ex = L.safe_exec if op['safe'] else L.unsafe_exec
        return [[[canon(a, deep=False) for a in args], sorted(kw.items())] for args, kw in ex(op['text'])]
    if k == 'compile':
        return L.compile_anydice(op['text'])
    raise ValueError(k)


def mode(op):
    if op['op'] == 'compile':
        return dict(opcode=False, cap=40)
    return dict(opcode=True, cap=3000)


def record(op, env):
    sites = []
    L = seam.load()
    try:
        run_interrupted(lambda: act(L, op, env), seam.SRC, None, record=sites, **mode(op))
    except BaseException:
        pass
    return sites


BRANCHES = 6


def choose(op, env):
    """instants for the interrupt of the history itself and for the branches"""
    rng = random.Random(op['cut']['pick'])
    sites = record(op, env)
    out = []
    for _ in range(1 + BRANCHES):
        pts = pick_points(rng, sites, 1, hot_places(seam.SRC) if rng.random() < 0.4 else None, rng.random() < 0.5)
        out += pts
    return out


def branch(op, env, live, at, kind):
    """in a copy of the process: the operation interrupted at this instant, again, and what became of the live values"""
    L = seam.load()
    site = []
    try:
        run_interrupted(lambda: act(L, op, env), seam.SRC, at, exc=EXC[kind], **mode(op))
    except BaseException as e:
        site = where(e)
    now = fork_obs(settings_now, L)
    again = observe(lambda: act(L, op, env))
    return [again, deep_prints(L, live), site, now]


def where(e):
    out = []
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
        if tb.tb_frame.f_code.co_filename.startswith(seam.SRC):
            out = [tb.tb_frame.f_code.co_qualname, tb.tb_lineno]
    return out


def settings_now(L):
    got, fns = sinks()
    return observe(lambda: look(L, got, fns), raw=True)


def run(trace):
    r = Run(trace)
    z = Zygote()
    try:
        body(r, trace, z)
    finally:
        z.close()
    return r.result(trivial=not r.faults)


def fresh_result(z, op, st, used, made_by):
    need, todo = {}, list(used)
    while todo:
        name = todo.pop()
        if name not in need:
            need[name] = made_by[name]
            todo += uses(made_by[name][0])
    return z.ask(perform, op, {a: b for a, b in st.items() if DEF[a] != b}, sorted(need.items()))


def body(r, trace, z):
    L = seam.load()
    st = dict(DEF)
    live, first, first_deep = {}, {}, {}
    env, made_by = {}, {}
    ops = trace['ops'] = [dict(o) for o in trace['ops']]
    for n, op in enumerate(ops):
        k = op['op']
        cut = op.get('cut')
        used = uses(op.get('expr'))
        if used - set(env):
            continue      # a value it uses could not be made
        if cut:
            if 'at' not in cut:
                pts = fork_obs(choose, op, env)
                if not all(isinstance(x, int) for x in pts):
                    pts = []
                op['cut'] = cut = dict(cut, at=pts[0] if pts else None, branches=pts[1:] if k == 'eval' else [])
            if cut.get('branches'):
                want = fresh_result(z, op, st, used, made_by)
                before = fork_obs(deep_prints, L, live) if live else {}
                for at in cut['branches']:
                    b = fork_obs(branch, op, env, live, at, cut['kind'])
                    r.fault(f"{cut['kind']} during {k} (branch)")
                    r.note('branch', at, digest(b))
                    bad = None
                    if b[0] == 'gone':
                        bad = 'the process died'
                    elif not isinstance(b[3], dict):
                        bad = f'the settings cannot be observed: {b[3]}'
                    elif any(b[3][name] != st[name] for name in DEF):
                        name = next(x for x in DEF if b[3][x] != st[x])
                        bad = f'"{name}" is {b[3][name]!r}, before {st[name]!r}'
                    elif b[0] != want:
                        bad = f'it then gives {short(b[0], 300)}, {short(want, 300)} in a fresh process'
                    elif b[1] != before:
                        name = next(x for x in before if b[1][x] != before[x])
                        bad = f'the value {name} = {made_by[name][0]} changed: {short(before[name], 300)} -> {short(b[1][name], 300)}'
                    if bad:
                        op['cut'] = dict(cut, branches=[at])
                        return r.fail('after-interrupt', f'{op["expr"]} interrupted at step {at} ({b[2] if len(b) > 2 else ""}): {bad}')
                    r.mark('interrupted places', f'{k} {b[2]}')
            hit = []
            site = []

            def go():
                try:
                    hit.append(run_interrupted(lambda: act(L, op, env), seam.SRC, cut['at'], exc=EXC[cut['kind']], **mode(op))[0])
                except EXC[cut['kind']] as e:
                    hit.append(True)
                    site[:] = where(e)
                except BaseException as e:
                    hit.append(cut['at'] is not None)
            if cut['at'] is not None:
                go()
            fired = bool(hit and hit[0])
            if fired:
                r.fault(f"{cut['kind']} during {k}")
                r.mark('interrupted places', f'{k} {site}')
            r.note('cut', k, op.get('expr') or op.get('text') or op.get('k'), cut['at'], fired, site[:1])
            new = dict(st)
            if k == 'set':
                new[op['k']] = op['v']
            elif k == 'reset':
                new = dict(DEF)
            now = fork_obs(settings_now, L)
            if not isinstance(now, dict):
                return r.fail('unusable', f'after {k} {op} was interrupted at {site} the settings cannot be observed: {now}')
            for name in DEF:
                if now[name] != st[name] and now[name] != new[name]:
                    return r.fail('wrong-setting', f'after {op} was interrupted at {site}, "{name}" is {now[name]!r}; before {st[name]!r}, asked for {new[name]!r}')
            st = {name: now[name] for name in DEF}
            st['explode depth'] = int(st['explode depth'])
        elif k == 'set':
            observe(lambda: L.settings_set(op['k'], op['v']))
            st[op['k']] = op['v']
            r.note(k, op['k'], op['v'])
        elif k == 'reset':
            observe(L.settings_reset)
            st = dict(DEF)
            r.note(k)
        else:
            kept = []
            if k == 'compile':
                c = corpus.TABLE.get(corpus.key(op['text'], None))
                want = c[1] if c and c[0] == 'py' else z.ask(perform, op)
            else:
                want = fresh_result(z, op, st, used, made_by)

            def keeping():
                v = Real().ev(op['expr'], env)
                kept.append(v)
                return v
            got = observe(keeping) if k == 'eval' else observe(lambda: act(L, op, env), raw=True)
            r.note(k, op.get('expr') or op.get('text'), digest(got))
            if got != want:
                cuts = [[o['op'], o['cut'].get('at')] for o in ops[:n] if o.get('cut')]
                return r.fail('after-interrupt', f'{op} gives {short(got, 300)} after interrupts {cuts}, {short(want, 300)} in a fresh process')
            if op.get('keep') and kept and isinstance(kept[0], (L.MetaRV, L.MetaSeq)):
                name = op['keep']
                env[name] = kept[0]
                made_by[name] = (op['expr'], {a: b for a, b in st.items() if DEF[a] != b})
                live[name] = kept[0]
        if live and (cut or len(live) > len(first)):
            deep = fork_obs(deep_prints, L, live)
            if isinstance(deep, list):
                return r.fail('process-died', f'observing the live values after {op} ended the process')
            for name, v in live.items():
                now = observe(lambda: v, deep=False)
                if name not in first:
                    first[name], first_deep[name] = now, deep[name]
                elif now != first[name] or deep[name] != first_deep[name]:
                    return r.fail('value-changed', f'interrupting {op} changed a live value: {short(first[name])} -> {short(now)}; {short(first_deep[name], 300)} -> {short(deep[name], 300)}')
