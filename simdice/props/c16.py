"""C16: results are the same in every process, whatever the hash seed.

A run is one seeded batch of evaluations, outputs, samplings, compilations and program runs, executed in several
fresh interpreters that differ only in the hash seed the simulator gives them. Everything observable must agree,
bit for bit. (Error messages are compared by type only.)"""
import json
import os
import random
import subprocess
import sys

from ..common import *
from .. import corpus
from ..engine import HarnessError, ROOT
from ..gen import Gen, gen_text, WORDS, bounded_call
from ..prog import gen_program, text, mutate_text, EXTRA, FLAGSETS, LIB

PROP = 'C16'
RULE = ('one run = one seeded batch of 30 to 60 operations in 3 fresh interpreters with different hash seeds; distinct = distinct batches; '
        'trivial = every operation failed')
COMPONENTS = {'real': ['all of dice_calc, RestrictedPython, fresh interpreter processes'], 'stub': ['the hash seed of each process', 'standard output', 'seed of the random generator'], 'oracle': ['the same batch under another hash seed']}
ASSUMPTIONS = ['3 of the 2^32 hash seeds per batch, drawn from the run seed', 'error messages are compared for rejected programs only']
RUNS = {'quick': 320, 'thorough': 12000}
SHRINK = ['ops']


FAMILIES = [['ab', 'ac', 'ad', 'ae', 'af', 'ag'], ['abc', 'acb', 'bac', 'bca', 'cab', 'cba'], ['a', 'A', 'b', 'B', 'c', 'C'], ['1', '2', '10', '-1', '1.5', '01'], ['face 1', 'face 2', 'face 3', 'face 10', 'face 20'], ['é', 'ä', 'ö', 'ü', 'ß'], ['', ' ', '  ', '\t', '.'], ['red', 'blue', 'green', 'grey', 'gold', 'rust']]


def sym(rng):
    if rng.random() < 0.4:
        f = rng.choice(FAMILIES)
        return ['strseq'] + rng.sample(f, rng.randint(2, len(f) if len(f) < 6 else 5)) + rng.choice([[], [], [rng.randint(-1, 3)]])
    return ['strseq'] + [rng.choice([rng.choice(WORDS), rng.choice(['red', 'blue', 'green', 'x', 'yy', 'Z', 'a', 'b', 'c', 'd']), rng.randint(0, 4)]) for _ in range(rng.randint(1, 5))]


def symbolic(rng):
    """expressions over dice with text faces, where sets and dicts of texts are likely"""
    d = lambda: ['roll', rng.choice([1, 1, 2, 2, 3]), sym(rng)]
    x = rng.random()
    if x < 0.12:    # a sum of many different symbols
        f = rng.choice(FAMILIES)
        e = ['roll1', ['strseq', f[0]]]
        for w in rng.sample(f, rng.randint(3, len(f))):
            y = ['roll', rng.choice([1, 1, 2]), ['strseq', w] if rng.random() < .8 else ['strseq', w, rng.choice([1, rng.choice(f)])]]
            e = ['bin', '+', e, y] if rng.random() < .7 else ['bin', '+', y, e]
        y = rng.random()
        return e if y < .5 else ['call', 'output', [e], {'print_': False}] if y < .8 else ['filter', e, rng.choice([sym(rng), 1])]
    if x < 0.2:
        f = rng.choice(FAMILIES)
        return ['roll', rng.choice([4, 5]), ['strseq'] + rng.sample(f, rng.choice([2, 3, 4]))]
    if x < 0.36:
        return d()
    if x < 0.47:
        return ['bin', rng.choice(['+', '+', '==', '!=', '<', '*', '-']), d(), rng.choice([d(), 2, ['roll', 1, 3], sym(rng)])]
    if x < 0.55:
        return ['at', rng.choice([1, 2, ['seq', 1, 2], ['seq', 2, 3]]), ['roll', rng.choice([2, 3]), sym(rng)]]
    if x < 0.65:
        return ['meth', 'get_vals_probs', d(), rng.choice([0, 0.05, 0.2])]
    if x < 0.75:
        return ['call', 'output', [d()], {'print_': False, 'named': rng.choice([None, 'n']), 'cdf_cut': rng.choice([0, 5, 20]), 'blocks_width': rng.choice([None, 40])}]
    if x < 0.83:
        return ['filter', d(), rng.choice([sym(rng), ['seq', 1, 2], 1])]
    if x < 0.9:
        return ['mix', [d(), rng.choice([d(), 3]), ['roll', 1, 2]], [1, rng.randint(1, 4), 2]]
    return ['lib', rng.choice(['count_in', 'contains', 'explode_X', 'maximum_of', 'sort', 'reverse']), rng.choice([d(), sym(rng)])]


def generate(rng, idx, tier):
    g = Gen(rng, floats=rng.random() < 0.5, zero_probs=rng.random() < 0.4)
    ops = []
    for _ in range(rng.choice([20, 30, 45])):
        x = rng.random()
        if x < 0.3:
            ops.append({'op': 'eval', 'expr': symbolic(rng)})
        elif x < 0.4:
            ops.append({'op': 'eval', 'expr': gen_text(rng)})
        elif x < 0.62:
            ops.append({'op': 'eval', 'expr': g.bounded(rng.choice(['die', 'die', 'pool', 'any']), rng.choice([0, 1, 2]), budget=1500)})
        elif x < 0.7:
            ops.append({'op': 'eval', 'expr': ['filter', g.bounded('die', 1, budget=800), rng.choice([g.seq(0), ['seq', 1, 2, 7], 3, ['seq', 2.0, 3]])]})
        elif x < 0.76:
            ops.append({'op': 'eval', 'expr': ['call', 'output', [g.bounded('die', 1, budget=800)], {'print_': False, 'cdf_cut': rng.choice([0, 1, 5, 20, 50]), 'named': rng.choice([None, 'é'])}]})
        elif x < 0.82:
            ops.append({'op': 'sample', 'expr': rng.choice([g.bounded('die', 0, budget=300), ['roll', 1, sym(rng)]]), 'n': rng.choice([1, 5, 20]), 'seed': rng.randint(0, 999)})
        elif x < 0.85:
            k, v = change_one(rng)
            ops.append({'op': 'set', 'k': k, 'v': v})
        elif x < 0.88:
            f, c = bounded_call(rng, 2, budget=600)
            ops.append({'op': 'eval', 'expr': c, 'funcs': f})
        else:
            kw = {'redefine': rng.choice(sorted(LIB))} if rng.random() < 0.15 else {}
            t = text(gen_program(rng, budget=500, known=False, **kw))
            y = rng.random()
            if y < 0.2:
                t = mutate_text(rng, t)
            elif y < 0.35:
                t = rng.choice(EXTRA)
            elif y < 0.55:
                t += '\noutput ' + rng.choice(['2d{"a","b","c"}', 'd{"hit","miss"} + d{"x", "y", 3}', '[explode d{1,2,"q"}]', '3d{"r","g","b"} named "colours"', '{1,2}@3d{"r","g",2}'])
            elif y < 0.7:
                t = 'function: one A:n B:s {\n result: A+B\n}\nfunction: two C:d A:n {\n D: [one A A]\n result: C+D\n}\nfunction: three X Y Z {\n V: X W: Y U: Z\n result: V+W+U\n}\n' + t + '\noutput [two d6 3] + [three 1 2 3]'
            elif y < 0.75:       # several functions that do not exist: which one is reported?
                t += '\noutput ' + ' + '.join(f'[{w} {rng.randint(1, 3)}]' for w in rng.sample(['foo', 'bar', 'baz', 'qux', 'hit', 'do it', 'x of', 'absolut'], rng.randint(2, 4)))
            ops.append({'op': 'program', 'text': t, 'flags': rng.choice(FLAGSETS), 'safe': rng.random() < 0.5})
    return {'ops': ops, 'hashseeds': [rng.choice([0, rng.randrange(1, 2 ** 32)])] + [rng.randrange(1, 2 ** 32) for _ in range(2)]}


def one(op):
    L = seam.load()
    k = op['op']
    if k == 'eval':
        return observe(lambda: Real(op.get('funcs')).ev(op['expr']))
    if k == 'set':
        return observe(lambda: L.settings_set(op['k'], op['v']))
    if k == 'sample':
        def go():
            d = Real().ev(op['expr'])
            random.seed(op['seed'])
            return L.roller(d, op['n'])
        return observe(go)
    c = corpus.compile_obs(op['text'], op['flags'])
    if c[0] != 'py':
        return c
    from .c07 import exec_obs
    outs = exec_obs(L, c[1], {}, op['safe'])[0]
    L.settings_reset()
    return [c, outs]


def child():
    """entry point of the fresh interpreters: operations on stdin, observations on stdout"""
    import io
    import warnings
    warnings.simplefilter('ignore')
    ops = json.load(sys.stdin)
    real, sys.stdout, sys.stderr = sys.stdout, io.StringIO(), io.StringIO()
    seam.load()
    res = [one(op) for op in ops]
    real.write(json.dumps([res, hash('probe of the hash seed')], default=repr))
    real.flush()


def batch(ops, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, '-c', 'from simdice.props.c16 import child; child()'], input=json.dumps(ops), cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=100)
    if p.returncode:
        raise HarnessError(p.stderr[-2000:])
    return json.loads(p.stdout)


def run(trace):
    r = Run(trace)
    ops = trace['ops']
    got = [batch(ops, h) for h in trace['hashseeds']]
    r.fault('different hash seed', len({h for _, h in got}) - 1)
    base = got[0][0]
    for (res, _), h in zip(got[1:], trace['hashseeds'][1:]):
        for op, a, b in zip(ops, base, res):
            if a != b:
                return r.fail('differs', f'{op} gives {diff(a, b)} with hash seeds {trace["hashseeds"][0]} and {h}').result()
    r.steps = len(ops) * len(got)
    for op, a in zip(ops, base):
        r.probe(op['op'] + (' failing' if a[0] in ('exc', 'rejected') else ''))
    r.log.append(digest(base))
    return r.result(digest(ops), trivial=all(a[0] in ('exc', 'rejected') for a in base))


def diff(a, b):
    a, b = str(a), str(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    s = max(0, i - 80)
    return f'...{a[s:i + 120]}... and ...{b[s:i + 120]}...'
