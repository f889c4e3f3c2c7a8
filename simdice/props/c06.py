"""C06: compiling depends only on the program text and flags.

A run is a history of compilations in one process: valid, damaged and hostile texts with different
flags (the same flags object used again and again), compilations aborted part-way by an interrupt at a
chosen line of the compiler, and executions in between. Each compilation is compared with the same
text and flags compiled as the first thing in a fresh process; flags objects must stay as they were."""
import random

from ..common import *
from .. import corpus
from ..prog import FEATURES
from ..sched import run_interrupted, Interrupt

PROP = 'C06'
RULE = ('one run = one seeded history of 3 to 9 compilations in one process; distinct = distinct event logs; trivial = fewer than two '
        'compilations')
COMPONENTS = {'real': ['dice_calc.parser (lexer, parser generator, resolver) and the library for executions'], 'stub': ['standard output'], 'oracle': ['the same compilation in a fresh process']}
ASSUMPTIONS = ['texts are drawn from a seeded corpus (size in coverage) of generated, damaged and hand-written programs']
RUNS = {'quick': 520, 'thorough': 9000}
CORPUS = {'quick': 420, 'thorough': 3000}
SHRINK = ['ops']
PAIRS = FEATS = None


def prepare(seed, tier):
    global PAIRS, FEATS
    rng = random.Random(f'C06 corpus {seed}')
    PAIRS = corpus.texts(rng, CORPUS[tier])
    FEATS = [(t, f) for t in FEATURES for f in (None, {}, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}, {'COMPILER_FLAG_OPERATOR_ON_INT': True}, {'COMPILER_FLAG_FUNC_LIB_CONFLICT': True})]
    corpus.build(PAIRS + FEATS)


def generate(rng, idx, tier):
    ops = []
    shared = rng.random() < 0.6
    feat = rng.choice([0, 0.3, 1])
    for _ in range(rng.choice([3, 4, 5, 7] if rng.random() > 0.015 else [40, 40, 130])):
        t, f = rng.choice(FEATS if rng.random() < feat else PAIRS)
        x = rng.random()
        if x < 0.72:
            ops.append({'op': 'compile', 'text': t, 'flags': f})
        elif x < 0.79 and ops:
            ops.append({'op': 'compile', 'text': rng.choice(ops)['text'] or t, 'flags': f})
        elif x < 0.87 and ops:
            ops.append({'op': 'compile', 'text': near(rng, rng.choice(ops)['text'] or t), 'flags': rng.choice([None, f])})
        elif x < 0.93:
            ops.append({'op': 'abort', 'text': t, 'flags': f, 'at': int(10 ** rng.uniform(0, 4.3))})
        else:
            ops.append({'op': 'exec', 'text': t, 'flags': f})
    ops.append({'op': 'compile', 'text': rng.choice(ops)['text'], 'flags': rng.choice([None, {}])})
    return {'ops': ops, 'shared_flags': shared}


def near(rng, t):
    """almost the same text"""
    spots = [i for i, c in enumerate(t) if c in ' 0123456789"\n' or c.isalpha()]
    if not spots:
        return t + '\n'
    i = rng.choice(spots)
    c = t[i]
    x = rng.random()
    if x < 0.2:
        return rng.choice(['\n' + t, t + '\n', ' ' + t, t + ' ', '\n\n\n' + t])
    if c == ' ':
        return t[:i] + rng.choice(['  ', '\n', '']) + t[i + 1:]
    if c.isdigit():
        return t[:i] + str((int(c) + 1) % 10) + t[i + 1:]
    if c == '"':
        return t[:i] + '" ' + t[i + 1:]
    if c == '\n':
        return t[:i] + '\n\n' + t[i + 1:]
    return t[:i] + c.swapcase() + t[i + 1:]


def run(trace):
    r = Run(trace)
    want = [corpus.expect(op['text'], op['flags']) if op['op'] == 'compile' else None for op in trace['ops']]
    L = seam.load()
    pool = {}
    n = 0
    for op, exp in zip(trace['ops'], want):
        k = op['op']
        f = op['flags']
        fl = None
        if f is not None:
            fk = digest(f)
            fl = pool.setdefault(fk, dict(f)) if trace['shared_flags'] else dict(f)
        if k == 'compile':
            n += 1
            got = corpus.compile_obs(op['text'], fl)
            r.note(k, digest([op['text'], f]), got[0])
            r.mark('texts', digest([op['text'], f]))
            r.mark('outcomes', got[0] if got[0] == 'py' else got[1] + got[2][:25])
            if got[0] != 'py':
                r.fault('rejected program')
            if got != exp:
                return r.fail('history-dependence', f'compiling {op["text"]!r} with {f} gives {short(got, 300)} after this history, {short(exp, 300)} in a fresh process').result()
        elif k == 'abort':
            def go():
                corpus_compile(L, op['text'], fl)
            fired = [False]

            def interrupted():
                fired[0], _ = run_interrupted(go, seam.SRC, op['at'], opcode=False, cap=400)
            try:
                interrupted()
                hit = fired[0]
            except Interrupt:
                hit = True
            except BaseException:
                hit = False
            if hit:
                r.fault('compilation interrupted')
            r.note(k, digest(op['text']), hit)
        else:
            def ex():
                return len(L.unsafe_exec(L.compile_anydice(op['text'])))
            got = observe(ex, deep=False)
            r.note(k, digest(op['text']), got)
            observe(L.settings_reset)
        if fl is not None and fl != f:
            return r.fail('flags-modified', f'compiling {op["text"]!r} changed the flags {f} to {fl}').result()
    return r.result(trivial=n < 2)


def corpus_compile(L, t, fl):
    return L.compile_anydice(t, flags=fl) if fl is not None else L.compile_anydice(t)
