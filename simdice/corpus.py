"""A seeded corpus of program texts with what a fresh process makes of each: the compiled text or the
rejection, and (for C07, C15, C16) the outputs. Built once per check, one process per entry."""
import json
import random
import re

from . import seam
from .engine import parallel
from .common import fork_obs
from .prog import gen_program, text, mutate_text, EXTRA, FLAGSETS, LIB

TABLE = {}
_ADDR = re.compile(r'0x[0-9a-f]+')


def key(t, flags):
    return json.dumps([t, flags], sort_keys=True)


def compile_obs(t, flags=None):
    L = seam.load()
    try:
        return ['py', L.compile_anydice(t, flags=flags) if flags is not None else L.compile_anydice(t)]
    except BaseException as e:
        return ['rejected', type(e).__name__, _ADDR.sub('', str(e))]


def _entry(tf):
    return compile_obs(tf[0], dict(tf[1]) if tf[1] is not None else None)


def expect(t, flags):
    """what compiling t with flags gives as the first thing in a fresh process (only before first use here)"""
    k = key(t, flags)
    if k not in TABLE:
        TABLE[k] = fork_obs(_entry, (t, flags))
    return TABLE[k]


def texts(rng, n, bad=0.35, flags=True):
    """n (text, flags) pairs"""
    out = []
    for i in range(n):
        kw = {}
        if rng.random() < 0.15:
            kw['redefine'] = rng.choice(sorted(LIB))
        t = text(gen_program(rng, budget=1500, known=False, **kw))
        x = rng.random()
        if x < 0.12:
            t = rng.choice(EXTRA)
        elif x < 0.12 + bad:
            t = mutate_text(rng, t)
        out.append((t, rng.choice(FLAGSETS) if flags else None))
    return out


def build(pairs):
    pairs = [p for p in pairs if key(*p) not in TABLE]
    for p, r in zip(pairs, parallel(_entry, pairs)):
        TABLE[key(*p)] = r[1] if r[0] == 'ok' else ['gone', r[0]]
