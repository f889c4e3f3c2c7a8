"""C13: restricted execution never runs a program outside the sandbox.

A run is a history of restricted executions in one process. Benign programs must give what they give in a
fresh process; hostile ones (one forbidden construct from a grammar, placed in one of many contexts, after
some harmless statements) must be refused without the effect they try for. The simulator injects import and
lookup faults: the sandbox package, one of its modules or one of its parts is missing or raises, either from
the start of the process (then nothing of any program may run) or for a while in the middle of the history
(then hostile programs still must have no effect, and after the fault is gone everything is as before). Other
faults strike while the sandbox is in use: a part raises when called, the stack runs out, or an exception
arrives at a chosen step of the library or of RestrictedPython.

Every effect a hostile program could have is a call of a recording host function, a write to a host object,
or a file in a scratch directory made for the run and removed after it."""
import builtins
import importlib
import os
import shutil
import sys
import tempfile

from ..common import *
from ..prog import gen_program, text
from .. import corpus
import random

PROP = 'C13'
RULE = ('one run = one seeded history of 2 to 10 restricted executions with import faults; distinct = distinct event logs; trivial = no '
        'hostile program and no fault')
COMPONENTS = {'real': ['dice_calc.parser, RestrictedPython, the Python compiler'], 'stub': ['the import system answers as the simulator says', 'host objects', 'a scratch directory for the files hostile programs ask for'],
              'oracle': ['recorded effects', 'forked process in which the library was never used, for benign programs']}
ASSUMPTIONS = ['hostile programs come from a fixed grammar of forbidden constructs and contexts; an escape by a construct outside it is not looked for']
RUNS = {'quick': 2600, 'thorough': 60000}
CORPUS = {'quick': 40, 'thorough': 200}
SHRINK = ['ops']
POOL = None

RAW = ['output(roll(2, 6))', 'A = get_seq(1, 2, 3)\noutput(A)\noutput(roll(A))', 'def f(n):\n    return n + 1\noutput(f(roll(4)))',
       'for x in [1, 2, 3]:\n    output(roll(x, 4), named=str(x))', 'B = {}\nB["a"] = 3\noutput(B["a"])', 'a, b = 1, 2\noutput(a + b)',
       'L = [3, 1, 2]\nL[0] = 5\noutput(sorted(L))', 'output(getattr(roll(6), "mean")())', 'output(getattr(math, "floor")(2.5))',
       '@anydice_casting()\ndef foo_X(N: T_N):\n    return N * 2\noutput(foo_X(N=roll(6)))', 'output([x * 2 for x in range(4)])',
       'try:\n    output(1 // 0)\nexcept ZeroDivisionError:\n    output(7)', 'output(highest_X_of_X(1, roll(2, 6)))', 'class A:\n    pass\noutput(1)',
       'output(2)\nx = 1 // 0\noutput(3)', 'output(NOPE)', 'output(getattr(functools, "reduce")(lambda a, b: a + b, [1, 2, 3]))',
       'for a, b in [(1, 2), (3, 4)]:\n    output(a * b)', 'output(explode_X(roll(4)))', 'roll = 4\noutput(roll)', 'def getattr(a, b):\n    return 5\noutput(getattr(1, "x"))',
       'def output(*a):\n    return 3\noutput(4)', 'output(len(str(abs(-5))))', 'x = lambda a: a + roll(4)\noutput(x(2))', 'output(isinstance(roll(6), RV))']
# built-in names outside the safe set
NAMES = ['open', 'eval', 'exec', 'compile', 'globals', 'locals', 'vars', 'dir', 'type', 'object', 'super', 'input', 'breakpoint', 'memoryview', 'classmethod', 'staticmethod', 'property',
         'bytearray', 'iter', 'next', 'map', 'filter', 'all', 'any', 'enumerate', 'list', 'dict', 'set', 'sum', 'min', 'max', 'frozenset', 'reversed', 'hasattr', 'format', 'ascii', 'print', 'help', 'exit', 'quit', 'copyright', 'aiter']
# expressions that must not be evaluated; {F} is a file name in the scratch directory
EXPRS = ['open({F}, "w")', 'eval("1")', 'exec("PROBE(1)")', 'compile("1", "x", "eval")', 'globals()', 'locals()', 'vars(RV)', 'vars()', 'dir()', 'type(1)', 'type("A", (), {{}})',
         '__import__("os")', '__builtins__', '__name__', '__metaclass__', '_getitem_', '_write_', '_getiter_', '_x', '().__class__', '"".__class__', 'roll.__globals__', 'roll.__code__',
         'getattr((), "__class__")', 'getattr(roll, "__globals__")', 'getattr(RV, "__init__")', 'getattr(roll(6), "_source_die")', 'getattr(math, "__loader__")', 'getattr(random, "_os")', 'getattr(itertools, "__spec__")',
         'getattr(output, "__closure__")', 'getattr(getattr, "__globals__")', 'getattr(getattr, "__closure__")', 'getattr(HOST, "_secret")', 'HOST._secret', 'getattr(HOST, "__dict__")',
         '"{{0.__class__}}".format(1)', 'getattr("{{0.__class__}}", "format")(1)', 'getattr("{{a.__class__}}", "format_map")({{"a": 1}})', 'getattr(str, "format")("{{0.__class__}}", 1)', 'f"{{().__class__}}"', 'f"{{__builtins__}}"',
         'getattr((x for x in [1]), "gi_frame")', 'getattr((x for x in [1]), "gi_code")', 'getattr((lambda: 0), "__globals__")', '(lambda: 0).__globals__', '(lambda _a: 1)(1)', '[_a for _a in [1]]',
         'getattr(functools, "update_wrapper")(lambda: 0, roll, (), ("__globals__",))', 'getattr(functools, "wraps")(roll, (), ("__globals__",))(lambda: 0)', 'getattr(functools, "singledispatch")(lambda x: 0)',
         'getattr(functools, "_lru_cache_wrapper")', 'getattr(RV, "register")(int)', 'getattr(Seq, "register")(int)', 'setattr(RV, "sneak", 1)', 'setattr(HOST, "x", 9)', 'setattr(roll, "sneak", 1)', 'delattr(RV, "mean")', 'delattr(HOST, "x")',
         'setattr(math, "pi", 3)', 'delattr(math, "pi")', '__debug__x', 'RV.__subclasses__()', '(1).__class__.__base__.__subclasses__()', 'print("x")', 'print(1, 2)', 'getattr(HOST, "__class__", None)', 'getattr("x", "__class__", None, lambda a, b, c: 1) if False else ().__class__']
# what programs may use besides dice_calc: math, itertools, random, functools; any other module would be a way out
OFFERED = ['math', 'itertools', 'random', 'functools', 'string']
MODNAMES = sorted(x for x in sys.stdlib_module_names if not x.startswith('_') and x not in OFFERED)
EXPRS += ['getattr(getattr(string, "Formatter")(), "format")("{{0.__class__}}", 1)', 'getattr(getattr(string, "Formatter")(), "get_field")("0.__class__", (1,), {{}})', 'string.Formatter().vformat("{{0._secret}}", (HOST,), {{}})', 'string.Template("x")',
          'getattr(operator, "attrgetter")("__class__")(1)', 'operator.attrgetter("_secret")(HOST)', 'operator.methodcaller("__dir__")(HOST)', 'types.FunctionType(1, {{}})', 'inspect.currentframe()', 'sys.modules', 'builtins.open({F}, "w")', 'io.open({F}, "w")', 'os.open({F}, 65)',
          'getattr(functools, "reduce")(getattr, ("__class__",), 1)', 'getattr(functools, "partial")(getattr, 1)("__class__")', 'getattr(functools, "cached_property")(lambda a: 0)', 'getattr(functools, "partialmethod")(getattr)', 'getattr(functools, "total_ordering")(RV)',
          'getattr(itertools, "starmap")(getattr, [(1, "__class__")]).__next__()', 'sorted([1], key=lambda a: a.__class__)', 'sorted(["__class__"], key=lambda a: getattr(1, a))', 'tuple(getattr(itertools, "starmap")(getattr, [(1, "__class__")]))']
STMTS = ['import os', 'import math', 'import os.path as p', 'from os import path', 'from math import *', 'from dice_calc import settings', 'import importlib, sys', 'from . import x', '_x = 1', '__x__ = 1', 'def _f():\n    return 1', 'def f(_a):\n    return 1',
         'class _A:\n    pass', 'class A:\n    def __init__(self):\n        pass\nclass B(A):\n    _x = 1', 'for _a in [1]:\n    pass', 'RV.sneak = 1', 'HOST.x = 9', 'del HOST.x', 'roll.sneak = 1', 'math.pi = 3', 'del RV.mean', 'HOST.x += 1',
         'def g():\n    global __builtins__\n    __builtins__ = 1\ng()', 'with open({F}, "w") as h:\n    pass', 'try:\n    pass\nexcept Exception as _e:\n    pass', 'async def f():\n    pass', 'x = [1]\nx.__class__ = int', 'x: __import__("os") = 1', 'exec("PROBE(1)")',
         'import RestrictedPython', 'from functools import reduce', 'import dice_calc', 'assert __builtins__', 'raise __x', 'HOST._y = 1', 'a, HOST.x = 1, 2', 'for HOST.x in [4]:\n    pass', '(_q := 1)', '[b := 1, _c := 2]',
         'def f(x: "PROBE(1)"):\n    return 1\nd = getattr(functools, "singledispatch")(lambda x: 0)\ngetattr(d, "register")(f)',
         'def f():\n    return 1\ngetattr(functools, "update_wrapper")(f, roll, (), ("__globals__",))\ndef h():\n    return open({F}, "w")\nh()']
CONTEXTS = ['top', 'func', 'class', 'loop', 'if', 'finally', 'handler', 'nested', 'method', 'while', 'cast', 'after-error', 'else', 'with-output', 'swallow', 'in-function-swallow']
ECTX = ['plain', 'lambda', 'comp', 'default', 'cond', 'dictval', 'arg', 'subscript', 'deco', 'gen', 'named', 'bool', 'assign', 'aug']


def indent(s, n=4):
    return '\n'.join(' ' * n + x for x in s.split('\n'))


def wrap_expr(kind, e):
    return {'plain': f'PROBE({e})', 'lambda': f'q = lambda: {e}\nPROBE(q())', 'comp': f'[PROBE({e}) for i in [1, 2]]', 'default': f'def q(a={e}):\n    PROBE(a)\nq()', 'cond': f'PROBE({e} if 1 else 0)',
            'dictval': f'q = {{1: {e}}}\nPROBE(q)', 'arg': f'PROBE(1, k={e})', 'subscript': f'q = [{e}]\nPROBE(q[0])', 'deco': f'def q(a):\n    PROBE({e})\n    return a\n@q\ndef z():\n    return 1', 'gen': f'PROBE(tuple(({e}) for i in [1]))',
            'named': f'output(1, named=[{e}, PROBE(1)])', 'bool': f'PROBE([{e}] and 1)', 'assign': f'q = {e}\nPROBE(q)', 'aug': f'q = [1]\nq += [{e}]\nPROBE(q)'}[kind]


def wrap(kind, s):
    i = indent(s)
    return {'top': s, 'func': f'def go():\n{i}\ngo()', 'class': f'class K:\n{i}', 'loop': f'for k in [1, 2]:\n{i}', 'if': f'if 1 < 2:\n{i}', 'finally': f'try:\n    k = 1\nfinally:\n{i}', 'handler': f'try:\n    k = 1 // 0\nexcept ZeroDivisionError:\n{i}',
            'nested': f'def go():\n    def inner():\n{indent(s, 8)}\n    return inner\ngo()()', 'method': f'class K:\n    def go(self):\n{indent(s, 8)}\ngetattr(K(), "go")()', 'while': f'k = 1\nwhile k:\n    k = 0\n{i}',
            'cast': f'@anydice_casting()\ndef foo_X(N: T_N):\n{i}\n    return N\nfoo_X(N=roll(2))', 'after-error': f'try:\n    NOPE\nexcept NameError:\n    k = 1\n{s}', 'else': f'if 0:\n    k = 1\nelse:\n{i}',
            'with-output': f'output(roll(2, 6))\noutput(3, named="x")\n{s}', 'swallow': f'try:\n{i}\nexcept Exception:\n    k = 1', 'in-function-swallow': f'def go():\n    try:\n{indent(s, 8)}\n    except Exception:\n        k = 1\ngo()\noutput(3)'}[kind]


def hostile(rng):
    x = rng.random()
    if x < 0.3:
        body = wrap_expr(rng.choice(ECTX), rng.choice(NAMES) if rng.random() < 0.6 else rng.choice(MODNAMES))
    elif x < 0.72:
        body = wrap_expr(rng.choice(ECTX), rng.choice(EXPRS).replace('{{', '\x01').replace('}}', '\x02').replace('{F}', 'FILE').replace('\x01', '{').replace('\x02', '}'))
    else:
        body = rng.choice(STMTS).replace('{F}', 'FILE') + '\nPROBE(1)'
    ctx = rng.choice(CONTEXTS)
    return wrap(ctx, body), 'swallow' in ctx


# ---------------------------------------------------------------- faults
MODULES = ['RestrictedPython', 'RestrictedPython.Guards', 'RestrictedPython.Eval', 'RestrictedPython.compile', 'RestrictedPython.transformer', 'RestrictedPython._compat']
ERRORS = ['ModuleNotFoundError', 'ImportError', 'OSError', 'SyntaxError', 'RuntimeError', 'AttributeError', 'ValueError', 'MemoryError', 'KeyError', 'PermissionError', 'UnicodeDecodeError', 'KeyboardInterrupt', 'none']
CALL_ERRORS = ['RecursionError', 'RecursionError', 'NotImplementedError', 'TypeError', 'NameError', 'Exception', 'AssertionError', 'SystemExit', 'LookupError', 'InterruptedError', 'TimeoutError', 'StopIteration', 'IndexError']
PARTS = [['compile_restricted', ['RestrictedPython', 'RestrictedPython.compile']], ['safe_builtins', ['RestrictedPython', 'RestrictedPython.Guards']], ['safer_getattr', ['RestrictedPython.Guards', 'RestrictedPython']],
         ['full_write_guard', ['RestrictedPython.Guards', 'RestrictedPython']], ['guarded_iter_unpack_sequence', ['RestrictedPython.Guards', 'RestrictedPython']], ['default_guarded_getiter', ['RestrictedPython.Eval', 'RestrictedPython']],
         ['default_guarded_getitem', ['RestrictedPython.Eval', 'RestrictedPython']]]


def make_error(name, what):
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'x', 0, 1, what)
    if name in ('ModuleNotFoundError', 'ImportError'):
        return getattr(builtins, name)(what, name=what)
    return getattr(builtins, name)(what)


FAULT_NAMES = {'module': 'module missing', 'part': 'part missing', 'call': 'part raises when called', 'stack': 'stack nearly exhausted', 'step': 'exception at one step of the library or the sandbox'}


class Finder:
    def __init__(self, mod, err):
        self.mod, self.err, self.hits = mod, err, 0

    def find_spec(self, name, path=None, target=None):
        if name == self.mod or name.startswith(self.mod + '.'):
            self.hits += 1
            raise make_error(self.err, name)
        return None


def purge(prefix):
    gone = {k: sys.modules[k] for k in list(sys.modules) if k == prefix or k.startswith(prefix + '.')}
    for k in gone:
        del sys.modules[k]
    return gone


class Fault:
    """installs a fault in the import system; undo() heals it"""

    def __init__(self, spec):
        self.spec = spec
        self.saved = None
        self.finder = None
        self.attrs = []
        if spec[0] == 'module':
            self.saved = purge('RestrictedPython')
            if spec[2] == 'none':
                sys.modules[spec[1]] = None
            else:
                self.finder = Finder(spec[1], spec[2])
                sys.meta_path.insert(0, self.finder)
        elif spec[0] == 'stack':
            importlib.import_module('RestrictedPython')
            self.limit = sys.getrecursionlimit()
            f, depth = sys._getframe(), 0
            while f:
                f, depth = f.f_back, depth + 1
            sys.setrecursionlimit(depth + spec[1])
        elif spec[0] == 'step':
            importlib.import_module('RestrictedPython')
            self.left = spec[1]
            sys.settrace(self.trace)
        elif spec[0] == 'call':
            name, mods = spec[1]
            for m in mods:
                mod = importlib.import_module(m)
                if name in vars(mod):
                    self.attrs.append((mod, name, vars(mod)[name]))
                    setattr(mod, name, self.failing(vars(mod)[name], spec[2], spec[3]))
        else:
            name, mods = spec[1]
            for m in mods:
                mod = importlib.import_module(m)
                if name in vars(mod):
                    self.attrs.append((mod, name, vars(mod)[name]))
                    if spec[2] == 'none':
                        setattr(mod, name, None)
                    else:
                        delattr(mod, name)

    def failing(self, real, err, after):
        left = [after]

        def part(*args, **kwargs):
            if left[0] == 0:
                raise make_error(err, 'injected')
            left[0] -= 1
            return real(*args, **kwargs)
        return part

    def trace(self, frame, event, arg):
        if 'dice_calc' not in frame.f_globals.get('__name__', '') and not frame.f_globals.get('__name__', '').startswith('RestrictedPython'):
            return None
        if self.left == 0:
            self.left = -1
            sys.settrace(None)
            raise make_error(self.spec[2], 'injected')
        self.left -= 1
        return self.trace

    def undo(self):
        if self.spec[0] == 'stack':
            sys.setrecursionlimit(self.limit)
        if self.spec[0] == 'step':
            sys.settrace(None)
        if self.finder:
            sys.meta_path.remove(self.finder)
        if self.saved is not None:
            purge('RestrictedPython')
            sys.modules.update(self.saved)
        for mod, name, v in self.attrs:
            setattr(mod, name, v)


def gen_fault(rng, strict):
    x = rng.random()
    if x < 0.15 or strict and x < 0.1:
        part = PARTS[0] if strict else rng.choice(PARTS[:1] * 3 + [p for p in PARTS if p[0] != 'safe_builtins'])
        return ['call', part, rng.choice(ERRORS[:-1] + CALL_ERRORS), 0 if strict else rng.choice([0, 0, 0, 1, 2])]
    if x < 0.3 and not strict:
        return ['stack', rng.choice([8, 12, 16, 20, 25, 30, 35, 40, 45, 50, 60, 70])]
    if x < 0.45 and not strict:
        return ['step', rng.choice([rng.randrange(12), rng.randrange(60), rng.randrange(400), rng.randrange(3000)]), rng.choice(ERRORS[:-1] + CALL_ERRORS)]
    if rng.random() < 0.55:
        return ['module', rng.choice(MODULES), rng.choice(ERRORS)]
    return ['part', rng.choice(PARTS), 'gone' if strict else rng.choice(['gone', 'gone', 'none'])]


# ---------------------------------------------------------------- generation
def prepare(seed, tier):
    global POOL
    rng = random.Random(f'C13 corpus {seed}')
    progs = [text(gen_program(rng, budget=800, sets=False)) for _ in range(CORPUS[tier])]
    corpus.build([(t, None) for t in progs])
    POOL = list(RAW)
    for t in progs:
        c = corpus.expect(t, None)
        if c[0] == 'py':
            POOL.append(c[1])


def generate(rng, idx, tier):
    strict = rng.random() < 0.25
    ops = []
    for _ in range(rng.choice([1, 2, 3]) if strict else rng.choice([2, 3, 5, 8, 10])):
        x = rng.random()
        if x < (0.75 if strict else 0.4):
            op = {'op': 'benign', 'text': rng.choice(POOL or RAW)}
        elif x < 0.93 or strict:
            t, sw = hostile(rng)
            op = {'op': 'hostile', 'text': t, 'swallow': sw}
        else:
            op = {'op': 'unsafe', 'text': rng.choice(['import os\noutput(len(os.name) > 0)', 'def getattr(*a):\n  return 5\noutput(1)', '_x = 1\n__y = 2\noutput(_x)', 'output(type(1).__name__)', 'import builtins as b\noutput(1)', 'open = 3\neval = 4\noutput(open)', 'raise ValueError(1)', 'roll = 1\nRV = 2'])}
        if not strict and op['op'] != 'unsafe' and rng.random() < 0.32:
            op['fault'] = gen_fault(rng, False)
        if rng.random() < 0.5:
            op['globals'] = True
        ops.append(op)
    t = {'ops': ops, 'fault': gen_fault(rng, True) if strict else None}
    return t


# ---------------------------------------------------------------- running
class Host:
    def __init__(self):
        self.x = 1
        self._secret = 'secret'


def fresh(pytext, glob):
    return safe(seam.load(), pytext, {'PROBE': lambda *a, **k: None, 'HOST': Host(), 'FILE': '/nonexistent/x'} if glob else None)


def safe(L, pytext, glob):
    try:
        res = L.safe_exec(pytext, glob) if glob is not None else L.safe_exec(pytext)
    except BaseException as e:
        return ['exc', type(e).__name__]
    try:
        return ['outs', [[[canon(a, deep=False) for a in args], sorted((k, canon(v, deep=False)) for k, v in kw.items())] for args, kw in res]]
    except Exception as e:
        return ['strange', type(e).__name__]


def run(trace):
    r = Run(trace)
    tmp = tempfile.mkdtemp(prefix='c13-')
    try:
        body(r, trace, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return r.result(trivial=not (r.faults or r.probes.get('hostile programs')))


def body(r, trace, tmp):
    # expectations for the benign programs, before the library is used in this process
    want = [fork_obs(fresh, op['text'], bool(op.get('globals'))) if op['op'] == 'benign' and not trace.get('fault') else None for op in trace['ops']]
    start = None
    if trace.get('fault'):
        # the process starts with the fault: everything is imported anew
        purge('dice_calc')
        purge('RestrictedPython')
        seam.LIB = None
        start = Fault(trace['fault'])
        r.fault(f'{FAULT_NAMES[start.spec[0]]} from the start')
        r.mark('faults', str(start.spec))
        try:
            L = seam.load()
        except BaseException as e:
            r.note('the library refuses to load', type(e).__name__)
            return
    else:
        L = seam.load()
    for op, w in zip(trace['ops'], want):
        host = Host()
        hits = []
        f = os.path.join(tmp, 'x%d' % r.steps)
        glob = {'PROBE': lambda *a, **k: hits.append(1), 'HOST': host, 'FILE': f}
        if op['op'] == 'unsafe':
            try:
                L.unsafe_exec(op['text'])
            except BaseException:
                pass
            r.note('unsafe')
            continue
        fault = None
        if op.get('fault'):
            fault = Fault(op['fault'])
            r.fault(f"{FAULT_NAMES[op['fault'][0]]} during one run")
            r.mark('faults', str(op['fault']))
        try:
            if start is not None:
                glob['output'] = lambda *a, **k: hits.append('output')
                t = 'PROBE(1)\n' + op['text']
                obs = safe(L, t, glob)
            else:
                obs = safe(L, op['text'], glob if op['op'] == 'hostile' or op.get('globals') else None)
        finally:
            if fault:
                fault.undo()
        sneaky = effects(hits, host, f, tmp)
        r.note(op['op'], obs[0], obs[1] if obs[0] == 'exc' else len(obs[1]), sneaky)
        if op['op'] == 'hostile':
            r.probe('hostile programs')
            r.mark('hostile programs', digest(op['text']))
        if start is not None:
            if sneaky:
                return r.fail('ran without the sandbox', f'with {start.spec} statements of the program ran: {sneaky}; program {op["text"]!r}')
            if obs[0] == 'outs' and obs[1]:
                return r.fail('ran without the sandbox', f'with {start.spec} the program gave outputs {short(obs)}')
            continue
        if op['op'] == 'hostile':
            if sneaky:
                return r.fail('escape', f'{op["text"]!r} (fault {op.get("fault")}) had an effect: {sneaky}')
            if obs[0] != 'exc' and not op['swallow'] and not (fault and obs == ['outs', []]):
                return r.fail('not refused', f'{op["text"]!r} was not refused: {short(obs)}')
        elif not fault:
            if obs != w:
                return r.fail('run affected', f'{op["text"]!r} gave {short(obs)}, in a fresh process {short(w)}')


def effects(hits, host, f, tmp):
    out = []
    if hits:
        out.append('the program went on past the forbidden construct')
    if vars(host) != {'x': 1, '_secret': 'secret'}:
        out.append(f'a host object was changed to {vars(host)}')
    if os.path.exists(f) or os.listdir(tmp):
        out.append('a file was made')
    import math
    if math.pi != 3.141592653589793:
        out.append('the math module was changed')
    return out
