"""Anydice programs: a generator of abstract programs, their text, and their meaning under the model.

Statements: ['assign', V, e] ['output', e, name] (name: None or list of text pieces and ['v', V])
['func', pattern, body] (pattern: list of words and [V, type]) ['loop', V, e, stmts]
['if', [[cond, stmts], ...], else_stmts or None] ['set', name, value] ['result', e] ['comment', text]
Expressions are those of simdice.model; calls of user functions are ['user', 'name_X_of_X', args...].
"""
from .gen import Gen
from .model import Model, Unknown, TooBig, BLANK, MSeq, MDie

LIB = {'absolute_X': 'absolute X', 'X_contains_X': 'X contains X', 'count_X_in_X': 'count X in X', 'explode_X': 'explode X', 'highest_X_of_X': 'highest X of X',
       'lowest_X_of_X': 'lowest X of X', 'middle_X_of_X': 'middle X of X', 'highest_of_X_and_X': 'highest of X and X', 'lowest_of_X_and_X': 'lowest of X and X',
       'maximum_of_X': 'maximum of X', 'reverse_X': 'reverse X', 'sort_X': 'sort X'}
LIBTYPES = {'absolute_X': 'n', 'explode_X': 'd', 'highest_X_of_X': 'nd', 'highest_of_X_and_X': 'nn', 'maximum_of_X': 'd', 'count_X_in_X': 'ss', 'sort_X': 's', 'X_contains_X': 'sn', 'lowest_X_of_X': 'nd', 'reverse_X': 's', 'middle_X_of_X': 'nd', 'lowest_of_X_and_X': 'nn'}
OPS = {'+': '+', '-': '-', '*': '*', '//': '/', '**': '^', '==': '=', '!=': '!=', '<': '<', '<=': '<=', '>': '>', '>=': '>=', '&': '&', '|': '|'}
VARS = ['A', 'B', 'C', 'X', 'Y', 'NAME', 'ROLLS', 'A_B', 'HIT']
NAMES = ['total', 'total', 'a b', 'x=', '50%', 'b{r}', "it's", 'é', 'a\\b', '\\n', 'c\\', '\\{0}', 'tab\t', '# no', "'''", '{A}', '\\x41', ' + 1 ', '\r', '\\N{DIGIT ONE}']
WORDS = ['attack', 'with', 'foo', 'bar', 'roll', 'sum', 'of', 'and', 'more', 'output', 'set', 'over', 'result']


class PGen(Gen):
    """dice expressions that can be written in the anydice language"""

    def rv(self):
        return ['roll1', ['seq'] + [self.literal() for _ in range(self.r.randint(1, 4))]]

    def die(self, depth, env=()):
        return self.first(super().die, depth, env, ['roll', 2, 6])

    def num(self, depth, env=()):
        return self.first(super().num, depth, env, 2)

    def seq(self, depth, env=()):
        return self.first(super().seq, depth, env, ['seq', 1, 2])

    def first(self, f, depth, env, other):
        for _ in range(30):
            e = f(depth, env)
            if writable(e):
                return e
        return other


def writable(e):
    if not isinstance(e, list):
        return True
    if e[0] in ('filter', 'mix', 'rv', 'fault', 'blank') or (e[0] == 'bin' and e[1] not in OPS) or (e[0] == 'un' and e[1] in ('abs', 'pos')):
        return False
    return all(writable(x) for x in e[1:])


# ------------------------------------------------------------------ text
def tx(e):
    if isinstance(e, bool):
        e = int(e)
    if isinstance(e, int):
        return str(e) if e >= 0 else f'(-{-e})'
    if isinstance(e, float):
        return f'{abs(e)}' if e >= 0 else f'(-{abs(e)})'
    k = e[0]
    if k == 'var':
        return e[1]
    if k == 'seq':
        return '{' + ', '.join(f'{tx(x[1])}..{tx(x[2])}' if isinstance(x, list) and x and x[0] == 'range' else tx(x) for x in e[1:]) + '}'
    if k == 'strseq':
        return '{' + ', '.join(f'"{x}"' if isinstance(x, str) else str(x) for x in e[1:]) + '}'
    if k == 'roll':
        return f'({tx_t(e[1])}d{tx_t(e[2])})'
    if k == 'roll1':
        return f'(d{tx_t(e[1])})'
    if k == 'bin':
        return f'({tx(e[2])} {OPS[e[1]]} {tx(e[3])})'
    if k == 'un':
        return f'({ {"neg": "-", "not": "!"}[e[1]]}{tx_t(e[2])})'
    if k == 'at':
        return f'({tx_t(e[1])}@{tx_t(e[2])})'
    if k == 'len':
        return f'(#{tx_t(e[1])})'
    if k in ('lib', 'user'):
        pat = LIB[e[1]].split() if k == 'lib' else e[1].split('_')
        args = iter(e[2:])
        return '[' + ' '.join(tx_t(next(args)) if w == 'X' else w for w in pat) + ']'
    raise ValueError(e)


def tx_t(e):
    s = tx(e)
    return s if s.isdigit() or s[0] in '({[' or s.replace('_', '').isupper() else f'({s})'


def text(stmts, ind=0):
    out = []
    p = '  ' * ind
    for s in stmts:
        k = s[0]
        if k == 'assign':
            out.append(f'{p}{s[1]}: {tx(s[2])}')
        elif k == 'output':
            n = '' if s[2] is None else ' named "' + ''.join(x if isinstance(x, str) else f'[{x[1]}]' for x in s[2]) + '"'
            out.append(f'{p}output {tx(s[1])}{n}')
        elif k == 'func':
            pat = ' '.join(w if isinstance(w, str) else (f'{w[0]}:{w[1]}' if w[1] else w[0]) for w in s[1])
            out.append(f'{p}function: {pat} {{\n{text(s[2], ind + 1)}\n{p}}}')
        elif k == 'loop':
            out.append(f'{p}loop {s[1]} over {tx(s[2])} {{\n{text(s[3], ind + 1)}\n{p}}}')
        elif k == 'if':
            parts = []
            for i, (c, b) in enumerate(s[1]):
                parts.append(f'{"if" if i == 0 else "else if"} {tx(c)} {{\n{text(b, ind + 1)}\n{p}}}')
            if s[2] is not None:
                parts.append(f'else {{\n{text(s[2], ind + 1)}\n{p}}}')
            out.append(p + ' '.join(parts))
        elif k == 'set':
            v = f'"{s[2]}"' if isinstance(s[2], str) else str(s[2])
            out.append(f'{p}set "{s[1]}" to {v}')
        elif k == 'result':
            out.append(f'{p}result: {tx(s[1])}')
        elif k == 'comment':
            out.append(f'{p}\\ {s[1]} \\')
        elif k == 'raw':
            out.append(p + s[1])
        else:
            raise ValueError(s)
    return '\n'.join(out)


# ------------------------------------------------------------------ meaning
class _Result(Exception):
    def __init__(self, v):
        self.v = v


class ProgError(Exception):
    """the program fails at run time"""


class ProgModel(Model):
    """run(stmts) -> list of (value, name); settings persist in .s"""

    def __init__(self, settings=None, budget=40000, globals_=None):
        super().__init__(settings, budget)
        self.g = dict(globals_ or {})
        self.defs = {}
        self.outputs = []

    def run(self, stmts):
        self.block(stmts, self.g)
        return self.outputs

    def block(self, stmts, env):
        for s in stmts:
            self.spend(1)
            k = s[0]
            if k == 'assign':
                env[s[1]] = self.pev(s[2], env)
            elif k == 'output':
                v = self.pev(s[1], env)
                name = None
                if s[2] is not None:
                    name = ''.join(x if isinstance(x, str) else self.show(self.pev(['var', x[1]], env)) for x in s[2])
                self.outputs.append((v, name))
            elif k == 'func':
                self.defs['_'.join('X' if isinstance(w, list) else w for w in s[1])] = ([w for w in s[1] if isinstance(w, list)], s[2])
            elif k == 'loop':
                over = self.pev(s[2], env)
                if not isinstance(over, MSeq):
                    raise Unknown()
                for v in over:
                    env[s[1]] = v
                    self.block(s[3], env)
            elif k == 'if':
                for c, b in s[1]:
                    v = self.pev(c, env)
                    if not isinstance(v, (int, float)):
                        raise Unknown()
                    if v:
                        self.block(b, env)
                        break
                else:
                    if s[2] is not None:
                        self.block(s[2], env)
            elif k == 'set':
                ok = {'position order': ('highest first', 'lowest first')}
                if s[1] == 'position order' and s[2] in ok[s[1]] or s[1] in ('explode depth', 'maximum function depth') and isinstance(s[2], int) and s[2] > 0:
                    self.s[s[1]] = s[2]
                else:
                    raise ProgError('set')
            elif k == 'result':
                raise _Result(self.pev(s[1], env))
            elif k == 'comment':
                pass
            else:
                raise Unknown()

    def show(self, v):
        if isinstance(v, bool) or not isinstance(v, int):
            raise Unknown()
        return str(v)

    def pev(self, e, env):
        try:
            return self.ev(e, env)
        except KeyError as x:
            raise ProgError('name ' + str(x))
        except ZeroDivisionError:
            raise ProgError('division')

    def lib(self, name, args):
        if name in self.defs:
            return self.user(name, args)
        return super().lib(name, args)

    def user(self, fid, args):
        if fid not in self.defs:
            if fid in LIB:
                return super().lib(fid, args)
            raise ProgError('function ' + fid)
        params, body = self.defs[fid]
        if self.depth >= self.s['maximum function depth']:
            return BLANK

        def call(a):
            env = Scope(self.g)
            for p, v in zip(params, a):
                env.d[p[0]] = v
            self.spend(4)
            try:
                self.block(body, env)
            except _Result as x:
                return x.v
            return None
        self.depth += 1
        try:
            r = self.cast([p[1] for p in params], args, call)
        finally:
            self.depth -= 1
        return BLANK if r is None else r


class Scope:
    """Python's scoping of the generated functions: own variables, else the program's"""

    def __init__(self, g):
        self.g = g
        self.d = {}

    def __getitem__(self, k):
        return self.d[k] if k in self.d else self.g[k]

    def __setitem__(self, k, v):
        self.d[k] = v


# ------------------------------------------------------------------ generation
class ProgGen:
    def __init__(self, rng, sets=True, fail=None, redefine=None, undefined=None, floats=False):
        self.r = rng
        self.g = PGen(rng, floats=floats, blank=False)
        self.env = []
        self.funcs = {}   # name -> params
        self.sets = sets
        self.fail = fail
        self.plan_redefine = redefine

    def expr(self, kind='any', env=None, depth=None):
        r = self.r
        env = self.env if env is None else env
        if self.funcs and r.random() < 0.3:
            f = r.choice(sorted(self.funcs))
            return ['user', f] + [r.choice([self.g.num, self.g.num, self.g.die, self.g.seq])(0, env) for _ in self.funcs[f]]
        for _ in range(30):
            e = getattr(self.g, kind)(r.choice([0, 0, 1, 2]) if depth is None else depth, env)
            if writable(e):
                return e
        return ['roll', 1, 6]

    def stmt(self, depth=0):
        r = self.r
        x = r.random()
        if x < 0.33:
            name = None
            if r.random() < 0.4:
                nums = [v for v, t in self.env if t == 'n']
                name = [r.choice(NAMES)]
                if nums and r.random() < 0.6:
                    name.append(['v', r.choice(nums)])
                    if r.random() < 0.3:
                        name.append(' end')
            return [['output', self.expr(), name]]
        if x < 0.55:
            v = r.choice(VARS)
            t = r.choice('nsdd')
            e = self.expr({'n': 'num', 's': 'seq', 'd': 'die'}[t])
            if e and isinstance(e, list) and e[0] == 'user':
                t = '?'
            self.env = [(a, b) for a, b in self.env if a != v]
            if t != '?':
                self.env.append((v, t))
            return [['assign', v, e]]
        if x < 0.7 and depth == 0:
            return [self.func()]
        if x < 0.8 and depth < 2:
            v = r.choice(['I', 'J'])
            save = list(self.env)
            self.env = [(a, b) for a, b in self.env if a != v] + [(v, 'n')]
            body = self.stmts(r.choice([1, 1, 2]), depth + 1)
            over = r.choice([['seq', ['range', 1, r.randint(1, 3)]], ['seq', 3, 1], self.g.seq(0)])
            self.env = [x for x in save if x in self.env]
            return [['loop', v, over, body]]
        if x < 0.9 and depth < 2:
            save = list(self.env)
            blocks = []
            keep = list(save)
            for _ in range(r.choice([1, 1, 2])):
                self.env = list(save)
                blocks.append([self.g.num(1, self.env) if r.random() < .7 else r.choice([0, 1]), self.stmts(r.choice([1, 2]), depth + 1)])
                keep = [x for x in keep if x in self.env]
            els = None
            if r.random() < 0.5:
                self.env = list(save)
                els = self.stmts(1, depth + 1)
                keep = [x for x in keep if x in self.env]
            self.env = keep
            return [['if', blocks, els]]
        if x < 0.94 and self.sets:
            return [['set'] + r.choice([['explode depth', r.choice([1, 3])], ['position order', r.choice(['lowest first', 'highest first'])], ['maximum function depth', r.choice([3, 5])]])]
        if x < 0.96:
            return [['comment', r.choice(['note', 'output 5', 'a "quoted" word', '{ [ ('])]]
        return [['output', self.expr(), None]]

    def func(self, name=None):
        r = self.r
        if name is None:
            k = r.choice([1, 1, 2])
            pat = [r.choice(['attack', 'foo', 'bar', 'sum', 'hit'])]
            ps = r.sample(['N', 'S', 'D', 'M'], k)
            for i, p in enumerate(ps):
                pat.append([p, r.choice(['n', 'n', 's', 'd', 'n'])])
                if i == 0 and k == 2:
                    pat.append(r.choice(['with', 'and', 'of']))
        else:
            ps = iter(['N', 'M'])
            ts = iter(LIBTYPES[name])
            pat = [[next(ps), next(ts)] if w == 'X' else w for w in LIB[name].split()]
        params = [p for p in pat if isinstance(p, list)]
        fname = '_'.join('X' if isinstance(w, list) else w for w in pat)
        env = [(p[0], p[1]) for p in params]
        body = []
        first = params[0][0]
        num = ['var', first] if params[0][1] == 'n' else ['len', ['var', first]]
        if r.random() < 0.5:   # recursive
            rec = ['user', fname] + [(['bin', '-', num, 1] if p is params[0] else ['var', p[0]]) for p in params]
            body.append(['if', [[['bin', '>', num, 0], [['result', ['bin', '+', num, rec]]]]], None if r.random() < .5 else [['result', self.g.num(1, env)]]])
        if r.random() < 0.4:
            v = r.choice(['T', 'U'])
            body.append(['assign', v, self.expr_noc('num', env)])
            env = env + [(v, 'n')]
        if r.random() < 0.3:
            body.append(['if', [[self.expr_noc('num', env), [['result', self.expr_noc('num', env)]]]], None])
        if r.random() < 0.9:
            body.append(['result', self.expr_noc(r.choice(['num', 'die', 'seq', 'num']), env)])
        if not body:
            body.append(['result', 1])
        self.funcs[fname] = params
        return ['func', pat, body]

    def expr_noc(self, kind, env):
        for _ in range(30):
            e = getattr(self.g, kind)(self.r.choice([0, 1]), env)
            if writable(e):
                return e
        return 1

    def stmts(self, n, depth=0):
        out = []
        for _ in range(n):
            out += self.stmt(depth)
        return out

    def program(self):
        r = self.r
        out = []
        if self.plan_redefine:
            out.append(self.func(self.plan_redefine))
        out += self.stmts(r.choice([2, 3, 4, 6]))
        if self.plan_redefine:
            out.append(['output', ['user', self.plan_redefine] + [r.choice([1, 2, ['roll', 2, 3]]) for _ in self.funcs[self.plan_redefine]], None])
        out.append(['output', self.expr(), None])
        if self.fail:
            bad = {'div': ['output', ['bin', '//', 1, 0], None], 'name': ['output', ['var', 'NOPE'], None], 'set': ['set', 'explode depth', 0]}[self.fail]
            out.insert(r.randint(1, len(out)), bad)
            out.append(['output', 1, None])
        return out


def denote(stmts, settings=None, budget=6000, globals_=None):
    """('ok', outputs, settings) | ('fail', None, settings) | ('unknown', None, None) | ('big', ...)"""
    m = ProgModel(settings, budget, globals_)
    try:
        m.run(stmts)
        return 'ok', m.outputs, m.s
    except ProgError:
        return 'fail', None, m.s
    except Unknown:
        return 'unknown', None, None
    except TooBig:
        return 'big', None, None
    except RecursionError:
        return 'big', None, None
    except (TypeError, ValueError, OverflowError, IndexError):
        return 'unknown', None, None


def gen_program(rng, budget=3000, known=True, **kw):
    for _ in range(60):
        st = ProgGen(rng, **kw).program()
        k = denote(st, None, budget)[0]
        if k in ('ok', 'fail') or (not known and k == 'unknown'):
            return st
    return [['output', ['roll', 2, 6], None]]


BITS = ['"', '\\', '{', '}', '(', ')', '[', ']', 'd', '..', ':', ',', '@', '#', '!', '?', '$', '`', '\n', 'output', 'function:', 'loop', 'named', 'result:', 'A', '1', '"x', '\\ c', '%', ';', '.', '=', 'é', '\t', '\r']


def mutate_text(rng, t):
    """a damaged program text"""
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randint(0, len(t))
        x = rng.random()
        if x < 0.4:
            t = t[:i] + rng.choice(BITS) + t[i:]
        elif x < 0.7:
            t = t[:i] + t[i + rng.choice([1, 1, 2, 5]):]
        elif x < 0.85:
            t = t[:i]
        else:
            j = rng.randint(0, len(t))
            t = t[:min(i, j)] + t[max(i, j):]
    return t


EXTRA = ['output {"a", "b", 3}', 'output 2d{"hit", "miss"} named "n"', 'output d6 named "unclosed', 'output d6 \\ unclosed comment', 'output [nothing 3]', 'A: 3', 'output 1 named "[A] [b"\nA: 2', 'output 3 @ 12\noutput #55\noutput !3\noutput 1&2',
         'function: roll N:n { result: N d 6 }\noutput [roll 3]', 'function: output N:n { result: N }\noutput [output 3]', 'function: settings set N:n { result: N }\noutput [settings set 2]', 'function: a N:n N:s { result: N }\noutput [a 1 2]',
         'output 1.5 + 2.25', 'loop A over {1..3} { output Ad6 named "[A] dice" }', 'function: f { result: 5 }\noutput [f]', 'output d', 'output 5 5', 'if d6 { output 1 }', 'output (((((((((1+2)))))))))', 'set "explode depth" to "x"\noutput 1', '', '   ', '\n\n', '"', '\\', 'output',
         'output 2d6\n\n\n\noutput 3 $ 4', 'function: f A:q { result: A }\noutput [f 1]', 'function: d N:n { result: 1 }\noutput 1', 'output "a"', 'function: x A { result: [x A] }\noutput [x 1]', 'result: 5\noutput 1', 'output 1 named "{x} {{y}}"', 'output A named "[A]"']
# one program per feature of the language or the compiler: each may switch something on that stays on, or meet what another left on
FEATURES = ['function: roll { result: 3 }\noutput [roll]', 'function: output { result: 2 }\noutput [output]', 'function: myrange { result: 1 }\noutput [myrange]', 'output {1..3}\noutput 2d6', 'function: twice A:n { result: A * 2 }\noutput [twice d6]', 'function: f A:s B:d { result: A + B }\noutput [f 2d6 d4]',
            'function: highest A:n of B:d { result: A }\noutput [highest 1 of 3d6]', 'output [highest 2 of 3d6]', 'function: max_func_depth { result: 1 }\noutput [max_func_depth]', 'function: get_seq { result: 1 }\noutput [get_seq]', 'function: g { X: 5 result: X }\nX: 1\noutput [g] + X', 'X: 3\nfunction: g { X: X + 1 result: X }\noutput [g]\noutput X',
            'output !d6', 'output #3d6', 'output 2@3d6', 'output -{1,2}', 'output d6 & d4', 'output d{1:3, 2}', 'output {1:2, 3..5:2}', 'output d6 named "a"', 'output d6 named "[X]"\nX: 2', 'X: 4\noutput Xd6 named "[X] of d6"', 'output {"a", "b"}', 'output d{"a", 1}', 'set "explode depth" to 3\noutput [explode d6]', 'set "position order" to "lowest first"\noutput 1@3d6', 'set "maximum function depth" to 4\noutput 1',
            'if 1 { output 1 } else { output 2 }', 'if 1 = 2 { output 1 } else if 3 { output 2 } else { output 3 }', 'loop I over {1..2} { loop J over {1..2} { output I + J } }', 'function: f A:n { if A = 0 { result: 0 } result: [f A - 1] + 1 }\noutput [f 3]', 'function: f { result: [g] }\nfunction: g { result: 1 }\noutput [f]', 'function: a B:n c D:n { result: B + D }\noutput [a 1 c 2]', 'function: a A A { result: A }\noutput [a 1 2]',
            'output 1 \\ comment \\', '\\ first \\ output 1', 'output 5 / 2', 'output 2 ^ 3', 'output 1 != 2', 'output 1 <= d6', 'output d%', 'output 3d', 'output (1', 'output {1..}', 'loop I over 3 { output I }', 'A: B: 1', 'output [undefined 1]', 'output [f 1]\nfunction: f A { result: A }', 'A:1', 'output A', '1', 'output d6 named d6', 'output "text', 'output d6 \\ open',
            'function: f A:n A:n A:n { result: A }\noutput [f 1 2 3]', 'function: g X:d b X:s { result: X }\noutput [g d4 b 2d6]', 'function: h A:n to A:n { result: A + 1 }\nfunction: k A:s A:s { result: A }\noutput [h 1 to 2] + [k {1} {2}]',
            'function: m A:n B:n A:n B:n { result: A + B }\noutput [m 1 2 3 4]\noutput [m 5 6 7 8]']
EXTRA += FEATURES
FLAGSETS = [None, None, None, {}, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}, {'COMPILER_FLAG_OPERATOR_ON_INT': True}, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True, 'COMPILER_FLAG_OPERATOR_ON_INT': True}, {'COMPILER_FLAG_FUNC_EXIST_CHECK': False},
            {'COMPILER_FLAG_FUNC_LIB_CONFLICT': True}, {'UNKNOWN_FLAG': 1}, {'COMPILER_FLAG_NON_LOCAL_SCOPE': False}]
