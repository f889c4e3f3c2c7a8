"""C08: each output reaches its sink exactly once, whole, or fails visibly.

A run is a history of output calls over several sinks (functions, bound methods, built-ins, callable
objects that are false in a boolean test, standard output), with the default sink and width changing,
sinks that fail before, during or after taking the message, standard output failing at a chosen write,
sinks that change the settings or produce outputs themselves, and programs executed in between. What
every sink received is compared with the text the same call returns, in a fresh process, when asked not
to print."""
import sys

from ..common import *
from ..gen import Gen, bounded_call
from ..real import FAULT_KINDS, BODY_FAULTS

PROP = 'C08'
RULE = 'one run = one seeded history of 4 to 14 output calls and sink changes; distinct = distinct event logs; trivial = no message was due to any sink'
COMPONENTS = {'real': ['dice_calc (output, settings, dice)', 'the built-in print'], 'stub': ['sinks', 'standard output'], 'oracle': ['text returned with print_=False in a fresh process', 'record of every sink']}
ASSUMPTIONS = ['standard output is reached through the built-in print, the documented default']
RUNS = {'quick': 5000, 'thorough': 80000}
SHRINK = ['ops', 'faults']
SINKS = ['func', 'method', 'builtin', 'falsy', 'strict', 'truthy', 'lenzero', 'func2']
KINDS = BODY_FAULTS


def make_exc(kind, i):
    if kind == 'brokenpipe':
        return BrokenPipeError(32, f'injected {i}')
    if kind == 'unicode':
        return UnicodeEncodeError('ascii', 'x', 0, 1, f'injected {i}')
    if kind == 'value':
        return ValueError(f'I/O operation on closed file {i}')
    return FAULT_KINDS[kind](i)


def generate(rng, idx, tier):
    g = Gen(rng, floats=rng.random() < 0.3, zero_probs=rng.random() < 0.3)
    ops, faults = [], []
    vals = []
    n = [0] * (len(SINKS) + 1)
    for _ in range(rng.choice([2, 3, 5])):
        x = rng.random()
        if x < 0.5:
            vals.append(g.bounded(rng.choice(['die', 'pool', 'any']), rng.choice([0, 1, 1]), budget=1500))
        else:
            vals.append(rng.choice([['blank'], ['none'], ['seq'], 5, 0, ['seq', 1, 2, 2], ['roll', 2, ['strseq', 'a', 'b']], ['strseq', 'x', '3'], ['roll1', 6], ['roll', 3, 6], ['rv', [1, 2], [0, 0]], ['text', 'word'], ['roll', 1, ['seq']], ['roll', 0, 6], ['bin', '/', ['roll1', 6], 2], ['roll1', ['seq', 1, 10, 100]], ['rv', [1, 2, 3], [1, 10 ** 31, 5]]]))
    for _ in range(rng.choice([4, 6, 9, 13] if rng.random() > .008 else [60, 140])):
        x = rng.random()
        if x < 0.66:
            kw = {}
            if rng.random() < 0.4:
                kw['named'] = rng.choice(['n', '', 'two words', 'a\nb', 'ä█'])
            if rng.random() < 0.3:
                kw['blocks_width'] = rng.choice([0, 1, 10, 60, 200])
            if rng.random() < 0.02:   # very long messages
                kw['blocks_width'] = rng.choice([5000, 40000, 150000])
            elif rng.random() < 0.01:
                kw['named'] = ['x' * 70000, 'line\n' * 15000][rng.randrange(2)]
            if rng.random() < 0.2:
                kw['show_pdf'] = rng.choice([False, True])
            if rng.random() < 0.2:
                kw['cdf_cut'] = rng.choice([0, 1, 5, 20, 50, 99])
            y = rng.random()
            ops.append({'op': 'output', 'expr': rng.choice(vals), 'kw': kw, 'how': rng.choice(['output', 'output', 'method']),
                        'sink': rng.randrange(len(SINKS)) if y < 0.45 else None, 'quiet': y > 0.93, 'explicit': rng.random() < 0.2})
        elif x < 0.78:
            ops.append({'op': 'default', 'sink': rng.choice(list(range(len(SINKS))) + [None, None])})
        elif x < 0.84:
            ops.append({'op': 'width', 'v': rng.choice([1, 8, 30, 180])})
        elif x < 0.88:
            ops.append({'op': 'reset'})
        elif x < 0.92:
            ops.append({'op': 'baddefault', 'v': rng.choice([None, 5, 'print', []])})
        elif x < 0.96:
            ops.append({'op': 'exec', 'text': rng.choice(['output(roll(2, 6))', 'output(1)\noutput(roll(6), named="x")', 'output(1)\nraise ValueError("x")', 'output(get_seq([1, 2]), named="q")'])})
        else:
            ops.append({'op': 'repr', 'expr': rng.choice(vals)})
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        s = rng.choice(list(range(len(SINKS))) + [-1, -1, -1])
        faults.append({'sink': s, 'at': rng.choice([0, 0, 1, 2, 3, 4]), 'kind': rng.choice(KINDS), 'when': rng.choice(['before', 'torn', 'after'])})
    react = {}
    if rng.random() < 0.25:   # what a sink does while it takes a message
        react[str(rng.randrange(len(SINKS)))] = rng.choice([['default', rng.randrange(len(SINKS))], ['reset'], ['nested', rng.randrange(len(SINKS)), ['roll1', 4]], ['width', 12], ['boomquiet']])
    return {'ops': ops, 'faults': faults, 'react': react, 'stdout': rng.choice(['full', 'noflush', 'ascii'])}


def text_of(expr, kw, settings, how='output'):
    L = seam.load()
    for k, v in settings.items():
        L.settings_set(k, v)
    return observe(lambda: out_call(L, Real().ev(expr), how, dict(kw, print_=False)), raw=True)


def out_call(L, v, how, kw):
    if how == 'method':
        return v.output(**kw)
    return L.output(v, **kw)


class Sinks:
    def __init__(self, trace, L):
        self.L = L
        self.got = []          # (sink, message parts as received)
        self.plan = {}
        for f in trace['faults']:
            self.plan.setdefault((f['sink'], f['at']), f)
        self.n = {}
        self.raised = []
        self.react = trace['react']
        self.busy = False
        self.due = []
        self.made = [self.make(i) for i in range(len(SINKS))]

    def arrive(self, i, args, kw):
        k = self.n.get(i, 0)
        self.n[i] = k + 1
        f = self.plan.get((i, k))
        msg = args[0] if len(args) == 1 and not kw else ('strange call', repr(args), repr(kw))
        if f and f['when'] == 'before':
            self.boom(f, i, k)
        if f and f['when'] == 'torn':
            self.got.append([i, str(msg)[:len(str(msg)) // 2]])
            self.boom(f, i, k)
        self.got.append([i, msg])
        a = self.react.get(str(i))
        if a and not self.busy:
            self.busy = True
            try:
                self.reaction(a)
            finally:
                self.busy = False
        if f:
            self.boom(f, i, k)
        return [None, True, 0, '', 'x'][k % 5]

    def reaction(self, a):
        L = self.L
        if a[0] == 'default':
            L.settings_set('DEFAULT_PRINT_FN', self.made[a[1]])
        elif a[0] == 'reset':
            L.settings_reset()
        elif a[0] == 'width':
            L.settings_set('DEFAULT_OUTPUT_WIDTH', a[1])
        elif a[0] == 'nested':
            L.output(Real().ev(a[2]), print_fn=self.made[a[1]])
        elif a[0] == 'boomquiet':
            try:
                L.output(object(), print_fn=self.made[0])
            except Exception:
                pass

    def boom(self, f, i, k):
        e = make_exc(f['kind'], f'{i}:{k}')
        self.raised.append((e, f))
        raise e

    def make(self, i):
        kind = SINKS[i]
        S = self
        if kind in ('func', 'func2', 'truthy'):
            def sink(*a, **kw):
                return S.arrive(i, a, kw)
            return sink
        if kind == 'strict':
            return lambda message, /: S.arrive(i, (message,), {})
        if kind == 'method':
            class W:
                def write(self, *a, **kw):
                    return S.arrive(i, a, kw)
            return W().write
        if kind == 'builtin':
            class B(list):
                def append(self, *a, **kw):
                    return S.arrive(i, a, kw)
            return B().append

        class F:
            def __call__(self, *a, **kw):
                return S.arrive(i, a, kw)
            if kind == 'falsy':
                def __bool__(self):
                    return False
            else:
                def __len__(self):
                    return 0
        return F()


class Stdout:
    """simulated standard output: fails at a chosen write, whole or torn"""

    def __init__(self, S, kind):
        self.S = S
        self.kind = kind
        self.data = []
        self.encoding = 'utf-8'
        self.errors = 'strict'
        if kind != 'noflush':
            self.flush = lambda: None

    def write(self, s):
        S = self.S
        k = S.n.get(-1, 0)
        S.n[-1] = k + 1
        f = S.plan.get((-1, k))
        if f and f['when'] == 'before':
            S.boom(f, -1, k)
        if f and f['when'] == 'torn':
            self.data.append(s[:len(s) // 2])
            S.boom(f, -1, k)
        if self.kind == 'ascii' and not s.isascii():
            e = UnicodeEncodeError('ascii', s, 0, 1, 'simulated terminal')
            S.raised.append((e, {'kind': 'unicode', 'when': 'before'}))
            raise e
        self.data.append(s)
        if f:
            S.boom(f, -1, k)
        return len(s)


def run(trace):
    r = Run(trace)
    cache = {}

    def want(op, width):
        key = repr([op['expr'], op['kw'], op['how'], width])
        if key not in cache:
            cache[key] = fork_obs(text_of, op['expr'], op['kw'], {'DEFAULT_OUTPUT_WIDTH': width} if width else {}, op['how'])
        return cache[key]
    widths = {None, 12} | {op['v'] for op in trace['ops'] if op['op'] == 'width'}
    reactive_width = any(a[0] in ('width', 'reset') for a in trace['react'].values())
    # expectations first, while this process is pristine: for every width that may be in force
    w = None
    for op in trace['ops']:
        if op['op'] == 'width':
            w = op['v']
        elif op['op'] == 'reset':
            w = None
        if op['op'] == 'output':
            for x in (sorted(widths, key=str) if reactive_width else [w]):
                want(op, x)
    for a in trace['react'].values():
        if a[0] == 'nested':
            for x in sorted(widths, key=str):
                want({'expr': a[2], 'kw': {}, 'how': 'output'}, x)
    L = seam.load()
    S = Sinks(trace, L)
    out = sys.stdout = Stdout(S, trace['stdout'])
    width, default = None, None
    due = 0
    for op in trace['ops']:
        k = op['op']
        S.got.clear()
        S.raised.clear()
        out.data.clear()
        err = None
        exp_msgs, exp_out = [], ''
        if k == 'output':
            text = want(op, width)
            kw = dict(op['kw'])
            try:
                v = Real().ev(op['expr'])
            except Exception:
                continue
            target = default
            if op['sink'] is not None:
                kw['print_fn'] = S.made[op['sink']]
                target = op['sink']
            elif op['explicit']:
                kw['print_fn'] = None
            if op['quiet']:
                kw['print_'] = False
            elif op['explicit']:
                kw['print_'] = True
            res = None
            try:
                res = out_call(L, v, op['how'], kw)
            except BaseException as e:
                err = e
            r.note(k, digest(op), target, digest(text), type(err).__name__)
            where = f'output({short(op["expr"], 80)}, {op["kw"]}) to {"standard output" if target is None else SINKS[target] + " sink"}'
            bad_text = isinstance(text, list)
            if op['quiet'] or bad_text:
                if S.got or out.data:
                    return r.fail('undue-message', f'{where}: nothing was to be printed, but a sink received {short(S.got or out.data)}').result()
                if bad_text and err is None:
                    return r.fail('no-error', f'{where}: fails when not printing ({text}), but printing it raised nothing').result()
                if op['quiet'] and not bad_text and res != text:
                    return r.fail('text', f'{where} returns {short(res)}, expected {short(text)}').result()
                continue
            due += 1
            r.mark('sinks', str(target))
            # what each sink must have received
            fired = [f for _, f in S.raised]
            for f in fired:
                r.fault(f'{"standard output" if f.get("sink") in (-1, None) else "sink"} fails {f["when"]}')
                r.mark('fault_kinds', f['kind'])
            got = list(S.got)
            if target is None:
                if got:
                    return r.fail('wrong-sink', f'{where}: a sink not in force received {short(got)}').result()
                data = ''.join(out.data)
                if not S.raised:
                    if err is not None:
                        return r.fail('spurious-error', f'{where}: raised {err!r} although nothing failed').result()
                    if data != text + '\n':
                        return r.fail('message', f'{where}: standard output received {data!r}, expected {text!r} and a newline').result()
                else:
                    if err is not S.raised[0][0]:
                        return r.fail('error-lost', f'{where}: standard output failed with {S.raised[0][0]!r}, the caller saw {err!r}').result()
                    if not (text + '\n').startswith(data):
                        return r.fail('redelivered', f'{where}: after a failed write standard output holds {data!r}, not a prefix of {text!r}').result()
                    if len(S.raised) > 1:
                        return r.fail('retried', f'{where}: written again after {S.raised[0][0]!r}').result()
            else:
                if out.data:
                    return r.fail('wrong-sink', f'{where}: standard output received {"".join(out.data)!r}').result()
                react = trace['react'].get(str(target))
                own = [m for m in got if m[0] == target]
                mine = got[:1]
                if not mine and not S.raised:
                    return r.fail('message-lost', f'{where}: the sink was not called{f", the caller saw {err!r}" if err else ""}').result()
                first_exc = S.raised[0] if S.raised else None
                nested = react is not None and react[0] == 'nested' and bool(mine) and not (first_exc and first_exc[1]['when'] != 'after' and first_exc[1]['sink'] == target)
                if mine and mine[0][0] != target:
                    return r.fail('wrong-sink', f'{where}: {SINKS[mine[0][0]]} sink received {short(mine[0][1])}').result()
                torn = first_exc and first_exc[1]['when'] == 'torn' and first_exc[1]['sink'] == target and not nested
                if mine and mine[0][1] != (text[:len(text) // 2] if torn else text):
                    return r.fail('message', f'{where}: the sink received {mine[0][1]!r}, expected {text!r}').result()
                if len(got) > 1 and not nested:
                    return r.fail('redelivered', f'{where}: {len(got)} messages were delivered: {short([m[1] for m in got])}').result()
                if nested:
                    rest = got[1:]
                    if len(rest) > 1:
                        return r.fail('redelivered', f'{where}: with one nested output, {len(got)} messages were delivered').result()
                    t2 = want_cached(cache, react[2], width)
                    if rest and not first_exc and rest != [[react[1], t2]]:
                        return r.fail('message', f'output made by a sink: got {short(rest)}, expected {t2!r} at {SINKS[react[1]]} sink').result()
                    if not rest and not first_exc:
                        return r.fail('message-lost', 'an output made by a sink while taking a message was not delivered').result()
                if S.raised:
                    if err is not S.raised[-1][0] and err is not S.raised[0][0]:
                        return r.fail('error-lost', f'{where}: the sink failed with {S.raised[0][0]!r}, the caller saw {err!r}').result()
                    if len([1 for _, f in S.raised if f['sink'] == target]) > 1 and not nested:
                        return r.fail('retried', f'{where}: delivered again after {S.raised[0][0]!r}').result()
                elif err is not None:
                    return r.fail('spurious-error', f'{where}: raised {err!r} although nothing failed').result()
                if react and mine and mine[0][1] == text and not torn:
                    done = not nested
                    if done and react[0] == 'default':
                        default = react[1]
                    elif done and react[0] == 'reset':
                        width = default = None
                    elif done and react[0] == 'width':
                        width = react[1]
                    r.probe('sink reacts: ' + react[0])
            continue
        if k == 'default':
            L.settings_set('DEFAULT_PRINT_FN', print if op['sink'] is None else S.made[op['sink']])
            default = op['sink']
        elif k == 'width':
            L.settings_set('DEFAULT_OUTPUT_WIDTH', op['v'])
            width = op['v']
        elif k == 'reset':
            L.settings_reset()
            width = default = None
        elif k == 'baddefault':
            r.fault('rejected sink', observe(lambda: L.settings_set('DEFAULT_PRINT_FN', op['v']))[0] == 'exc')
        elif k == 'exec':
            observe(lambda: L.unsafe_exec(op['text']))
        elif k == 'repr':
            observe(lambda: repr(Real().ev(op['expr'])))
        r.note(k)
        if S.got or out.data:
            return r.fail('undue-message', f'{k} made a sink receive {short(S.got or out.data)}').result()
    return r.result(trivial=not due)


def want_cached(cache, expr, width):
    return cache.get(repr([expr, {}, 'output', width]))
