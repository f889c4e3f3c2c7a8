"""C11: recursion always ends, truncated at exactly the configured depth.

A run is a history of calls of (mutually) recursive decorated functions under changing depth limits,
with limits and resets also applied from inside bodies, failures swallowed by user code, and standard
output failing (whole or torn) when the truncation warning is written. Every single call is checked
where it happens: beyond the limit the body must not run, the empty die must come back and the warning
must be printed exactly if it was not printed since the last reset; within the limit the body must run.
Whole results are compared with the model."""
import logging
import sys

from ..common import *
from ..gen import bounded_call, calls_for
from ..real import Plan, FAULT_KINDS, BODY_FAULTS
from .c01 import wrap_try, wrap_act

PROP = 'C11'
RULE = 'one run = one seeded history of 3 to 10 calls and settings changes; distinct = distinct event logs; trivial = no call was truncated'
COMPONENTS = {'real': ['decorators, dice and everything below'], 'stub': ['function bodies (generated)', 'standard output'], 'oracle': ['per-call rule checked at every nested call', 'simdice.model']}
ASSUMPTIONS = ['limits up to 60 (the interpreter stack bounds larger ones)']
RUNS = {'quick': 5000, 'thorough': 80000}
SHRINK = ['ops', 'ops.*.faults']
SHRINK_EXPR = ['ops.*.expr']


def generate(rng, idx, tier):
    ops = []
    st = {}
    for _ in range(rng.choice([3, 4, 6, 10])):
        x = rng.random()
        if x < 0.2:
            v = rng.choice([1, 1, 2, 3, 4, 5, 6, 9, 10, 11, 15, 25, 60])
            st['maximum function depth'] = v
            ops.append({'op': 'set', 'v': v})
            continue
        if x < 0.27:
            st = {}
            ops.append({'op': 'reset'})
            continue
        if x < 0.3:
            ops.append({'op': 'bad', 'v': rng.choice([0, -1, 'x', 2.5, None])})
            continue
        faults = rng.random() < 0.25
        y = rng.random()
        top = dict(eff(st), **({'maximum function depth': max(eff(st)['maximum function depth'], 11)} if y < 0.3 else {}))
        funcs, call = bounded_call(rng, rng.choice([1, 2, 2, 3]), top, faults=faults, budget=2500 if y >= 0.3 else 900)
        op = {'op': 'call', 'funcs': funcs, 'expr': call, 'faults': []}
        if faults:
            op['faults'] = [{'fid': 'F' + rng.choice(sorted(funcs)) + rng.choice('abc'), 'at': rng.choice([0, 1, 2, 4]), 'kind': rng.choice(BODY_FAULTS)}]
        if y < 0.12:
            op['funcs'] = {f: dict(s, body=wrap_try(rng, s['body'])) for f, s in funcs.items()}
            op['free'] = 1
        elif y < 0.3:
            act = rng.choice([['reset'], ['set', 'maximum function depth', rng.choice([1, 2, 3, 4, 7, 11])], ['set', 'explode depth', 3]])
            op['funcs'] = {f: dict(s, body=wrap_act(rng, s['body'], act)) for f, s in funcs.items()}
            op['free'] = 1
            if act[0] == 'reset':
                st = {}
            elif act[1] == 'maximum function depth':
                st[act[1]] = act[2]
        if rng.random() < 0.2:
            op['stdout'] = [rng.choice([0, 0, 0, 1, 2]), rng.choice(['error', 'oserror', 'interrupt', 'brokenpipe', 'exit', 'value', 'runtime', 'unicode', 'blocking', 'eintr', 'recursion', 'cancelled']), rng.choice(['before', 'torn'])]
        elif rng.random() < 0.12:
            op['log'] = rng.choice([None, 'error', 'oserror', 'interrupt', 'brokenpipe'])   # the application listens to log records, and its handler may fail
        ops.append(op)
    return {'ops': ops}


class Out:
    encoding = 'utf-8'

    def __init__(self):
        self.text = ''
        self.plan = None
        self.n = 0
        self.raised = None
        self.by_log = False

    def write(self, s):
        k = self.n
        self.n += 1
        if self.plan and self.plan[0] == k:
            if self.plan[2] == 'torn':
                self.text += s[:len(s) // 2]
            self.raised = BrokenPipeError(32, 'stdout') if self.plan[1] == 'brokenpipe' else FAULT_KINDS[self.plan[1]]('stdout')
            raise self.raised
        self.text += s
        return len(s)

    def flush(self):
        pass


class Log(logging.Handler):
    """the application's log handler; the first record of an operation may make it fail"""

    def __init__(self, out):
        super().__init__()
        self.out = out
        self.kind = None

    def emit(self, record):
        record.getMessage()
        kind, self.kind = self.kind, None
        if kind:
            self.out.by_log = True
            self.out.raised = BrokenPipeError(32, 'log') if kind == 'brokenpipe' else FAULT_KINDS[kind]('log')
            raise self.out.raised


class Overrun(BaseException):
    """ends an operation that got too long (retries by user code multiply) or already failed"""


class Watched(Real):
    """every call of a decorated function is checked against the rule"""

    def __init__(self, funcs, plan, run, st, state, out):
        super().__init__(funcs, plan)
        self.r, self.st, self.state, self.out = run, st, state, out
        self.frames = []
        self.on_call = self.entered
        self.truncated = 0
        self.called = 0

    def act(self, a):
        super().act(a)
        self.r.probe('settings changed inside a body')
        if a[0] == 'reset':
            self.st.clear()
            self.state['warned'] = False
        else:
            self.st[a[1]] = a[2]

    def entered(self, spec, a):
        f = self.frames[-1]
        f['bodies'] += 1
        if f['beyond']:
            self.r.fail('too-deep', f'a body ran at nesting {len(self.frames)}, the maximum is {f["limit"]}')

    def user_func(self, fid):
        fn = super().user_func(fid)

        def call(*a):
            limit = eff(self.st)['maximum function depth']
            f = {'limit': limit, 'beyond': len(self.frames) >= limit, 'bodies': 0}
            depth = len(self.frames)
            text0 = self.out.text
            self.called += 1
            if self.called > 30000 or self.r.bad:
                raise Overrun()
            self.frames.append(f)
            try:
                res = fn(*a)
            except BaseException as e:
                if f['beyond'] and not isinstance(e, Overrun) and not (e is self.out.raised and (self.out.by_log or not self.state['warned'])):
                    self.r.fail('truncation-raises', f'a call at nesting {depth} with maximum {limit} raised {e!r} instead of giving the empty die')
                if f['beyond'] and e is self.out.raised and self.out.by_log and '\n' in self.out.text[len(text0):]:
                    self.state['warned'] = None   # printed before the log handler failed: printing it again is not required
                raise
            finally:
                self.frames.pop()
            if f['beyond']:
                self.truncated += 1
                if not isinstance(res, self.L.BlankRV) or canon(res)[1:] != ['d{}', 0]:
                    self.r.fail('not-empty', f'a call at nesting {depth} with maximum {limit} gave {short(canon(res))} instead of the empty die')
                wrote = self.out.text[len(text0):]
                if self.state['warned']:
                    if wrote:
                        self.r.fail('warned-again', f'the truncation warning was printed again without a reset: {wrote!r}')
                elif (wrote or self.state['warned'] is False) and wrote.count('\n') != 1 or len(wrote) < 10:
                    self.r.fail('not-warned', f'the first truncation since the last reset printed {wrote!r}')
                self.state['warned'] = True
            elif not f['bodies'] and not any(isinstance(x, self.L.BlankRV) for x in a):
                self.r.fail('truncated-early', f'a call at nesting {depth} with maximum {limit} did not run its body')
            return res
        return call


def run(trace):
    sys.setrecursionlimit(12000)
    r = Run(trace)
    L = seam.load()
    out = sys.stdout = Out()
    st, state = {}, {'warned': False}
    truncated = 0
    log = Log(out)
    logging.getLogger().addHandler(log)
    for op in trace['ops']:
        k = op['op']
        if k == 'set':
            L.settings_set('maximum function depth', op['v'])
            st['maximum function depth'] = op['v']
            r.note(k, op['v'])
        elif k == 'reset':
            L.settings_reset()
            st.clear()
            state['warned'] = False
            r.note(k)
        elif k == 'bad':
            r.fault('rejected limit')
            r.note(k, observe(lambda: L.settings_set('maximum function depth', op['v'])))
        else:
            out.plan, out.n, out.raised, out.by_log = op.get('stdout'), 0, None, False
            log.kind = op.get('log')
            logging.disable(logging.NOTSET if 'log' in op else logging.CRITICAL)
            plan = Plan(op['faults'])
            before = dict(st)
            text0 = out.text
            W = Watched(op['funcs'], plan, r, st, state, out)
            raised = []

            def go():
                try:
                    return W.ev(op['expr'])
                except BaseException as e:
                    raised.append(e)
                    raise
            got = observe(go)
            truncated += W.truncated
            for kind in plan.fired:
                r.fault('body raises ' + kind)
            logging.disable(logging.CRITICAL)
            if out.raised and out.by_log:
                r.fault('log handler raises')
            elif out.raised:
                r.fault('warning cannot be written (' + op['stdout'][2] + ')')
            r.note(k, digest(op), digest(got), W.truncated, W.max_depth_seen)
            r.mark('depths', f'{eff(before)["maximum function depth"]}/{W.max_depth_seen}')
            if r.bad:
                return r.result()
            where = f'{op["expr"]} under {before}'
            if op.get('free') or (raised and isinstance(raised[0], Overrun)):
                r.probe('operation cut short', bool(raised and isinstance(raised[0], Overrun)))
                continue
            if out.raised and not plan.fired:
                if not raised or raised[0] is not out.raised:
                    return r.fail('error-lost', f'{where}: writing the warning failed with {out.raised!r}, the caller saw {raised or got}').result()
                continue
            if plan.fired:
                continue
            if not W.truncated and out.text != text0:
                return r.fail('undue-warning', f'{where}: no call was truncated, but {out.text[len(text0):]!r} was printed').result()
            m = Model(eff(before), budget=60000, funcs=op['funcs'])
            try:
                want = m.ev(op['expr'])
            except Exception:
                continue
            d = agrees(got, want)
            if d:
                return r.fail('wrong-result', f'{where}: {d}').result()
            r.probe('results compared with the model')
    return r.result(trivial=not truncated)
