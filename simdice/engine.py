"""Seeded search over many simulated runs, minimisation, replay and evidence.

A property module (simdice/props/cNN.py) provides
  PROP, RULE, COMPONENTS
  generate(rng, idx, tier) -> trace   JSON value with at least {'ops': [...]}; a pure function of rng
  run(trace) -> result dict           executed in a forked child of a process in which the library was
                                      imported and never used; keys: violation (None or {class, detail}),
                                      log (list), faults (dict), probes (dict), sig (str), steps (int),
                                      trace (optional: the trace with the concrete schedule filled in)
  RUNS = {'quick': n, 'thorough': n}
  SHRINK = list of keys of the trace that are lists whose elements may be dropped
"""
import hashlib
import importlib
import io
import json
import os
import pickle
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
import warnings

from . import seam

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'out')
RUN_WALL = 120  # seconds; a run takes milliseconds to a few seconds


class HarnessError(Exception):
    pass


def derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- forked calls
def in_child(fn, args):
    """what fn(*args) did, as bytes; the surroundings of every simulated process"""
    signal.signal(signal.SIGINT, signal.default_int_handler)
    sys.stdout = io.StringIO()  # the simulated standard output
    sys.stderr = io.StringIO()
    sys.unraisablehook = lambda *a: None
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        res = ('ok', fn(*args))
    except BaseException:
        res = ('err', traceback.format_exc())
    return pickle.dumps(res)


def fork_call(fn, *args, wall=RUN_WALL):
    """Runs fn(*args) in a forked child; returns ('ok', value) | ('err', text) | ('stuck', None) | ('died', status)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            write_all(w, in_child(fn, args))
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + wall
    stuck = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            stuck = True
            break
        ok, _, _ = select.select([r], [], [], left)
        if not ok:
            stuck = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if stuck:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    if stuck:
        return ('stuck', None)
    try:
        return pickle.loads(b''.join(chunks))
    except Exception:
        return ('died', status)


def load_prop(pid):
    return importlib.import_module('simdice.props.' + pid.lower())


KEPT = []


def set_heap(k):
    """Brings the allocator into a state that depends on k only: what is free below the blocks in use is taken,
    then a seeded part is given back. Code that identifies objects by their address sees the same reuse in every process."""
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    rng = random.Random(f'heap {k}')
    KEPT.append([[None] * 0 for _ in range(300)])
    KEPT.append([{} for _ in range(300)])
    KEPT.append([float(i) for i in range(300)])
    for n in range(1, 21):
        KEPT.append([tuple([i] * n) for i in range(2100)])
    blocks = [bytes(n) for n in range(0, 480, 8) for _ in range(1500)]
    if k:
        blocks = [b for b in blocks if rng.random() < 0.9]
    KEPT.append(blocks)
    gc.collect()
    gc.freeze()
    gc.enable()


class Spawner:
    """A process that never does anything but fork: every run starts from the same memory, whatever ran before it"""

    def __init__(self, mod, heap=0):
        cr, self.cw = os.pipe()
        self.rr, rw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.cw)
                os.close(self.rr)
                set_heap(heap)
                while os.read(cr, 1):
                    pid = os.fork()
                    if pid == 0:
                        self.child(mod, cr, rw)
                    st = os.waitpid(pid, 0)[1]
                    os.write(rw, b'X' + st.to_bytes(8, 'big'))
            finally:
                os._exit(0)
        os.close(cr)
        os.close(rw)

    @staticmethod
    def child(mod, cr, rw):
        try:
            os.setpgid(0, 0)
            os.write(rw, b'P' + os.getpid().to_bytes(8, 'big'))
            data = read_exactly(cr, int.from_bytes(read_exactly(cr, 8), 'big'))
            res = in_child(lambda: mod.run(pickle.loads(data)), ())
            write_all(rw, b'R' + len(res).to_bytes(8, 'big') + res)
        finally:
            os._exit(0)

    def call(self, trace, wall=RUN_WALL):
        data = pickle.dumps(trace)
        try:
            write_all(self.cw, b'g' + len(data).to_bytes(8, 'big') + data)
        except BrokenPipeError:
            raise HarnessError('the spawning process is gone')
        end = time.monotonic() + wall
        pid, res, stuck = None, None, False
        while True:
            if not stuck and not select.select([self.rr], [], [], max(0, end - time.monotonic()))[0]:
                stuck = True
                for kill, p in ((os.killpg, pid), (os.kill, pid)):
                    try:
                        kill(p, signal.SIGKILL)
                    except OSError:
                        pass
            head = read_exactly(self.rr, 9, None if stuck else end)
            if head is None:
                continue
            kind, n = head[:1], int.from_bytes(head[1:], 'big')
            if kind == b'P':
                pid = n
            elif kind == b'R':
                body = read_exactly(self.rr, n, end)
                if body is None:
                    continue
                res = body
            elif kind == b'X':
                if stuck:
                    return ('stuck', None)
                return pickle.loads(res) if res is not None else ('died', n)
            else:
                self.close()
                return ('died', -1)

    def close(self):
        os.close(self.cw)
        os.close(self.rr)
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


def read_exactly(fd, n, end=None):
    out = bytearray()
    while len(out) < n:
        if end is not None and not select.select([fd], [], [], max(0, end - time.monotonic()))[0]:
            return None
        b = os.read(fd, n - len(out))
        if not b:
            raise HarnessError('a process of the simulator is gone')
        out += b
    return bytes(out)


def write_all(fd, data):
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


SPAWN = {}


def run_trace(mod, trace):
    """One simulated run from a pristine library state. Returns the result dict."""
    key = (os.getpid(), mod.PROP, trace.get('heap') or 0)
    if key not in SPAWN:
        SPAWN[key] = Spawner(mod, trace.get('heap') or 0)
    kind, val = SPAWN[key].call(trace)
    if kind == 'ok':
        return val
    if kind == 'stuck':
        return dict(violation={'class': 'no-progress', 'detail': f'the run did not end within {RUN_WALL} s'}, log=[], faults={}, probes={}, sig='stuck', steps=0)
    if kind == 'died':
        SPAWN.pop(key, None)
        return dict(violation={'class': 'process-died', 'detail': f'the process running the library died, status {val}'}, log=[], faults={}, probes={}, sig='died', steps=0)
    raise HarnessError(val)


def worker(mod, prop, seed, tier, idxs, wfd, deadline, stop_at_violation=True):
    def send(o):
        data = pickle.dumps(o)
        data = len(data).to_bytes(8, 'big') + data
        view = memoryview(data)
        while view:
            view = view[os.write(wfd, view):]
    agg = new_agg()
    try:
        for idx in idxs:
            if time.monotonic() > deadline:
                agg['capped'] = True
                break
            rs = derive(seed, prop, idx)
            trace = mod.generate(random.Random(rs), idx, tier)
            trace['seed'] = rs
            trace['idx'] = idx
            trace['property'] = prop
            res = run_trace(mod, trace)
            fold(agg, trace, res)
            if res['violation']:
                agg['violation'] = (idx, res.get('trace') or trace, res['violation'])
                if stop_at_violation:
                    break
        send(('agg', agg))
    except BaseException:
        send(('err', traceback.format_exc()))
    os._exit(0)


def new_agg():
    return dict(runs=0, steps=0, faults={}, probes={}, sigs=set(), trivial=0, samples=[], violation=None, logs={}, capped=False, distinct={})


def fold(agg, trace, res):
    agg['runs'] += 1
    agg['steps'] += res.get('steps', 0)
    for k in ('faults', 'probes'):
        for n, c in res.get(k, {}).items():
            agg[k][n] = agg[k].get(n, 0) + c
    if res.get('trivial'):
        agg['trivial'] += 1
    else:
        agg['sigs'].add(res.get('sig') or digest(trace))
    for name, items in res.get('distinct', {}).items():
        agg['distinct'].setdefault(name, set()).update(items)
    agg['logs'][trace['idx']] = digest(res.get('log', []))
    if len(agg['samples']) < 1 and not res.get('trivial'):
        t = res.get('trace') or trace
        s = json.dumps(t, default=repr)
        agg['samples'].append(json.loads(s) if len(s) < 6000 else {'idx': t['idx'], 'seed': t['seed'], 'trace_head': s[:4000]})


def parallel(fn, items, workers=None):
    """[fn(x) for x in items], each in its own fork of this process, on all cores"""
    workers = workers or os.cpu_count() or 4
    pend, out = [], [None] * len(items)

    def part(w):
        res = []
        for i in range(w, len(items), workers):
            res.append((i, fork_call(fn, items[i], wall=60)))
        return res
    for w in range(workers):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                data = pickle.dumps(part(w))
                view = memoryview(data)
                while view:
                    view = view[os.write(wfd, view):]
            finally:
                os._exit(0)
        os.close(wfd)
        pend.append((pid, r))
    for pid, r in pend:
        buf = bytearray()
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
        os.close(r)
        os.waitpid(pid, 0)
        for i, res in pickle.loads(bytes(buf)):
            out[i] = res
    return out


def search(prop, seed, tier, runs=None, workers=None, wall=None, start=0, stop=True):
    mod = load_prop(prop)
    seam.load()
    if hasattr(mod, 'prepare'):
        mod.prepare(seed, tier)
    import gc
    gc.collect()
    gc.freeze()
    runs = runs if runs is not None else mod.RUNS[tier]
    workers = workers or int(os.environ.get('VERIF_WORKERS', os.cpu_count() or 4))
    workers = max(1, min(workers, runs))
    deadline = time.monotonic() + wall
    procs = []
    for w in range(workers):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(mod, prop, seed, tier, range(start + w, start + runs, workers), wfd, deadline, stop)
            finally:
                os._exit(4)
        os.close(wfd)
        procs.append((pid, r))
    total = new_agg()
    errs = []
    bufs = {r: bytearray() for _, r in procs}
    open_fds = dict((r, pid) for pid, r in procs)
    while open_fds:
        ok, _, _ = select.select(list(open_fds), [], [])
        for r in ok:
            b = os.read(r, 1 << 20)
            if b:
                bufs[r] += b
                continue
            pid = open_fds.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            if not bufs[r]:
                errs.append('worker died without an answer')
                continue
            kind, agg = pickle.loads(bytes(bufs[r][8:]))
            if kind == 'err':
                errs.append(agg)
                continue
            merge(total, agg)
    if errs and not total['violation']:
        raise HarnessError(errs[0])
    return mod, total


def merge(t, a):
    t['runs'] += a['runs']
    t['steps'] += a['steps']
    t['trivial'] += a['trivial']
    t['capped'] = t['capped'] or a['capped']
    for k in ('faults', 'probes'):
        for n, c in a[k].items():
            t[k][n] = t[k].get(n, 0) + c
    t['sigs'] |= a['sigs']
    t['logs'].update(a['logs'])
    for n, s in a['distinct'].items():
        t['distinct'].setdefault(n, set()).update(s)
    t['samples'] = (t['samples'] + a['samples'])[:3]
    if a['violation'] and (t['violation'] is None or a['violation'][0] < t['violation'][0]):
        t['violation'] = a['violation']


# ---------------------------------------------------------------- minimisation
def same(mod, trace, cls):
    try:
        res = run_trace(mod, trace)
    except HarnessError:
        return None
    if res['violation'] and res['violation']['class'] == cls:
        return res
    return None


def minimise(mod, trace, cls, wall=60):
    """ddmin over the lists named in SHRINK, then structural shrinking of expressions and numbers"""
    end = time.monotonic() + wall
    best = trace
    if cls == 'no-progress':
        return best

    def attempt(t):
        nonlocal best
        if time.monotonic() > end:
            return False
        if same(mod, t, cls):
            best = t
            return True
        return False
    changed = True
    rounds = 0
    while changed and time.monotonic() < end and rounds < 4:
        changed = False
        rounds += 1
        for path in getattr(mod, 'SHRINK', ['ops']):
            for lst_path in expand_path(best, path):
                n = 2
                while True:
                    lst = get_path(best, lst_path)
                    if not isinstance(lst, list) or not lst:
                        break
                    size = max(1, len(lst) // n)
                    hit = False
                    for i in range(0, len(lst), size):
                        cand = set_path(best, lst_path, lst[:i] + lst[i + size:])
                        if attempt(cand):
                            hit = changed = True
                            break
                        if time.monotonic() > end:
                            break
                    if time.monotonic() > end:
                        break
                    if hit:
                        continue
                    if size == 1:
                        break
                    n *= 2
        for path in getattr(mod, 'SHRINK_EXPR', []):
            for lst_path in expand_path(best, path):
                for cand_expr in shrink_expr(get_path(best, lst_path)):
                    if attempt(set_path(best, lst_path, cand_expr)):
                        changed = True
                        break
                    if time.monotonic() > end:
                        break
    return best


def expand_path(t, path):
    """path like 'ops' or 'threads.*.ops' -> list of concrete key paths"""
    out = [[]]
    for part in path.split('.'):
        nxt = []
        for p in out:
            try:
                o = get_path(t, p)
                if part == '*':
                    nxt += [p + [i] for i in range(len(o))]
                elif isinstance(o, dict) and part in o:
                    nxt.append(p + [part])
                elif isinstance(o, list) and part.isdigit() and int(part) < len(o):
                    nxt.append(p + [int(part)])
            except (KeyError, IndexError, TypeError):
                pass
        out = nxt
    return out


def get_path(t, p):
    for k in p:
        t = t[k]
    return t


def set_path(t, p, v):
    if not p:
        return v
    k = p[0]
    if isinstance(t, dict):
        d = dict(t)
        d[k] = set_path(t[k], p[1:], v)
        return d
    lst = list(t)
    lst[k] = set_path(t[k], p[1:], v)
    return lst


def shrink_expr(e):
    if isinstance(e, bool) or isinstance(e, float):
        return
    if isinstance(e, int):
        if e not in (0, 1):
            yield 1
            yield e // 2
        return
    if isinstance(e, list) and e and isinstance(e[0], str):
        for i, x in enumerate(e[1:], 1):
            if isinstance(x, (list, int)) and e[0] not in ('rv', 'range'):
                yield x
        for i, x in enumerate(e[1:], 1):
            for y in shrink_expr(x):
                yield e[:i] + [y] + e[i + 1:]


# ---------------------------------------------------------------- known findings
def known_findings():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                out.append(json.loads(line))
    return out


# ---------------------------------------------------------------- commands
def cmd_check(prop, tier, seed):
    t0 = time.monotonic()
    wall = float(os.environ.get('VERIF_WALL', '240' if tier == 'quick' else '3000'))
    print(f'{prop}: seed {seed}, tier {tier}', flush=True)
    mod, agg = search(prop, seed, tier, wall=wall)
    search_s = time.monotonic() - t0
    findings = [f for f in known_findings() if f['property'] == prop]
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    code = 0
    viol = 0
    if agg['violation']:
        idx, trace, v = agg['violation']
        viol = 1
        print(f'run {idx} (seed {trace["seed"]}) violates {prop}: [{v["class"]}] {v["detail"]}', flush=True)
        path, out = confirm(mod, [minimise(mod, trace, v['class']), trace], v, seed, idx)
        if path is None:     # it may depend on which addresses the allocator reuses: fix that as well
            for k in range(16):
                t = dict(trace, heap=k)
                res = run_trace(mod, t)
                if res['violation'] and res['violation']['class'] != 'no-progress':
                    t = dict(res.get('trace') or t, heap=k)
                    v = res['violation']
                    path, out = confirm(mod, [minimise(mod, t, v['class'], wall=20), t], v, seed, idx)
                    if path:
                        break
        if path:
            print(out)
        if path is None:
            print('HARNESS: the violation did not replay', out)
            code = 2
        else:
            print(f'VIOLATION property={prop} replay={path}')
            code = 1
    write_evidence(mod, prop, tier, seed, agg, search_s, time.monotonic() - t0, viol, findings)
    nt = len(agg['sigs'])
    print(f'{prop}: {agg["runs"]} runs, {nt} distinct non-trivial, {agg["steps"]} steps, faults {agg["faults"]}, {search_s:.1f} s{" (wall cap reached)" if agg["capped"] else ""}')
    return code


def confirm(mod, candidates, v, seed, idx):
    """path of the first candidate that violates again in a new process"""
    for cand in candidates:
        p = write_replay(mod.PROP, cand, v, seed, idx)
        rc = subprocess.run([sys.executable, '-m', 'simdice', 'replay', p], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if rc.returncode == 1:
            return p, rc.stdout.strip()
    return None, rc.stdout


def write_replay(prop, trace, v, seed, idx):
    os.makedirs(OUT, exist_ok=True)
    p = os.path.join(OUT, f'{prop}-{seed}-{idx}.json')
    with open(p, 'w') as f:
        json.dump({'property': prop, 'violation': v, 'trace': trace}, f, indent=1, default=repr)
    return p


def cmd_replay(path):
    o = json.load(open(path))
    mod = load_prop(o['property'])
    seam.load()
    res = run_trace(mod, o['trace'])
    v = res['violation']
    if v:
        print(f"replay of {os.path.basename(path)}: [{v['class']}] {v['detail']}")
        for line in res.get('log', [])[-12:]:
            print('   ', str(line)[:300])
        return 1 if v['class'] == o['violation']['class'] else 3
    print('replay: no violation')
    return 0


def write_evidence(mod, prop, tier, seed, agg, search_s, wall_s, viol, findings):
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(agg['sigs']),
        'rule': mod.RULE,
        'samples': agg['samples'],
        'simulated_runs_per_hour': int(agg['runs'] / max(search_s, 1e-9) * 3600),
        'seeds': f'{agg["runs"]} run seeds derived from VERIF_SEED={seed}, one run each',
        'simulated_time': 'the library has no clock or timer; extent is counted in simulator steps',
        'simulator_steps': agg['steps'],
        'faults_injected': agg['faults'],
        'probes': agg['probes'],
        'components': mod.COMPONENTS,
        'wall_cap_reached': agg['capped'],
        'log_digest': digest(sorted(agg['logs'].items())),
    }
    for n, s in agg['distinct'].items():
        cov['distinct_' + n] = len(s)
    if findings:
        cov['known_findings'] = [f['what'] for f in findings]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(wall_s, 2), 'violations': viol}
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(d, f'{prop}.json'))


def main(argv):
    warnings.simplefilter('ignore')   # RestrictedPython warns about some of the texts it is given
    try:
        if argv[0] == 'check':
            tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
            return cmd_check(argv[1], tier, int(os.environ.get('VERIF_SEED', '1')))
        if argv[0] == 'replay':
            return cmd_replay(argv[1])
        if argv[0] == 'logs':  # print the event-log digest of each run (determinism self-test)
            prop, seed, runs, workers = argv[1], int(argv[2]), int(argv[3]), int(argv[4])
            _, agg = search(prop, seed, 'quick', runs=runs, workers=workers, wall=3000, stop=False)
            for i, d in sorted(agg['logs'].items()):
                print(prop, i, d)
            if agg['violation']:
                print('violation', agg['violation'])
            return 0
    except HarnessError as e:
        print('HARNESS ERROR\n', e)
        return 2
    print('usage: python -m simdice check CNN [tier] | replay FILE | logs CNN SEED RUNS WORKERS')
    return 2
