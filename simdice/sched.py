"""Deterministic scheduling of real threads, and asynchronous interrupts at chosen instructions.

Exactly one simulated thread runs at any time; the others are parked on raw locks. A switch happens
only where the schedule says so: at the k-th traced instruction of thread i (trace events of the
interpreter in files of the library), when a thread blocks on a lock, or when it ends. So a schedule
(list of [thread, local step, target]) plus the code is one exactly repeatable execution.
"""
import _thread
import sys
import threading

_real_lock = _thread.allocate_lock
ACTIVE = None  # the Sched of the current run, if any


class Deadlock(BaseException):
    pass


class SimLock:
    """threading.Lock as seen by the library"""
    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if s is None or not s.inside():
            return self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        while not self._l.acquire(False):
            if not blocking:
                return False
            s.block()
        return True

    def release(self):
        self._l.release()
        s = ACTIVE
        if s is not None:
            s.wake()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock


MON = sys.monitoring
TOOL = 3
HANDLER = None      # called with (code, offset or line) for every instrumented step of the library
_instrumented = None
CODES = None


def library_codes(srcdir, skip=()):
    """every code object of the library that exists in this process (found when it was loaded)"""
    if CODES is not None:
        return [c for c in CODES if c.co_filename.startswith(srcdir) and not any(x in c.co_filename for x in skip)]
    import gc
    import types
    out, todo = [], []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            todo.append(o.__code__)
        elif isinstance(o, (staticmethod, classmethod, property)):
            for f in (getattr(o, '__func__', None), getattr(o, 'fget', None)):
                if isinstance(f, types.FunctionType):
                    todo.append(f.__code__)
    seen = set()
    while todo:
        c = todo.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        if c.co_filename.startswith(srcdir) and not any(x in c.co_filename for x in skip):
            out.append(c)
        todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    return sorted(out, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


def on_event(code, where):
    h = HANDLER
    if h is not None:
        return h(code, where)


def quiet():
    """no more reports until the next instrument(); the code stays instrumented"""
    if _instrumented is not None:
        MON.register_callback(TOOL, MON.events.INSTRUCTION if _instrumented[1] else MON.events.LINE, None)


def instrument(srcdir, opcode=True, skip=()):
    """Reports every bytecode instruction (or line) executed in library code to HANDLER. Once per process."""
    global _instrumented
    mode = (srcdir, opcode, tuple(skip))
    ev = MON.events.INSTRUCTION if opcode else MON.events.LINE
    MON.restart_events()
    if _instrumented == mode:
        MON.register_callback(TOOL, ev, on_event)
        return
    if _instrumented is None:
        MON.use_tool_id(TOOL, 'simdice')
    else:
        for c in library_codes(_instrumented[0]):
            MON.set_local_events(TOOL, c, 0)
    MON.register_callback(TOOL, ev, on_event)
    for c in library_codes(srcdir, skip):
        MON.set_local_events(TOOL, c, ev)
    _instrumented = mode


class Sched:
    def __init__(self, bodies, schedule, srcdir, opcode=True, cap=None, record=False, max_steps=3_000_000):
        self.n = len(bodies)
        self.bodies = bodies
        self.pre = [dict() for _ in bodies]
        for t, k, j in schedule:
            if 0 <= t < self.n:
                self.pre[t][k] = j
        self.src, self.opcode, self.cap = srcdir, opcode, cap
        self.go = [_real_lock() for _ in bodies]
        for g in self.go:
            g.acquire()
        self.done = _real_lock()
        self.done.acquire()
        self.state = ['ready'] * self.n   # ready / blocked / over
        self.local = [0] * self.n
        self.ids = {}
        self.cur = None
        self.switches = []        # (from, local step, to, reason): the interleaving that really happened
        self.sites = [[] for _ in bodies] if record else None
        self.errors = [None] * self.n
        self.deadlock = False
        self.overrun = False
        self.max_steps = max_steps
        self.counts = [dict() for _ in bodies]

    def inside(self):
        return _thread.get_ident() in self.ids

    def _thread(self, i):
        self.ids[_thread.get_ident()] = i
        self.go[i].acquire()
        try:
            self.bodies[i]()
        except Deadlock:
            return
        except BaseException as e:  # a harness error: bodies catch what the library raises
            self.errors[i] = e
        self.state[i] = 'over'
        self.hand_over(i, 'end')

    def on_event(self, code, where):
        i = self.ids.get(_thread.get_ident())
        if i is None or self.state[i] == 'over':
            return
        cap = self.cap
        if cap is not None:
            cc = self.counts[i]
            c = cc.get(code, 0) + 1
            cc[code] = c
            if c > cap:
                if all(x.get(code, 0) > cap for x in self.counts):
                    return MON.DISABLE    # no thread counts this place any more
                return
        k = self.local[i]
        self.local[i] = k + 1
        if self.sites is not None:
            self.sites[i].append((code.co_filename, code.co_qualname, code.co_firstlineno, where))
        if k > self.max_steps:
            self.overrun = True
            self.stop()
        j = self.pre[i].get(k)
        if j is not None:
            j %= self.n
            if j != i and self.state[j] == 'ready':
                self.switch(i, j, k, 'preempt')

    def switch(self, i, j, k, why):
        self.switches.append((i, k, j, why))
        self.cur = j
        self.go[j].release()
        self.go[i].acquire()
        if self.deadlock or self.overrun:
            raise Deadlock()

    def hand_over(self, i, why):
        for d in range(1, self.n + 1):
            j = (i + d) % self.n
            if self.state[j] == 'ready':
                self.switches.append((i, self.local[i], j, why))
                self.cur = j
                self.go[j].release()
                return True
        if any(s == 'blocked' for s in self.state):
            self.deadlock = True
        self.done.release()
        return False

    def stop(self):
        self.done.release()
        raise Deadlock()

    def block(self):
        i = self.ids[_thread.get_ident()]
        self.state[i] = 'blocked'
        if not self.hand_over(i, 'block'):
            raise Deadlock()
        self.go[i].acquire()
        if self.deadlock or self.overrun:
            raise Deadlock()
        self.state[i] = 'ready'

    def wake(self):
        for i, s in enumerate(self.state):
            if s == 'blocked':
                self.state[i] = 'ready'

    def run(self, first=0):
        global ACTIVE, HANDLER
        ACTIVE = self
        instrument(self.src, self.opcode)
        HANDLER = self.on_event
        try:
            for i in range(self.n):
                _thread.start_new_thread(self._thread, (i,))
            self.cur = first % self.n
            self.go[self.cur].release()
            self.done.acquire()
        finally:
            ACTIVE = None
            HANDLER = None
            quiet()
        for e in self.errors:
            if e is not None:
                raise e
        return self


class Interrupt(KeyboardInterrupt):
    """the asynchronous exception the simulator delivers"""


def run_interrupted(fn, srcdir, at, opcode=True, cap=None, exc=Interrupt, record=None, skip=()):
    """Runs fn, raising exc at instrumented step number `at` (None: never). Returns (fired, steps)."""
    global HANDLER
    st = [0, False]
    me = _thread.get_ident()
    counts = {}

    def on_step(code, where):
        global HANDLER
        if _thread.get_ident() != me:
            return
        if cap is not None:
            c = counts.get(code, 0) + 1
            counts[code] = c
            if c > cap:
                return MON.DISABLE    # this place is not counted any more
        k = st[0]
        st[0] = k + 1
        if record is not None:
            record.append((code.co_filename, code.co_qualname, code.co_firstlineno, where))
        if k == at:
            st[1] = True
            HANDLER = None
            raise exc()
    instrument(srcdir, opcode, skip)
    HANDLER = on_step
    try:
        fn()
    finally:
        HANDLER = None
        quiet()
    return st[1], st[0]


def pick_points(rng, sites, count, only=None, by_function=False):
    """site-uniform choice of `count` step numbers: every distinct instruction reached is equally likely,
    however often it is executed"""
    by = {}
    for k, s in enumerate(sites):
        by.setdefault(s, []).append(k)
    keys = sorted(by if only is None else set(by) & only) or sorted(by)
    out = []
    for _ in range(count):
        if not keys:
            break
        if by_function:     # every function reached is equally likely
            f = rng.choice(sorted({k[:3] for k in keys}))
            out.append(rng.choice(by[rng.choice([k for k in keys if k[:3] == f])]))
            continue
        out.append(rng.choice(by[rng.choice(keys)]))
    return out


_HOT = None
_STORES = {'STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'STORE_SLICE', 'STORE_DEREF', 'DELETE_ATTR', 'DELETE_SUBSCR', 'DELETE_GLOBAL'}
_MUTATORS = {'append', 'clear', 'pop', 'popitem', 'update', 'setdefault', 'add', 'extend', 'remove', 'discard', 'insert', 'sort'}


def hot_places(srcdir):
    """places at which memory that other threads may see is about to be written, or was written just before"""
    global _HOT
    if _HOT is None:
        import dis
        _HOT = set()
        for c in library_codes(srcdir):
            after = False
            for i in dis.get_instructions(c):
                hot = i.opname in _STORES or (i.opname == 'LOAD_ATTR' and i.argval in _MUTATORS)
                if hot or after:
                    _HOT.add((c.co_filename, c.co_qualname, c.co_firstlineno, i.offset))
                after = hot
    return _HOT


# ------------------------------------------------------------------ schedules by place
# A preemption is [thread, place, occurrence, target]: thread is switched away from when it arrives at the place
# (file, function, first line, instruction offset or line) for the occurrence-th time. Places that no preemption
# names are switched off in the interpreter after their first event, so long executions cost little.
def record_places(fn, srcdir, opcode=True, most=12):
    """how often (at most `most`) fn arrives at each place of the library"""
    global HANDLER
    seen = {}

    def on_step(code, where):
        k = (code, where)
        c = seen.get(k, 0) + 1
        seen[k] = c
        if c >= most:
            return MON.DISABLE
    instrument(srcdir, opcode)
    HANDLER = on_step
    try:
        fn()
    finally:
        HANDLER = None
        quiet()
    out = {}
    for (c, w), n in seen.items():
        p = (c.co_filename[len(srcdir):], c.co_qualname, c.co_firstlineno, w)
        out[p] = max(out.get(p, 0), n)
    return sorted(out.items())


class PlaceSched(Sched):
    def __init__(self, bodies, schedule, srcdir, opcode=True):
        super().__init__(bodies, [], srcdir, opcode)
        self.want = {}
        for t, place, occ, j in schedule:
            self.want.setdefault(tuple(place), {}).setdefault(t, {})[occ] = j
        self.n_at = {}
        self.names = {}

    def on_event(self, code, where):
        i = self.ids.get(_thread.get_ident())
        nm = self.names.get(code)
        if nm is None:
            nm = self.names[code] = (code.co_filename[len(self.src):], code.co_qualname, code.co_firstlineno)
        w = self.want.get(nm + (where,))
        if w is None:
            return MON.DISABLE
        if i is None or self.state[i] == 'over' or i not in w:
            return
        k = (i, nm, where)
        c = self.n_at.get(k, 0)
        self.n_at[k] = c + 1
        self.local[i] += 1
        j = w[i].get(c)
        if j is not None:
            j %= self.n
            if j != i and self.state[j] == 'ready':
                self.switches.append((i, [*nm[:2], where, c], j, 'preempt'))
                self.cur = j
                self.go[j].release()
                self.go[i].acquire()
                if self.deadlock or self.overrun:
                    raise Deadlock()
