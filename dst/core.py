"""Deterministic simulator for a multi-client, single-process library.

Clients are real threads, but only the thread that holds the baton runs.  The
baton moves only (a) at library trace events (source lines, or bytecodes) named
in the plan, (b) when a client finishes an operation, and (c) when a client
blocks on a simulated lock.  Faults are exceptions raised at named trace events
(asynchronous interruption, allocation failure, numerical failure,
cancellation) or by stubs behind the library's seams.  Everything is decided by
the plan, a plain JSON document, so one plan is one exactly repeatable
execution.
"""
import ast
import dis
import hashlib
import json
import os
import random
import sys
import gc
import threading
import types

from . import env  # noqa: F401
import numpy as np

LIB = env.LIB
_TESTS = os.path.join(LIB, 'tests') + os.sep


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The machinery itself is at fault (never reported as a violation)."""


class SimStop(BaseException):
    """Unwinds client threads when a run is over."""


class SimCancelled(BaseException):
    """Injected cancellation (time-out, signal handler, task cancellation)."""


FAULT_KINDS = {
    'kbd': lambda: KeyboardInterrupt('injected'),
    'mem': lambda: MemoryError('injected'),
    'linalg': lambda: np.linalg.LinAlgError('injected'),
    'cancel': lambda: SimCancelled('injected'),
    'fpe': lambda: FloatingPointError('injected'),
}

_code_cache = {}


def is_lib_file(fn):
    r = _code_cache.get(fn)
    if r is None:
        p = os.path.realpath(fn) if not fn.startswith('<') else fn
        r = p.startswith(LIB) and not p.startswith(_TESTS)
        _code_cache[fn] = r
    return r


_write_lines = {}


def write_lines(fn):
    """Lines of a file that store into an attribute, an element or in place.

    Only used to bias where faults and pre-emptions are placed.
    """
    r = _write_lines.get(fn)
    if r is None:
        r = set()
        try:
            with open(fn) as f:
                tree = ast.parse(f.read())
            for n in ast.walk(tree):
                tgts = []
                if isinstance(n, ast.Assign):
                    tgts = n.targets
                elif isinstance(n, ast.AugAssign):
                    r.add(n.lineno)
                    continue
                elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    # Bare call statements are executed for their effect.
                    r.add(n.lineno)
                    continue
                for t in tgts:
                    for s in ast.walk(t):
                        if isinstance(s, (ast.Attribute, ast.Subscript)):
                            r.add(n.lineno)
        except (OSError, SyntaxError):
            pass
        _write_lines[fn] = r
    return r


_with_lines = {}


def with_lines(fn):
    """Header lines of with statements.  An exception raised by a tracer between
    the body and the call of __exit__ would skip the latter, which no real
    interruption can do: the interpreter handles signals at calls only."""
    r = _with_lines.get(fn)
    if r is None:
        r = set()
        try:
            with open(fn) as f:
                tree = ast.parse(f.read())
            for n in ast.walk(tree):
                if isinstance(n, (ast.With, ast.AsyncWith)):
                    r.update(range(n.lineno, n.body[0].lineno if n.body[0].lineno > n.lineno else n.lineno + 1))
        except (OSError, SyntaxError):
            pass
        _with_lines[fn] = r
    return r


_cleanups = {}


def unwinding(code):
    """Whether the innermost frame of `code` is between an exception and its
    handler, or in hidden clean-up that re-raises it: no interruption can come
    there, and the exception in flight would be lost without a trace."""
    r = _cleanups.get(code)
    if r is None:
        r = set()
        ins = {i.offset: i for i in dis.get_instructions(code)}
        offs = sorted(ins)
        for e in dis.Bytecode(code).exception_entries:
            if e.target not in ins:
                continue
            r.add(e.target)
            if ins[e.target].opname != 'PUSH_EXC_INFO':
                for o in offs[offs.index(e.target):]:
                    r.add(o)
                    if ins[o].opname == 'RERAISE':
                        break
        _cleanups[code] = r
    if not r:
        return False
    f = sys._getframe(1)
    while f is not None and f.f_code is not code:
        f = f.f_back
    return f is not None and f.f_lasti in r


# ---------------------------------------------------------------------------
# Simulated locks: if the library (or an edit of it) synchronises with
# threading primitives, the simulator has to own them.

_real_Lock = threading.Lock
_real_RLock = threading.RLock
_active_sim = None


class SimLock:
    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._n = 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self._owner is not None and not (self._re and self._owner == me):
            if not blocking or timeout == 0:
                return False
            sim = _active_sim
            if sim is None or not sim.block_current():
                raise Violation('deadlock', 'a lock taken by the library is never released')
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None
            if _active_sim is not None:
                for c in _active_sim.clients:
                    c.blocked = False

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def _lock_factory(real, reentrant):
    def make():
        f = sys._getframe(1)
        if is_lib_file(f.f_code.co_filename):
            return SimLock(reentrant)
        return real()
    return make


def install_lock_seam():
    threading.Lock = _lock_factory(_real_Lock, False)
    threading.RLock = _lock_factory(_real_RLock, True)


install_lock_seam()


# ---------------------------------------------------------------------------
# Instrumentation: per-code-object line or instruction events of library code.

_TOOL = 4
_instrumented = []


def _nested(code, seen):
    if code in seen:
        return
    seen.add(code)
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            _nested(k, seen)


_codes = []


def lib_codes(refresh=False):
    """Code objects of every library function (collected once, before runs)."""
    if _codes and not refresh:
        return _codes[0]
    seen = set()
    for o in gc.get_objects():
        if type(o) is types.FunctionType:
            co = o.__code__
            if is_lib_file(co.co_filename):
                _nested(co, seen)
    codes = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    _codes[:] = [codes]
    return codes


_line_maps = {}


def _line_at(code, offset):
    m = _line_maps.get(code)
    if m is None:
        m = {}
        for a, b, l in code.co_lines():
            for o in range(a, b, 2):
                m[o] = l
        _line_maps[code] = m
    return m.get(offset)


def instrument(sim):
    mon = sys.monitoring
    ev = mon.events
    mon.use_tool_id(_TOOL, 'dst')
    if sim.opcode:
        kind = ev.INSTRUCTION

        def cb(code, offset):
            sim.on_event(code, _line_at(code, offset))
    else:
        kind = ev.LINE

        def cb(code, line):
            sim.on_event(code, line)
    mon.register_callback(_TOOL, kind, cb)
    for co in lib_codes():
        mon.set_local_events(_TOOL, co, kind)
        _instrumented.append(co)


def uninstrument():
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        return
    for co in _instrumented:
        mon.set_local_events(_TOOL, co, 0)
    del _instrumented[:]
    mon.register_callback(_TOOL, mon.events.LINE, None)
    mon.register_callback(_TOOL, mon.events.INSTRUCTION, None)
    mon.free_tool_id(_TOOL)


class Outcome:
    __slots__ = ('status', 'value', 'exc', 'fired', 'events')

    def __init__(self):
        self.status = None     # 'ok', 'exc'
        self.value = None
        self.exc = None
        self.fired = []        # injected exceptions that fired during the op
        self.events = 0

    @property
    def ok(self):
        return self.status == 'ok'

    @property
    def faulted(self):
        return bool(self.fired)


class Client:
    def __init__(self, idx, ops):
        self.idx = idx
        self.ops = ops
        self.pos = 0
        self.done = False
        self.blocked = False
        self.go = _real_Lock()
        self.go.acquire()
        self.thread = None
        self.in_op = False
        self.n = 0
        self.loc = None
        self.cur_op = None


def canonical(x, out):
    """Feeds a canonical form of a value to a hash."""
    if x is None or isinstance(x, (bool, int, str)):
        out.update(repr(x).encode())
    elif isinstance(x, (float, complex, np.generic)):
        out.update(repr(np.asarray(x).dtype).encode())
        out.update(np.asarray(x).tobytes())
    elif isinstance(x, np.ndarray):
        out.update(str(x.dtype).encode() + str(x.shape).encode())
        out.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (list, tuple)):
        out.update(b'[')
        for y in x:
            canonical(y, out)
        out.update(b']')
    elif isinstance(x, dict):
        out.update(b'{')
        for k in x:
            canonical(k, out)
            canonical(x[k], out)
        out.update(b'}')
    elif hasattr(x, 'locations') and hasattr(x, 'units'):
        out.update(type(x).__name__.encode())
        canonical(np.asarray(x.locations), out)
        canonical(list(x.units), out)
    else:
        out.update(type(x).__name__.encode())


class Sim:
    """Executes one plan.

    The property object ``prop`` supplies: setup(plan) -> ctx,
    run_op(ctx, client, op) -> value (library calls, traced),
    check(ctx, client, op, outcome) (oracle, untraced), optional
    invariant(ctx), and final(ctx, sim).
    """

    def __init__(self, prop, plan, checking=True, record=False):
        self.prop = prop
        self.plan = plan
        self.checking = checking
        self.record = record
        self.violation = None
        self.harness_error = None
        self.fired = {}
        self.preempts = 0
        self.total_events = 0
        self.op_events = {}
        self.op_hot = {}
        self.switch_sig = []
        self.log = hashlib.sha256()
        self.trail = []
        self.ops_run = 0
        self.invariant_checks = 0
        self.stop = False
        self.probes = {}
        self.current = None
        self.quiet = False
        cap = plan.get('cap')
        self.cap = cap if cap else 3000000 if plan.get('opcode') else 20000000
        self.opcode = bool(plan.get('opcode'))
        self.every = int(plan.get('every', 0))
        self.table = {}
        for a in plan.get('actions', []):
            self.table.setdefault(a['op'], {}).setdefault(a['ev'], []).append(a)
        self.started_sig = []

    # -- bookkeeping -----------------------------------------------------
    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note_fault(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def emit(self, *items):
        line = ' '.join(str(i) for i in items)
        self.log.update(line.encode())
        self.log.update(b'\n')
        if self.record:
            self.trail.append(line)

    def fail(self, kind, msg):
        if self.violation is None:
            self.violation = {'kind': kind, 'msg': str(msg)[:2000]}
            self.emit('VIOLATION', kind)
        self.stop = True

    # -- baton -----------------------------------------------------------
    def runnable(self, exclude=None):
        return [c for c in self.clients if not c.done and c is not exclude]

    def switch(self, me, other):
        self.switch_sig.append((me.idx if me else -1, me.loc if me else None, other.idx))
        self.current = other
        other.go.release()
        if me is not None:
            me.go.acquire()
            if self.stop:
                raise SimStop()

    def block_current(self):
        """Called by a simulated lock: let somebody else run."""
        me = self.current
        if me is None or not me.in_op or me.thread is not threading.current_thread():
            return False
        me.blocked = True
        others = [c for c in self.runnable(me) if not c.blocked]
        if not others:
            me.blocked = False
            self.fail('deadlock', 'every client waits for a lock')
            raise SimStop()
        self.probe('lock-wait')
        self.switch(me, others[0])
        me.blocked = False
        return True

    # -- tracing ---------------------------------------------------------
    def on_event(self, code, line):
        """One traced library event of the running client."""
        c = self.current
        if c is None or not c.in_op or self.stop:
            return
        c.n += 1
        n = c.n
        if c.hot is not None and line in write_lines(code.co_filename):
            c.hot.append(n)
        if n > self.cap:
            self.fail('livelock', 'operation %r exceeds %d library events'
                      % (c.cur_op.get('kind'), self.cap))
            raise SimStop()
        acts = c.acts
        if acts is not None and n in acts:
            for a in acts[n]:
                self.do_action(c, a, code, line)
        elif self.every and n % (self.every * (1 + n // 4000)) == 0:    # long operations: more sparsely
            self.check_invariant()

    def check_invariant(self):
        inv = getattr(self.prop, 'invariant', None)
        if inv is None or not self.checking or self.quiet:
            return
        self.invariant_checks += 1
        try:
            inv(self.ctx)
        except Violation as v:
            self.fail(v.kind, v.msg)
        if self.stop:
            raise SimStop()

    def do_action(self, c, a, code, line):
        c.loc = '%s:%s' % (os.path.basename(code.co_filename), line)
        if a['do'] == 'switch':
            self.check_invariant()
            others = [x for x in self.runnable(c) if not x.blocked]
            if not others:
                return
            self.preempts += 1
            other = others[a['to'] % len(others)]
            self.emit('switch', c.idx, c.cur_op['id'], c.n, c.loc, other.idx)
            self.switch(c, other)
        elif a['do'] == 'fault':
            if line in with_lines(code.co_filename) or unwinding(code):
                c.acts.setdefault(c.n + 1, []).append(a)
                return
            self.check_invariant()
            e = FAULT_KINDS[a['kind']]()
            self.note_fault(a['kind'])
            c.fired.append(e)
            self.emit('fault', c.idx, c.cur_op['id'], c.n, c.loc, a['kind'])
            raise e

    def seam_fault(self, kind, exc=None):
        """A stub behind a library seam reports a fault to the simulator."""
        self.note_fault(kind)
        c = self.current
        if c is not None and exc is not None:
            c.fired.append(exc)
        self.emit('seam', c.idx if c else -1, kind)

    # -- operations ------------------------------------------------------
    def call(self, c, op):
        """Runs one operation under the tracer and returns its Outcome."""
        out = Outcome()
        c.n = 0
        c.cur_op = op
        c.fired = out.fired
        c.acts = self.table.get(op['id'])
        c.hot = [] if self.record_hot else None
        c.in_op = True
        try:
            try:
                out.value = self.prop.run_op(self.ctx, c, op)
                out.status = 'ok'
            finally:
                c.in_op = False
        except SimStop:
            raise
        except (Violation, HarnessError):
            raise
        except BaseException as e:
            out.status = 'exc'
            out.exc = e
        out.events = c.n
        self.total_events += c.n
        self.op_events[op['id']] = c.n
        if c.hot is not None:
            self.op_hot[op['id']] = c.hot
        return out

    def oracle(self, c, op, out):
        if not self.checking:
            return
        try:
            self.prop.check(self.ctx, c, op, out)
        except (Violation, HarnessError, SimStop):
            raise
        except Exception as e:  # the result is not even of the documented form
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('malformed-result', '%s: %s (%s:%s) for op %s' % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno, op))

    def exec_op(self, c, op):
        self.ops_run += 1
        out = self.call(c, op)
        h = hashlib.sha256()
        if out.ok:
            canonical(out.value, h)
        else:
            h.update(type(out.exc).__name__.encode())
        self.emit('op', c.idx, op['id'], op.get('kind'), out.status, out.events,
                  h.hexdigest()[:16])
        c.loc = 'end:%s' % op.get('kind')
        self.default_exc_check(op, out)
        self.oracle(c, op, out)
        self.check_invariant()

    def default_exc_check(self, op, out):
        """An exception nobody injected is a violation unless the op expects it."""
        if out.ok or not self.checking:
            return
        if out.faulted:
            return
        x = op.get('expect_exc')
        e = out.exc
        if x and (x is True or type(e).__name__ in x):
            return
        import traceback
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
        raise Violation('unexpected-exception',
                        '%s: %s in op %s\n%s' % (type(e).__name__, e, op, tb))

    # -- threads ---------------------------------------------------------
    def body(self, c):
        c.go.acquire()
        handed = False
        try:
            while not self.stop and c.pos < len(c.ops):
                op = c.ops[c.pos]
                c.pos += 1
                self.exec_op(c, op)
                if c.pos >= len(c.ops):
                    c.done = True
                rs = [x for x in self.runnable() if not x.blocked] or self.runnable()
                if not rs:
                    break
                nxt = rs[op.get('next', 0) % len(rs)]
                if nxt is not c:
                    if c.done:
                        self.switch_sig.append((c.idx, c.loc, nxt.idx))
                        self.current = nxt
                        handed = True
                        nxt.go.release()
                        return
                    self.switch(c, nxt)
        except SimStop:
            pass
        except Violation as v:
            self.fail(v.kind, v.msg)
        except BaseException as e:
            import traceback
            self.harness_error = traceback.format_exc()
            self.stop = True
        finally:
            if not handed:
                c.done = True
                if self.stop or not self.runnable():
                    self.wake_main()

    def wake_main(self):
        # Only the baton holder gets here, or threads unwinding after a stop.
        with self.wake_guard:
            if not self.main_woken:
                self.main_woken = True
                self.main.release()

    def run(self, record_hot=False):
        global _active_sim
        self.record_hot = record_hot
        plan = self.plan
        np.random.seed(plan.get('npseed', 0) % (2 ** 32))
        random.seed(plan.get('npseed', 0))
        _active_sim = self
        self.main = _real_Lock()
        self.main.acquire()
        self.main_woken = False
        self.wake_guard = _real_Lock()
        self.clients = [Client(i, ops) for i, ops in enumerate(plan['clients'])]
        self.clients_all = self.clients
        try:
            try:
                self.ctx = self.prop.setup(plan)
            except (Violation, HarnessError):
                raise
            except Exception as e:
                # Every world is valid: the library must be able to build it.
                import traceback
                raise Violation('setup-exception', '%s: %s\n%s' % (
                    type(e).__name__, e, traceback.format_exc()[-1200:]))
            self.ctx.sim = self
            instrument(self)
            live = [c for c in self.clients if c.ops]
            for c in self.clients:
                if not c.ops:
                    c.done = True
            if live:
                for c in live:
                    c.thread = threading.Thread(target=self.body, args=(c,), daemon=True)
                    c.thread.start()
                first = live[plan.get('start', 0) % len(live)]
                self.current = first
                first.go.release()
                self.main.acquire()
                # Unwind whoever is still parked.
                for c in live:
                    if c.thread.is_alive():
                        try:
                            c.go.release()
                        except RuntimeError:
                            pass
                for c in live:
                    c.thread.join(30)
                    if c.thread.is_alive():
                        self.harness_error = self.harness_error or 'client thread stuck'
            self.current = None
            if self.violation is None and self.harness_error is None and self.checking:
                self.finish()
        except Violation as v:
            self.fail(v.kind, v.msg)
        except SimStop:
            pass
        except BaseException:
            import traceback
            self.harness_error = traceback.format_exc()
        finally:
            uninstrument()
            _active_sim = None
            td = getattr(self.prop, 'teardown', None)
            if td is not None and getattr(self, 'ctx', None) is not None:
                td(self.ctx)
        return self

    def finish(self):
        """Faults have stopped: every interrupted operation must now succeed."""
        fin = Client(len(self.clients), [])
        fin.thread = threading.current_thread()
        redo = []
        budget = self.plan.get('redo', 6)
        hit = {a['op'] for a in self.plan.get('actions', []) if a['do'] == 'fault'}
        for c in self.clients:
            for op in c.ops:
                if op['id'] in hit or op.get('seam_fault') or op.get('recheck'):
                    redo.append(op)
        self.table = {}
        self.record_hot = False
        self.quiet = False
        skip = getattr(self.prop, 'skip_redo', None)
        self.current = fin
        for op in redo[:budget]:
            op2 = {k: v for k, v in op.items() if k not in ('seam_fault',)}
            op2['redo'] = True
            if skip is not None and skip(op2):
                continue
            self.exec_op(fin, op2)
            self.probe('redo-after-faults')
        self.current = None
        f = getattr(self.prop, 'final', None)
        if f is not None:
            try:
                f(self.ctx)
            except (Violation, HarnessError):
                raise
            except Exception as e:
                import traceback
                raise Violation('malformed-result', '%s: %s in the final check\n%s' % (
                    type(e).__name__, e, traceback.format_exc()[-800:]))

    def result(self):
        sig = hashlib.sha256(repr(self.switch_sig).encode()).hexdigest()[:16]
        return {
            'violation': self.violation,
            'harness_error': self.harness_error,
            'fired': self.fired,
            'preempts': self.preempts,
            'events': self.total_events,
            'ops': self.ops_run,
            'inv': self.invariant_checks,
            'sig': sig,
            'switches': len(self.switch_sig),
            'digest': self.log.hexdigest(),
            'probes': self.probes,
        }


# ---------------------------------------------------------------------------
# Plans

def assign_ids(clients):
    i = 0
    for ops in clients:
        for op in ops:
            op['id'] = i
            i += 1


def pick_event(rng, n, hot):
    """An event number in 1..n, biased to edges and to state-writing lines."""
    u = rng.random()
    if hot and u < 0.45:
        e = hot[rng.randrange(len(hot))] + (1 if rng.random() < 0.5 else 0)
    elif u < 0.6:
        e = n - rng.randrange(min(6, n))
    elif u < 0.7:
        e = 1 + rng.randrange(min(6, n))
    else:
        e = 1 + rng.randrange(n)
    return max(1, min(n, e))


def build_plan(prop, seed, index):
    """Derives the complete plan of one run from (seed, index)."""
    rng = random.Random('%s/%d/%d' % (prop.id, seed, index))
    plan = prop.gen(rng)
    plan['prop'] = prop.id
    plan['npseed'] = rng.randrange(2 ** 31)
    lrng = random.Random('long/%s/%d/%d' % (prop.id, seed, index))
    if lrng.random() < getattr(prop, 'long', 0.03):
        # A long history: the same operations again and again on the same objects.
        n = lrng.choice(getattr(prop, 'long_n', [20, 40, 70]))
        plan['every'] = 0
        for ops in plan['clients']:
            base = json.dumps(ops)
            while ops and len(ops) < n:
                ops.extend(json.loads(base))
        plan['long'] = True
    assign_ids(plan['clients'])
    cfg = plan.get('cfg', {})
    u = rng.random()
    # Swarm: some runs are serial and fault-free, some only interleave, some
    # only fault, most do both.
    do_sw = cfg.get('switch', True) and len(plan['clients']) > 1 and u > 0.2
    do_ft = cfg.get('faults', True) and (u < 0.12 or u > 0.35)
    plan['opcode'] = cfg.get('opcode', rng.random() < 0.25)
    if plan.get('long'):
        plan['opcode'] = False
    plan['start'] = rng.randrange(8)
    for ops in plan['clients']:
        for op in ops:
            op['next'] = rng.randrange(8) if rng.random() < 0.7 else 0
    plan['actions'] = []
    kinds = cfg.get('kinds', ['kbd', 'mem', 'linalg', 'cancel', 'fpe'])
    if rng.random() < 0.3:
        kinds = [rng.choice(kinds)]
    if do_sw or do_ft:
        cal = dict(plan)
        if cfg.get('calibrate', True):
            s = Sim(prop, cal, checking=False)
            s.run(record_hot=True)
            if plan['opcode'] and (s.violation and s.violation['kind'] == 'livelock'
                                   or sum(s.op_events.values()) > 4000000):
                # A long calculation: trace lines, not single instructions.
                plan['opcode'] = False
                cal = dict(plan)
                s = Sim(prop, cal, checking=False)
                s.run(record_hot=True)
            if s.harness_error:
                raise HarnessError(s.harness_error)
            counts, hots = s.op_events, s.op_hot
        else:
            counts, hots = {}, {}
        ops = [op['id'] for c in plan['clients'] for op in c if counts.get(op['id'], 0) > 0
               and not op.get('no_action')]
        fops = [op['id'] for c in plan['clients'] for op in c if counts.get(op['id'], 0) > 0
                and not op.get('no_action') and not op.get('no_fault')]
        if ops and do_sw:
            for _ in range(rng.choice([1, 2, 2, 3, 4, 6, 9])):
                o = rng.choice(ops)
                plan['actions'].append({'op': o, 'ev': pick_event(rng, counts[o], hots.get(o)),
                                        'do': 'switch', 'to': rng.randrange(8)})
        if fops and do_ft:
            for _ in range(rng.choice(cfg.get('nfaults', [1, 1, 1, 2, 2, 3]))):
                o = rng.choice(fops)
                plan['actions'].append({'op': o, 'ev': pick_event(rng, counts[o], hots.get(o)),
                                        'do': 'fault', 'kind': rng.choice(kinds)})
        mx = max([counts[o] for o in ops], default=1)
        plan['cap'] = max(200000, 100 * mx)
    else:
        plan['opcode'] = False
    plan['clients'] = plan['clients']
    return plan


def run_plan(prop, plan, record=False):
    plan = json.loads(json.dumps(plan))
    s = Sim(prop, plan, checking=True, record=record)
    s.run()
    r = s.result()
    if record:
        r['trail'] = s.trail
    return r
