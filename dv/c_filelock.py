"""C02, C12, C13: one FileLock object used by thread T1 in sequences of any length, contended by others.

Rely/guarantee.  Contenders with other objects (of any process) are seen through the operating system only: one of them may
get the OS lock whenever it is free and lets it go again, at every OS call of T1.  In return T1 is shown to be inside only
while its open file description holds the OS lock of the file at the path, and not to touch the file otherwise -- which is
what it relies on.  A contender T2 on the *same* object runs the same real code, interleaved with T1 at every operation on
the internal lock, every OS call and every access to an attribute of the object.

Every OS call may fail.  The driver's loop over operations is a cut point: the set of abstract states met there is the class
invariant, inductive over all sequences.  At any point T1's process may die: the operating system then closes its
descriptors, and a new process runs the real code on what is left.  Time is looked at in separate tasks (one acquisition,
arbitrary contention), with a clock related to earlier instants by the templates of widen().
"""
import copy
import os as _os
import z3
from engine import cur, Unsupported, PathEnd, SymNum, SymBool, ENGINE_FILES, num
from focus import Mod, DDict, DSeq
from core import load

ENGINE_FILES.add(__file__)
PROPS = ['C02', 'C12', 'C13']
_N = ['__init__', 'is_locked', 'acquire', 'acquire.<locals>._cleanup_thread_lock', 'acquire_ctx', 'release', '_acquire', '_release',
      '_decrement_lock_counter', '__enter__', '__exit__']
_F = [f'aiuti.filelock.BaseFileLock.{n}' for n in _N] + ['aiuti.filelock.UnixFileLock._lock', 'aiuti.filelock.UnixFileLock._unlock']
FUNCTIONS = {p: _F for p in PROPS}
_A = ['flock(2): one exclusive lock per inode, owned by the open file description, gone when its last descriptor is closed or its '
      'process dies (a forked child sharing the description is not considered)',
      'threading.Lock/RLock behave as documented', 'nobody but this code touches the lock file',
      'a thread calls release only while it holds the lock or nobody does',
      'operations of the contender are interposed whole at every shared access of the other (each is under the lock)',
      'nesting of a reentrant lock: at most 3 levels', 'the clock is monotonic; only sleeps and lock waits take time']
ASSUMES = {p: _A for p in PROPS}
EXPECT = {'C02': ['C02.mutex', 'C02.true_means_held', 'C02.os_lock'],
          'C12': ['C12.is_locked', 'C12.no_fd_leak', 'C12.false_only_if', 'C12.at_once', 'C12.timed', 'C12.raises', 'C12.refuses',
                  'C12.release_noop', 'C12.ctx', 'C12.no_residue', 'C12.free_again'],
          'C13': ['C13.survivor', 'C13.effects']}
PATH = '/locks/a.lock'
POLL = z3.RealVal('0.05')


class Inode:
    def __init__(self):
        self.ex = None              # open file description holding flock

    def _dv_state(self):
        return (self.ex,)


class OFD:
    def __init__(self, ino, proc):
        self.ino, self.proc = ino, proc

    def _dv_state(self):
        return (self.ino, self.proc)


class Kernel:
    w = property(lambda self: cur().world)

    def __init__(self):
        self.files = {PATH: None}
        self.fds = {}               # (proc, n) -> OFD

    def _dv_state(self):
        return (tuple(self.files.items()), tuple(sorted(((k, v) for k, v in self.fds.items()), key=lambda x: x[0])))

    def fault(self, what):
        w = self.w
        if w.faults and cur().choose(2, ['', f'{what} fails']):
            w.excused = True
            return True
        return False

    @staticmethod
    def err(e):
        e.injected = True
        return e

    def open(self, path, flags, mode=0o777, *, dir_fd=None):
        w = self.w
        w.step(True)
        cur().check('C13.effects', str(path) == PATH, f'opens {path}, which is not the lock file')
        if self.fault('open'):
            raise self.err(PermissionError(13, 'Permission denied'))
        ino = self.files.get(PATH)
        if ino is not None and flags & _os.O_EXCL and flags & _os.O_CREAT:
            raise FileExistsError(17, 'File exists')
        if ino is None:
            if not flags & _os.O_CREAT:
                raise FileNotFoundError(2, 'No such file')
            ino = self.files[PATH] = Inode()
        n = 3
        while (w.proc(), n) in self.fds:
            n += 1
        self.fds[w.proc(), n] = OFD(ino, w.proc())
        return n

    def ofd(self, fd):
        o = self.fds.get((self.w.proc(), fd)) if isinstance(fd, int) else None
        if o is None:
            if not isinstance(fd, int):
                raise TypeError('an integer is required')
            raise OSError(9, 'Bad file descriptor')
        return o

    def close(self, fd):
        self.w.step(True)
        o = self.ofd(fd)
        self.drop((self.w.proc(), fd), o)
        if self.fault('close'):
            raise self.err(OSError(5, 'Input/output error'))

    def drop(self, key, o):
        del self.fds[key]
        if o.ino.ex is o and o not in self.fds.values():
            o.ino.ex = None

    def env(self, acquire):
        """A contender in another process gets or lets go the OS lock."""
        w = self.w
        if acquire:
            ino = self.files[PATH]
            if ino is None:
                ino = self.files[PATH] = Inode()
            if ino.ex is not None:
                cur().end()
            o = OFD(ino, 'E')
            self.fds['E', 3] = o
            ino.ex = o
            w.depth['T2'] = 1
        else:
            self.drop(('E', 3), self.fds['E', 3])
            w.depth['T2'] = 0

    def die(self, proc):
        for k in [k for k in self.fds if k[0] == proc]:
            self.drop(k, self.fds[k])

    def dup(self, fd):
        raise Unsupported('os.dup')

    def set_inheritable(self, fd, flag):
        if flag:
            cur().fail('C13.effects', 'the descriptor survives in child processes')

    def unlink(self, path, *a, **k):
        raise Unsupported('removes or renames files')

    def flock(self, fd, op):
        w = self.w
        w.step(True)
        o = self.ofd(fd)
        if op & 8:
            if self.fault('unlock'):
                raise self.err(OSError(5, 'Input/output error'))
            if o.ino.ex is o:
                o.ino.ex = None
            return
        if op & 1:
            raise Unsupported('shared flock')
        if not op & 2:
            raise OSError(22, 'Invalid argument')
        if self.fault('flock'):
            raise self.err(OSError(37, 'No locks available'))
        self.wait(lambda: o.ino.ex not in (None, o), op & 4)
        o.ino.ex = o

    def wait(self, busy, nb):
        w = self.w
        if busy() and nb:
            raise BlockingIOError(11, 'Resource temporarily unavailable')
        if busy() and not w.nested:
            w.waits()
            w.clock_wait()
            w.let_go()
        if busy():
            cur().end()             # blocked for ever (or: as long as the contender holds on)

    def lockf(self, fd, op, *a):
        raise Unsupported('POSIX record locks')


class LockM:
    reentrant = False

    w = property(lambda self: cur().world)

    def __init__(self):
        self.depth, self.owner = 0, None

    def _dv_state(self):
        return (self.depth, self.owner if self.reentrant else None)

    def acquire(self, blocking=True, timeout=-1):
        w = self.w
        r = cur()
        r.alive()
        if timeout is ANY:
            timed = True
        elif isinstance(timeout, SymNum):
            if not blocking:
                raise ValueError("can't specify a timeout for a non-blocking call")
            timed = True
            if timeout < 0:
                raise ValueError('timeout value must be a non-negative number')
        else:
            timed = timeout != -1
            if timed and not blocking:
                raise ValueError("can't specify a timeout for a non-blocking call")
            if timed and timeout < 0:
                raise ValueError('timeout value must be a non-negative number')
        w.step()
        if self.depth and not (self.reentrant and self.owner == w.me):
            if not blocking:
                return False
            if w.nested:
                r.end()
            w.waits()
            mine = not w.other_thread_has(self)
            if timed:
                if mine or r.choose(2, ['released in time', 'internal lock not released in time']):
                    w.clock.advance(timeout)
                    return False
                w.clock.advance_upto(timeout)
            else:
                w.clock_wait()
            w.let_go()
            if self.depth:
                r.end()
        self.depth += 1
        self.owner = w.me
        return True

    def release(self):
        w = self.w
        w.step()
        if not self.depth or self.reentrant and self.owner != w.me:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        self.w.step()
        return bool(self.depth)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLockM(LockM):
    reentrant = True


class AnyNum:
    """A number nothing is known about: every comparison may turn out either way."""

    def __deepcopy__(self, memo):
        return self

    def _dv_state(self):
        return ()

    def _op(self, *o):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __neg__ = __abs__ = _op

    def _cmp(self, o):
        return bool(cur().choose(2, ['time: no', 'time: yes']))

    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = lambda self, *o: self._cmp(o)
    __hash__ = None

    def __eq__(self, o):
        return self._cmp(o)

    def __format__(self, spec):
        return 'instant'


ANY = AnyNum()


class Clock:
    """Mathematical clock.  In the timing tasks, instants stay related to it by the templates of widen(); in the others
    every reading is an arbitrary number."""

    run = property(lambda self: cur())

    def __init__(self, timing):
        self.timing = timing
        self.now = cur().fresh('now', 'Real') if timing else z3.RealVal(0)

    def __deepcopy__(self, memo):
        c = object.__new__(Clock)
        c.timing, c.now = self.timing, self.now
        return c

    def _dv_state(self):
        return (SymNum(self.now),)

    def time(self):
        return SymNum(self.now) if self.timing else ANY

    def advance(self, d):
        if self.timing:
            d = num(d)
            n = self.run.fresh('now', 'Real')
            self.run.pc.append(n == self.now + d)
            self.now = n

    def advance_upto(self, d):
        if self.timing:
            d = num(d)
            n = self.run.fresh('now', 'Real')
            self.run.pc.append(z3.And(n >= self.now, n <= self.now + d))
            self.now = n

    def advance_any(self):
        if self.timing:
            n = self.run.fresh('now', 'Real')
            self.run.pc.append(n >= self.now)
            self.now = n


class World:
    nested = False
    t0 = None
    timeout_z = default_z = poll_z = None
    polled = False
    default = -1

    run = property(lambda self: cur())

    def __init__(self, run, same, timing, reentrant):
        self.me = 'T1'
        self.same, self.timing, self.reentrant = same, timing, reentrant
        self.faults = True
        self.excused = False        # a fault or the contender may have prevented success
        self.ctx = None             # the operation T1 is in
        self.k = Kernel()
        self.depth = {'T1': 0, 'T2': 0}
        self.objs = {}
        self.exits = {'T1': [], 'T2': []}
        self.env_on = False
        self.crash_ok = not same and not timing
        self.clock = Clock(timing)

    def _dv_state(self):
        return (self.me, self.faults, self.excused, self.k, self.depth, self.objs, self.exits, self.env_on, self.ctx,
                SymNum(self.t0) if self.t0 is not None else None, self.clock)

    def waits(self):
        if self.ctx and self.ctx[0] == 'acquire' and not self.ctx[1]:
            self.run.fail('C12.at_once', 'a non-blocking acquire waits')

    def proc(self):
        return 'C' if self.me == 'T3' else 'A'

    # ---- interleaving
    def other_thread_has(self, lock):
        return self.same and self.depth['T2'] and self.me == 'T1'

    def step(self, os_call=False):
        """Operations of the contender, or the death of this process, at a shared access of T1."""
        r = self.run
        if r.dead or self.nested or not self.env_on or self.me != 'T1' or not (self.same or os_call):
            return
        if self.crash_ok:
            self.crash_here()
        for i in range(3):
            if not r.mid_cut() and i == 2:
                return
            k = 'contender releases' if self.depth['T2'] else 'contender tries'
            if r.pick(['-', k], 'here') == '-':
                return
            self.do(k)

    def busy(self):
        """A contender (with another object) holds the OS lock."""
        return bool(self.depth['T2']) and not self.same

    def do(self, k):
        self.excused = True
        if not self.same:
            self.k.env(k == 'contender tries')
            return
        before = self.snap()
        me, self.me, self.nested = self.me, 'T2', True
        f, self.faults = self.faults, False
        try:
            if k == 'contender tries':
                self.op_acquire('T2', self.objs['T2'], dict(blocking=False))
            else:
                self.op_release('T2', self.objs['T2'])
        finally:
            self.me, self.nested, self.faults = me, False, f
        if k == 'contender tries' and not self.depth['T2'] and self.snap() == before:
            self.run.end()      # as if it had not tried

    def snap(self):
        inos = [o.ino for o in self.k.fds.values()] + [i for i in self.k.files.values() if i]
        o = self.objs['T2']
        d = object.__getattribute__(o, '__dict__') if o is not None else {}
        return (dict(self.k.fds), dict(self.k.files), [(i, i.ex) for i in inos], {k: v for k, v in d.items()},
                [(v, v.depth, v.owner) for v in d.values() if isinstance(v, LockM)])

    def restore(self, s):
        k = self.k
        k.fds, k.files = dict(s[0]), dict(s[1])
        for i, ex in s[2]:
            i.ex = ex
        if self.objs['T2'] is not None:
            d = object.__getattribute__(self.objs['T2'], '__dict__')
            d.clear()
            d.update(s[3])
        for lk, n, o in s[4]:
            lk.depth, lk.owner = n, o

    def crash_here(self):
        """The death of T1's process at this point (looked at on the side)."""
        from engine import Canon
        if self.nested:
            return
        key = repr(Canon(self.run).obj((self.k, self.depth['T2'])))
        memo = self.run.eng.memo
        if key in memo:
            return
        memo[key] = True
        s = self.snap()
        keep = self.me, self.faults, self.env_on, dict(self.depth), self.t0
        try:
            self.crash()
        finally:
            self.restore(s)
            self.nested = False
            self.me, self.faults, self.env_on, self.depth, self.t0 = keep

    def let_go(self):
        """What T1 is blocked on is released."""
        if self.depth['T2'] and self.env_on:
            self.do('contender releases')

    def clock_wait(self):
        self.clock.advance_any()

    def crash(self):
        """The process of T1 dies here; a new process takes over from what the kernel has left."""
        r = self.run
        self.k.die('A')
        self.env_on = False
        self.nested = True
        self.faults = False
        self.me = 'T3'
        lk = self.module('C').FileLock(PATH)
        got = lk.acquire(blocking=False)
        r.check('C13.survivor', got == (not self.depth['T2']),
                'after a crash a new process ' + ('cannot acquire the lock' if not got else 'acquires the lock although another one holds it'))
        if got:
            lk.release()
            r.check('C13.survivor', lk.acquire(blocking=False), 'the survivor cannot acquire the lock again')
            lk.release()

    # ---- operations with their contracts
    def held(self, obj):
        return any(self.depth[t] and self.objs[t] is obj for t in ('T1', 'T2'))

    def entered(self, t, how):
        r = self.run
        o = 'T2' if t == 'T1' else 'T1'
        r.check('C02.mutex', not self.depth[o], f'{t} acquires the lock while {o} holds it')
        self.depth[t] += 1
        self.exits[t].append(how)
        on, self.env_on = self.env_on, False
        r.check('C02.true_means_held', self.objs[t].is_locked, 'acquire reports success but the lock is not locked')
        self.env_on = on
        self.guarantee()

    def guarantee(self):
        """Whoever is inside owns the OS lock of the file that is at the path."""
        if self.depth['T1'] or self.same and self.depth['T2']:
            ino = self.k.files[PATH]
            self.run.check('C02.os_lock', ino is not None and ino.ex is not None and ino.ex.proc == 'A',
                           'inside without the OS lock of the lock file')

    def op_acquire(self, t, obj, kw, how='acquire'):
        r = self.run
        kw = dict(kw)
        t0 = self.clock.now
        if not self.nested:
            self.t0 = t0
        before = self.depth[t]
        excused = bool(self.depth['T2' if t == 'T1' else 'T1'] or before and not self.reentrant)
        if not self.nested:
            to = kw.get('timeout', self.default if kw.get('blocking', True) else -1)
            self.excused = excused
            self.ctx = ('acquire', kw.get('blocking', True) or isinstance(to, SymNum), isinstance(to, SymNum), how, before)
            if how != 'acquire':
                self.env_on = False
        exc = None
        try:
            if how == 'acquire':
                got = obj.acquire(**kw)
            elif how == 'with':
                obj.__enter__()
                got = True
            else:
                cm = obj.acquire_ctx(**kw)
                cm.__enter__()
                got, how = True, cm
        except (PathEnd, Unsupported):
            raise
        except TimeoutError as e:
            if how == 'acquire':
                raise
            exc, got = e, False
        except BaseException as e:
            exc, got = e, None
        if exc is not None and not isinstance(exc, TimeoutError):
            r.check('C12.raises', getattr(exc, 'injected', False), f'acquire raises {exc!r}')
        r.check('C12.raises', True)
        if how != 'acquire':
            r.check('C12.ctx', got is True or exc is not None, 'the block is entered without the lock')
        if not self.nested:
            self.env_on = True
            timed = self.took(kw, got, t0)
            if timed and not self.timing:
                self.excused = True     # (looked at in the timing tasks)
            self.t0 = self.ctx = None
        if got:
            if before and not self.reentrant:
                r.fail('C12.refuses', 'a non-reentrant lock is acquired again by its holder')
            r.check('C12.refuses', True)
            self.entered(t, how)
        else:
            r.check('C12.false_only_if', excused or self.excused or self.nested,
                    'acquisition fails although nobody holds the lock and no OS call failed')
        return got

    def took(self, kw, got, t0):
        r = self.run
        blocking, to = kw.get('blocking', True), kw.get('timeout')
        poll = num(kw['poll_interval']) if 'poll_interval' in kw else POLL
        if to is None and blocking:
            to = self.default
        nonneg = to is not None and not (isinstance(to, (int, float)) and to < 0)
        if not blocking and not nonneg:
            r.check('C12.at_once', True)
        elif nonneg and self.timing:
            r.check('C12.timed', self.clock.now - t0 <= 2 * num(to) + poll,
                    'a timed acquire takes longer than its timeout for each stage and a poll interval')
            if got is False and not self.excused:
                r.check('C12.false_only_if', self.clock.now - t0 >= num(to), 'a timed acquire of a free lock fails before its timeout')
                self.excused = True
        elif not nonneg:
            r.check('C12.false_only_if', got is not False, 'a blocking acquire without timeout gives up')
        return nonneg

    def op_release(self, t, obj, force=False, exc=None, unheld=False):
        r = self.run
        d = self.depth[t]
        how = self.exits[t].pop() if d else 'acquire'
        # while releasing, the lock may already be taken by others
        self.depth[t] = 0 if force or d <= 1 else d - 1
        if force:
            self.exits[t].clear()
        if not self.nested:
            self.ctx = ('release', how if isinstance(how, str) else 'ctx', force, exc)
            if how != 'acquire' or unheld:
                self.env_on = False
        try:
            if how == 'acquire' or force:
                obj.release(force=True) if force else obj.release()
            elif how == 'with':
                sup = obj.__exit__(type(exc), exc, None) if exc else obj.__exit__(None, None, None)
                r.check('C12.ctx', not sup or exc is None, 'an exception of the block is swallowed')
            else:
                sup = how.__exit__(type(exc), exc, None) if exc else how.__exit__(None, None, None)
                r.check('C12.ctx', not sup, 'an exception of the block is swallowed')
        except (PathEnd, Unsupported):
            raise
        except BaseException as e:
            if e is not exc:
                r.check('C12.raises', getattr(e, 'injected', False), f'release raises {e!r}')
        if not self.nested:
            self.ctx = None
            self.env_on = True

    def settled(self):
        """After an operation of T1."""
        r = self.run
        o = self.objs['T1']
        held = self.held(o)
        self.env_on = False
        r.check('C12.is_locked', bool(o.is_locked) == held, f'is_locked is {o.is_locked} while the lock is {"" if held else "not "}held')
        n = len([k for k in self.k.fds if k[0] == 'A'])
        r.check('C12.no_fd_leak', n == held, f'{n} descriptors open, {int(held)} locks held')
        self.guarantee()
        if self.same and not self.depth['T1'] and not self.depth['T2'] and not self.timing:
            before = self.snap()
            keep = self.me, self.nested, self.faults, self.excused
            self.me, self.nested, self.faults = 'T2', True, False
            got = self.objs['T2'].acquire(blocking=False)
            r.check('C12.free_again', got is True, 'nobody holds the lock but another thread cannot acquire it')
            self.restore(before)
            self.me, self.nested, self.faults, self.excused = keep
        self.env_on = True

    # ---- abstraction of the clock at cut points
    def widen(self, r):
        if not self.timing:
            return
        c = self.clock
        live = {}
        from engine import live_syms, z3vars
        zs = [s.z for s in live_syms(r)]
        zs += [z for z in (self.t0, self.timeout_z, self.default_z, self.poll_z) if z is not None]
        for z in zs:
            for v in z3vars(z):
                live[v.get_id()] = v
        const = {v.get_id() for v in (self.timeout_z, self.default_z, self.poll_z) if v is not None}
        instants = [v for i, v in live.items() if i not in const and v.sort() == z3.RealSort()]
        n = r.fresh('now', 'Real')
        facts = []
        ts = [z for z in (self.timeout_z, self.default_z) if z is not None]
        p = self.poll_z if self.polled else POLL
        for s in instants:
            for f in [lambda d: d >= 0, lambda d: d == 0] + [g for t in ts for g in (
                    lambda d, t=t: d <= t, lambda d, t=t: d <= t + p, lambda d, t=t: d <= 2 * t, lambda d, t=t: d <= 2 * t + p)]:
                if r.known(f(c.now - s)):
                    facts.append(f(n - s))
        for s in instants:
            for s2 in instants:
                if s is not s2:
                    for f in [s - s2 >= 0] + [s - s2 <= t for t in ts]:
                        if r.known(f):
                            facts.append(f)
        keep = []
        ids = set(live)
        for q in r.pc:
            if all(v.get_id() in ids for v in z3vars(q)):
                keep.append(q)
        have = {q.get_id() for q in keep}
        r.pc[:] = keep + [f for f in facts if f.get_id() not in have]
        c.now = n

    # ---- construction
    def sleep(self, t):
        r = self.run
        r.alive()
        self.step()
        self.waits()
        if t is ANY:
            return
        if not (t >= 0):
            raise ValueError('sleep length must be non-negative')
        self.clock.advance(num(t))

    def module(self, n):
        """The module as process n has it."""
        if n not in MODS:
            MODS[n] = load_module(n)
        return MODS[n]


MODS = {}


def ident(o):
    """Distinct for distinct live objects (stable under the copies made of the state)."""
    for i, x in enumerate(cur().world.objs.values()):
        if o is x:
            return 1000 + i
    return 2000


def load_module(n):
    def k(name):
        return lambda *a, **kw: getattr(cur().world.k, name)(*a, **kw)

    consts = {c: getattr(_os, c) for c in dir(_os) if c.startswith('O_')}
    osm = Mod('os', open=k('open'), close=k('close'), unlink=k('unlink'), remove=k('unlink'), rename=k('unlink'), replace=k('unlink'),
              dup=k('dup'), set_inheritable=k('set_inheritable'), fspath=lambda p: p, PathLike=_os.PathLike,
              getpid=lambda: {'A': 101, 'C': 103}[cur().world.proc()], **consts)
    fc = Mod('fcntl', flock=k('flock'), lockf=k('lockf'), LOCK_EX=2, LOCK_NB=4, LOCK_UN=8, LOCK_SH=1)

    def now():
        return cur().world.clock.time()
    tm = Mod('time', time=now, monotonic=now, perf_counter=now, sleep=lambda t: cur().world.sleep(t))
    th = Mod('threading', Lock=LockM, RLock=RLockM, get_ident=lambda: cur().world.me, current_thread=lambda: cur().world.me)
    m = load('filelock', {'os': osm, 'fcntl': fc, 'msvcrt': ImportError, 'time': tm, 'threading': th}, id=ident)
    classes = [c for c in vars(m).values() if isinstance(c, type) and c.__module__ == m.__name__]
    for d in [vars(m)] + [vars(c) for c in classes]:
        for name, v in d.items():
            if not name.startswith('__') and (isinstance(v, (dict, list, set, DDict, DSeq, LockM))) and name not in ('_abc_impl',):
                raise Unsupported(f'state of the module or class: {name}')
    # the destructor is called by the driver (the copies it makes of the object must not be)
    m.destructor = getattr(m.FileLock, '__del__', None)
    for c in classes:
        if '__del__' in vars(c):
            del c.__del__
    m.Watched = watch(m.FileLock)
    return m


def watch(cls):
    """The same class, its instance attributes being shared accesses of the threads that use the object."""
    class Watched(cls):
        def __getattribute__(self, n):
            if n in object.__getattribute__(self, '__dict__'):
                cur().world.step()
            return object.__getattribute__(self, n)

        def __setattr__(self, n, v):
            cur().world.step()
            object.__setattr__(self, n, v)
    return Watched


def make(run, reentrant, same, timing=False):
    w = World(run, same, timing, reentrant)
    run.world = w
    w.timeout_z = run.fresh('timeout', 'Real')
    run.pc.append(w.timeout_z >= 0)
    kw = {}
    if timing and run.choose(2, ['no default timeout', 'default timeout']):
        w.default_z = run.fresh('default', 'Real')
        run.pc.append(w.default_z >= 0)
        w.default = kw['timeout'] = SymNum(w.default_z)
    m = w.module('A')
    a = (m.Watched if same else m.FileLock)(PATH, reentrant=reentrant, **kw)
    w.objs = {'T1': a, 'T2': a if same else None}
    w.env_on = True
    return w


def state_body(reentrant, same):
    """One operation of T1 from a state met so far; what it ends in is explored from there unless covered."""
    snaps = []

    def body(run):
        run.eng.bfs = True
        if run.prefix and run.prefix[0] >= 1000:
            run.pos = 1
            run.trail.append(run.prefix[0])
            base, pc, run.nsym, run.trace = snaps[run.prefix[0] - 1000]
            run.trace = list(run.trace)
            run.pc = list(pc)
            run.world = w = copy.deepcopy(base)
            one(run, w)
            w.settled()
        else:
            w = make(run, reentrant, same)
        w.excused = False
        run.cut('ops')
        snaps.append((copy.deepcopy(w), list(run.pc), run.nsym, list(run.trace)))
        run.eng.todo.append(([1000 + len(snaps) - 1], None))
    return body


def one(run, w):
    L = w.objs['T1']
    d = w.depth['T1']
    ops = []
    if d < (3 if w.reentrant else 2):
        ops += ['acquire', 'acquire non-blocking', 'acquire timed', 'acquire non-blocking timed', 'with', 'ctx', 'ctx timed']
    if d:
        ops += ['release', 'release force']
        if w.exits['T1'][-1] != 'acquire':
            ops += ['release by exception']
    elif not (w.same and w.depth['T2']):
        ops += ['release unheld']
    if not d and w.module('A').destructor and not (w.same and w.depth['T2']) or d:
        ops += ['collected']
    ops += ['contender releases' if w.depth['T2'] else 'contender tries']
    if w.crash_ok:
        w.crash_here()
    op = run.pick(ops, 'operation')
    if op in ('contender releases', 'contender tries'):
        w.do(op)
    elif op == 'collected':
        w.env_on = False
        run.world.module('A').destructor(L)
        for t in ('T1', 'T2'):
            if w.objs[t] is L:
                w.depth[t] = 0
        run.check('C12.no_fd_leak', not [k for k in w.k.fds if k[0] == 'A'], 'a collected lock leaves its file open')
        run.check('C12.no_residue', not w.k.files[PATH] or not w.k.files[PATH].ex or w.k.files[PATH].ex.proc != 'A',
                  'a collected lock stays locked')
        run.end()
    elif op == 'release unheld':
        fds = dict(w.k.fds)
        w.op_release('T1', L, force=bool(run.choose(2, ['', 'force'])), unheld=True)
        run.check('C12.release_noop', fds == w.k.fds, 'releasing an unheld lock does something')
    elif 'release' in op:
        w.op_release('T1', L, force=op == 'release force', exc=KeyError('in the block') if op == 'release by exception' else None)
    else:
        attempt(run, w, op)


def attempt(run, w, op):
    L = w.objs['T1']
    kw = {}
    if 'non-blocking' in op:
        kw['blocking'] = False
    if 'timed' in op:
        kw['timeout'] = SymNum(w.timeout_z)
    if 'polled' in op:
        kw['poll_interval'] = SymNum(w.poll_z)
        w.polled = True
    how = 'ctx' if op.startswith('ctx') else 'with' if op == 'with' else 'acquire'
    got = w.op_acquire('T1', L, kw, how)
    if got and how == 'ctx' and not w.timing:       # (a generator: its block ends within the same step)
        w.settled()
        w.step(True)
        w.op_release('T1', L, exc=KeyError('in the block') if run.choose(2, ['block ends', 'block raises']) else None)


def timing_body(reentrant, same):
    """How long one acquisition takes, from any kind of state, whatever the contenders do meanwhile."""
    def body(run):
        w = make(run, reentrant, same, timing=True)
        start = run.pick(['free', 'contended'] + (['held'] if reentrant else []), 'start')
        w.env_on = w.faults = False
        if start == 'held':
            w.op_acquire('T1', w.objs['T1'], dict(blocking=False))
        if start == 'contended':
            w.do('contender tries')
        w.env_on = w.faults = True
        ops = ['acquire non-blocking', 'acquire timed', 'acquire timed polled', 'acquire non-blocking timed', 'ctx timed']
        if w.default_z is not None:
            ops += ['acquire', 'with', 'ctx']
        w.poll_z = run.fresh('poll', 'Real')
        run.pc.append(w.poll_z >= 0)
        attempt(run, w, run.pick(ops, 'operation'))
    return body


def tasks():
    out = []
    for re in (False, True):
        for nm, same in (('same object', True), ('other object', False)):
            k = 'reentrant' if re else 'plain'
            out.append((f'{k}, {nm}', ['C02', 'C12'] + (['C13'] if not same else []), state_body(re, same)))
            out.append((f'{k}, {nm}, time', ['C12'], timing_body(re, same)))
    return out
