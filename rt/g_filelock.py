"""Programs and oracle for FileLock (C02, C12, C13)."""
import os, fcntl, signal, sys, time, tempfile, errno, shutil
import sched

PROPS = ('C02', 'C12', 'C13')
SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='verif-lock-')
    return SCRATCH


def cleanup():
    if SCRATCH and os.path.basename(SCRATCH).startswith('verif-lock-'):
        shutil.rmtree(SCRATCH, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ C02 programs

HOWS = ['acquire', 'acquire', 'with', 'ctx', 'try', 'timed', 'ctx_timed', 'ctx_try', 'forced', 'acquire_t', 'nested']


def programs(prop, rng, tier):
    if prop == 'C02':
        yield from programs02(rng, tier)
    elif prop == 'C12':
        yield from programs12(rng, tier)
    else:
        yield from programs13(rng, tier)


def programs02(rng, tier):
    for hows in [['acquire', 'acquire'], ['with', 'with'], ['ctx', 'timed'], ['with_short', 'acquire'], ['try', 'with']]:
        for objs in ([0, 0], [0, 1]):
            for re in (False, True):
                yield {'kind': 'threads', 'objs': [{'re': re, 'timeout': -1 if 'with_short' not in hows else 0.1}] * 2,
                       'threads': [{'obj': o, 'rounds': [{'how': h.replace('_short', ''), 'dur': d}] * 2}
                                   for o, h, d in zip(objs, hows, (0, 1))]}
    while True:
        nt = rng.choice([2, 2, 3] + ([4] if tier != 'quick' else []))
        no = rng.choice([1, 1, 2])
        objs = [{'re': rng.random() < .5, 'timeout': rng.choice([-1, -1, -1, 0.1, 0])} for _ in range(no)]
        ths = []
        for _ in range(nt):
            ths.append({'obj': rng.randrange(no),
                        'rounds': [{'how': rng.choice(HOWS), 'dur': rng.choice([0, 0, 0.03, 1])}
                                   for _ in range(rng.choice([1, 2, 2, 3]))]})
        yield {'kind': 'threads', 'objs': objs, 'threads': ths}


def build(P):
    return {'threads': build02, 'ops': build12, 'crash': build13}[P['kind']](P)


def build02(P):
    def scn(S):
        path = os.path.join(scratch(), 'l02')
        mod = sched.load('filelock')
        locks = [mod.FileLock(path, timeout=o['timeout'], reentrant=o['re']) for o in P['objs']]
        viol = []
        inside = []

        def section(who, dur):
            S.event('enter', who)
            if inside:
                viol.append(('C02', f'{who} entered the protected section while {inside} is inside'))
            inside.append(who)
            sched.vsleep(dur)
            S.yield_point('in')
            inside.remove(who)
            S.event('leave', who)

        def attempt(who, lk, re, r):
            how, dur = r['how'], r['dur']
            ok = None
            if how in ('acquire', 'try', 'timed', 'forced', 'acquire_t'):
                if how == 'try':
                    ok = lk.acquire(blocking=False)
                elif how == 'timed':
                    ok = lk.acquire(timeout=0.2)
                elif how == 'acquire_t':
                    ok = lk.acquire(True, 0.2, 0.01)
                else:
                    ok = lk.acquire()
                if ok:
                    section(who, dur)
                    lk.release(force=how == 'forced')
            elif how == 'nested':
                if not re:
                    return
                ok = lk.acquire()
                if ok:
                    ok2 = lk.acquire()
                    section(who + '/2', dur)
                    if ok2:
                        lk.release()
                    section(who, 0)
                    lk.release()
            elif how == 'with':
                try:
                    with lk:
                        section(who, dur)
                except TimeoutError:
                    pass
            else:
                kw = {'ctx': {}, 'ctx_timed': {'timeout': .2}, 'ctx_try': {'blocking': False}}[how]
                try:
                    with lk.acquire_ctx(**kw):
                        section(who, dur)
                except TimeoutError:
                    pass

        def body(ti, T):
            def run():
                lk, o = locks[T['obj']], P['objs'][T['obj']]
                for r in T['rounds']:
                    attempt(f'T{ti}', lk, o['re'], r)
            return run
        for ti, T in enumerate(P['threads']):
            S.spawn(body(ti, T), f'T{ti}')

        def check(S):
            for lk in locks:
                fd, lk._lock_file_fd = getattr(lk, '_lock_file_fd', None), None
                if isinstance(fd, int):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            return viol
        return check
    scn.problem_props = ('C02', 'C12')
    scn.max_time = 300
    return scn


# ------------------------------------------------------------------------------------------------ C12 programs

OPS = ['acq', 'try', 'acq_t0', 'acq_t', 'release', 'force', 'with', 'with_end', 'ctx', 'ctx_end', 'rel_acq']
FAULTS = ['open', 'lock', 'unlock', 'close']


def programs12(rng, tier):
    seqs = [
        ['acq', 'release'], ['acq', 'acq_t', 'release', 'release'], ['acq', 'force'], ['acq', 'acq_t', 'force'],
        ['acq', 'acq_t', 'acq_t', 'force'], ['release'], ['force'], ['try', 'try', 'release', 'release'],
        ['acq', 'acq_t0', 'release'], ['with', 'with_end'], ['ctx', 'ctx_end'], ['acq', 'with', 'with_end', 'release'],
    ]
    for seq in seqs:
        for re in (False, True):
            for tmo in (-1, 0, 0.2):
                yield {'kind': 'ops', 'objs': [{'re': re, 'timeout': tmo}], 'ops': [[0, 0, op] for op in seq], 'faults': []}
    # other holder active
    for op in ('try', 'acq_t', 'acq_t0', 'with', 'ctx'):
        for re in (False, True):
            for tmo in (0, 0.2):
                yield {'kind': 'ops', 'objs': [{'re': re, 'timeout': tmo}, {'re': False, 'timeout': tmo}],
                       'ops': [[0, 0, 'try'], [1, 0, op], [1, 1, op], [0, 0, 'release'], [1, 0, 'try'], [1, 0, 'release']],
                       'faults': []}
    # fault injection
    for f in FAULTS:
        for n in (0, 1):
            for op in ('try', 'acq_t', 'acq', 'with', 'acq_t0'):
                for re in (False, True):
                    yield {'kind': 'ops', 'objs': [{'re': re, 'timeout': 0.2}],
                           'ops': [[0, 0, op], [0, 0, 'release'], [1, 0, 'try'], [1, 0, 'release']], 'faults': [[f, n]]}
            for g in FAULTS:
                yield {'kind': 'ops', 'objs': [{'re': False, 'timeout': 0.2}, {'re': True, 'timeout': 0.2}],
                       'ops': [[0, 0, 'acq_t'], [1, 1, 'try'], [0, 0, 'force'], [1, 1, 'acq_t'], [1, 1, 'acq_t'],
                               [1, 1, 'force'], [0, 0, 'try'], [0, 0, 'release']], 'faults': [[f, n], [g, 1]]}
    while True:
        no = rng.choice([1, 1, 2])
        objs = [{'re': rng.random() < .6, 'timeout': rng.choice([0, 0.2, 0.2, -1])} for _ in range(no)]
        n = rng.choice([3, 5, 7, 7] + ([12, 20] if tier != 'quick' else []))
        ops = [[rng.choice([0, 0, 1]), rng.randrange(no), rng.choice(OPS)] for _ in range(n)]
        faults = [[rng.choice(FAULTS), rng.randrange(4)] for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        yield {'kind': 'ops', 'objs': objs, 'ops': ops, 'faults': faults}


class World:
    """Wraps os.open/os.close/fcntl.flock for one lock path: fault injection, counted per kind."""

    def __init__(self, path, faults):
        self.path = path
        self.faults = {(k, n) for k, n in faults}
        self.n = {}
        self.mine = set()
        self.real = os.open, os.close, fcntl.flock
        os.open, os.close, fcntl.flock = self.open, self.close, self.flock

    def restore(self):
        os.open, os.close, fcntl.flock = self.real

    def hit(self, kind):
        i = self.n.get(kind, 0)
        self.n[kind] = i + 1
        return (kind, i) in self.faults

    def injected(self):
        return any((k, i) in self.faults for k in FAULTS for i in range(self.n.get(k, 0)))

    def open(self, path, *a, **k):
        if path != self.path:
            return self.real[0](path, *a, **k)
        if self.hit('open'):
            raise OSError(errno.EMFILE, 'injected')
        fd = self.real[0](path, *a, **k)
        self.mine.add(fd)
        return fd

    def close(self, fd):
        if fd not in self.mine:
            return self.real[1](fd)
        bad = self.hit('close')
        self.real[1](fd)
        self.mine.discard(fd)
        if bad:
            raise OSError(errno.EIO, 'injected')

    def flock(self, fd, op):
        if self.hit('unlock' if op & fcntl.LOCK_UN else 'lock'):
            raise OSError(errno.ENOLCK, 'injected')
        return self.real[2](fd, op)

    def fds(self):
        out = []
        for n in os.listdir('/proc/self/fd'):
            try:
                if os.readlink(f'/proc/self/fd/{n}') == self.path:
                    out.append(int(n))
            except OSError:
                pass
        return out


def build12(P):
    """Operations by two threads, strictly one after the other, compared with a reference model."""
    poll = 0.05

    def scn(S):
        path = os.path.join(scratch(), 'l12')
        W = World(path, P['faults'])
        mod = sched.load('filelock')
        locks = [mod.FileLock(path, timeout=o['timeout'], reentrant=o['re']) for o in P['objs']]
        viol = []
        hold = [{'owner': None, 'depth': 0} for _ in locks]       # reference model
        ctxs = {}
        state = {'turn': None, 'arg': None}

        def holder():
            return next((i for i, h in enumerate(hold) if h['owner'] is not None), None)

        def bad(m):
            viol.append(('C12', m))

        def acquire(t, o, call, blocking, tmo, desc):
            """call() -> bool; tmo <0: unlimited."""
            lk, h, re = locks[o], hold[o], P['objs'][o]['re']
            other = holder()
            would = (h['owner'] is None and other is None) or (re and h['owner'] == t)
            if not would and blocking and tmo < 0:
                return None              # would block for ever: not a program
            nested = h['owner'] is not None
            fd0, t0 = len(W.fds()), S.now
            exc = None
            try:
                ok = call()
            except TimeoutError:
                ok = False
            except OSError as e:
                ok, exc = False, e
            dt = S.now - t0
            injected = W.injected()
            S.event(desc, t, o, ok, repr(exc))
            if exc is not None and not injected:
                bad(f'{desc} raised {exc!r}')
            if ok:
                if not would:
                    bad(f'{desc} by thread {t} on object {o} succeeded while {hold} (reentrant={re})')
                h['owner'], h['depth'] = t, h['depth'] + 1
            elif would and not injected:
                bad(f'{desc} by thread {t} on object {o} failed although free ({hold}, reentrant={re})')
            if not blocking and dt > 1e-6:
                bad(f'non-blocking {desc} took {dt:g}s')
            if blocking and tmo >= 0 and dt > 2 * tmo + poll + 1e-3:
                bad(f'{desc} with timeout {tmo:g} took {dt:g}s')
            if blocking and tmo >= 0 and nested and not (re and h['owner'] == t) and dt > tmo + 1e-3:
                bad(f'{desc} with timeout {tmo:g} took {dt:g}s in its first stage')
            if not ok and len(W.fds()) != fd0:
                bad(f'failed {desc} leaked a file descriptor')
            return ok

        def release(t, o, force, call, desc):
            h = hold[o]
            if h['owner'] is not None and h['owner'] != t:
                return None                    # outside the contract
            call()
            S.event(desc, t, o)
            if h['owner'] is None:
                return
            h['depth'] = 0 if force else h['depth'] - 1
            if h['depth'] == 0:
                h['owner'] = None

        def do(t, o, op):
            lk = locks[o]
            d = P['objs'][o]['timeout']
            if op == 'acq':
                acquire(t, o, lambda: lk.acquire(), True, d, 'acquire()')
            elif op == 'try':
                acquire(t, o, lambda: lk.acquire(blocking=False), False, -1, 'acquire(False)')
            elif op == 'acq_t0':
                acquire(t, o, lambda: lk.acquire(timeout=0), True, 0, 'acquire(timeout=0)')
            elif op == 'acq_t':
                acquire(t, o, lambda: lk.acquire(True, 0.3), True, 0.3, 'acquire(timeout=.3)')
            elif op == 'rel_acq':
                release(t, o, False, lk.release, 'release()')
                acquire(t, o, lambda: lk.acquire(blocking=False), False, -1, 'acquire(False)')
            elif op == 'release':
                release(t, o, False, lk.release, 'release()')
            elif op == 'force':
                release(t, o, True, lambda: lk.release(force=True), 'release(force=True)')
            elif op == 'with':
                def enter():
                    lk.__enter__()
                    return True
                if acquire(t, o, enter, True, d, 'with'):
                    ctxs.setdefault((t, o, 'with'), []).append(1)
            elif op == 'ctx':
                c = lk.acquire_ctx(timeout=0.3)

                def enter():
                    c.__enter__()
                    return True
                if acquire(t, o, enter, True, 0.3, 'acquire_ctx'):
                    ctxs.setdefault((t, o, 'ctx'), []).append(c)
            elif op in ('with_end', 'ctx_end'):
                st = ctxs.get((t, o, op[:-4]))
                if st and hold[o]['owner'] == t:
                    c = st.pop()
                    release(t, o, False, (lambda: lk.__exit__(None, None, None)) if c == 1
                            else (lambda: c.__exit__(None, None, None)), 'end of ' + op[:-4])
            for i, h in enumerate(hold):
                if locks[i].is_locked != (h['owner'] is not None):
                    bad(f'after {op} by thread {t} on object {o}: is_locked of object {i} is {locks[i].is_locked}, {hold}')
            nh = sum(h['owner'] is not None for h in hold)
            if len(W.fds()) != nh:
                bad(f'after {op}: {len(W.fds())} descriptors open, {nh} locks held')

        def thread(t):
            def run():
                while True:
                    S.block(lambda: state['turn'] == t or state['turn'] == 'end', None, 'turn')
                    if state['turn'] == 'end':
                        return
                    try:
                        do(*state['arg'])
                    except Exception as e:
                        bad(f'{state["arg"]} raised {e!r}')
                    state['turn'] = None
            return run

        def turn(t, o, op):
            state['arg'], state['turn'] = (t, o, op), t
            S.block(lambda: state['turn'] is None, None, 'driver')

        def driver():
            for t, o, op in P['ops']:
                turn(t, o, op)
                if viol:
                    break
            # release everything, then every thread must be able to take every object
            W.faults = set()
            if not viol:
                for o, h in enumerate(hold):
                    if h['owner'] is not None:
                        turn(h['owner'], o, 'force')
                for t in (0, 1):
                    for o in range(len(locks)):
                        turn(t, o, 'try')
                        turn(t, o, 'release')
            state['turn'] = 'end'
        S.spawn(driver, 'driver')
        S.spawn(thread(0), 'T0')
        S.spawn(thread(1), 'T1')

        def check(S):
            W.restore()
            for fd in W.fds():
                try:
                    os.close(fd)
                except OSError:
                    pass
            for lk in locks:
                lk._lock_file_fd = None
            return viol
        return check
    scn.problem_props = ('C12',)
    scn.schedules = False
    scn.max_time = 200
    return scn


# ------------------------------------------------------------------------------------------------ C13 programs

USES = ['blocking', 'timed', 'nonblocking', 'nested', 'ctx', 'with', 'force', 'rounds']


def programs13(rng, tier):
    for use in USES:
        for re in (False, True):
            for n in range(0, 60 if tier == 'quick' else 140, 1 if tier != 'quick' else 1):
                yield {'kind': 'crash', 'use': use, 're': re, 'kill_at': n, 'others': (n + len(use)) % 3}


def _use(lk, use, mark):
    if use == 'blocking':
        if lk.acquire():
            mark()
            lk.release()
    elif use == 'timed':
        if lk.acquire(timeout=1.0):
            mark()
            lk.release()
    elif use == 'nonblocking':
        if lk.acquire(blocking=False):
            mark()
            lk.release()
    elif use == 'nested':
        if lk.acquire(timeout=1):
            if lk._reentrant and lk.acquire(timeout=1):
                mark()
                lk.release()
            lk.release()
    elif use == 'ctx':
        with lk.acquire_ctx(timeout=2):
            mark()
    elif use == 'with':
        with lk:
            mark()
    elif use == 'force':
        if lk.acquire(timeout=1):
            mark()
            lk.release(force=True)
    elif use == 'rounds':
        for _ in range(3):
            if lk.acquire(timeout=1):
                mark()
                lk.release()


CHILD = r'''
import os, sys, signal, json, importlib.util
repo, path, use, re, kill_at, role, markdir = json.loads(sys.argv[1])
sys.path.insert(0, repo); sys.path.insert(0, os.path.dirname(sys.argv[2]))
sys.dont_write_bytecode = True
import logging; logging.disable(logging.CRITICAL)
import aiuti.filelock as F
import g_filelock as G
cnt = 0
if role == 'victim':
    target = os.path.abspath(F.__file__)
    def tr(frame, ev, arg):
        global cnt
        if os.path.abspath(frame.f_code.co_filename) != target:
            return None
        if ev == 'line':
            if cnt == kill_at:
                os.kill(os.getpid(), signal.SIGKILL)
            cnt += 1
        return tr
    lk = F.FileLock(path, timeout=-1, reentrant=re)
    sys.settrace(tr)
    G._use(lk, use, lambda: None)
    sys.settrace(None)
    print('survived', cnt)
else:
    import time
    lk = F.FileLock(path, timeout=-1, reentrant=re)
    mk = os.path.join(markdir, 'inside')
    def section():
        try:
            fd = os.open(mk, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
        except FileExistsError:
            print('OVERLAP'); return
        time.sleep(0.002)
        os.close(fd); os.unlink(mk)
    for _ in range(6 if role == 'other' else 1):
        if not lk.acquire(timeout=5):
            print('STUCK'); break
        section()
        lk.release()
    print('ok')
'''


def run_crash(P, base):
    """Real processes, real clock."""
    import subprocess, json
    d = tempfile.mkdtemp(prefix='crash-', dir=base)
    path = os.path.join(d, 'lock')
    me = os.path.abspath(__file__)

    def start(role):
        arg = json.dumps([sched.REPO, path, P['use'], P['re'], P['kill_at'], role, d])
        return subprocess.Popen([sys.executable, '-c', CHILD, arg, me], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    others = [start('other') for _ in range(P['others'])]
    v = start('victim')
    out = []
    t0 = sched._real_mono()
    vo, ve = v.communicate(timeout=60)
    killed = v.returncode == -9
    fresh = start('fresh')
    msgs = []
    try:
        fo, fe = fresh.communicate(timeout=20)
        if b'STUCK' in fo or fresh.returncode != 0:
            msgs.append(f'a fresh process could not acquire the lock after the holder was killed '
                        f'({fo.decode()} {fe.decode()[-300:]})')
        if b'OVERLAP' in fo:
            msgs.append('overlapping protected sections after a crash')
    except subprocess.TimeoutExpired:
        fresh.kill()
        msgs.append('a fresh process hangs acquiring the lock after the holder was killed')
    for p in others:
        try:
            o, e = p.communicate(timeout=30)
            if b'STUCK' in o or p.returncode != 0:
                msgs.append(f'a contender could not acquire the lock ({o.decode()} {e.decode()[-300:]})')
            if b'OVERLAP' in o:
                msgs.append('overlapping protected sections among the survivors')
        except subprocess.TimeoutExpired:
            p.kill()
            msgs.append('a contender hangs')
    if not killed and v.returncode != 0:
        msgs.append(f'victim failed: {ve.decode()[-300:]}')
    shutil.rmtree(d, ignore_errors=True)
    return killed, msgs


def build13(P):
    def scn(S):
        killed, msgs = run_crash(P, scratch())
        S.event('killed' if killed else 'survived', P['use'], P['kill_at'])
        return lambda S: [('C13', m) for m in msgs]
    scn.schedules = False
    return scn
