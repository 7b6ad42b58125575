"""Programs and oracle for to_async_iter / to_sync_iter (C16)."""
import asyncio as aio
import sched

PROPS = ('C16',)


class SErr(Exception):
    pass


class SBase(BaseException):
    pass


class EqAll:
    """Compares equal to everything."""
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = None


EXC = {'exc': SErr, 'base': SBase, 'key': KeyError, 'attr': AttributeError, 'stopasync': StopAsyncIteration,
       'index': IndexError, 'runtime': RuntimeError, 'cancel': aio.CancelledError, 'queue': aio.QueueEmpty}


def elem(x):
    return {'N': None, 'F': False, 'E': EqAll(), 'X': SErr('an element'), 'C': SErr, 'O': object(), 'T': (), '...': ...,
            'S': StopIteration(), 'G': GeneratorExit, 'Z': 0, 'f': lambda: None}.get(x, x)


SPECIAL = ['N', 'F', 'E', 'X', 'C', 'O', 'T', '...', 'S', 'G', 'Z', 'f']


def programs(prop, rng, tier):
    for d in ('async', 'sync'):
        for fail in (None, 'exc', 'base', 'key', 'cancel', 'stopasync', 'queue'):
            for n in (0, 1, 3):
                for delay in (0, .5):
                    yield {'dir': d, 'src': 'iter', 'el': SPECIAL[:n], 'fail': fail, 'delay': delay}
        yield {'dir': d, 'src': 'iter', 'el': SPECIAL, 'fail': None, 'delay': 0}
        yield {'dir': d, 'src': 'gen', 'el': list(range(12)), 'fail': 'exc', 'delay': .3, 'cons': .4}
        yield {'dir': d, 'src': 'gen', 'el': list(range(6)), 'fail': None, 'delay': .3, 'loop': True}
        yield {'dir': d, 'src': 'gen', 'el': list(range(6)), 'fail': 'exc', 'delay': .3, 'loop': True}
    for src in ('list', 'iterable', 'tuple', 'map'):
        for fail in (None, 'exc'):
            yield {'dir': 'async', 'src': src, 'el': [1, 'N', 3], 'fail': fail, 'delay': 0}
    yield {'dir': 'async', 'src': 'gen', 'el': [1, 2, 3], 'fail': None, 'delay': .5, 'twin': True}
    yield {'dir': 'sync', 'src': 'gen', 'el': [1, 2, 3], 'fail': None, 'delay': .5, 'twin': True}
    while True:
        n = rng.choice([0, 1, 2, 3, 5, 9])
        d = rng.choice(['async', 'sync'])
        el = [rng.choice(SPECIAL + [1, 1, 2, 'a']) for _ in range(n)]
        yield {'dir': d, 'src': rng.choice(['iter', 'gen'] + (['list', 'iterable', 'map'] if d == 'async' else ['iterable'])),
               'el': el, 'fail': rng.choice([None, None] + list(EXC)),
               'delay': rng.choice([0, 0, .3, 1]), 'cons': rng.choice([0, 0, .2, 1.1]), 'loop': rng.random() < .3,
               'twin': rng.random() < .2}


def build(P):
    def scn(S):
        mod = sched.load('asyncio')
        viol = []

        def v(m):
            viol.append(('C16', m))

        class Src:
            """One source: elements, then the error, then exhausted for ever."""
            def __init__(self):
                self.el = [elem(x) for x in P['el']]
                self.exc = EXC[P['fail']]('source failed') if P['fail'] else None
                self.i = 0
                self.over = False

            def next(self, stop):
                if self.over:
                    v('the source was advanced again after its end')
                    raise stop
                if self.i < len(self.el):
                    self.i += 1
                    return self.el[self.i - 1]
                self.over = True
                raise self.exc if self.exc is not None else stop

        def sync_source(s):
            k = P['src']
            if k == 'gen' or k == 'map':
                def gen():
                    for x in s.el:
                        if P['delay']:
                            sched.vsleep(P['delay'])
                        s.i += 1
                        yield x
                    s.over = True
                    if s.exc is not None:
                        raise s.exc
                return gen() if k == 'gen' else map(lambda x: x, gen())
            if k == 'iter':
                class It:
                    def __iter__(self):
                        return self

                    def __next__(self):
                        if P['delay']:
                            sched.vsleep(P['delay'])
                        return s.next(StopIteration)
                return It()
            if k == 'list' and s.exc is None:
                return list(s.el)
            if k == 'tuple' and s.exc is None:
                return tuple(s.el)

            class Iterable_:
                def __iter__(self):
                    yield from s.el
                    if s.exc is not None:
                        raise s.exc
            return Iterable_()

        def async_source(s):
            if P['src'] == 'gen':
                async def gen():
                    for x in s.el:
                        if P['delay']:
                            await aio.sleep(P['delay'])
                        s.i += 1
                        yield x
                    s.over = True
                    if s.exc is not None:
                        raise s.exc
                return gen()

            class It:
                def __aiter__(self):
                    return self

                async def __anext__(self):
                    if P['delay']:
                        await aio.sleep(P['delay'])
                    return s.next(StopAsyncIteration)
            if P['src'] == 'iter':
                return It()

            class Iterable_:
                def __aiter__(self):
                    return It()
            return Iterable_()

        def judge(s, got, end, name):
            S.event('consumed', name, len(got), repr(end))
            if len(got) != len(s.el) or any(a is not b for a, b in zip(got, s.el)):
                v(f'{name}: consumed {got!r} of {s.el!r}')
            exc = s.exc
            if isinstance(exc, StopAsyncIteration) and isinstance(end, RuntimeError):
                end = exc       # generators must not raise these (PEP 479)
            if isinstance(exc, StopAsyncIteration) and P['dir'] == 'sync' and P['src'] != 'gen':
                exc = None
                if end is s.exc:
                    end = None
            if isinstance(exc, aio.CancelledError) and isinstance(end, aio.CancelledError):
                end = exc
            if isinstance(exc, StopAsyncIteration) and P['src'] == 'gen' and isinstance(end, RuntimeError):
                end = exc
            if isinstance(exc, aio.CancelledError) and P['dir'] == 'sync' and type(end).__name__ == 'CancelledError':
                end = exc
            if end is not exc:
                v(f'{name}: iteration ended with {end!r}, the source with {exc!r}')
            left = [t.name for t in S.threads if not t.essential and t.state != 'done']
            if left and not P.get('twin'):
                v(f'{name}: helper threads still running after the end of the iteration: {left}')

        async def consume_async(name):
            s = Src()
            got, end = [], None
            agen = mod.to_async_iter(sync_source(s))
            try:
                async for x in agen:
                    got.append(x)
                    S.event('got', name, repr(x))
                    if P.get('cons'):
                        await aio.sleep(P['cons'])
            except GeneratorExit:
                raise
            except BaseException as e:
                if isinstance(e, sched.Abort):
                    raise
                end = e
            judge(s, got, end, name)
            try:
                x = await agen.__anext__()
            except StopAsyncIteration:
                pass
            else:
                v(f'{name}: yielded {x!r} after the end')

        def consume_sync(name):
            s = Src()
            got, end = [], None
            loop = aio.new_event_loop() if P.get('loop') else None
            src = async_source(s)
            gen = mod.to_sync_iter(src, loop=loop) if loop is not None else mod.to_sync_iter(src)
            try:
                for x in gen:
                    got.append(x)
                    S.event('got', name, repr(x))
                    if P.get('cons'):
                        sched.vsleep(P['cons'])
            except sched.Abort:
                raise
            except GeneratorExit:
                raise
            except BaseException as e:
                end = e
            judge(s, got, end, name)
            try:
                x = next(gen)
            except StopIteration:
                pass
            else:
                v(f'{name}: yielded {x!r} after the end')

        def finish():
            left = [t.name for t in S.threads if not t.essential and t.state != 'done']
            if left:
                v(f'helper threads still running after the end of the iteration: {left}')

        async def amain():
            loop = aio.get_running_loop()
            loop.set_exception_handler(lambda l, c: None)
            late = []

            async def ticker():
                while True:
                    t = S.now
                    await aio.sleep(.1)
                    if S.now > t + .15:
                        late.append(S.now - t)
            tick = loop.create_task(ticker())
            await aio.sleep(0)
            cs = [loop.create_task(consume_async(f'c{i}')) for i in range(2 if P.get('twin') else 1)]
            await aio.wait(cs)
            for c in cs:
                c.result()
            tick.cancel()
            if late and P['src'] in ('iter', 'gen', 'map'):
                v(f'the event loop was blocked for {late[0]:g}s by the source')
            finish()

        if P['dir'] == 'async':
            S.spawn(lambda: aio.new_event_loop().run_until_complete(amain()), 'loop')
        else:
            n = 2 if P.get('twin') else 1
            for i in range(n):
                S.spawn(lambda i=i: consume_sync(f'c{i}'), f'c{i}')

        def check(S):
            return viol
        return check
    scn.problem_props = ('C16',)
    scn.max_time = 200
    scn.cap = 50
    return scn
