From e2a7f11523e6d533483663d002b29fa11c3900b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 01/14] fix: keep threadsafe_async_cache sound when a caching
 loop stops

Waiting tasks were woken through a proxy coroutine scheduled on the caching
loop, so stopping that loop stalled them for 60s or leaked its shutdown
CancelledError to them, and an abandoned caching task removed the in-flight
marker of the task that took over (double computation, KeyError).
---
 aiuti/asyncio.py | 53 ++++++++++++++----------------------------------
 1 file changed, 15 insertions(+), 38 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 2b71748..ca05276 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -36,7 +36,7 @@ from asyncio import (
 from itertools import islice
 from threading import Lock
 from functools import partial, wraps
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import Future as CFuture, ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
 from time import sleep
 from typing import (
@@ -379,8 +379,10 @@ def threadsafe_async_cache(
     _func: _AsyncFunc = func
     del cache, func
 
-    # 1 loop + event per input key currently caching
-    events: Dict[Tuple[Any, ...], Tuple[aio.AbstractEventLoop, aio.Event]] = {}
+    # 1 loop + event per input key currently caching. The "event" is a
+    # concurrent future so that it can wake up tasks in any event loop
+    # directly, no matter what happens to the caching loop afterwards.
+    events: Dict[Tuple[Any, ...], Tuple[Loop, 'CFuture[None]']] = {}
     # Ensure thread safety while creating events
     event_making_lock = Lock()
 
@@ -389,8 +391,6 @@ def threadsafe_async_cache(
         # Get the key from the input arguments
         key = args, frozenset(kwargs.items())
 
-        running_loop = aio.get_running_loop()
-
         while True:
             # Avoid locking during this first check for performance
             try:  # to get the value from the cache
@@ -417,7 +417,9 @@ def threadsafe_async_cache(
                     # No existing event -> this task is going to cache
                     # the value and provide an event for others to wait
                     caching_loop = aio.get_running_loop()
-                    event = aio.Event()
+                    event = CFuture()
+                    # Prevent waiting tasks from being able to cancel it
+                    event.set_running_or_notify_cancel()
                     events[key] = caching_loop, event
                     do_caching = True
                 else:
@@ -432,46 +434,21 @@ def threadsafe_async_cache(
                     _cache[key] = result  # Cache for other tasks
                 finally:
                     with event_making_lock:
-                        # Wake up any waiting tasks
-                        event.set()
                         # Allow garbage collection and/or another loop
-                        # to take over caching if this failed
-                        del events[key]
+                        # to take over caching if this failed, unless
+                        # one already has because this loop was stopped
+                        if events.get(key, (None, None))[1] is event:
+                            del events[key]
+                    # Wake up any waiting tasks
+                    event.set_result(None)
                 return result
 
             # Need to wait for another task, possibly across threads
 
-            wait_event: Awaitable[bool] = event.wait()
-            if running_loop is not caching_loop:
-                try:
-                    wait_fut = run_coro_ts(wait_event, caching_loop)
-                except RuntimeError:  # caching loop most likely closed
-                    continue  # loop around and try again
-                wait_event = aio.wrap_future(wait_fut)
-
             # Wrap anything waiting for the event in a long timeout just
             # to ensure nothing hangs completely if the original task is
             # lost and somehow never sets the event
-            waiter = aio.create_task(aio.wait_for(wait_event, 60))
-
-            # wait_for will swallow CancelledErrors if the wrapped task
-            # is already finished. This can cause confusion and missed
-            # timeouts when there are multiple nested wait_fors.
-            # Shielding and handling the cancellation directly avoids
-            # this confusion by preventing this wait_for from seeing
-            # the outer CancelledError directly.
-            try:
-                await aio.shield(waiter)
-            except aio.TimeoutError:  # Possible original task lost?
-                pass  # Need to loop around and check
-            except (Exception, aio.CancelledError):
-                if not waiter.done():
-                    waiter.cancel()
-                    try:
-                        await waiter
-                    except aio.CancelledError:
-                        pass
-                raise
+            await aio.wait((aio.wrap_future(event),), timeout=60)
 
     return _wrapper  # type: ignore[return-value]
 
-- 
2.43.0


From 3b4ece0a10a441714100f6f6320b1612cce4d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 02/14] fix: avoid deadlock when a caching task is garbage
 collected

Closing an abandoned caching coroutine runs its cleanup, which takes the
event making lock. When the collector ran inside the locked region, the
thread deadlocked on its own lock.
---
 aiuti/asyncio.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index ca05276..a7bfbdd 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -34,7 +34,7 @@ from asyncio import (
     run_coroutine_threadsafe as run_coro_ts,
 )
 from itertools import islice
-from threading import Lock
+from threading import Lock, RLock
 from functools import partial, wraps
 from concurrent.futures import Future as CFuture, ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
@@ -383,8 +383,9 @@ def threadsafe_async_cache(
     # concurrent future so that it can wake up tasks in any event loop
     # directly, no matter what happens to the caching loop afterwards.
     events: Dict[Tuple[Any, ...], Tuple[Loop, 'CFuture[None]']] = {}
-    # Ensure thread safety while creating events
-    event_making_lock = Lock()
+    # Ensure thread safety while creating events. Reentrant because the
+    # garbage collector may close an abandoned caching task at any time
+    event_making_lock = RLock()
 
     @wraps(_func)
     async def _wrapper(*args: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From 1f177d97d8f800fa3d4256a09c4e5cb9b4287221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 03/14] fix: pass retention_timeout on when
 async_background_batcher is called with options

---
 aiuti/asyncio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index a7bfbdd..0ff3d96 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -787,6 +787,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> Callable[
     [_BatchFunc[A_contra, R_co]],
     _AsyncBackgroundBatcherProto[A_contra, R_co],
@@ -800,6 +801,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> _AsyncBackgroundBatcherProto[A_contra, R_co]: ...
 
 
@@ -881,6 +883,7 @@ def async_background_batcher(
             max_batch_size=max_batch_size,
             max_concurrent_batches=max_concurrent_batches,
             batch_timeout=batch_timeout,
+            retention_timeout=retention_timeout,
         )
 
     batchers: 'WeakKeyDict[Loop, AsyncBackgroundBatcher[A_contra, R_co]]' \
-- 
2.43.0


From c939c89d10ffd7af3e2607df1668b157ad81d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 04/14] fix: raise TimeoutError when a FileLock with block
 can't acquire the lock

The section was entered without holding the lock when the default timeout
expired.
---
 aiuti/filelock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 11430cd..0d59076 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -304,7 +304,8 @@ class BaseFileLock(abc.ABC):
         self._lock_counter = max(0, self._lock_counter - 1)
 
     def __enter__(self: FileLockT) -> FileLockT:
-        self.acquire()
+        if not self.acquire():
+            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
         return self
 
     def __exit__(self, *_exc: Any) -> None:
-- 
2.43.0


From d83a4480adacb5810d2690c609e87af411ce0186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 05/14] fix: release every level of a forcibly released
 reentrant FileLock

release(force=True) on a nested lock released the RLock only once, so no
other thread could ever acquire the lock again. The counter was also left
behind when unlocking or closing the lock file failed.
---
 aiuti/filelock.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 0d59076..721ca70 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -223,22 +223,26 @@ class BaseFileLock(abc.ABC):
             return
 
         self._decrement_lock_counter()
+        levels = 1  # Number of levels to release
 
         if self._lock_counter == 0 or force:
             lid = id(self)
             fn = self._lock_file
 
+            levels += self._lock_counter
+            self._lock_counter = 0
+
             _logger.debug('Attempting to release lock %s on %s', lid, fn)
             try:
                 self._release()
             except:  # noqa
                 _logger.exception("Failed to release lock %s on %s", lid, fn)
             else:
-                self._lock_counter = 0
                 _logger.info('Lock %s released on %s', lid, fn)
 
         try:
-            self._thread_lock.release()
+            for _ in range(levels):
+                self._thread_lock.release()
         except RuntimeError:  # not reentrant and already unlocked
             pass
 
-- 
2.43.0


From c309363b955d0a8a5af6212988daef452e2d6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 06/14] fix: keep cancelled AsyncBackgroundBatcher callers from
 disturbing others

All callers of a key awaited the same bare future, so cancelling one of them
cancelled the others, and the batch failed with InvalidStateError when it
tried to set a cancelled future's result, failing its remaining callers.
---
 aiuti/asyncio.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 0ff3d96..d8f7d4a 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1071,22 +1071,28 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
         except KeyError:
             pass
         else:
-            return await fut
+            # Shielded because the future is shared with other callers
+            # and the batch so cancelling this one mustn't cancel it
+            return await aio.shield(fut)
 
         fut = self._retention_cache[key] = self._loop.create_future()
+        fut.add_done_callback(partial(self._forget, key))
         await self._queue.put((key, arg, fut))
+        return await aio.shield(fut)
 
-        try:
-            return await fut
-        finally:
-            if self.retention_timeout > 0:
-                self._loop.call_later(
-                    self.retention_timeout,
-                    self._retention_cache.pop,
-                    key,
-                )
-            else:
-                del self._retention_cache[key]
+    def _forget(self, key: str, _fut: 'aio.Future[R_co]') -> None:
+        """
+        Helper method to remove the completed future for the given key
+        from the retention cache once :attr:`retention_timeout` is over.
+        """
+        if self.retention_timeout > 0:
+            self._loop.call_later(
+                self.retention_timeout,
+                self._retention_cache.pop,
+                key,
+            )
+        else:
+            del self._retention_cache[key]
 
     def _daemon_task(
         self,
-- 
2.43.0


From b7c5ecf613c7f28a1a9e61a5a6c78d021783ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 07/14] fix: raise every error of a batch function to its
 callers

A CancelledError (or any other BaseException) raised by the batch function
left all of its unanswered callers pending forever.
---
 aiuti/asyncio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d8f7d4a..eb735a8 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1179,10 +1179,14 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                         fut.set_exception(result)
                     else:
                         fut.set_result(result)
-        except Exception as e:
+        except GeneratorExit:  # Event loop is gone and so are the callers
+            raise
+        except BaseException as e:
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
                 fut.set_exception(e)
+            if not isinstance(e, Exception):
+                raise  # Never hide a cancellation, interrupt, etc.
             return
 
         if futs:
-- 
2.43.0


From ba5ba02d10f750603c9b83be3cf6e6b26c2e12ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 08/14] fix: don't fail a batch because of a repeated or
 unknown key

A key yielded twice (or never requested) raised a KeyError inside of the
batcher which was then given to every caller that was still waiting even
though the batch function has a result for them.
---
 aiuti/asyncio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index eb735a8..7ef30ca 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1174,8 +1174,10 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                     len(args), self.func,
                 )
                 async for key, result in self.func(args):
-                    fut = futs.pop(key)
-                    if isinstance(result, Exception):
+                    fut = futs.pop(key, None)
+                    if fut is None:
+                        logger.error("Unexpected result for key %r", key)
+                    elif isinstance(result, Exception):
                         fut.set_exception(result)
                     else:
                         fut.set_result(result)
-- 
2.43.0


From f908b1f2fb89169eaa0cfc40d8de8b5f62f28e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 09/14] fix: don't report exceptions returned by awaitables in
 gather_excs

Only errors that were actually raised may be reported, an awaitable which
returns an exception object didn't fail.
---
 aiuti/asyncio.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 7ef30ca..a50abe0 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -97,9 +97,15 @@ async def gather_excs(
     :param only:
         Optional specific type of exceptions to filter on and yield
     """
-    for res in await aio.gather(*aws, return_exceptions=True):
-        if isinstance(res, only):
-            yield res
+    aws = list(aws)
+    # Like gather(), only wrap awaitables given multiple times once
+    futs = {aw: aio.ensure_future(aw) for aw in dict.fromkeys(aws)}
+    await aio.gather(*futs.values(), return_exceptions=True)
+    for fut in map(futs.__getitem__, aws):
+        # Exceptions that were merely returned aren't errors
+        exc = aio.CancelledError() if fut.cancelled() else fut.exception()
+        if isinstance(exc, only):
+            yield exc
 
 
 async def raise_first_exc(aws: Iterable[Awaitable[Any]],
-- 
2.43.0


From 16ad2267ce7c6cbee3f0d9d46e2c7382a420305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 10/14] fix: don't deliver buffered inputs twice when another
 thread adds more

A thread clearing the event right after it was set by a successful call made
the same inputs be passed to the function again.
---
 aiuti/asyncio.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index a50abe0..de4b8e4 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -707,8 +707,11 @@ class BufferAsyncCalls(Generic[T]):
         else:
             self.event.clear()  # Ensure cleared in case previous cancel
             self.q.task_done()
-        # Keep adding new args until the function has run successfully
-        while not self.event.is_set():
+        # Keep adding new args until the function has run successfully.
+        # The event can't be used to check for that because it is also
+        # cleared whenever another thread is about to add a new arg.
+        done = False
+        while not done:
             # Get all the input generators currently in the queue
             input_gens.extend(map(_load_inputs, self._empty_queue()))
             # Schedule the q.get() and save it as an attribute so it
@@ -723,26 +726,28 @@ class BufferAsyncCalls(Generic[T]):
             try:
                 await _load_inputs(await self._getting)
             except (aio.TimeoutError, aio.CancelledError):
-                await self._run_func(inputs)
+                done = await self._run_func(inputs)
             else:
                 self.q.task_done()
 
-    async def _run_func(self, inputs: Set[T]) -> None:
+    async def _run_func(self, inputs: Set[T]) -> bool:
         """
         Run :attr:`func` with the given set of inputs and set
         :attr:`event` once it has finished successfully.
 
         If an exception is raised, log it with its traceback and return
-        without setting the event to prevent the buffered inputs from
-        being lost.
+        False without setting the event to prevent the buffered inputs
+        from being lost.
         """
         try:
             if inputs:  # Could be empty if all empty iterators
                 await self.func(inputs)
         except BaseException as e:  # noqa
             logging.exception("Failed to run %s, retrying", self.func)
+            return False
         else:
             self.event.set()
+            return True
 
     def _schedule_with_timeout(self, coro: Awaitable[X]) -> 'aio.Task[X]':
         """
-- 
2.43.0


From 9f2b3b2aa0eb01150e149ab2278425e90882e38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 11/14] fix: let the background task of BufferAsyncCalls be
 cancelled

Cancelling it while its timer was armed was mistaken for a flush and while
the function was running for a failure, so asyncio.run() never returned.
---
 aiuti/asyncio.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index de4b8e4..d99ff1b 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -723,8 +723,10 @@ class BufferAsyncCalls(Generic[T]):
                 input_gens.clear()  # Clear processed input generators
             # Now wait for the next arguments to buffer. If this times
             # out or is cancelled, its time to run the function.
+            # Note that wait() only raises if this task is cancelled.
+            await aio.wait((self._getting,))
             try:
-                await _load_inputs(await self._getting)
+                input_gens.append(_load_inputs(self._getting.result()))
             except (aio.TimeoutError, aio.CancelledError):
                 done = await self._run_func(inputs)
             else:
@@ -739,15 +741,28 @@ class BufferAsyncCalls(Generic[T]):
         False without setting the event to prevent the buffered inputs
         from being lost.
         """
+        async def _try_func() -> bool:
+            try:
+                if inputs:  # Could be empty if all empty iterators
+                    await self.func(inputs)
+            except BaseException as e:  # noqa
+                logging.exception("Failed to run %s, retrying", self.func)
+                return False
+            else:
+                return True
+
+        # Use another task to tell an error raised by the function apart
+        # from the current task being cancelled (e.g. by loop shutdown)
+        task = self.loop.create_task(_try_func())
         try:
-            if inputs:  # Could be empty if all empty iterators
-                await self.func(inputs)
-        except BaseException as e:  # noqa
-            logging.exception("Failed to run %s, retrying", self.func)
-            return False
-        else:
+            await aio.wait((task,))
+        finally:
+            task.cancel()  # No-op if done
+
+        if task.result():
             self.event.set()
             return True
+        return False
 
     def _schedule_with_timeout(self, coro: Awaitable[X]) -> 'aio.Task[X]':
         """
-- 
2.43.0


From 79eee56f932cc73197c5c4f5115508b69e7beba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 12/14] fix: complete ensure_aw() when its target loop stops or
 changes hands

With several callers targeting the same loop, the one which borrowed the idle
loop stopped it as soon as its own awaitable was done while the others were
still waiting for theirs, forever. A loop started or stopped right after it
was checked had the same effect.
---
 aiuti/asyncio.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d99ff1b..171d4f5 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1274,18 +1274,38 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
     if main_loop is loop:
         return await aw
 
-    if loop.is_running():
-        return await run_aw_threadsafe(aw, loop)
-
     if loop.is_closed():
         raise RuntimeError("Target loop is closed!")
 
-    def _loop_thread() -> T:
-        with _get_loop_lock(loop):
-            aio.set_event_loop(loop)
-            return loop.run_until_complete(aw)
+    # Schedule it no matter which thread is (or will be) running the loop
+    future = run_coro_ts(_aw_to_coro(aw), loop)
+    waiter = aio.wrap_future(future)
+
+    def _loop_thread() -> None:
+        lock = _get_loop_lock(loop)
+        if lock.acquire(blocking=False):  # No other thread is running it
+            try:
+                if not loop.is_running():
+                    aio.set_event_loop(loop)
+                    loop.run_until_complete(
+                        aio.wait((aio.wrap_future(future, loop=loop),)),
+                    )
+            finally:
+                lock.release()
+
+    try:
+        # Whoever is running the loop can stop doing so at any time
+        while not waiter.done():
+            if loop.is_running():
+                await aio.wait((waiter,), timeout=0.05)
+            elif loop.is_closed():
+                raise RuntimeError("Target loop is closed!")
+            else:
+                await main_loop.run_in_executor(_CROSS_LOOP_POOL, _loop_thread)
+    finally:
+        waiter.cancel()
 
-    return await main_loop.run_in_executor(_CROSS_LOOP_POOL, _loop_thread)
+    return waiter.result()
 
 
 def loop_in_thread(loop: Loop) -> Callable[[], None]:
-- 
2.43.0


From cad4037799c1a5b9df44fe7c05dd8f38321584a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 13/14] fix: make loop_in_thread() wait for its own thread to
 run the loop

It returned while ensure_aw() was still borrowing the loop, so that its stop
function could return before the loop ran and leave it running forever. A
closed loop made it spin forever.
---
 aiuti/asyncio.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 171d4f5..b4a2e0e 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -34,7 +34,7 @@ from asyncio import (
     run_coroutine_threadsafe as run_coro_ts,
 )
 from itertools import islice
-from threading import Lock, RLock
+from threading import Event, Lock, RLock
 from functools import partial, wraps
 from concurrent.futures import Future as CFuture, ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
@@ -1339,18 +1339,26 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
     >>> loop.is_running()  # No longer running
     False
     """
+    started = Event()
+
     def _loop_thread() -> None:
         with _get_loop_lock(loop):
             aio.set_event_loop(loop)
+            # Being running isn't enough as another thread may run it
+            # temporarily right now (see ensure_aw)
+            loop.call_soon(started.set)
             loop.run_forever()
 
     future = _CROSS_LOOP_POOL.submit(_loop_thread)
 
-    while not loop.is_running():
+    while not started.is_set():
+        if future.done():
+            future.result()  # Reveal errors
         sleep(0)  # Force switching to other threads
 
     def _stopper() -> None:
-        loop.call_soon_threadsafe(loop.stop)
+        if not future.done():
+            loop.call_soon_threadsafe(loop.stop)
         future.result()  # Wait for loop to exit and reveal errors
 
     return _stopper
-- 
2.43.0


From 8c4736dac609f4020073a998196a5b7c6b0e8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 14/14] fix: answer batcher callers when StopIteration is
 yielded as their result

---
 aiuti/asyncio.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index b4a2e0e..8ecea11 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1204,7 +1204,7 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                     if fut is None:
                         logger.error("Unexpected result for key %r", key)
                     elif isinstance(result, Exception):
-                        fut.set_exception(result)
+                        fut.set_exception(_raisable(result))
                     else:
                         fut.set_result(result)
         except GeneratorExit:  # Event loop is gone and so are the callers
@@ -1212,7 +1212,7 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
         except BaseException as e:
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
-                fut.set_exception(e)
+                fut.set_exception(_raisable(e))
             if not isinstance(e, Exception):
                 raise  # Never hide a cancellation, interrupt, etc.
             return
@@ -1223,6 +1223,19 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                 fut.set_exception(ValueError(f"Missing result for {key!r}"))
 
 
+def _raisable(exc: BaseException) -> BaseException:
+    """
+    Helper function to chain any :class:`StopIteration` to the
+    RuntimeError Python replaces it with when raised by a coroutine as
+    futures refuse it (and leave their awaiters hanging).
+    """
+    if not isinstance(exc, StopIteration):
+        return exc
+    error = RuntimeError("coroutine raised StopIteration")
+    error.__cause__ = exc
+    return error
+
+
 _CROSS_LOOP_POOL = ThreadPoolExecutor(32)
 
 
-- 
2.43.0

