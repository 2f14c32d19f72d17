From c91687baea7af9a95008d1cc177d1b939fa2de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:44 +0000
Subject: [PATCH 01/34] fix: auto_detach_observer never disposed the source
 subscription

Cancelling the token cancelled the worker task before it could handle the
dispose message, so a completed or failed observer stayed subscribed to
its source.
---
 aioreactive/observers.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index d62ee76..7a3e822 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -4,7 +4,7 @@ from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, C
 from typing import Any, TypeVar, cast
 
 from expression.core import MailboxProcessor, TailCall, tailrec_async
-from expression.system import AsyncDisposable, CancellationTokenSource, Disposable
+from expression.system import AsyncDisposable, Disposable
 
 from .msg import Msg
 from .notification import MsgKind, Notification, OnCompleted, OnError, OnNext
@@ -205,17 +205,13 @@ def auto_detach_observer(
     AsyncObserver[_TSource],
     Callable[[Coroutine[None, None, AsyncDisposable]], Coroutine[None, None, AsyncDisposable]],
 ]:
-    cts = CancellationTokenSource()
-    token = cts.token
+    is_detached = False
 
     async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
         @tailrec_async
         async def message_loop(
             disposables: list[AsyncDisposable],
         ) -> Any:
-            if token.is_cancellation_requested:
-                return
-
             cmd = await inbox.receive()
             match cmd:
                 case Msg(tag="disposable", disposable=disposable):
@@ -228,10 +224,11 @@ def auto_detach_observer(
 
         await message_loop([])
 
-    agent = MailboxProcessor.start(worker, token)
+    agent = MailboxProcessor.start(worker)
 
     async def cancel() -> None:
-        cts.cancel()
+        nonlocal is_detached
+        is_detached = True
         agent.post(Msg(dispose=True))
 
     canceller = AsyncDisposable.create(cancel)
@@ -240,7 +237,11 @@ def auto_detach_observer(
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
         disposable = await async_disposable
-        agent.post(Msg(disposable=disposable))
+        if is_detached:
+            # The observer closed while we were subscribing.
+            await disposable.dispose_async()
+        else:
+            agent.post(Msg(disposable=disposable))
         return disposable
 
     return safe_obv, auto_detach
-- 
2.43.0


From f3e52d559daca36228ac9daf5881c3ac0f8fbf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:47 +0000
Subject: [PATCH 02/34] fix: safe_observer kept the source subscribed after the
 observer failed

---
 aioreactive/observers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 7a3e822..258b276 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -172,6 +172,7 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
                     try:
                         await msg.accept_observer(obv)
                     except Exception as ex:
+                        await disposable.dispose_async()
                         await obv.athrow(ex)
                         running = False
                 elif msg.kind == MsgKind.ON_ERROR:
-- 
2.43.0


From 6a928e3e853b471eb847847a07f4eacd409df7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:26 +0000
Subject: [PATCH 03/34] fix: queued notifications were delivered after dispose

Notifications still waiting in the safe observer's mailbox reached the
observer after dispose_async() had returned, e.g. disposing a
from_iterable() subscription had no effect at all.
---
 aioreactive/create.py    |  2 +-
 aioreactive/observers.py | 29 +++++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index ea0f4ef..8cbb70e 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -48,7 +48,7 @@ def of_async_worker(worker: Callable[[AsyncObserver[Any], CancellationToken], Aw
     async def subscribe_async(aobv: AsyncObserver[Any]) -> AsyncDisposable:
         log.debug("of_async_worker:subscribe_async()")
         disposable, token = canceller()
-        safe_obv = safe_observer(aobv, disposable)
+        safe_obv = safe_observer(aobv, disposable, token)
 
         aiotools.start(worker(safe_obv, token), token)
         return disposable
diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 258b276..2bf9a0b 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -4,7 +4,7 @@ from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, C
 from typing import Any, TypeVar, cast
 
 from expression.core import MailboxProcessor, TailCall, tailrec_async
-from expression.system import AsyncDisposable, Disposable
+from expression.system import AsyncDisposable, CancellationToken, CancellationTokenSource, Disposable
 
 from .msg import Msg
 from .notification import MsgKind, Notification, OnCompleted, OnError, OnNext
@@ -148,7 +148,11 @@ def noop() -> AsyncObserver[Any]:
     return AsyncAnonymousObserver(anoop, anoop, anoop)
 
 
-def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) -> AsyncObserver[_TSource]:
+def safe_observer(
+    obv: AsyncObserver[_TSource],
+    disposable: AsyncDisposable,
+    token: CancellationToken | None = None,
+) -> AsyncObserver[_TSource]:
     """Safe observer that wraps the given observer.
 
     Makes sure that
@@ -162,16 +166,27 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
     Args:
         obv: Observer to serialize access to
         disposable: Disposable to dispose when the observer closes.
+        token: Optional token that is cancelled when the subscription is
+            disposed. Notifications that are still queued at that point
+            are dropped.
     """
 
+    def is_cancelled() -> bool:
+        return token is not None and token.is_cancellation_requested
+
     async def worker(inbox: MailboxProcessor[Notification[_TSource]]) -> None:
         async def message_loop(running: bool) -> None:
             while running:
                 msg = await inbox.receive()
+                if is_cancelled():
+                    return
+
                 if msg.kind == MsgKind.ON_NEXT:
                     try:
                         await msg.accept_observer(obv)
                     except Exception as ex:
+                        if is_cancelled():
+                            raise
                         await disposable.dispose_async()
                         await obv.athrow(ex)
                         running = False
@@ -206,6 +221,7 @@ def auto_detach_observer(
     AsyncObserver[_TSource],
     Callable[[Coroutine[None, None, AsyncDisposable]], Coroutine[None, None, AsyncDisposable]],
 ]:
+    cts = CancellationTokenSource()
     is_detached = False
 
     async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
@@ -233,7 +249,7 @@ def auto_detach_observer(
         agent.post(Msg(dispose=True))
 
     canceller = AsyncDisposable.create(cancel)
-    safe_obv = safe_observer(obv, canceller)
+    safe_obv = safe_observer(obv, canceller, cts.token)
 
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
@@ -243,7 +259,12 @@ def auto_detach_observer(
             await disposable.dispose_async()
         else:
             agent.post(Msg(disposable=disposable))
-        return disposable
+
+        async def dispose() -> None:
+            cts.cancel()
+            await disposable.dispose_async()
+
+        return AsyncDisposable.create(dispose)
 
     return safe_obv, auto_detach
 
-- 
2.43.0


From 18306858ce402e4b5342afc039314e6cd1897361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:16 +0000
Subject: [PATCH 04/34] fix: a disposed AsyncSingleSubject hung its producers

athrow() and aclose() on a disposed subject, and any producer that was
still waiting for an observer when the subject was disposed, looped
forever on an already resolved future, blocking the event loop.
---
 aioreactive/subject.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index d3d7eb1..0f8ae11 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -43,6 +43,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         while self._observer is None:
             log.debug("AsyncSingleStream:asend:awaiting start")
             await self._wait
+            self.check_disposed()
             log.debug("AsyncSingleStream:asend:awaiting:done")
 
         if not self._is_stopped:
@@ -51,10 +52,12 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncSingleStream:athrow()")
 
+        self.check_disposed()
+
         while self._observer is None:
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
             await self._observer.athrow(error)
             self._is_stopped = True
@@ -62,11 +65,13 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
 
+        self.check_disposed()
+
         while self._observer is None:
             log.debug("AsyncSingleStream:aclose:awaiting start")
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
             await self._observer.aclose()
@@ -78,6 +83,10 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self._observer = None
         self._is_disposed = True
 
+        # Release any producers still awaiting an observer.
+        if not self._wait.done():
+            self._wait.set_result(True)
+
     async def subscribe_async(
         self,
         send: SendAsync[_TSource] | AsyncObserver[_TSource] | None = None,
-- 
2.43.0


From 0de5155776d632413ddc35ffaeac8557678ce924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 05/34] fix: AsyncSingleSubject sent events concurrently with
 and after a terminal event

---
 aioreactive/subject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 0f8ae11..fb8714e 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -59,8 +59,8 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             self.check_disposed()
 
         if not self._is_stopped:
-            await self._observer.athrow(error)
             self._is_stopped = True
+            await self._observer.athrow(error)
 
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
@@ -74,8 +74,8 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
 
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
-            await self._observer.aclose()
             self._is_stopped = True
+            await self._observer.aclose()
 
     async def dispose_async(self) -> None:
         log.debug("AsyncSingleStream:dispose_async()")
-- 
2.43.0


From 9d9d935259429fc376461a173f72c9d927c13bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:21 +0000
Subject: [PATCH 06/34] fix: cancelling one waiting AsyncSingleSubject producer
 cancelled them all

---
 aioreactive/subject.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index fb8714e..c6e2062 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future
+from asyncio import Future, shield
 from typing import TypeVar
 
 from expression.system import AsyncDisposable, ObjectDisposedException
@@ -42,7 +42,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         # AsyncSingleStreams are cold and will await a sink.
         while self._observer is None:
             log.debug("AsyncSingleStream:asend:awaiting start")
-            await self._wait
+            await shield(self._wait)
             self.check_disposed()
             log.debug("AsyncSingleStream:asend:awaiting:done")
 
@@ -55,7 +55,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self.check_disposed()
 
         while self._observer is None:
-            await self._wait
+            await shield(self._wait)
             self.check_disposed()
 
         if not self._is_stopped:
@@ -69,7 +69,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
 
         while self._observer is None:
             log.debug("AsyncSingleStream:aclose:awaiting start")
-            await self._wait
+            await shield(self._wait)
             self.check_disposed()
 
         if not self._is_stopped:
-- 
2.43.0


From e230458cfb2d2ff5eb7612a148059ad164ce7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:56 +0000
Subject: [PATCH 07/34] fix: AsyncSubject notified observers disposed earlier
 in the same broadcast

---
 aioreactive/subject.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index c6e2062..f6998d8 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -129,7 +129,8 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
             return
 
         for obv in list(self._observers):
-            await obv.asend(value)
+            if obv in self._observers:  # May be disposed by now
+                await obv.asend(value)
 
     async def athrow(self, error: Exception) -> None:
         self.check_disposed()
@@ -139,7 +140,8 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         self._is_stopped = True
 
         for obv in list(self._observers):
-            await obv.athrow(error)
+            if obv in self._observers:  # May be disposed by now
+                await obv.athrow(error)
 
     async def aclose(self) -> None:
         self.check_disposed()
@@ -149,7 +151,8 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         self._is_stopped = True
 
         for obv in list(self._observers):
-            await obv.aclose()
+            if obv in self._observers:  # May be disposed by now
+                await obv.aclose()
 
     async def subscribe_async(
         self,
-- 
2.43.0


From 97184eeb366d3a43584924fb8b4fe36ae9fa4b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:59 +0000
Subject: [PATCH 08/34] fix: scan continued after the accumulator had failed

The observer received an error followed by more values and a second
terminal event, and the source was never disposed as documented for
reduce.
---
 aioreactive/transform.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 8a5eeab..59191a4 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -457,27 +457,37 @@ def _scan(
         async def subscribe_async(observer: AsyncObserver[_TResult]) -> AsyncDisposable:
             disposable: AsyncDisposable = AsyncDisposable.empty()
             current: _TResult = initial
+            is_stopped = False
 
             async def anext(value: _TSource) -> None:
-                nonlocal current
+                nonlocal current, is_stopped
+
+                if is_stopped:
+                    return
 
                 try:
                     intermediate = await accumulator(current, value)
                 except Exception as ex:
+                    is_stopped = True
                     await observer.athrow(ex)
+                    await disposable.dispose_async()
                 else:
                     current = intermediate
 
                     await observer.asend(current)
 
             async def athrow(exception: Exception) -> None:
-                await observer.athrow(exception)
+                if not is_stopped:
+                    await observer.athrow(exception)
 
             async def aclose() -> None:
-                await observer.aclose()
+                if not is_stopped:
+                    await observer.aclose()
 
             await disposable.dispose_async()
             disposable = await obs.subscribe_async(anext, athrow, aclose)
+            if is_stopped:
+                await disposable.dispose_async()
 
             return disposable
 
-- 
2.43.0


From 4364a5ccc66bbd920c91fc54f3832f60187925c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:02 +0000
Subject: [PATCH 09/34] fix: skip_last lost None values

---
 aioreactive/filtering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 846f3ee..ad0a548 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -216,13 +216,9 @@ def skip_last(
             q: list[_TSource] = []
 
             async def asend(value: _TSource) -> None:
-                front: _TSource | None = None
                 q.append(value)
                 if len(q) > count:
-                    front = q.pop(0)
-
-                if front is not None:
-                    await safe_obv.asend(front)
+                    await safe_obv.asend(q.pop(0))
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow, safe_obv.aclose)
             return await pipe(obv, source.subscribe_async, auto_detach)
-- 
2.43.0


From 3cb3a22572f336de3727c88beea166376afab3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:04 +0000
Subject: [PATCH 10/34] fix: retry never gave up and a failing catch handler
 lost the error

retry() retried only once, then resubscribed to a failing observable for
ever instead of sending the error, and its count was shared between
subscriptions. An exception raised by a catch() handler never reached the
observer.
---
 aioreactive/transform.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 59191a4..ea2d60c 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -18,7 +18,6 @@ from expression.core import (
 from expression.system import AsyncDisposable
 
 from .combine import merge_inner, zip_seq
-from .create import fail
 from .msg import (
     Key,
     Msg,
@@ -408,7 +407,11 @@ def catch(
                     await aobv.asend(value)
 
                 async def athrow(error: Exception) -> None:
-                    next_source = handler(error)
+                    try:
+                        next_source = handler(error)
+                    except Exception as ex:
+                        await aobv.athrow(ex)
+                        return
                     await action(next_source)
 
                 async def aclose() -> None:
@@ -433,18 +436,21 @@ def retry(
     retry_count: int,
 ) -> Callable[[AsyncObservable[_TSource]], AsyncObservable[_TSource]]:
     def _retry(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        count = retry_count
+        async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+            count = retry_count
+
+            def factory(exn: Exception) -> AsyncObservable[_TSource]:
+                nonlocal count
 
-        def factory(exn: Exception) -> AsyncObservable[_TSource]:
-            nonlocal count
+                if not count:
+                    raise exn
+                else:
+                    count -= 1
+                    return source
 
-            if not count:
-                return fail(exn)
-            else:
-                count -= count
-                return source
+            return await pipe(source, catch(factory)).subscribe_async(aobv)
 
-        return pipe(source, catch(factory))
+        return AsyncAnonymousObservable(subscribe_async)
 
     return _retry
 
-- 
2.43.0


From fc778a6a6f7f8e12889864321eea8ecde0d5f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 11/34] fix: disposing a catch subscription did not dispose the
 handler sequence

---
 aioreactive/transform.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index ea2d60c..1ec491e 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -425,7 +425,11 @@ def catch(
 
             await action(source)
 
-            return AsyncDisposable.create(disposable.dispose_async)
+            async def dispose() -> None:
+                # Dispose the current subscription, not the initial one.
+                await disposable.dispose_async()
+
+            return AsyncDisposable.create(dispose)
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 5e5824cddbcd4dd64b84deef2113ee50e1f064e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:54 +0000
Subject: [PATCH 12/34] fix: merge_inner kept the other inner subscriptions
 after an inner error

---
 aioreactive/combine.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 7cdd42a..fc8368e 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -144,13 +144,17 @@ def merge_inner(
                 agent.post(Msg(completed=True))
 
             obv = AsyncAnonymousObserver(asend, athrow, aclose)
-            dispose = await auto_detach(source.subscribe_async(obv))
 
-            async def cancel() -> None:
-                await dispose.dispose_async()
-                agent.post(Msg(dispose=True))
+            async def subscribe_source() -> AsyncDisposable:
+                dispose = await source.subscribe_async(obv)
+
+                async def cancel() -> None:
+                    await dispose.dispose_async()
+                    agent.post(Msg(dispose=True))
+
+                return AsyncDisposable.create(cancel)
 
-            return AsyncDisposable.create(cancel)
+            return await auto_detach(subscribe_source())
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From ca27716d34fed3ff2a885267cee4997d010c33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:58 +0000
Subject: [PATCH 13/34] fix: switch_latest never completed and forwarded
 superseded sequences

---
 aioreactive/transform.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 1ec491e..2599dde 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -263,12 +263,16 @@ def switch_latest(
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
         safe_obv, auto_detach = auto_detach_observer(aobv)
 
+        latest_id = 0
+
         def obv(mb: MailboxProcessor[Msg[_TSource]], id: int) -> AsyncObserver[_TSource]:
             async def asend(value: _TSource) -> None:
-                await safe_obv.asend(value)
+                if id == latest_id:
+                    await safe_obv.asend(value)
 
             async def athrow(error: Exception) -> None:
-                await safe_obv.athrow(error)
+                if id == latest_id:
+                    await safe_obv.athrow(error)
 
             async def aclose() -> None:
                 pipe(
@@ -283,29 +287,32 @@ def switch_latest(
             async def message_loop(
                 current: Option[AsyncDisposable], is_stopped: bool, current_id: int
             ) -> TailCallResult[None, [Option[AsyncDisposable], bool, int]]:
+                nonlocal latest_id
                 cmd = await inbox.receive()
 
                 match cmd:
                     case Msg(tag="inner_observable", inner_observable=xs):
-                        next_id = current_id + 1
+                        next_id = latest_id = current_id + 1
                         for disp in current.to_list():
                             await disp.dispose_async()
                         inner = await xs.subscribe_async(obv(inbox, next_id))
                         current, current_id = Some(inner), next_id
 
                     case Msg(tag="inner_completed", inner_completed=idx):
-                        if is_stopped and idx == current_id:
-                            await safe_obv.aclose()
-                            current, is_stopped = Nothing, True
+                        if idx == current_id:
+                            if is_stopped:
+                                await safe_obv.aclose()
+                            current = Nothing
 
                     case Msg(tag="completed"):
                         if current.is_none():
                             await safe_obv.aclose()
+                        is_stopped = True
 
                     case Msg(tag="dispose"):
                         if current.is_some():
                             await current.value.dispose_async()
-                        current, is_stopped = Nothing, True
+                        return
                     case _:
                         raise ValueError(f"Unknown message: {cmd}")
 
@@ -328,17 +335,17 @@ def switch_latest(
             inner_agent.post(Msg(completed=True))
 
         _obv = AsyncAnonymousObserver(asend, athrow, aclose)
-        dispose = await pipe(
-            _obv,
-            source.subscribe_async,
-            auto_detach,
-        )
 
-        async def cancel() -> None:
-            await dispose.dispose_async()
-            inner_agent.post(Msg(dispose=True))
+        async def subscribe_source() -> AsyncDisposable:
+            dispose = await source.subscribe_async(_obv)
+
+            async def cancel() -> None:
+                await dispose.dispose_async()
+                inner_agent.post(Msg(dispose=True))
+
+            return AsyncDisposable.create(cancel)
 
-        return AsyncDisposable.create(cancel)
+        return await auto_detach(subscribe_source())
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 0132cc1e20249317a1e0dbe6f73cfd130b21ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:27 +0000
Subject: [PATCH 14/34] fix: take_until kept the other sequence subscribed
 after completion

---
 aioreactive/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index ad0a548..c056b4e 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -318,7 +318,7 @@ def take_until(
                 await safe_obv.aclose()
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow)
-            sub2 = await pipe(obv, other.subscribe_async)
+            sub2 = await pipe(obv, other.subscribe_async, auto_detach)
             sub1 = await pipe(safe_obv, source.subscribe_async, auto_detach)
 
             return AsyncDisposable.composite(sub1, sub2)
-- 
2.43.0


From cb6a4784cf9cda7c15d4a290c5792015e87e28d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:29 +0000
Subject: [PATCH 15/34] fix: disposing one delay subscription cancelled all the
 others

---
 aioreactive/timeshift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 913a643..1865665 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -47,10 +47,11 @@ def delay(
     Returns:
         Delayed stream.
     """
-    cts = CancellationTokenSource()
-    token = cts.token
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+        cts = CancellationTokenSource()
+        token = cts.token
+
         def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], datetime]]) -> Awaitable[None]:
             @tailrec_async
             async def loop() -> TailCallResult[None, ...]:
-- 
2.43.0


From 70ba2a3690c6a268b762cbb5020d71eb14a2c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:05 +0000
Subject: [PATCH 16/34] fix: slice returned everything for stop=0 and raised
 for stop < start

---
 aioreactive/filtering.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index c056b4e..2034b5c 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -361,8 +361,6 @@ def slice(
     """
 
     def _slice(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        nonlocal start
-
         if start is not None:
             if start < 0:
                 source = pipe(source, take_last(abs(start)))
@@ -370,9 +368,8 @@ def slice(
                 source = pipe(source, skip(start))
 
         if stop is not None:
-            if stop > 0:
-                start = start or 0
-                source = pipe(source, take(stop - start))
+            if stop >= 0:
+                source = pipe(source, take(max(stop - (start or 0), 0)))
             else:
                 source = pipe(source, skip_last(abs(stop)))
 
-- 
2.43.0


From abacd2c87a9431cc48493ae01844fde90325c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:29 +0000
Subject: [PATCH 17/34] fix: errors raised by the iterable never reached the
 observer

---
 aioreactive/create.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 8cbb70e..d330667 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -87,15 +87,14 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
         sub = AsyncDisposable.create(cancel)
 
         async def worker() -> None:
-            async for value in iterable:
-                try:
+            try:
+                async for value in iterable:
                     await observer.asend(value)
-                except Exception as ex:
-                    await observer.athrow(ex)
-                    return
+            except Exception as ex:
+                await observer.athrow(ex)
+                return
 
             await observer.aclose()
-            tasks.remove(task)
 
         try:
             task = asyncio.create_task(worker())
@@ -104,6 +103,7 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
             await observer.athrow(ex)
         else:
             tasks.add(task)
+            task.add_done_callback(tasks.discard)
         return sub
 
     return AsyncAnonymousObservable(subscribe_async)
@@ -167,14 +167,13 @@ def of_seq(xs: Iterable[TSource]) -> AsyncObservable[TSource]:
 
     async def worker(obv: AsyncObserver[TSource], token: CancellationToken) -> None:
         log.debug("of_seq:worker()")
-        for x in xs:
-            token.throw_if_cancellation_requested()
-            log.debug("of_seq:asend(%s)", x)
-
-            try:
+        try:
+            for x in xs:
+                token.throw_if_cancellation_requested()
+                log.debug("of_seq:asend(%s)", x)
                 await obv.asend(x)
-            except Exception as ex:
-                await obv.athrow(ex)
+        except Exception as ex:
+            await obv.athrow(ex)
 
         await obv.aclose()
 
-- 
2.43.0


From 98934b86dbe188155f6451674eaba45114f99805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:34 +0000
Subject: [PATCH 18/34] fix: closing a cancelled AsyncAwaitableObserver raised
 InvalidStateError

---
 aioreactive/observers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 2bf9a0b..4b3b47a 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -317,7 +317,8 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        self.set_exception(error)
+        if not self.done():  # May be cancelled by now
+            self.set_exception(error)
         await self._athrow(error)
 
     async def aclose(self) -> None:
@@ -329,7 +330,9 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        if self._has_value:
+        if self.done():  # May be cancelled by now
+            pass
+        elif self._has_value:
             self.set_result(self._last_value)
         else:
             self.cancel()
-- 
2.43.0


From 25bde0d87ec326bceed81308e645ae998fd3161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:36 +0000
Subject: [PATCH 19/34] fix: to_observable lost an early dispose and raised
 KeyError

---
 aioreactive/leave.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index 58ca389..8e1fb87 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -49,16 +49,21 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
                 obv.on_completed()
 
             subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
-            tasks.remove(task)
+
+        async def stop() -> None:
+            # The subscription might not be established yet
+            await asyncio.wait([task])
+            if subscription:
+                await subscription.dispose_async()
 
         task = asyncio.create_task(start())
         tasks.add(task)
-        task.add_done_callback(lambda _: tasks.remove(task))
+        task.add_done_callback(tasks.discard)
 
         def dispose() -> None:
-            if subscription:
-                task = asyncio.create_task(subscription.dispose_async())
-                tasks.add(task)
+            stop_task = asyncio.create_task(stop())
+            tasks.add(stop_task)
+            stop_task.add_done_callback(tasks.discard)
 
         return Disposable(dispose)
 
-- 
2.43.0


From 335fe6dedcd24624a1e7d54010d9ed59bb114e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:48 +0000
Subject: [PATCH 20/34] fix: AsyncIteratorObserver hung producers and was
 poisoned by a cancelled iteration

---
 aioreactive/observers.py | 76 +++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 36 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 4b3b47a..793fbb0 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -23,68 +23,72 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
     def __init__(self, source: AsyncObservable[_TSource]) -> None:
         super().__init__()
 
-        self._push: Future[_TSource] = Future()
-        self._pull: Future[bool] = Future()
-
-        self._awaiters: list[Future[bool]] = []
+        # Events not yet picked up by the iterator, each with a future that
+        # releases the producer once the event has been picked up.
+        self._pending: list[tuple[Notification[_TSource], Future[bool]]] = []
+        self._waiter: Future[bool] | None = None
         self._subscription: AsyncDisposable | None = None
         self._source = source
-        self._busy = False
+        self._is_stopped = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
 
-        await self._serialize_access()
-
-        self._push.set_result(value)
-        await self._wait_for_pull()
+        await self._wait_for_pull(OnNext(value))
 
     async def athrow(self, error: Exception) -> None:
-        log.debug("AsyncIteratorObserver:athrow()", error)
-        await self._serialize_access()
+        log.debug("AsyncIteratorObserver:athrow(%s)", error)
 
-        self._push.set_exception(error)
-        await self._wait_for_pull()
+        await self._wait_for_pull(OnError(error))
 
     async def aclose(self) -> None:
-        await self._serialize_access()
-
-        self._push.set_exception(StopAsyncIteration)
-        await self._wait_for_pull()
+        await self._wait_for_pull(OnCompleted())
 
-    async def _wait_for_pull(self) -> None:
-        await self._pull
-        self._pull = Future()
-        self._busy = False
+    async def _wait_for_pull(self, event: Notification[_TSource]) -> None:
+        if self._is_stopped:
+            return
+        self._is_stopped = event.kind != MsgKind.ON_NEXT
 
-    async def _serialize_access(self) -> None:
-        # Serialize producer event to the iterator
-        while self._busy:
-            fut: Future[bool] = Future()
-            self._awaiters.append(fut)
-            await fut
-            self._awaiters.remove(fut)
+        pull: Future[bool] = Future()
+        self._pending.append((event, pull))
+        if self._waiter is not None and not self._waiter.done():
+            self._waiter.set_result(True)
 
-        self._busy = True
+        await pull
 
     async def wait_for_push(self) -> _TSource:
         if self._subscription is None:
             self._subscription = await self._source.subscribe_async(self)
 
-        value = await self._push
-        self._push = Future()
-        self._pull.set_result(True)
+        while not self._pending:
+            self._waiter = Future()
+            await self._waiter
 
-        # Wake up any awaiters
-        for awaiter in self._awaiters[:1]:
-            awaiter.set_result(True)
-        return value
+        event, pull = self._pending[0]
+        if not pull.done():
+            pull.set_result(True)
+
+        # The final event stays, so that iterating past the end ends again.
+        match event:
+            case OnNext(value=value):
+                self._pending.pop(0)
+                return value
+            case OnError(exception=error):
+                raise error
+            case _:
+                raise StopAsyncIteration
 
     async def dispose_async(self) -> None:
         if self._subscription is not None:
             await self._subscription.dispose_async()
         self._subscription = None
 
+        # Release any producers still waiting for their event to be picked up.
+        for _, pull in self._pending:
+            if not pull.done():
+                pull.set_result(True)
+        self._pending = [(event, pull) for event, pull in self._pending if event.kind != MsgKind.ON_NEXT]
+
     def __aiter__(self) -> AsyncIterator[_TSource]:
         log.debug("AsyncIteratorObserver:__aiter__")
         return self
-- 
2.43.0


From ecd085a9a66def2547c9b06415a54a31de54c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:04 +0000
Subject: [PATCH 21/34] fix: interval swallowed an exception raised by the
 observer

---
 aioreactive/create.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index d330667..4afd976 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -212,7 +212,11 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
         @tailrec_async
         async def handler(seconds: float, next: int) -> "TailCallResult[None, [float, int]]":
             await asyncio.sleep(seconds)
-            await aobv.asend(next)
+            try:
+                await aobv.asend(next)
+            except Exception as ex:
+                await aobv.athrow(ex)
+                return None
 
             if not period:
                 await aobv.aclose()
-- 
2.43.0


From 3bdc3fa0c870361d5920437f0970483349844a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:07 +0000
Subject: [PATCH 22/34] fix: delay swallowed an exception raised by the
 observer

---
 aioreactive/timeshift.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 1865665..a7a13d2 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -49,6 +49,7 @@ def delay(
     """
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+        safe_obv, auto_detach = auto_detach_observer(aobv)
         cts = CancellationTokenSource()
         token = cts.token
 
@@ -68,13 +69,13 @@ def delay(
                 async def matcher() -> None:
                     match ns:
                         case OnNext(value=x):
-                            await aobv.asend(x)
+                            await safe_obv.asend(x)
                             return
                         case OnError(exception=err):
-                            await aobv.athrow(err)
+                            await safe_obv.athrow(err)
                             return
                         case _:
-                            await aobv.aclose()
+                            await safe_obv.aclose()
                             return
 
                 await matcher()
@@ -89,14 +90,18 @@ def delay(
             agent.post((ns, due_time))
 
         obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
-        subscription = await source.subscribe_async(obv)
 
-        async def cancel() -> None:
-            log.debug("delay:cancel()")
-            cts.cancel()
-            await subscription.dispose_async()
+        async def subscribe_source() -> AsyncDisposable:
+            subscription = await source.subscribe_async(obv)
+
+            async def cancel() -> None:
+                log.debug("delay:cancel()")
+                cts.cancel()
+                await subscription.dispose_async()
+
+            return AsyncDisposable.create(cancel)
 
-        return AsyncDisposable.create(cancel)
+        return await auto_detach(subscribe_source())
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 67ad44b0d96ad645676cfe6bd82912691b1cc218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:33 +0000
Subject: [PATCH 23/34] fix: catch lost the handler sequence when a source
 failed while subscribing

---
 aioreactive/transform.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 2599dde..0e1e93b 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -406,14 +406,21 @@ def catch(
     def _catch(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             disposable = AsyncDisposable.empty()
+            current = 0  # Number of the current source, changes when disposed
 
             async def action(source: AsyncObservable[_TSource]) -> None:
-                nonlocal disposable
+                nonlocal disposable, current
+
+                current += 1
+                key = current
 
                 async def asend(value: _TSource) -> None:
                     await aobv.asend(value)
 
                 async def athrow(error: Exception) -> None:
+                    if key != current:
+                        return
+
                     try:
                         next_source = handler(error)
                     except Exception as ex:
@@ -428,12 +435,19 @@ def catch(
 
                 await disposable.dispose_async()
                 subscription = await source.subscribe_async(_obv)
-                disposable = subscription
+                if key == current:
+                    disposable = subscription
+                else:
+                    # Failed or was disposed while subscribing.
+                    await subscription.dispose_async()
 
             await action(source)
 
             async def dispose() -> None:
+                nonlocal current
+
                 # Dispose the current subscription, not the initial one.
+                current += 1
                 await disposable.dispose_async()
 
             return AsyncDisposable.create(dispose)
-- 
2.43.0


From 0088c1e99248ef8f09df03e14a56ff7eadbc904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:44 +0000
Subject: [PATCH 24/34] fix: catch forwarded notifications after dispose while
 subscribing

---
 aioreactive/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 0e1e93b..68fe06b 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -415,7 +415,8 @@ def catch(
                 key = current
 
                 async def asend(value: _TSource) -> None:
-                    await aobv.asend(value)
+                    if key == current:
+                        await aobv.asend(value)
 
                 async def athrow(error: Exception) -> None:
                     if key != current:
@@ -429,7 +430,8 @@ def catch(
                     await action(next_source)
 
                 async def aclose() -> None:
-                    await aobv.aclose()
+                    if key == current:
+                        await aobv.aclose()
 
                 _obv = AsyncAnonymousObserver(asend, athrow, aclose)
 
-- 
2.43.0


From 3b3c2a36d06abd42cfbd08e24e7916607b3da5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 25/34] fix: timer completed an observer that had disposed it

---
 aioreactive/create.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 4afd976..c51a8ed 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -218,6 +218,9 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
                 await aobv.athrow(ex)
                 return None
 
+            if token.is_cancellation_requested:
+                return None
+
             if not period:
                 await aobv.aclose()
                 return None
-- 
2.43.0


From 8db9a2a7e2d4416a9812f15d425b80d1331afdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:29 +0000
Subject: [PATCH 26/34] fix: from_async_iterable kept sending to an observer
 that had disposed it

---
 aioreactive/create.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index c51a8ed..0456acd 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -80,7 +80,12 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
     tasks: set[Task[Any]] = set()
 
     async def subscribe_async(observer: AsyncObserver[TSource]) -> AsyncDisposable:
+        is_disposed = False
+
         async def cancel() -> None:
+            nonlocal is_disposed
+            is_disposed = True
+
             if task:
                 task.cancel()
 
@@ -90,7 +95,11 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
             try:
                 async for value in iterable:
                     await observer.asend(value)
+                    if is_disposed:  # By the observer, i.e. from within this task
+                        return
             except Exception as ex:
+                if is_disposed:
+                    raise
                 await observer.athrow(ex)
                 return
 
-- 
2.43.0


From b9469032f8f61b201704483e7d8e079f3f124b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:25 +0000
Subject: [PATCH 27/34] fix: scan kept its source when the error callback
 raised

---
 aioreactive/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 68fe06b..80c34fd 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -502,8 +502,10 @@ def _scan(
                     intermediate = await accumulator(current, value)
                 except Exception as ex:
                     is_stopped = True
-                    await observer.athrow(ex)
-                    await disposable.dispose_async()
+                    try:
+                        await observer.athrow(ex)
+                    finally:
+                        await disposable.dispose_async()
                 else:
                     current = intermediate
 
-- 
2.43.0


From 8ef243c92714323dde8d16dc9824c7df8c152600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:26 +0000
Subject: [PATCH 28/34] fix: iterating a source that ends while being
 subscribed hung

---
 aioreactive/observers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 793fbb0..99652b2 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, iscoroutinefunction
+from asyncio import Future, Task, current_task, iscoroutinefunction
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -28,6 +28,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._pending: list[tuple[Notification[_TSource], Future[bool]]] = []
         self._waiter: Future[bool] | None = None
         self._subscription: AsyncDisposable | None = None
+        self._subscriber: Task[Any] | None = None
         self._source = source
         self._is_stopped = False
 
@@ -54,11 +55,18 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         if self._waiter is not None and not self._waiter.done():
             self._waiter.set_result(True)
 
+        if self._subscriber is not None and self._subscriber is current_task():
+            return  # Sent by the source while we are subscribing to it, so nobody can pull yet.
+
         await pull
 
     async def wait_for_push(self) -> _TSource:
         if self._subscription is None:
-            self._subscription = await self._source.subscribe_async(self)
+            self._subscriber = current_task()
+            try:
+                self._subscription = await self._source.subscribe_async(self)
+            finally:
+                self._subscriber = None
 
         while not self._pending:
             self._waiter = Future()
-- 
2.43.0


From 744eb86373e47b25ffce26ffd0d413f20d1828f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:16 +0000
Subject: [PATCH 29/34] fix: distinct_until_changed went silent when comparing
 two values raised

---
 aioreactive/filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 2034b5c..2c5b136 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -141,11 +141,11 @@ def distinct_until_changed(
                 async def get_latest() -> Notification[_TSource]:
                     match n:
                         case OnNext(value=x):
-                            if n != latest:
-                                try:
+                            try:
+                                if n != latest:
                                     await safe_obv.asend(x)
-                                except Exception as ex:
-                                    await safe_obv.athrow(ex)
+                            except Exception as ex:
+                                await safe_obv.athrow(ex)
                         case OnError(exception=err):
                             await safe_obv.athrow(err)
 
-- 
2.43.0


From 28ab91bf371eb20c97c7f5345814159a5b85531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:44 +0000
Subject: [PATCH 30/34] fix: subjects told subscriptions apart by comparing
 their observers

An observer that equals another one, or that is subscribed twice, took the
place of the other when one of the subscriptions was disposed: the wrong one
was removed, and an observer whose subscription was already disposed was
still notified because an equal one was left. Key the observers by
subscription instead.
---
 aioreactive/subject.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index f6998d8..3612173 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -114,7 +114,8 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
 
     def __init__(self) -> None:
         super().__init__()
-        self._observers: list[AsyncObserver[_TSource]] = []
+        # Keyed by subscription, since observers may be equal to each other.
+        self._observers: dict[object, AsyncObserver[_TSource]] = {}
         self._is_disposed = False
         self._is_stopped = False
 
@@ -128,8 +129,8 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         if self._is_stopped:
             return
 
-        for obv in list(self._observers):
-            if obv in self._observers:  # May be disposed by now
+        for key, obv in list(self._observers.items()):
+            if key in self._observers:  # May be disposed by now
                 await obv.asend(value)
 
     async def athrow(self, error: Exception) -> None:
@@ -139,8 +140,8 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
             return
         self._is_stopped = True
 
-        for obv in list(self._observers):
-            if obv in self._observers:  # May be disposed by now
+        for key, obv in list(self._observers.items()):
+            if key in self._observers:  # May be disposed by now
                 await obv.athrow(error)
 
     async def aclose(self) -> None:
@@ -150,8 +151,8 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
             return
         self._is_stopped = True
 
-        for obv in list(self._observers):
-            if obv in self._observers:  # May be disposed by now
+        for key, obv in list(self._observers.items()):
+            if key in self._observers:  # May be disposed by now
                 await obv.aclose()
 
     async def subscribe_async(
@@ -165,12 +166,12 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         self.check_disposed()
 
         observer = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
-        self._observers.append(observer)
+        key = object()
+        self._observers[key] = observer
 
         async def dispose() -> None:
             log.debug("AsyncMultiStream:dispose()")
-            if observer in self._observers:
-                self._observers.remove(observer)
+            self._observers.pop(key, None)
 
         return AsyncDisposable.create(dispose)
 
-- 
2.43.0


From 49c1bdf9def5ece48164d23f649d0f9d131bdc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:16 +0000
Subject: [PATCH 31/34] fix: an iterator disposed while its first step was
 subscribing stayed subscribed

dispose_async had no subscription to dispose yet and the one that came
later was kept. Dispose it when it arrives, and do not hold producers
that still send to a disposed iterator.
---
 aioreactive/observers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 99652b2..49b1ffd 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -31,6 +31,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._subscriber: Task[Any] | None = None
         self._source = source
         self._is_stopped = False
+        self._is_disposed = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
@@ -46,7 +47,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         await self._wait_for_pull(OnCompleted())
 
     async def _wait_for_pull(self, event: Notification[_TSource]) -> None:
-        if self._is_stopped:
+        if self._is_stopped or self._is_disposed:
             return
         self._is_stopped = event.kind != MsgKind.ON_NEXT
 
@@ -62,12 +63,18 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
 
     async def wait_for_push(self) -> _TSource:
         if self._subscription is None:
+            self._is_disposed = False
             self._subscriber = current_task()
             try:
-                self._subscription = await self._source.subscribe_async(self)
+                subscription = await self._source.subscribe_async(self)
             finally:
                 self._subscriber = None
 
+            if self._is_disposed:  # By now, but it had nothing to unsubscribe
+                await subscription.dispose_async()
+            else:
+                self._subscription = subscription
+
         while not self._pending:
             self._waiter = Future()
             await self._waiter
@@ -87,6 +94,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
                 raise StopAsyncIteration
 
     async def dispose_async(self) -> None:
+        self._is_disposed = True
         if self._subscription is not None:
             await self._subscription.dispose_async()
         self._subscription = None
-- 
2.43.0


From 514c2a5e7b91f918120728aab7a972624ab81855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:16 +0000
Subject: [PATCH 32/34] fix: an inner sequence that could not be subscribed
 silenced merge_inner and switch_latest

The exception ended the worker, so the observer never heard of it nor of
anything else, and the other sequences stayed subscribed. Report it as
the error it is.
---
 aioreactive/combine.py   | 11 +++++++++--
 aioreactive/transform.py |  7 +++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index fc8368e..6631083 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -78,12 +78,19 @@ def merge_inner(
 
                     return AsyncAnonymousObserver(asend, athrow, aclose)
 
+                async def subscribe_inner(xs: AsyncObservable[_TSource], key: Key) -> AsyncDisposable:
+                    try:
+                        return await xs.subscribe_async(obv(key))
+                    except Exception as ex:
+                        await safe_obv.athrow(ex)
+                        return AsyncDisposable.empty()
+
                 async def update(msg: Msg[_TSource], model: Model[_TSource]) -> Model[_TSource]:
                     # log.debug("update: %s, model: %s", msg, model)
                     match msg:
                         case Msg(tag="inner_observable", inner_observable=xs):
                             if max_concurrent == 0 or len(model.subscriptions) < max_concurrent:
-                                inner = await xs.subscribe_async(obv(model.key))
+                                inner = await subscribe_inner(xs, model.key)
                                 return model.replace(
                                     subscriptions=model.subscriptions.add(model.key, inner),
                                     key=Key(model.key + 1),
@@ -94,7 +101,7 @@ def merge_inner(
                             subscriptions = model.subscriptions.remove(key)
                             if len(model.queue):
                                 xs = model.queue[0]
-                                inner = await xs.subscribe_async(obv(model.key))
+                                inner = await subscribe_inner(xs, model.key)
 
                                 return model.replace(
                                     subscriptions=subscriptions.add(model.key, inner),
diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 80c34fd..215a642 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -295,8 +295,11 @@ def switch_latest(
                         next_id = latest_id = current_id + 1
                         for disp in current.to_list():
                             await disp.dispose_async()
-                        inner = await xs.subscribe_async(obv(inbox, next_id))
-                        current, current_id = Some(inner), next_id
+                        current, current_id = Nothing, next_id
+                        try:
+                            current = Some(await xs.subscribe_async(obv(inbox, next_id)))
+                        except Exception as ex:
+                            await safe_obv.athrow(ex)
 
                     case Msg(tag="inner_completed", inner_completed=idx):
                         if idx == current_id:
-- 
2.43.0


From 15d32e3ffac268a35e04db55edb349b7ef464e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:16 +0000
Subject: [PATCH 33/34] fix: sources stayed subscribed when a later one could
 not be subscribed

combine_latest, with_latest_from and take_until raised but nobody got to
dispose the sources subscribed before.
---
 aioreactive/observers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 49b1ffd..b4b5e0e 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -273,7 +273,14 @@ def auto_detach_observer(
 
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
-        disposable = await async_disposable
+        try:
+            disposable = await async_disposable
+        except Exception:
+            # Nobody gets to dispose what was subscribed before.
+            cts.cancel()
+            await cancel()
+            raise
+
         if is_detached:
             # The observer closed while we were subscribing.
             await disposable.dispose_async()
-- 
2.43.0


From 8a87164aeeaaa1590d434ee6acd0ff577e0aa08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:16 +0000
Subject: [PATCH 34/34] fix: to_observable lost the error of a source that
 could not be subscribed

---
 aioreactive/leave.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index 8e1fb87..450c929 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -48,7 +48,10 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
             async def aclose() -> None:
                 obv.on_completed()
 
-            subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
+            try:
+                subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
+            except Exception as ex:
+                obv.on_error(ex)
 
         async def stop() -> None:
             # The subscription might not be established yet
-- 
2.43.0

