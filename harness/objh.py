"""Runs behaviours of spec/{Subject,Single,Iter,Run,VLoop,TestUtil,Bridge,Note,Args} on the real objects; traces for spec/ObjTrace."""
import asyncio
import contextvars
import random
import traceback

import rxh
from rxh import REPO, Hang, World, guarded, rx  # noqa: F401
import aioreactive.notification
from aioreactive import AsyncObservable, AsyncObserver, filtering
from aioreactive.leave import to_observable
from aioreactive.observers import AsyncAnonymousObserver, AsyncAwaitableObserver
from aioreactive.subject import AsyncMultiSubject, AsyncSingleSubject
from aioreactive.testing import AsyncTestObserver, AsyncTestSingleSubject, AsyncTestSubject, VirtualTimeEventLoop
from expression import pipe
from expression.system import AsyncDisposable, ObjectDisposedException
from loop import Spin, StepLoop, install_clock, use

install_clock()
PUSH = contextvars.ContextVar("push", default=0)  # which push we are in (a hint where values do not tell)


def code(w, ex):
    if ex is None:
        return 0
    if isinstance(ex, asyncio.CancelledError):
        return 96
    i = w.eids.get(id(ex))
    if i is not None:
        return i
    return 97 if isinstance(ex, ObjectDisposedException) else 98


async def undo(disposable):
    """Dispose: 0, or 98 when it raised."""
    try:
        await disposable.dispose_async()
    except Exception:
        return 98
    return 0


class Drive:
    """Common part: loop, schedule, log."""

    def __init__(self, sc, kind):
        self.sc, self.kind = sc, kind
        self.w = World(sc)
        self.loop = self.w.loop = StepLoop()
        self.rng = self.w.rng
        self.np = 0
        self.pushes = {}

    over = False

    def log(self, e, **kw):
        if not self.over:
            self.w.log(1, e, **kw)

    def payload(self, k, p):
        w = self.w
        if k == "n":
            return w.pal[p], w.enc(w.pal[p])
        if k == "e":
            return w.exc[20 + p], w.encerr(w.exc[20 + p])
        return None, ()

    async def push(self, target, k, p=None):
        """Push number p of kind k into target, recorded."""
        self.np += 1
        p = self.np
        val, enc = self.payload(k, p)
        self.pushes[p] = (k, tuple(enc))
        self.log("in", h=p, k=k, v=enc)
        x = None
        back = PUSH.set(p)
        try:
            if k == "n":
                await target.asend(val)
            elif k == "e":
                await target.athrow(val)
            else:
                await target.aclose()
        except (Exception, asyncio.CancelledError) as ex:
            x = ex
        PUSH.reset(back)
        self.log("ir", h=p, x=code(self.w, x))
        return x

    def idle(self):
        nt = self.loop.next_timer()
        if self.w.busy == 0 and (nt is None or nt > self.loop.now + 2e-5):
            self.log("id")

    def settle(self):
        self.loop.settle()
        self.idle()

    def gap(self):
        s = self.sc.get("sched", {"mode": "settle"})
        m = s["mode"]
        if m == "settle":
            self.settle()
        elif m == "k":
            for _ in range(s["k"]):
                self.loop.step()
        elif m == "rand":
            for _ in range(self.rng.choice(s.get("gaps", [0, 0, 1, 2, 3, 5, 8, 13, 40]))):
                self.loop.step()

    def advance(self, ms=None):
        end = None if ms is None else self.loop.now + ms / 1000
        n = 0
        while True:
            self.settle()
            nt = self.loop.next_timer()
            n += 1
            if nt is None or (end is not None and nt > end + 2e-5) or n > 2000:
                break
            self.loop.fire(nt)
        if end is not None:
            self.loop.fire(end)
            self.settle()

    def main(self):
        raise NotImplementedError

    def go(self):
        use(self.loop)
        extra = []
        with self.loop:
            try:
                self.main()
            except (Spin, Hang, MemoryError):
                self.log("bad", k="hang")
            except Exception as ex:
                self.log("bad", k="crash")
                extra.append("".join(traceback.format_exception(ex))[-1500:])
            self.over = True
        use(None)
        return [dict(kind=self.kind, ev=self.w.logs.get(1, []), j=1)], extra


# ------------------------------------------------------------------ subjects
class GateObs(AsyncObserver):
    def __init__(self, d, o, spec):
        self.d, self.o, self.spec, self.n = d, o, spec, 0

    def whose(self, p):
        return self.o

    async def _handle(self, k, enc):
        d, sp = self.d, self.spec
        self.n += 1
        n = self.n
        p = PUSH.get()
        o = self.whose(p)
        d.log("ob", h=o, k=k, v=enc, x=p)
        x = 0
        try:
            if sp.get("at") == n:
                await d.react(o, sp["do"])
            if sp.get("gate"):
                f = d.loop.create_future()
                d.gates.setdefault((o, k, tuple(enc)), []).append(f)
                await f
            elif sp.get("slow"):
                await d.w.pause(sp["slow"][n % len(sp["slow"])])
            if sp.get("raise_at") == n:
                x = 90
                raise d.w.exc[90]
        except asyncio.CancelledError:
            x = 96
            raise
        finally:
            d.log("oe", h=o, k=k, v=[*enc, p], x=x)

    async def asend(self, value):
        await self._handle("n", self.d.w.enc(value))

    async def athrow(self, error):
        await self._handle("e", self.d.w.encerr(error))

    async def aclose(self):
        await self._handle("c", ())


class AlikeObs(GateObs):
    """Equal to every other observer of its kind."""

    def __eq__(self, o):
        return isinstance(o, AlikeObs)

    def __hash__(self):
        return 7


class SharedObs(GateObs):
    """One observer for all subscriptions: the calls of a push belong to them in their order."""

    def __init__(self, d, spec):
        super().__init__(d, 0, spec)
        self.live, self.told = [], set()

    def whose(self, p):
        for o in self.live:
            if (p, o) not in self.told:
                self.told.add((p, o))
                return o
        return self.o  # nobody was left


class SubjectRun(Drive):
    def __init__(self, sc):
        super().__init__(sc, sc["kind"])
        self.subs, self.gates, self.tasks, self.reserve, self.shared = {}, {}, {}, 50, None

    def make(self):
        c = self.sc.get("cls", 0)
        if self.kind == "single":
            return AsyncTestSingleSubject() if c else AsyncSingleSubject()
        if c == 2:
            return rx.AsyncSubject()
        return AsyncTestSubject() if c else AsyncMultiSubject()

    async def subscribe(self, s):
        spec = (self.sc.get("obs") or [{}])
        who = self.sc.get("who")
        if who == "shared":
            o = self.shared = self.shared or SharedObs(self, spec[0])
            o.live.append(s)
            o.o = s
        else:
            o = (AlikeObs if who == "alike" else GateObs)(self, s, spec[(s - 1) % len(spec)])
        self.log("sb", h=s)
        try:
            if self.sc.get("how") == "fns":
                sub = await self.subject.subscribe_async(o.asend, o.athrow, o.aclose)
            else:
                sub = await self.subject.subscribe_async(o)
        except Exception as ex:
            if who == "shared":
                o.live.remove(s)
            self.log("sx", h=s, x=code(self.w, ex))
            return
        self.subs[s] = sub
        self.log("se", h=s)

    async def unsubscribe(self, s):
        sub = self.subs.get(s)
        if sub is None:
            return
        self.log("ub", h=s)
        if self.shared and s in self.shared.live:
            self.shared.live.remove(s)
        self.log("su", h=s, x=await undo(sub))

    async def dispose(self):
        self.log("db")
        self.log("de", x=await undo(self.subject))

    async def react(self, o, do):
        if do == "self":
            await self.unsubscribe(o)
        elif do == "other":
            for s in sorted(self.subs):
                if s != o:
                    await self.unsubscribe(s)
                    break
        elif do == "others":
            for s in sorted(self.subs, reverse=True):
                if s != o:
                    await self.unsubscribe(s)
        elif do == "sub":
            self.reserve += 1
            await self.subscribe(self.reserve)
        elif do == "push":
            await self.push(self.subject, "n")
        elif do == "close":
            await self.push(self.subject, "c")
        elif do == "ds":
            await self.dispose()

    def act(self, a):
        L = self.loop
        if a[0] == "sub":
            L.front(self.subscribe(a[1]))
        elif a[0] == "uns":
            L.front(self.unsubscribe(a[1]))
        elif a[0] == "push":
            n = self.np + 1
            self.tasks[n] = L.front(self.push(self.subject, a[1]))
        elif a[0] == "go":
            key = (a[1],) + self.pushes.get(a[2], ("", ()))
            for f in self.gates.pop(key, []):
                if not f.done():
                    f.set_result(None)
        elif a[0] == "cancel":
            t = self.tasks.get(a[1])
            if t is not None and not t.done():
                self.log("cx", h=a[1])
                t.cancel()
        elif a[0] == "ds":
            L.front(self.dispose())

    def main(self):
        self.subject = self.make()
        for a in self.sc["script"]:
            self.act(a)
            self.gap()
        self.settle()
        for _ in range(60):
            if not self.gates:
                break
            for key in sorted(self.gates, key=repr):
                for f in self.gates.pop(key):
                    if not f.done():
                        f.set_result(None)
                self.settle()
        self.advance()


def run_subject(sc):
    return SubjectRun(sc).go()


# ------------------------------------------------------------------ a source with recorded subscriptions
class Source(AsyncObservable):
    def __init__(self, d):
        self.d, self.obv, self.n, self.closed = d, None, 0, False

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
        d = self.d
        self.n += 1
        h = self.n
        d.log("ss", h=h)
        self.obv, self.closed = obv, False
        for k in d.sc.get("emit", []):
            await d.push(obv, k)
        await d.w.pause(d.sc.get("subpause"))

        async def dispose():
            if self.n == h:
                self.closed = True
            d.log("su", h=h)
            await d.w.pause(d.sc.get("unsubpause"))
        return AsyncDisposable.create(dispose)


# ------------------------------------------------------------------ iterator
class IterRun(Drive):
    def main(self):
        sc, L = self.sc, self.loop
        src = Source(self)
        if sc.get("via") == "method":
            self.it = rx.AsyncRx(src).to_async_iterable().__aiter__()
        elif sc.get("via") == "fn":
            self.it = rx.to_async_iterable(src).__aiter__()
        else:
            from aioreactive.observers import AsyncIteratorObserver
            self.it = AsyncIteratorObserver(src)
        it, self.n = self.it, 0
        step = None

        async def nxt(h):
            self.log("ab", h=h)
            try:
                val = await it.__anext__()
            except StopAsyncIteration:
                self.log("ar", h=h, k="c")
            except asyncio.CancelledError:
                self.log("ar", h=h, k="x")
            except Exception as ex:
                self.log("ar", h=h, k="e", v=self.w.encerr(ex))
            else:
                self.log("ar", h=h, k="n", v=self.w.enc(val))

        async def dispose():
            self.log("db")
            self.log("de", x=await undo(it))

        def begin():
            self.n += 1
            return L.front(nxt(self.n))

        disposed = False
        for a in sc["script"]:
            if a[0] == "next":
                if (step is None or step.done()) and not disposed:
                    step = begin()
            elif a[0] == "push":
                if src.obv is not None and not src.closed:
                    L.front(self.push(src.obv, a[1]))
            elif a[0] == "cancel":
                if step is not None and not step.done() and src.obv is not None:
                    self.log("cx", h=self.n)
                    step.cancel()
            elif a[0] == "ds":
                disposed = True
                L.front(dispose())
            self.gap()
        self.advance()
        if not disposed:
            # iterate on: whatever is still held must come out, and the end must come again
            for _ in range(sc.get("more", 3)):
                if step is None or step.done():
                    step = begin()
                    self.advance()
            if step.done():
                L.front(dispose())
                self.advance()


def run_iter(sc):
    return IterRun(sc, "iter").go()


# ------------------------------------------------------------------ run and await
class RunRun(Drive):
    def observer(self):
        d, sc = self, self.sc
        slow = sc.get("slow")

        async def cb(k, enc):
            d.cbn += 1
            n = d.cbn
            d.log("cb", k=k, v=enc)
            x = 0
            try:
                if slow:
                    await d.w.pause(slow[n % len(slow)])
                if sc.get("raise_at") == n:
                    x = 90
                    raise d.w.exc[90]
            finally:
                d.log("ce", k=k, v=enc, x=x)

        async def asend(v):
            await cb("n", d.w.enc(v))

        async def athrow(e):
            await cb("e", d.w.encerr(e))

        async def aclose():
            await cb("c", ())

        cls = AsyncTestObserver if self.kind == "rec" else AsyncAwaitableObserver
        fns = (asend, athrow, aclose)
        if sc.get("kw"):
            return cls(asend=asend, athrow=athrow, aclose=aclose)
        return cls(*fns)

    def main(self):
        sc, L = self.sc, self.loop
        self.cbn = 0
        mode = sc["cfg"]
        src = Source(self)
        obv = self.observer()
        limit = sc.get("limit", 2000)
        unit = limit // 2 or 500
        task = None

        async def waiter():
            self.log("rb", k=mode, x=limit if mode == "run" else 0)
            try:
                if mode == "await":
                    val = await obv
                elif limit == 2000 and sc.get("default"):
                    val = await rx.run(src, obv)
                elif sc.get("kw"):
                    val = await rx.run(src, observer=obv, timeout=limit / 1000)
                else:
                    val = await rx.run(src, obv, limit / 1000)
            except asyncio.CancelledError:
                self.log("rr", k="x")
            except TimeoutError as ex:
                if id(ex) in self.w.eids:
                    self.log("rr", k="e", v=self.w.encerr(ex))
                else:
                    self.log("rr", k="t")
            except Exception as ex:
                self.log("rr", k="e", v=self.w.encerr(ex))
            else:
                self.log("rr", k="n", v=self.w.enc(val))

        for a in sc["script"]:
            if a[0] == "begin":
                task = L.front(waiter())
            elif a[0] == "push":
                if mode == "await" or self.kind == "rec":
                    L.front(self.push(obv, a[1]))
                elif src.obv is not None and (not src.closed or sc.get("leaky")):
                    L.front(self.push(src.obv, a[1]))
            elif a[0] == "w":
                self.advance(unit)
                continue
            elif a[0] == "cancel":
                if task is not None and not task.done():
                    self.log("cx")
                    task.cancel()
            elif a[0] == "dp":
                if self.kind != "rec":
                    self.log("dp")
                    obv.dispose()
            self.gap()
        self.advance()
        if self.kind == "rec":
            kinds = {"OnNext": "n", "OnError": "e", "OnCompleted": "c"}
            for t, nt in list(obv.values):
                k = kinds.get(type(nt).__name__, "?")
                v = self.w.enc(nt.value) if k == "n" else self.w.encerr(nt.exception) if k == "e" else ()
                self.log("rv", k=k, v=v, x=round(t * 1000))
            self.log("rd")
        if obv.done() and not obv.cancelled():
            obv.exception()


def run_run(sc):
    return RunRun(sc, "run").go()


def run_rec(sc):
    return RunRun(sc, "rec").go()


# ------------------------------------------------------------------ virtual-time loop
def run_vloop(sc):
    import sys
    rng = random.Random(sc.get("seed", 0))
    ev = []
    loop = VirtualTimeEventLoop()
    loop.set_debug(bool(sc.get("debug")))
    loop.set_exception_handler(lambda *a: None)
    unit = sc.get("unit", 1.0)
    script = list(sc["script"])
    handles, fresh = {}, [100]
    raising = set(sc.get("raising", []))
    extra = []

    def us(t):
        return round(t * 1_000_000)

    def log(e, h=0, x=0):
        ev.append(dict(e=e, h=h, k="", v=[], x=x, t=us(loop.time())))

    class Oops(Exception):
        pass

    def make(h):
        def cb():
            log("cb", h)
            chunk()
            if h in raising:
                raise Oops()
        return cb

    def soon(h):
        log("sn", h)
        if h % 3 == 0 and sc.get("threadsafe"):
            handles[h] = loop.call_soon_threadsafe(make(h))
        else:
            handles[h] = loop.call_soon(make(h))

    def later(h, d):
        log("la", h, us(d))
        handles[h] = loop.call_later(d, make(h))

    def at(h, t):
        log("at", h, us(t))
        handles[h] = loop.call_at(t, make(h))

    def cancel(h):
        if h in handles:
            log("ca", h)
            handles[h].cancel()

    def bulk(n, frac):
        hs = []
        for _ in range(n):
            fresh[0] += 1
            if rng.random() < 0.5:
                later(fresh[0], rng.randint(0, 40) / 10)
            else:
                at(fresh[0], loop.time() + rng.randint(-3, 30) / 10)
            hs.append(fresh[0])
        for h in hs:
            if rng.random() < frac:
                cancel(h)

    state = dict(n=0)

    def chunk():
        while script:
            state["n"] += 1
            if state["n"] in sc.get("bulk", {}):
                bulk(*sc["bulk"][state["n"]])
            if state["n"] == sc.get("stop"):
                loop.stop()
            a = script.pop(0)
            if a[0] == "r":
                return
            if a[0] == "soon":
                soon(a[1])
            elif a[0] == "later":
                later(a[1], a[2] * unit)
            elif a[0] == "at":
                at(a[1], a[2] * unit)
            elif a[0] == "cancel":
                cancel(a[1])

    done = []

    def finish():
        done.append(1)
        loop.stop()

    try:
        asyncio.set_event_loop(loop)
        chunk()
        loop.call_at(sc.get("far", 1e6), finish)
        n = 0
        while not done and n < 5:
            n += 1
            loop.run_forever()
        log("id")
    except (Hang, MemoryError):
        log("bad")
        ev[-1]["k"] = "hang"
    except Exception as ex:
        log("bad")
        ev[-1]["k"] = "crash"
        extra.append("".join(traceback.format_exception(ex))[-1500:])
    finally:
        asyncio.set_event_loop(None)
        try:
            loop.close()
        except Exception:
            pass
    return [dict(kind="vloop", ev=ev, j=1)], extra


# ------------------------------------------------------------------ test subjects
class SchedRun(Drive):
    def main(self):
        sc, L = self.sc, self.loop
        subj = AsyncTestSingleSubject() if sc.get("cls") else AsyncTestSubject()
        unit = sc.get("unit", 100)
        d = self

        class Rec(AsyncObserver):
            async def asend(self, value):
                d.log("ob", k="n", v=d.w.enc(value))

            async def athrow(self, error):
                d.log("ob", k="e", v=d.w.encerr(error))

            async def aclose(self):
                d.log("ob", k="c")

        async def sub():
            await subj.subscribe_async(Rec())

        async def call(how, k, dt):
            d.np += 1
            p = d.np
            val, enc = d.payload(k, p)
            now = L.now
            due = max(dt * unit, L.ms()) if how == "at" else L.ms() + (dt * unit if how != "now" else 0)
            d.log("sc", h=p, k=k, v=enc, x=due)
            sec = dt * unit / 1000
            name = {"n": "asend", "e": "athrow", "c": "aclose"}[k]
            args = () if k == "c" else (val,)
            try:
                if how == "now":
                    await getattr(subj, name)(*args)
                elif how == "at":
                    await getattr(subj, name + "_at")(sec, *args)
                elif how == "later":
                    await getattr(subj, name + "_later")(sec, *args)
                else:
                    nm = "close_later_scheduled" if k == "c" else name + "_later_scheduled"
                    await getattr(subj, nm)(sec, *args)
            except Exception as ex:
                d.log("sx", h=p, x=code(d.w, ex))

        L.front(sub())
        self.settle()
        for a in sc["script"]:
            if a[0] == "w":
                self.advance(unit)
                continue
            L.front(call(*a))
            self.gap()
        self.advance()


def run_sched(sc):
    return SchedRun(sc, "sched").go()


# ------------------------------------------------------------------ bridge
class BridgeRun(Drive):
    def main(self):

        sc, L = self.sc, self.loop
        src = Source(self)
        ys = to_observable(src)
        sub = [None]

        def on_next(v):
            self.log("ob", k="n", v=self.w.enc(v))
            if sc.get("dispose_at") == len([e for e in self.w.logs[1] if e["e"] == "ob"]):
                dispose()

        def on_error(e):
            self.log("ob", k="e", v=self.w.encerr(e))

        def on_completed():
            self.log("ob", k="c")

        def dispose():
            if sub[0] is not None:
                self.log("db")
                x = 0
                try:
                    sub[0].dispose()
                except Exception:
                    x = 98
                self.log("de", x=x)

        async def run(fn):
            fn()

        def subscribe():
            self.log("sb")
            sub[0] = ys.subscribe(on_next, on_error, on_completed)

        for a in sc["script"]:
            if a[0] == "sub":
                L.front(run(subscribe))
            elif a[0] == "push":
                if src.obv is not None and not src.closed:
                    L.front(self.push(src.obv, a[1]))
            elif a[0] == "ds":
                L.front(run(dispose))
            elif a[0] == "est":
                if sc.get("est", True):
                    self.advance(sc.get("estms", 0))
                    continue
            self.gap()
        self.advance()
        if sub[0] is not None:
            L.front(run(dispose))
            self.advance()


def run_bridge(sc):
    return BridgeRun(sc, "bridge").go()


# ------------------------------------------------------------- notifications
class Unlike:
    """Equal to nothing else that is not of its class; equal within it."""

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Unlike) and o.c == self.c

    __hash__ = None


class UnlikeError(Exception):
    def __init__(self, c):
        super().__init__()
        self.c = c

    def __eq__(self, o):
        return isinstance(o, UnlikeError) and o.c == self.c

    __hash__ = Exception.__hash__


class NoteRun(Drive):
    def content(self, k, c):
        if k == "e":
            return UnlikeError(c)
        kind = self.sc.get("content", 0)
        if kind == 0:
            return Unlike(c)
        if kind == 1:
            return [[c]] if c == 1 else {}
        if kind == 2:
            return self.rng.choice([0, 0.0, False] if c == 1 else [1, 1.0, True])
        if kind == 3:
            return UnlikeError(c)
        if kind == 4:
            return None if c == 1 else (lambda n: n)(())
        return self.note("n" if c == 1 else "c", Unlike(3))

    def note(self, k, x):
        N = aioreactive.notification
        return N.OnNext(x) if k == "n" else N.OnError(x) if k == "e" else N.OnCompleted()

    def main(self):
        sc, L = self.sc, self.loop
        N = aioreactive.notification
        notes, conts, kinds = {}, {}, {}
        gates = {}
        self.na = 0

        def which(n, x):
            """The notification this content is of, n if it may be that."""
            if kinds[n] == "c":
                return n if x is None else 0
            return n if x is conts[n] else 0

        def look(n):
            note = notes[n]
            match note:
                case N.OnNext(value=v):
                    k, x = "n", v
                case N.OnError(exception=v):
                    k, x = "e", v
                case N.OnCompleted():
                    k, x = "c", None
                case _:
                    k, x = "?", None
            self.log("pm", h=n, k=k, v=(which(n, x),))
            match note:
                case N.OnNext(v):
                    x = v
                case N.OnError(v):
                    x = v
            k = {N.MsgKind.ON_NEXT: "n", N.MsgKind.ON_ERROR: "e", N.MsgKind.ON_COMPLETED: "c"}.get(note.kind, "?")
            self.log("pm", h=n, k=k, v=(which(n, x),))

        async def accept(a, n, via):
            async def called(k, x=None):
                self.log("cb", h=a, k=k, v=(which(n, x),))
                err = None
                if sc.get("gate"):
                    gates[a] = f = L.create_future()
                    await f
                elif sc.get("slow"):
                    await self.w.pause(sc["slow"][a % len(sc["slow"])])
                if sc.get("raise_at") == a:
                    err = self.w.exc[90]
                self.log("ce", h=a, x=code(self.w, err))
                if err is not None:
                    raise err

            async def asend(v):
                await called("n", v)

            async def athrow(e):
                await called("e", e)

            async def aclose():
                await called("c")

            self.log("ab", h=a, x=n)
            err = None
            try:
                if via == "fns":
                    await notes[n].accept(asend, athrow, aclose)
                else:
                    obv = AsyncAwaitableObserver if sc.get("waited") else rx.AsyncAnonymousObserver
                    await notes[n].accept_observer(obv(asend, athrow, aclose))
            except Exception as ex:
                err = ex
            self.log("ar", h=a, x=code(self.w, err))

        for a in sc["script"]:
            if a[0] == "make":
                n = len(notes) + 1
                kinds[n], conts[n] = a[1], self.content(a[1], a[2])
                notes[n] = self.note(a[1], conts[n])
                self.log("mk", h=n, k=a[1], x=a[2] if a[1] != "c" else 0)
                look(n)
            elif a[0] == "accept":
                self.na += 1
                L.front(accept(self.na, a[1], a[2]))
            elif a[0] == "go":
                f = gates.pop(a[1], None)
                if f is not None:
                    f.set_result(None)
            elif a[0] == "eq":
                self.equal(a[1], notes[a[1]], a[2], notes[a[2]])
                self.equal(a[1], notes[a[1]], 0, self.rng.choice([None, 1, conts[a[1]], "OnCompleted", object()]))
            self.gap()
        self.settle()
        for f in list(gates.values()):
            f.set_result(None)
        self.advance()
        for n in notes:
            look(n)

    def equal(self, i, a, j, b):
        if j == 0 and isinstance(b, aioreactive.notification.Notification):
            return
        x, y = bool(a == b), bool(a != b)
        self.log("eq", v=(i, j), x=2 if x == y else int(x))


def run_note(sc):
    return NoteRun(sc, "note").go()


class ArgsRun(Drive):
    def main(self):
        sc = self.sc
        op, n = sc["script"][0]

        async def go():
            async def asend(v):
                pass
            try:
                xs = rx.from_iterable(range(5))
                if op == "take":
                    ys = rx.AsyncRx(xs).take(n) if sc["chain"] else pipe(xs, rx.take(n))
                elif sc["chain"]:
                    ys = rx.AsyncRx(xs)[::n]
                else:
                    ys = pipe(xs, filtering.slice(step=n) if sc["seed"] % 2 else filtering.slice(None, None, n))
                sub = await ys.subscribe_async(asend)
                await sub.dispose_async()
            except Exception:
                self.log("ag", k=op, h=n, x=1)
            else:
                self.log("ag", k=op, h=n, x=0)
        self.loop.front(go())
        self.advance()


def run_args(sc):
    return ArgsRun(sc, "args").go()


# ------------------------------------------------------------------ sequences that cannot be subscribed
class FSource(AsyncObservable):
    """Source h; a bad one fails to be subscribed once its gate is opened."""

    def __init__(self, d, h, bad=False):
        self.d, self.h, self.bad, self.obv, self.ended = d, h, bad, None, False

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
        d = self.d
        d.log("ss", h=self.h)
        if self.bad:
            if d.sc.get("first"):
                await obv.asend(1)
            if d.sc.get("gate", True) and not d.loose:
                d.gates[self.h] = f = d.loop.create_future()
                d.w.busy += 1
                await f
                d.w.busy -= 1
            await d.w.pause(d.sc.get("subpause"))
            ex = d.w.exc[20 + self.h]
            newer = d.sc["cfg"] == "switch" and len(d.inner) > self.h
            d.log("sf", h=self.h, x=code(d.w, ex), v=[int(d.sc["cfg"] in STRICT), int(newer)])
            raise ex
        self.obv, self.ended = obv, False
        await d.w.pause(d.sc.get("subpause"))

        async def dispose():
            self.ended = True
            d.log("su", h=self.h)
            await d.w.pause(d.sc.get("unsubpause"))
        return AsyncDisposable.create(dispose)

    async def push(self, k, val=None):
        if self.obv is None or self.ended:
            return
        self.ended = k != "n"
        self.d.log("in", h=self.h, k=k)
        await (self.obv.asend(val) if k == "n" else self.obv.aclose())


STRICT = {"merge", "bound1", "bound2", "switch", "mergeP", "concatP"}


class FailRun(Drive):
    loose = False

    def idle(self):
        nt = self.loop.next_timer()
        if self.w.busy == 0 and (nt is None or nt > self.loop.now + 100):  # only the timeout of run is as far away
            self.log("id")

    def stages(self, xs):
        """Operators behind (or, for one source, around) the interesting ones."""
        def add(a, b):
            return (a, b)

        async def aid(v):
            return v

        async def atrue(v):
            return True
        table = [rx.map(lambda v: v), rx.filter(lambda v: True), rx.take(50), rx.skip(0), rx.take_last(50), rx.skip_last(0),
                 rx.scan(add, 0), rx.reduce(add, 0), rx.distinct_until_changed, rx.delay(0.01), rx.debounce(0.01),
                 rx.map_async(aid), rx.filter_async(atrue), rx.mapi(lambda v, i: v), rx.filteri(lambda v, i: True),
                 rx.zip_seq(range(50)) if hasattr(rx, "zip_seq") else rx.skip(0), filtering.slice(0, 50), rx.flat_map(rx.single),
                 rx.pairwise if hasattr(rx, "pairwise") else rx.skip(0)]
        for i in self.sc["ops"]:
            xs = pipe(xs, table[i % len(table)])
        return xs

    def build(self):
        from aioreactive.transform import flat_map_latest, switch_latest
        sc, flavour = self.sc, self.sc["flavour"]
        m = sc["cfg"]

        def pick(v):
            return v

        async def apick(v):
            return v

        if m in ("merge", "bound1", "bound2", "switch"):
            self.outer = FSource(self, 0)
            if m == "switch":
                op = [switch_latest, flat_map_latest(pick), rx.flat_map_latest_async(apick)][flavour % 3]
            elif m == "merge":
                op = [rx.merge_inner(), rx.merge_inner(0), rx.flat_map(pick), rx.flat_map_async(apick),
                      rx.flat_mapi(lambda v, i: v), rx.merge_inner(9)][flavour % 6]
            else:
                op = rx.merge_inner(int(m[-1]))
            if flavour % 4 == 3 and m == "merge":
                ys = rx.AsyncRx(self.outer).flat_map(pick)
            else:
                ys = pipe(self.outer, op)
        else:
            self.inner = [FSource(self, h, b) for h, b in enumerate(sc["bad"], 1)]
            a, b = (self.inner + [None])[:2]
            if sc.get("pre"):
                a, b = (x and pipe(x, rx.map(pick)) for x in (a, b))
            name = dict(combine="combine_latest", latest="with_latest_from", until="take_until", mergeP="merge",
                        concatP="concat").get(m)
            if name is None:
                ys = a
            elif flavour % 2:
                ys = getattr(rx.AsyncRx(a), name)(b)
            else:
                ys = pipe(a, getattr(rx, name)(b))
        return self.stages(ys)

    def seen(self, k, v=()):
        self.log("ob", k=k, v=v)

    async def consume(self):
        how, ys, w = self.sc["how"], self.ys, self.w
        slow = self.sc.get("slow")

        async def asend(v):
            self.seen("n")
            await w.pause(slow)

        async def athrow(e):
            self.seen("e", w.encerr(e))

        async def aclose():
            self.seen("c")

        async def nothing(e):
            pass

        try:
            if how == "run":
                try:
                    await rx.run(ys, AsyncAwaitableObserver(asend, nothing, aclose), timeout=500)
                except (TimeoutError, asyncio.CancelledError) as ex:
                    self.log("sx", x=w.eids.get(id(ex), 0))
            elif how == "iter":
                self.sub = it = rx.to_async_iterable(ys).__aiter__()
                while True:
                    try:
                        await it.__anext__()
                    except StopAsyncIteration:
                        return self.seen("c")
                    self.seen("n")
            elif how == "sync":
                self.sub = to_observable(ys).subscribe(lambda v: self.seen("n"), lambda e: self.seen("e", w.encerr(e)),
                                                       lambda: self.seen("c"))
            elif how == "fns":
                self.sub = await ys.subscribe_async(asend, athrow, aclose)
            else:
                self.sub = await ys.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
        except Exception as ex:
            self.log("sx", x=code(w, ex))

    async def dispose(self):
        if self.sub is None:
            return
        self.log("db")
        if self.sc["how"] == "sync":
            self.sub.dispose()
            self.log("de")
        else:
            self.log("de", x=await undo(self.sub))

    def main(self):
        L = self.loop
        self.gates, self.inner, self.outer, self.sub = {}, [], None, None
        self.ys = self.build()
        L.front(self.consume())
        self.gap()
        for a in self.sc["script"]:
            if a[0] == "inner":
                if self.outer.obv is not None and not self.outer.ended:
                    src = FSource(self, len(self.inner) + 1, bool(a[1]))
                    self.inner.append(src)
                    L.front(self.outer.push("n", src))
            elif a[0] in ("push", "end"):
                src = self.outer if a[1] == 0 else self.inner[a[1] - 1] if a[1] <= len(self.inner) else None
                if src is not None:
                    L.front(src.push("n", 2) if a[0] == "push" else src.push("c"))
            elif a[0] == "fail":
                f = self.gates.pop(a[1], None)
                if f is not None:
                    f.set_result(None)
            elif a[0] == "ds":
                L.front(self.dispose())
            self.gap()
        self.settle()
        self.loose = True
        for _ in range(20):
            if not self.gates:
                break
            for h in sorted(self.gates):
                self.gates.pop(h).set_result(None)
                self.settle()
        self.advance()
        if self.sc["how"] != "run":
            L.front(self.dispose())
            self.advance()


def run_fail(sc):
    return FailRun(sc, "fail").go()
