"""Runs scenarios (behaviours of spec/RxGen) on the real operators and records traces for spec/RxTrace."""
import asyncio
import contextvars
import os
import random
import resource
import signal
import sys
import traceback
from collections import deque

sys.dont_write_bytecode = True
REPO = os.environ.get("RX_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import logging

logging.disable(logging.CRITICAL)

import aioreactive as rx  # noqa: E402
import aioreactive.combine, aioreactive.create, aioreactive.filtering, aioreactive.transform, aioreactive.timeshift  # noqa: E402,E401
from aioreactive import AsyncObservable, AsyncObserver, AsyncRx  # noqa: E402
from aioreactive.observers import AsyncAnonymousObserver  # noqa: E402
from expression import Nothing, Some, pipe  # noqa: E402
from expression.system import AsyncDisposable  # noqa: E402

from loop import Spin, StepLoop, install_clock, use  # noqa: E402

install_clock()
CUR = contextvars.ContextVar("cur", default=1)
NONE = 999


# ---------------------------------------------------------------- values
class Obj:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f"Obj({self.i})"


class EqAll(Obj):
    """Equal to everything."""

    def __eq__(self, o):
        return True

    __hash__ = object.__hash__


class Prickly(Obj):
    """Cannot be compared or tested for truth (like an array)."""

    def __eq__(self, o):
        raise TypeError("no comparison")

    def __bool__(self):
        raise TypeError("no truth value")

    def __len__(self):
        raise TypeError("no length")

    __hash__ = object.__hash__


class Cls:
    """Compares by class number only."""

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return o.c == self.c if isinstance(o, Cls) else NotImplemented

    def __hash__(self):
        return hash(self.c)


class Near:
    """Equal when close enough: not transitive."""

    def __init__(self, c, tol):
        self.c, self.tol = c, tol

    def __eq__(self, o):
        if not isinstance(o, Near):
            return NotImplemented
        return self.c != 0 and o.c != 0 and abs(self.c - o.c) <= self.tol

    __hash__ = None


class Rude:
    """Comparing it raises this exception."""

    def __init__(self, exc):
        self.exc = exc

    def __eq__(self, o):
        raise self.exc

    __ne__ = __eq__
    __hash__ = object.__hash__


class Tagged:
    """Result of a user function: remembers exactly what it was applied to."""

    __slots__ = ("enc",)

    def __init__(self, enc):
        self.enc = tuple(enc)

    def __eq__(self, o):
        raise TypeError("no comparison")

    def __bool__(self):
        raise TypeError("no truth value")

    __hash__ = object.__hash__


def palette(which):
    n = 60
    if which == 0:
        return [5000 + i for i in range(n + 1)]
    if which == 1:
        falsy = [None, None, 0, False, "", [], 0.0, {}, b"", set(), -0.0] + [Obj(i) for i in range(n)]
        return falsy[: n + 1]
    if which == 2:
        return [Prickly(i) if i % 2 else EqAll(i) for i in range(n + 1)]
    if which == 3:
        exc = [ValueError(i) if i % 3 == 0 else (StopIteration if i % 3 == 1 else asyncio.CancelledError) for i in range(n + 1)]
        return [e if not isinstance(e, type) else e() for e in exc]  # exceptions as plain values
    if which == 5:
        xs = strange()
        return (xs + [Obj(i) for i in range(n)])[: n + 1]
    if which == 6:
        return [chr(33 + i) for i in range(n + 1)]
    return [None, None, Prickly(2), 0, (), EqAll(5), False, "a"] + [Obj(i) for i in range(8, n + 1)]


class Promise:
    """Something that could be awaited, as a plain value."""

    def __await__(self):
        yield


def strange():
    """Values that look like parts of the library's own machinery."""
    async def coro():
        pass
    return [Some(3), Nothing, Some(None), rx.OnNext(1) if hasattr(rx, "OnNext") else Obj(3),
            aioreactive.notification.OnNext(None), aioreactive.notification.OnCompleted(), rx.empty(), rx.never(),
            aioreactive.notification.OnError(ValueError(1)), AsyncDisposable.empty(), Promise(), coro, lambda: None, Obj, len,
            iter(()), range(3), "abc", {"a": 1}, {3}, 1.5, 10 ** 30, b"ab", [1, 2], Ellipsis, NotImplemented, object(), object]


class BoomBase(Exception):
    def __init__(self, i):
        super().__init__(i)
        self.i = i


class BoomEq(BoomBase):
    def __eq__(self, o):
        return isinstance(o, BoomBase)

    __hash__ = object.__hash__


class BoomFalsy(BoomBase):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class BoomFixed(BoomBase):
    """Can be neither copied nor rebuilt from its arguments."""

    def __init__(self, i, *, must):
        super().__init__(i)

    def __copy__(self):
        raise TypeError("no copies")

    __deepcopy__ = __reduce__ = __reduce_ex__ = lambda self, *a: self.__copy__()


def _caused(i):
    e = ValueError(i)
    e.__cause__ = KeyError(i)
    return e


def _in_context(i):
    try:
        try:
            raise KeyError(i)
        except KeyError:
            raise LookupError(i)
    except LookupError as e:
        return e


KINDS = [BoomBase, ValueError, KeyError, TimeoutError, BoomEq, ConnectionError, RuntimeError, BoomFalsy, _caused,
         lambda i: BoomFixed(i, must=1), lambda i: ExceptionGroup("g", [ValueError(i)]), _in_context, OSError, EOFError,
         AssertionError, asyncio.QueueEmpty, asyncio.InvalidStateError, NotImplementedError, AttributeError, TypeError]


def exceptions(seed=0):
    rng = random.Random(seed)
    out = {i: rng.choice(KINDS)(i) for i in range(1, 91)}
    from expression.system import ObjectDisposedException, OperationCanceledError
    if rng.random() < 0.7:
        out[7] = ObjectDisposedException()
        out[8] = OperationCanceledError("x")
    return out


class World:
    """One scenario execution."""

    def __init__(self, sc):
        self.sc = sc
        self.rng = random.Random(sc.get("seed", 0))
        self.pal = palette(sc.get("pal", 0))
        k = 28 if sc.get("pal") == 5 else 9
        mixed = self.pal[1:k]
        random.Random(sc.get("seed", 0) + 1).shuffle(mixed)
        self.pal[1:k] = mixed
        self.exc = exceptions(sc.get("seed", 0))
        self.classes = sc.get("classes")
        if self.classes:  # equality classes for distinct_until_changed; 0 = never equal
            base = {}
            self.pal = [None]
            for i, c in enumerate(self.classes, 1):
                kind = sc.get("pal", 0)
                tol = max(o["n"] for o in sc["ops"] if o["op"] == "distinct")
                if any(o["op"] == "distinct" and i in o["rs"] for o in sc["ops"]):
                    self.pal.append(Rude(self.exc[5]))
                elif tol:
                    self.pal.append(Near(c, tol))
                elif c == 0:
                    self.pal.append(float("nan"))
                elif kind == 0:
                    self.pal.append(Cls(c))
                elif kind == 1:  # falsy / cross-type equal values
                    groups = {1: [None], 2: [0, 0.0, False], 3: [1, 1.0, True], 4: [""], 5: [[]]}
                    used = base.setdefault(c, 0)
                    base[c] += 1
                    g = groups[c]
                    self.pal.append(g[used] if used < len(g) else (list(g[0]) if isinstance(g[0], list) else g[0]))
                else:
                    self.pal.append((Cls(c), c))
        self.ids = {}
        for i, x in enumerate(self.pal):
            if i and id(x) not in self.ids:
                self.ids[id(x)] = i
        self.odd = random.Random(sc["odd"]) if sc.get("odd") is not None else None
        self.made, self.names, self.groups = {}, {}, {}
        self.indices = {}
        self.unit = sc.get("scale", 1) / 1000  # seconds per millisecond of the specification
        self.eids = {id(e): i for i, e in self.exc.items()}
        self.logs = {}
        self.busy = 0
        self.most = 20000 + 60 * len(sc["script"])  # more than any execution can need
        self.srcs, self.inputs = {}, {}
        self.hcount = {}
        self.loop = None
        self.obs = {}
        self.subs = {}
        self.extra = []
        # behaviours of RxLife: what the sources and observers wait for until the script lets them go on
        self.gates = {"r": [], "f": []} if sc.get("gates") else None

    # -- encoding
    def enc(self, x):
        if isinstance(x, Tagged):
            return x.enc
        i = self.ids.get(id(x))
        if i is not None:
            return (i,)
        if id(x) in self.names:
            return self.names[id(x)]
        if isinstance(x, Src):
            return (x.sid,)
        if type(x) is tuple:
            out = ()
            for y in x:
                out += self.enc(y)
            return out
        if type(x) is int:
            return (1000 + x,)
        return (-999,)

    def make(self, enc):
        """A value a user function returns for these arguments: traceable, and sometimes an unusual object."""
        if self.odd is None:
            return Tagged(enc)
        if enc not in self.made:
            kind = self.odd.randrange(5)
            x = Tagged(enc)
            if kind == 0:
                x = self.odd.choice([[], {}, Prickly(0), EqAll(0), ValueError(0), StopAsyncIteration(), set(), float("nan")])
            elif kind < 3:
                x = self.odd.choice([None, None, None, "", (), False, b"", Nothing, 0.0, NotImplemented, Ellipsis])
            if id(x) in self.ids or id(x) in self.names:
                x = Tagged(enc)
            self.made[enc] = x
            if not isinstance(x, Tagged):
                self.names[id(x)] = enc
        return self.made[enc]

    def encerr(self, e):
        return (-self.eids.get(id(e), 98),)

    def eid(self, e):
        return self.eids.get(id(e), 98)

    def val(self, v):
        if len(v) == 1:
            if v[0] >= 100:
                return self.input(v[0] - 100) if v[0] < 200 else v[0]
            return self.pal[v[0]]
        t = tuple(v)
        if t not in self.groups:  # arguments to spread: a tuple or any other sequence
            g = tuple(self.pal[i] for i in v)
            if self.sc.get("seed", 0) % 3 == 0:
                g = list(g)
                self.names[id(g)] = t
            self.groups[t] = g
        return self.groups[t]


    def log(self, j, e, h=0, k="", v=(), x=0):
        lg = self.logs.setdefault(j, [])
        if len(lg) > self.most and e != "bad":
            raise Spin()
        if e == "bad":
            del lg[300:]
        lg.append(dict(e=e, h=h, k=k, v=list(v), x=x, t=self.loop.ms()))

    def src(self, i):
        if i not in self.srcs:
            self.srcs[i] = Src(self, i)
        return self.srcs[i]

    def input(self, i):
        """Source i behind the operators the head gets it through."""
        if not self.sc["head"].get("pre"):
            return self.src(i)
        if i not in self.inputs:
            xs = self.src(i)
            for o in self.sc["head"]["pre"][0 if i == 1 else 1]:
                xs = pipe(xs, sop(self, -1 if o["op"] in ASYNCFN else 0, o, self.sc.get("flavour", "pipe")))
            self.inputs[i] = xs
            self.names[id(xs)] = (i,)
        return self.inputs[i]

    async def gate(self, kind):
        if self.gates is None:
            return 0
        g = self.loop.create_future()
        self.gates[kind].append(g)
        self.busy += 1
        try:
            return await g
        finally:
            self.busy -= 1

    def release(self, kind, how=0):
        while self.gates and self.gates[kind]:
            g = self.gates[kind].pop(0)
            if not g.done():
                g.set_result(how)
                return True
        return False

    async def pause(self, how):
        """how: ("t", n) n loop rounds; ("m", ms) virtual time."""
        if not how:
            return
        kind, n = how
        if kind == "t":
            for _ in range(n):
                await asyncio.sleep(0)
        else:
            self.busy += 1
            try:
                await asyncio.sleep(n * self.unit)
            finally:
                self.busy -= 1


class Handle:
    def __init__(self, src, obv, j, h):
        self.src, self.obv, self.j, self.h = src, obv, j, h
        self.closed = self.ended = self.running = False
        self.queue = []
        self.ctx = contextvars.copy_context()

    async def push(self, k, v):
        w = self.src.w
        enc = w.encerr(w.exc[v[0]]) if k == "e" else w.enc(w.val(v)) if k == "n" else ()
        if k != "n":
            self.ended = True
        w.log(self.j, "in", h=self.h, k=k, v=enc)
        x = 0
        try:
            if k == "n":
                await self.obv.asend(w.val(v))
            elif k == "e":
                await self.obv.athrow(w.exc[v[0]])
            else:
                await self.obv.aclose()
        except Exception as ex:
            x = w.eid(ex)
        finally:
            w.log(self.j, "ir", h=self.h, x=x)

    async def pump(self):
        self.running = True
        w = self.src.w
        try:
            while self.queue and (not self.closed or w.sc.get("leaky")):
                k, v = self.queue.pop(0)
                await self.push(k, v)
        finally:
            self.running = False

    def send(self, k, v):
        w = self.src.w
        if w.sc.get("conc"):  # ill-behaved: push without waiting for the previous push
            w.loop.front(self.push(k, v), self.ctx)
            return
        self.queue.append((k, v))
        if not self.running:
            w.loop.front(self.pump(), self.ctx)

    async def dispose(self):
        w = self.src.w
        if not self.closed:
            self.closed = True
            w.log(self.j, "su", h=self.h)
        await w.pause(w.sc.get("unsubpause"))


class Src(AsyncObservable):
    """A scripted source; what it did to whom is recorded."""

    def __init__(self, w, sid):
        self.w, self.sid, self.handles = w, sid, []

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
        w = self.w
        j = CUR.get()
        w.hcount[j] = w.hcount.get(j, 0) + 1
        hd = Handle(self, obv, j, w.hcount[j])
        w.log(j, "ss", h=hd.h, x=self.sid)
        self.handles.append(hd)
        emit = w.sc.get("emit", {}).get(str(self.sid))
        if emit:
            hd.queue.extend((k, v) for k, v in emit)
            await hd.pump()
        await w.pause(w.sc.get("subpause"))
        await w.gate("r")
        return AsyncDisposable.create(hd.dispose)

    def send(self, k, v, only=None):
        ill = self.w.sc.get("ill")
        leaky = self.w.sc.get("leaky")
        for hd in list(self.handles):
            if only is not None and hd.j != only:
                continue
            if not ill and (hd.ended or any(q[0] != "n" for q in hd.queue)):
                continue
            if hd.closed and not leaky and not ill:
                continue
            hd.send(k, v)


class Obs(AsyncObserver):
    def __init__(self, w, j, spec):
        self.w, self.j, self.spec = w, j, spec
        self.n = 0

    async def _handle(self, k, enc):
        w, sp = self.w, self.spec
        self.n += 1
        n = self.n
        w.log(self.j, "ob", k=k, v=enc)
        x = 0
        try:
            if sp.get("dispose_at") == n and self.j in w.subs:
                await w.dispose(self.j)
            slow = sp.get("slow")
            if slow:
                await w.pause(slow[n % len(slow)])
            how = await w.gate("f")
            if how == 2 and self.j in w.subs:
                await w.dispose(self.j)
            if k == "n" and (sp.get("raise_at") == n or how == 1):
                x = 90
                raise w.exc[90]
            if k != "n" and (sp.get("raise_end") or how == 1):
                x = 89
                raise w.exc[89]
        finally:
            w.log(self.j, "oe", x=x)

    async def asend(self, value):
        await self._handle("n", self.w.enc(value))

    async def athrow(self, error):
        await self._handle("e", self.w.encerr(error))

    async def aclose(self):
        await self._handle("c", ())


# ---------------------------------------------------------------- building pipelines
ASYNCFN = {"map_async", "mapi_async", "filter_async", "choose_async", "starmap_async", "scan_async", "reduce_async"}


def _key(w, x):
    for i in w.enc(x):
        if 1 <= i <= 99:
            return i
    return 0


TRUTHY = [True, 1, "yes", [0], 2.5]
FALSY = [False, 0, "", [], None]


class Fns:
    """User functions of one stage."""

    def __init__(self, w, k, o):
        self.w, self.k, self.o = w, k, o
        self.calls = 0

    def seen(self, enc):
        self.calls += 1
        self.w.log(CUR.get(), "fn", h=self.k, v=enc)
        for i in enc:
            if 1 <= i <= 99:
                if i in self.o["rs"]:
                    raise self.w.exc[self.o["m"]]
                return

    async def aseen(self, enc):
        ps = self.w.sc.get("fnpause")
        self.calls += 1
        self.w.log(CUR.get(), "fn", h=self.k, v=enc)
        try:
            if self.k < 0:  # in front of the head: others would overtake it
                pass
            elif ps:
                await self.w.pause(ps[self.calls % len(ps)])
            if self.k > 0 and self.w.sc["head"]["op"] not in ("interval", "timer"):  # their clock would wait for it
                await self.w.gate("f")
        finally:
            self.w.log(CUR.get(), "fx", h=self.k)
        for i in enc:
            if 1 <= i <= 99:
                if i in self.o["rs"]:
                    raise self.w.exc[self.o["m"]]
                return

    def ev(self, args):
        out = ()
        for a in args:
            out += self.w.enc(a)
        return out

    def evi(self, x, i):
        return self.w.enc(x) + (1000 + i,)

    def stays(self, enc):
        """Does the function give back what it was given?"""
        return next((i for i in enc if 1 <= i <= 99), 0) in self.o["ks"]

    def keep(self, enc):
        key = next((i for i in enc if 1 <= i <= 99), 0)
        c = self.calls
        return TRUTHY[c % 5] if key in self.o["ks"] else FALSY[c % 5]


def sop(w, k, o, flavour):
    """Returns a function observable -> observable for the single-input operator o."""
    op, n, m, tag = o["op"], o["n"], o["m"], o["tag"]
    f = Fns(w, k, o)
    T = aioreactive.transform
    F = aioreactive.filtering
    chain = flavour == "chain"

    def both(name, *args, fn=None):
        if chain and hasattr(AsyncRx, name):
            return lambda xs: getattr(xs if isinstance(xs, AsyncRx) else AsyncRx(xs), name)(*args)
        g = getattr(rx, name, None) or fn
        return g(*args)

    if op == "id":
        return lambda xs: xs
    if op == "map":
        def mapper(x):
            e = w.enc(x); f.seen(e); return x if f.stays(e) else w.make((tag,) + e)
        return both("map", mapper)
    if op == "map_async":
        async def mapper(x):
            e = w.enc(x); await f.aseen(e); return x if f.stays(e) else w.make((tag,) + e)
        return both("map_async", mapper)
    if op == "starmap":
        def mapper(*a):
            e = f.ev(a); f.seen(e); return w.make((tag,) + e)
        return both("starmap", mapper)
    if op == "starmap_async":
        async def mapper(*a):
            e = f.ev(a); await f.aseen(e); return w.make((tag,) + e)
        return both("starmap_async", mapper, fn=T.starmap_async)
    if op == "mapi":
        def mapper(x, i):
            e = f.evi(x, i); f.seen(e); return x if f.stays(e) else w.make((tag,) + e)
        return both("mapi", mapper)
    if op == "mapi_async":
        async def mapper(x, i):
            e = f.evi(x, i); await f.aseen(e); return x if f.stays(e) else w.make((tag,) + e)
        return both("mapi_async", mapper)
    if op == "filter":
        def pred(x):
            e = w.enc(x); f.seen(e); return f.keep(e)
        return both("filter", pred)
    if op == "filter_async":
        async def pred(x):
            e = w.enc(x); await f.aseen(e); return f.keep(e)
        return both("filter_async", pred)
    if op == "starfilter":
        def pred(*a):
            e = f.ev(a); f.seen(e); return f.keep(e)
        return both("starfilter", pred)
    if op == "filteri":
        def pred(x, i):
            e = f.evi(x, i); f.seen(e)
            return TRUTHY[i % 5] if i in o["ks"] else FALSY[i % 5]
        return both("filteri", pred)
    if op == "choose":
        def chooser(x):
            e = w.enc(x); f.seen(e)
            return Some(w.make((tag,) + e)) if f.keep(e) else Nothing
        return both("choose", chooser)
    if op == "choose_async":
        async def chooser(x):
            e = w.enc(x); await f.aseen(e)
            return Some(w.make((tag,) + e)) if f.keep(e) else Nothing
        return both("choose_async", chooser)
    if op in ("scan", "reduce"):
        def acc(s, x):
            e = w.enc(s) + w.enc(x); f.seen(w.enc(x)); return s if f.stays(w.enc(x)) else w.make(e)
        return both(op, acc, w.make((tag,)))
    if op in ("scan_async", "reduce_async"):
        async def acc(s, x):
            e = w.enc(s) + w.enc(x); await f.aseen(w.enc(x)); return s if f.stays(w.enc(x)) else w.make(e)
        return both(op, acc, w.make((tag,)))
    if op in ("skip", "take", "skip_last", "take_last"):
        return both(op, n)
    if op == "distinct":
        if chain:
            return lambda xs: (xs if isinstance(xs, AsyncRx) else AsyncRx(xs)).distinct_until_changed()
        return rx.distinct_until_changed
    if op == "slice":
        a, b, c = (None if n == NONE else n), (None if m == NONE else m), (None if tag == NONE else tag)
        if chain:
            def sl(xs):
                xs = xs if isinstance(xs, AsyncRx) else AsyncRx(xs)
                if a is not None and b == a + 1 and c in (None, 1) and w.sc.get("index"):
                    return xs[a]
                return xs[a:b:c]
            return sl
        return F.slice(a, b, 1 if c is None else c)
    if op == "zip":
        items = [w.pal[i] for i in o["ks"]]
        if m:
            class It:
                def __iter__(self):
                    yield from items
                    raise w.exc[m]
            return aioreactive.combine.zip_seq(It())
        return aioreactive.combine.zip_seq(w.rng.choice([list, tuple, deque, again])(items))
    if op == "delay":
        return both("delay", n * w.unit)
    if op == "debounce":
        return both("debounce", n * w.unit)
    raise ValueError(op)


def again(items):
    class It:
        def __iter__(self):
            return iter(items)
    return It()


def once(w, items):
    """Some iterable with these items."""
    kinds = [list, tuple, deque, again]
    if w.sc.get("nsub", 1) == 1:
        kinds += [iter, lambda xs: (x for x in xs)]
    return w.rng.choice(kinds)(items)


class Gen:
    """Re-iterable iterable, optionally raising after its items."""

    def __init__(self, w, h):
        self.w, self.h = w, h

    def __iter__(self):
        for i in self.h["ks"]:
            yield self.w.pal[i]
        if self.h["m"] > 0:
            raise self.w.exc[self.h["m"]]


class Indexed:
    """Iterable through indexing only."""

    def __init__(self, xs):
        self.xs = xs

    def __getitem__(self, i):
        return self.xs[i]


class AGen(Gen):
    def __aiter__(self):
        return self.run()

    async def run(self):
        ps = self.w.sc.get("fnpause")
        for n, i in enumerate(self.h["ks"]):
            if ps:
                await self.w.pause(ps[n % len(ps)])
            yield self.w.pal[i]
        if self.h["m"] > 0:
            raise self.w.exc[self.h["m"]]


def creator(w, h, flavour):
    op = h["op"]
    C = aioreactive.create
    chain = flavour == "chain"
    vals = [w.pal[i] for i in h["ks"]]
    if op == "from_iterable":
        kinds = [lambda: vals, lambda: tuple(vals), lambda: Gen(w, h), lambda: Indexed(vals), lambda: deque(vals),
                 lambda: dict(enumerate(vals)).values()]
        if vals and all(type(x) is str and len(x) == 1 and x is next(iter(x)) for x in vals):
            kinds = [lambda: "".join(vals)] * 2 + kinds
            if len(set(vals)) == len(vals):
                kinds.append(lambda: dict.fromkeys(vals, 1))
        if w.sc.get("nsub", 1) == 1:
            kinds += [lambda: iter(vals), lambda: iter(Gen(w, h))]
        it = w.rng.choice(kinds)() if h["m"] <= 0 else Gen(w, h) if w.sc.get("nsub", 1) > 1 or w.rng.random() < 0.5 else iter(Gen(w, h))
        return (AsyncRx.from_iterable if chain else rx.from_iterable)(it)
    if op == "from_async_iterable":
        return (AsyncRx.from_async_iterable if chain else rx.from_async_iterable)(AGen(w, h))
    if op == "single":
        return (AsyncRx.single if chain else rx.single)(vals[0])
    if op == "empty":
        return (AsyncRx.empty if chain else rx.empty)()
    if op == "never":
        return rx.never()
    if op == "fail":
        return C.fail(w.exc[h["m"]])
    if op == "from_async":
        async def work():
            await w.pause(("m", h["n"]) if h["n"] else None)
            if h["m"] > 0:
                raise w.exc[h["m"]]
            return vals[0]

        class Again:  # can be awaited once per subscription
            def __await__(self):
                return work().__await__()
        if w.rng.random() < 0.3 and w.sc.get("nsub", 1) == 1:  # a future that is already running
            fut = asyncio.ensure_future(work())
            fut.add_done_callback(lambda f: f.exception())
            return rx.from_async(fut)
        again = w.sc.get("nsub", 1) > 1 or w.rng.random() < 0.5
        return (rx.from_async if w.rng.random() < 0.5 else rx.of_async)(Again() if again else work())
    if op == "defer":
        def factory():
            w.log(CUR.get(), "fd")
            if h["m"] > 0 and not vals:
                raise w.exc[h["m"]]
            return rx.from_iterable(Gen(w, h))
        return rx.defer(factory)
    raise ValueError(op)


def head(w, h, flavour):
    op = h["op"]
    S = w.input
    chain = flavour == "chain"
    T = aioreactive.transform

    def inner(x):
        if _key(w, x) in h["rs"]:
            raise w.exc[h["tag"]]
        return S(10 + _key(w, x))

    def dual(name, other):
        if chain and hasattr(AsyncRx, name):
            return getattr(AsyncRx(S(1)), name)(other)
        return pipe(S(1), getattr(rx, name)(other))

    def f1(name, fn, mod=None):
        if chain and hasattr(AsyncRx, name):
            return getattr(AsyncRx(S(1)), name)(fn)
        g = getattr(rx, name, None) or getattr(T, name)
        return pipe(S(1), g(fn))

    async def ainner(x):
        await w.pause((w.sc.get("fnpause") or [None])[0])
        return inner(x)

    def inneri(x, i):
        j = CUR.get()
        n = w.indices.get(j, 0)
        w.indices[j] = n + 1
        return inner(x) if i == n else S(95)  # not a source anything asked for

    async def ainneri(x, i):
        return inneri(x, i)

    if op == "one":
        return AsyncRx(S(1)) if chain else S(1)
    if op in ("combine_latest", "with_latest_from", "take_until"):
        return dual(op, S(2))
    if op == "merge_inner":
        return pipe(S(1), rx.merge_inner(h["n"]) if h["n"] or w.rng.random() < 0.5 else rx.merge_inner())
    if op == "flat_map":
        return f1("flat_map", inner)
    if op == "flat_mapi":
        return f1("flat_mapi", inneri)
    if op == "flat_map_async":
        return f1("flat_map_async", ainner)
    if op == "flat_mapi_async":
        return f1("flat_mapi_async", ainneri)
    if op == "concat_map":
        return f1("concat_map", inner)
    if op in ("merge", "concat"):
        return dual(op, S(2))
    if op == "merge_seq":
        return rx.merge_seq(once(w, [S(i + 1) for i in range(h["n"])]))
    if op == "concat_seq":
        return rx.concat_seq(once(w, [S(i + 1) for i in range(h["n"])]))
    if op == "switch_latest":
        return pipe(S(1), rx.switch_latest())
    if op == "flat_map_latest":
        return f1("flat_map_latest", inner)
    if op == "flat_map_latest_async":
        return f1("flat_map_latest_async", ainner)
    if op == "catch":
        def handler(e):
            i = w.eid(e)
            r = h["ks"][i - 1] if 1 <= i <= len(h["ks"]) else -i
            if r > 0:
                return S(r)
            raise w.exc[-r]
        return pipe(S(1), rx.catch(handler))
    if op == "retry":
        return pipe(S(1), rx.retry(h["n"]))
    if op == "interval":
        return rx.interval(h["n"] * w.unit, h["m"] * w.unit if h["m"] else 0)
    if op == "timer":
        return rx.timer(h["n"] * w.unit)
    return creator(w, h, flavour)


def build(w):
    fl = w.sc.get("flavour", "pipe")
    xs = head(w, w.sc["head"], fl)
    rng = random.Random(w.sc["wrap"]) if w.sc.get("wrap") is not None else None
    for k, o in enumerate(w.sc["ops"], 1):
        f = sop(w, k, o, fl)
        xs = rewrap(xs, rng)
        xs = f(xs) if fl == "chain" else pipe(xs, f)
    return rewrap(xs, rng)


def rewrap(xs, rng):
    """Conversions between the plain and the chained form change nothing."""
    while rng is not None and rng.random() < 0.5:
        kind = rng.randrange(4)
        if kind == 0:
            xs = rx.as_chained(xs)
        elif kind == 1:
            xs = AsyncRx.create(xs)
        elif kind == 2:
            xs = rx.as_async_observable(xs)
        elif isinstance(xs, AsyncRx):
            xs = xs.as_async_observable()
    return xs


# ---------------------------------------------------------------- driving
def run_scenario(sc):
    """Execute one scenario; returns one trace per subscription."""
    w = World(sc)
    loop = w.loop = StepLoop(sc.get("scale", 1))
    use(loop, sc.get("jitter"))
    nsub = sc.get("nsub", 1)
    ospecs = sc.get("obs") or [{}]
    with loop:
        try:
            ys = build(w)
            if sc.get("how", "").endswith("+"):  # an iterable sequence is a sequence, too
                ys = ys.to_async_iterable() if isinstance(ys, AsyncRx) else rx.to_async_iterable(ys)
            if sc.get("how") == "iter":
                iterable = ys.to_async_iterable() if isinstance(ys, AsyncRx) else rx.to_async_iterable(ys)

            async def subscribe(j):
                CUR.set(j)
                o = Obs(w, j, ospecs[(j - 1) % len(ospecs)])
                w.log(j, "sb")
                how = sc.get("how", "obj").rstrip("+")
                if how == "obj":
                    sub = await ys.subscribe_async(o)
                elif how == "iter":
                    it = iterable.__aiter__()
                    w.subs[j] = it
                    await iterate(o, it)
                    return
                elif how == "fns":
                    sub = await ys.subscribe_async(o.asend, o.athrow, o.aclose)
                else:
                    sub = await pipe(ys, rx.subscribe_async(o))
                w.subs[j] = sub
                w.log(j, "se")

            async def iterate(o, it):
                while True:
                    try:
                        v = await it.__anext__()
                    except StopAsyncIteration:
                        return await o.aclose()
                    except Exception as ex:
                        return await o.athrow(ex)
                    await o.asend(v)

            async def dispose(j):
                sub = w.subs.get(j)
                if sub is None:
                    return
                w.log(j, "db")
                x = 0
                try:
                    await sub.dispose_async()
                except Exception:
                    x = 98
                w.log(j, "de", x=x)

            w.dispose = dispose
            started = set()

            def idle():
                if w.busy == 0:
                    for j in started:
                        w.log(j, "id")

            def start(j):
                if j in started:
                    return
                started.add(j)
                ctx = contextvars.copy_context()
                loop.front(subscribe(j), ctx)

            def settle():
                loop.settle()
                idle()

            def advance(ms, stop_at=None):
                end = loop.now + ms * w.unit
                while True:
                    settle()
                    nt = loop.next_timer()
                    if nt is None or nt > end + 2e-5:
                        break
                    loop.fire(nt)
                if stop_at is None:
                    loop.fire(end)
                settle()

            sched = sc.get("sched", {"mode": "settle"})
            mode = sched["mode"]

            def gap():
                if mode == "settle":
                    settle()
                elif mode == "none":
                    pass
                elif mode == "k":
                    for _ in range(sched["k"]):
                        loop.step()
                else:
                    for _ in range(w.rng.choice(sched.get("gaps", [0, 0, 1, 2, 3, 5, 8, 13, 40]))):
                        loop.step()

            for j in range(1, nsub + 1):
                if sc.get("substart", 0) == 0 or j == 1:
                    start(j)
                    if sched.get("presettle", True):
                        settle()
                    else:
                        gap()
            for n, a in enumerate(sc["script"]):
                if sc.get("substart") == n and n:
                    for j in range(2, nsub + 1):
                        start(j)
                kind = a[0]
                if kind == "s":
                    w.src(a[1]).send(a[2], a[3], a[4] if len(a) > 4 else None)
                elif kind == "d":
                    loop.front(dispose(a[1]))
                elif kind == "w":
                    advance(a[1])
                    continue
                elif kind == "sub":
                    start(a[1])
                elif kind in ("r", "f"):
                    w.release(*a)
                gap()
            for j in range(1, nsub + 1):
                start(j)
            settle()
            while w.gates and (w.release("r") or w.release("f")):
                settle()
            w.gates = None
            advance(sc.get("tail", 3000), stop_at=True)
            if sc.get("final_dispose", True):
                for j in sorted(started):
                    loop.front(dispose(j))
                    settle()
                advance(1500, stop_at=True)
        except (Spin, Hang, MemoryError):
            for j in list(w.logs) or [1]:
                w.log(j, "bad", k="hang")
        except Exception as ex:  # building or driving the pipeline failed
            for j in list(w.logs) or [1]:
                w.log(j, "bad", k="crash", v=())
            w.extra.append("".join(traceback.format_exception(ex))[-1500:])
    use(None)
    out = []
    for j, ev in sorted(w.logs.items()):
        out.append(dict(head=sc["head"], ops=sc["ops"], ill=bool(sc.get("ill")),
                        slowfn=bool(sc.get("slowfn")), ev=ev, j=j))
    return out, w.extra + loop.unhandled


class Hang(KeyboardInterrupt):
    pass


def _alarm(*a):
    raise Hang()


def guarded(fn, sc, seconds=5):
    """Bounded in time and memory."""
    signal.signal(signal.SIGALRM, _alarm)
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, hard))
    signal.setitimer(signal.ITIMER_REAL, seconds, 1.0)
    try:
        return fn(sc)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
