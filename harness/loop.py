"""Deterministic event loop: the driver runs one callback at a time and owns the clock.

Everything the library can observe about time (loop.time, time.time, datetime.now, ...) is virtual.
"""
import asyncio
import datetime as _dt
import heapq
import random
import sys
import time as _time
import types
from asyncio import events

_real = {n: getattr(_time, n) for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns")}
_RealDT = _dt.datetime
real_monotonic = _real["monotonic"]


class Spin(KeyboardInterrupt):
    """Too many callbacks or events without becoming quiescent (no task or callback swallows a KeyboardInterrupt)."""


class StepLoop(asyncio.BaseEventLoop):
    LIMIT = 60000

    def __init__(self, scale=1):
        super().__init__()
        self.scale = scale
        self.now = 0.0
        self.unhandled = []
        self.count = 0
        self.set_exception_handler(self._on_exc)

    def _on_exc(self, loop, ctx):
        self.unhandled.append(repr(ctx.get("exception") or ctx.get("message")))

    def time(self):
        return self.now

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    # -- driving ---------------------------------------------------------
    def __enter__(self):
        events._set_running_loop(self)
        events.set_event_loop(self)
        return self

    def __exit__(self, *a):
        try:
            self._drain()
        except (KeyboardInterrupt, MemoryError):
            pass
        finally:
            events._set_running_loop(None)
            events.set_event_loop(None)
            self.close()

    def _drain(self):
        self.set_exception_handler(lambda *a: None)
        for _ in range(3):
            ts = [t for t in asyncio.all_tasks(self) if not t.done()]
            if not ts:
                break
            for t in ts:
                t.cancel()
            n = 0
            while self._ready and n < 5000:
                n += 1
                h = self._ready.popleft()
                if not h._cancelled:
                    h._run()
        self._ready.clear()
        self._scheduled.clear()

    def step(self):
        """Run one ready callback; False when there is none."""
        while self._ready:
            h = self._ready.popleft()
            if h._cancelled:
                continue
            self.count += 1
            if self.count > self.LIMIT:
                raise Spin()
            h._run()
            return True
        return False

    def front(self, coro, context=None):
        """Start a task and run its first step right now, ahead of everything that is ready."""
        t = asyncio.Task(coro, loop=self, context=context)
        h = self._ready.pop()
        self.count += 1
        if not h._cancelled:
            h._run()
        return t

    def settle(self):
        """Run until nothing is ready; a timer due within 20 microseconds counts as ready."""
        while True:
            while self.step():
                pass
            nt = self.next_timer()
            if nt is None or nt > self.now + 2e-5:
                break
            self.fire(nt)

    def next_timer(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            self._timer_cancelled_count -= 1
            heapq.heappop(self._scheduled)._scheduled = False
        return self._scheduled[0]._when if self._scheduled else None

    def fire(self, when):
        """Advance the clock to the (millisecond-snapped) time and make its timers ready."""
        grid = min(1, self.scale) / 1000
        ms = round(when / grid) * grid
        if abs(ms - when) < 2e-5:
            when = ms
        self.now = max(self.now, when)
        due = []
        while self._scheduled and self._scheduled[0]._when <= self.now + 2e-5:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            if h._cancelled:
                self._timer_cancelled_count -= 1
            else:
                due.append(h)
        self._ready.extend(due)

    def ms(self):
        return round(self.now * 1000 / self.scale)


class _Clock:
    loop = None
    rng = None
    at, off = -1.0, 0.0


def _sec():
    """What a clock shows; with jitter it moves on by a few microseconds while callbacks run, as real clocks do."""
    c = _Clock
    now = c.loop.now if c.loop is not None else 0.0
    if c.rng is not None:
        if now != c.at:
            c.at, c.off = now, 0.0
        c.off = min(c.off + c.rng.random() * 3e-6, 9e-6)
        now += c.off
    return 1_000_000.0 + now


class VDateTime(_RealDT):
    @classmethod
    def now(cls, tz=None):
        base = _RealDT(2020, 1, 1, tzinfo=_dt.timezone.utc) + _dt.timedelta(seconds=_sec())
        return base.astimezone(tz) if tz is not None else base.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return cls.now(_dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def install_clock(prefix="aioreactive"):
    """Make every clock the library may read virtual."""
    shim = types.ModuleType("datetime")
    shim.__dict__.update(_dt.__dict__)
    shim.datetime = VDateTime
    vt = {"time": _sec, "monotonic": _sec, "perf_counter": _sec,
          "time_ns": lambda: round(_sec() * 1e9), "monotonic_ns": lambda: round(_sec() * 1e9),
          "perf_counter_ns": lambda: round(_sec() * 1e9)}
    tshim = types.ModuleType("time")
    tshim.__dict__.update(_time.__dict__)
    tshim.__dict__.update(vt)
    back = {id(_real[n]): vt[n] for n in vt}
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or name.startswith(prefix + ".")):
            continue
        for k, v in list(vars(mod).items()):
            if v is _RealDT:
                setattr(mod, k, VDateTime)
            elif v is _dt:
                setattr(mod, k, shim)
            elif v is _time:
                setattr(mod, k, tshim)
            elif id(v) in back:
                setattr(mod, k, back[id(v)])


def use(loop, jitter=None):
    _Clock.loop = loop
    _Clock.rng = random.Random(jitter) if jitter is not None else None
    _Clock.at = -1.0
