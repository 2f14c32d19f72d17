"""Turns a behaviour of the specification into concrete executions: schedules, values, observers, sources."""
import copy

GUARDED_OPS = {"mapi", "mapi_async", "filteri", "skip", "take", "skip_last", "take_last", "slice", "distinct",
               "reduce", "reduce_async", "zip", "delay", "debounce"}
CLOCK = {"interval", "timer"}
CREATOR = {"from_iterable", "from_async_iterable", "single", "empty", "never", "fail", "from_async", "defer"}
MERGE = {"merge_inner", "flat_map", "flat_mapi", "flat_map_async", "flat_mapi_async", "concat_map",
         "merge", "merge_seq", "concat", "concat_seq"}
SWITCH = {"switch_latest", "flat_map_latest", "flat_map_latest_async"}
PAIRY = {"starmap", "starmap_async", "starfilter"}
TIMED = {"delay", "debounce"}
ASYNCFN = {"map_async", "mapi_async", "filter_async", "choose_async", "starmap_async", "scan_async", "reduce_async"}


def guarded(rec):
    return rec["head"]["op"] not in ("one", "catch", "retry") or any(o["op"] in GUARDED_OPS for o in rec["ops"])


def hard(rec):
    """Cuts off even a source that keeps pushing after it was unsubscribed."""
    return guarded(rec) or rec["head"]["op"] in ("catch", "retry")


def timed(rec):
    return rec["head"]["op"] in CLOCK or any(o["op"] in TIMED for o in rec["ops"]) or \
        (rec["head"]["op"] == "from_async" and rec["head"]["n"])


def pick_sched(rng, kinds=("settle", "none", "k", "rand")):
    m = rng.choice(kinds)
    s = {"mode": m}
    if m == "k":
        s["k"] = rng.randint(1, 9)
    if m == "rand":
        s["gaps"] = rng.choice([[0, 0, 1, 2, 3, 5, 8, 13, 40], [0, 1, 2], [1, 3, 6, 10], [0, 0, 0, 30], [2, 4, 9]])
    if m != "settle" and rng.random() < 0.3:
        s["presettle"] = False
    return s


def pick_slow(rng, ms=True):
    r = rng.random()
    if r < 0.35:
        return None
    if r < 0.75 or not ms:
        return [("t", rng.randint(0, 6)) for _ in range(rng.randint(1, 4))]
    return [rng.choice([("m", rng.choice([3, 7, 23])), ("t", rng.randint(0, 4)), None]) for _ in range(rng.randint(1, 3))]


def base(rec, rng, pal=True):
    sc = dict(head=rec["head"], ops=rec["ops"], script=copy.deepcopy(rec["script"]), classes=rec.get("classes") or None,
              seed=rng.randrange(1 << 30))
    if pal and rec["head"]["op"] not in CLOCK:
        sc["pal"] = rng.randrange(3 if sc["classes"] else 7)
    if rng.random() < 0.4 and not any(o["op"] == "distinct" for o in rec["ops"]):
        sc["odd"] = rng.randrange(1 << 30)
    if any(o["op"] in PAIRY for o in rec["ops"]) and rng.random() < 0.4:  # more than two arguments
        more = [41, 42, 43][:rng.randint(1, 3)]
        sc["script"] = [a[:3] + [a[3] + more] + a[4:] if a[0] == "s" and len(a[3]) == 2 else a for a in sc["script"]]
    if rng.random() < 0.3:
        sc["scale"] = rng.choice([0.05, 0.3, 7, 60, 1000, 60000, 86400])
    if rng.random() < 0.4:
        sc["jitter"] = rng.randrange(1 << 30)
    if rng.random() < 0.2:
        sc["wrap"] = rng.randrange(1 << 30)
    return sc


def valued(rec):
    return any(a[0] == "s" and a[2] == "n" and a[1] != 1 for a in rec["script"]) or \
        rec["head"]["op"] not in MERGE | SWITCH and any(a[0] == "s" and a[2] == "n" for a in rec["script"])


def large(o, size, rng):
    some = lambda: rng.choice([17, 40, 70, 110, 140, size // 2, size - 1, size, size + 1])  # noqa: E731
    if o["op"] in ("skip", "take", "skip_last", "take_last") and o["n"] > 0:
        return dict(o, n=some())
    if o["op"] == "zip":
        return dict(o, ks=[41 + i % 15 for i in range(some())])
    if o["op"] == "filteri":
        return dict(o, ks=sorted(rng.sample(range(size), size // 2)))
    if o["op"] == "slice" and o["tag"] > 1:
        return dict(o, tag=rng.choice([2, 3, 16, 64, 100]))
    return o


def crowd(sc, rng):
    """Many inner sequences."""
    size = rng.choice([9, 20, 40, 70])
    outer = [a for a in sc["script"] if a[0] == "s" and a[1] == 1 and a[2] == "n"]
    if not outer:
        return False
    rest = [a for a in sc["script"] if a[0] == "s" and a[1] != 1 and a[2] == "n"]
    out = []
    for a in sc["script"]:
        if a in outer:
            for _ in range(-(-size // len(outer))):
                out.append(a)
                if rest and rng.random() < 0.2:
                    out.append(rng.choice(rest))
        else:
            out.append(a)
    sc["script"] = out
    if sc["head"]["op"] == "merge_inner" and rng.random() < 0.7:
        sc["head"] = dict(sc["head"], n=rng.choice([0, 1, 2, 7, 16, size]))
    return True


def failures(sc, rng):
    """Many errors in a row."""
    size = rng.choice([9, 20, 45])
    out = []
    for a in sc["script"]:
        out.append(a)
        if a[0] == "s" and a[2] == "e":
            for _ in range(size):
                if rng.random() < 0.3:
                    out.append(["s", a[1], "n", [rng.randint(1, 39)]])
                out.append(a)
    sc["script"] = out
    if sc["head"]["op"] == "retry" and rng.random() < 0.7:
        sc["head"] = dict(sc["head"], n=rng.choice([8, 16, 17, size - 1, size, size + 1, 100]))
    return True


def ticks(sc, rng):
    """A clock runs for long."""
    k = rng.choice([100, 200, 400])
    sc["script"] = [x for a in sc["script"] for x in [a] * (k if a[0] == "w" else 1)][:900]
    sc["ops"] = [dict(o, n=rng.choice([17, 129, 300])) if o["op"] == "take" else o for o in sc["ops"]]
    return True


def bulk(sc, rng):
    """Many more values: repeat what the script sends."""
    ops = {o["op"] for o in sc["ops"]}
    size = rng.choice([140, 300, 300, 300, 600, 600, 600, 2600])
    if ops & {"scan", "scan_async", "reduce", "reduce_async"}:
        size = rng.choice([40, 90])  # a fold remembers everything
    dyn = sc["head"]["op"] in MERGE | SWITCH and sc["head"]["op"] not in ("merge", "merge_seq", "concat", "concat_seq")
    out = []
    if dyn and rng.random() < 0.4:
        return crowd(sc, rng)
    if sc["head"]["op"] in ("catch", "retry") and rng.random() < 0.5:
        return failures(sc, rng)
    vals = [a for a in sc["script"] if a[0] == "s" and a[2] == "n" and not (dyn and a[1] == 1)]
    if not vals:
        return False
    if rng.random() < 0.7:
        sc["ops"] = [dict(o, rs=[]) for o in sc["ops"]]  # nothing raises on the way
    if rng.random() < 0.5:  # large counts as well
        size = min(size, 600)
        sc["ops"] = [large(o, size, rng) for o in sc["ops"]]
    k = -(-size // len(vals))
    block = []

    def fresh(a):  # other values where any value will do
        if sc["classes"] or len(a[3]) != 1 or a[3][0] > 39 or dyn and a[1] == 1:
            return a
        return a[:3] + [[rng.randint(1, 39)]] + a[4:]
    for a in sc["script"]:
        if a in vals:
            block.append(a)
            if rng.random() < 0.5:
                out += [fresh(x) for x in block * k]
                block = []
            continue
        out += [fresh(x) for x in block * k]
        block = []
        out.append(a)
    sc["script"] = out + [fresh(x) for x in block * k]
    return True


def add_emit(sc, rng):
    """Let sources emit part of what the script has them emit already while being subscribed."""
    emit = {}
    script = sc["script"]
    srcs = sorted({a[1] for a in script if a[0] == "s"})
    if sc["head"]["op"] in ("retry",):
        return
    for s in srcs:
        if rng.random() < 0.5:
            continue
        idx = [i for i, a in enumerate(script) if a[0] == "s" and a[1] == s]
        n = rng.randint(1, len(idx))
        ends = [m for m, i in enumerate(idx[:n]) if script[i][2] != "n"]
        if ends:
            n = ends[0] + 1
        if s == 1 and sc["head"]["op"] in ("catch",) and any(script[i][2] == "e" for i in idx[:n]):
            continue
        take = idx[:n]
        emit[str(s)] = [[script[i][2], script[i][3]] for i in take]
        script = [a for i, a in enumerate(script) if i not in take]
    if emit:
        sc["emit"] = emit
        sc["script"] = script


def gated(rec, conf, rng):
    """A behaviour of RxLife on the pipeline conf."""
    rec = dict(conf, script=copy.deepcopy(rec["script"]))
    sc = base(rec, rng)
    hop = rec["head"]["op"]
    dyn = hop in MERGE | SWITCH and hop not in ("merge", "merge_seq", "concat", "concat_seq")
    inner = 11 + rng.randint(0, 1)
    out = []
    for a in sc["script"]:
        if a[0] == "s":
            _, s, k, v = a
            if k == "n":
                if s == 1 and hop in ("merge_inner", "switch_latest"):
                    v = [100 + 11 + (v[0] - 1) % 2]
                elif s == 1 and dyn:
                    v = [1 + (v[0] - 1) % 2]
                elif any(o["op"] in PAIRY for o in rec["ops"]):
                    v = [v[0], 40]
                elif sc["classes"]:
                    v = [1 + (v[0] - 1) % len(sc["classes"])]
            a = ["s", inner if s == 2 and dyn else s, k, v]
        if timed(rec) and rng.random() < 0.4:
            out.append(["w", rng.choice([5, 10, 20, 40])])
        out.append(a)
    sc["script"] = out
    sc["gates"] = True
    sc["sched"] = pick_sched(rng) if rng.random() < 0.5 else {"mode": "settle"}
    if guarded(rec) and rng.random() < 0.6:
        sc["ill"] = sc["leaky"] = True
        sc["conc"] = rng.random() < 0.5
    elif hard(rec) and rng.random() < 0.5:
        sc["leaky"] = True
    sc["obs"] = [{}]
    return sc


def vary(rec, rng, profile):
    sc = base(rec, rng)
    one = {}
    tm = timed(rec)
    hop = rec["head"]["op"]
    p = profile
    if p == "plain":
        sc["sched"] = {"mode": "settle"}
        return sc
    if p == "mix":  # the bulk: schedules, slowness, values
        sc["sched"] = pick_sched(rng)
        one["slow"] = pick_slow(rng)
        if rng.random() < 0.25:
            sc["subpause"] = ("t", rng.randint(1, 4))
        if rng.random() < 0.2:
            sc["unsubpause"] = ("t", rng.randint(1, 4))
        if rng.random() < 0.4:
            sc["fnpause"] = [rng.choice([None, ("t", 1), ("t", 3)]) for _ in range(3)]
        if rng.random() < 0.2 and (hard(rec) or not any(a[0] == "d" for a in sc["script"])):
            sc["leaky"] = True
        if rng.random() < 0.25 and not tm:
            add_emit(sc, rng)
    elif p == "bulk":
        bulk(sc, rng)
        sc["sched"] = pick_sched(rng)
        one["slow"] = pick_slow(rng) if rng.random() < 0.5 else None
        if rng.random() < 0.3:
            sc["fnpause"] = [rng.choice([None, ("t", 1), ("t", 3)]) for _ in range(3)]
    elif p == "ticks":
        ticks(sc, rng)
        sc["sched"] = pick_sched(rng)
        one["slow"] = pick_slow(rng) if rng.random() < 0.5 else None
    elif p == "sched":  # pure scheduling
        sc["sched"] = pick_sched(rng, ("none", "k", "rand"))
        one["slow"] = pick_slow(rng)
    elif p == "raise":
        sc["sched"] = pick_sched(rng)
        one["slow"] = pick_slow(rng)
        if rng.random() < 0.8 or guarded(rec):
            one["raise_at"] = rng.randint(1, 4)
        else:
            one["raise_end"] = True
    elif p == "disp":  # scripts with a disposal in them, or disposal from inside the observer
        sc["sched"] = pick_sched(rng)
        one["slow"] = pick_slow(rng)
        if rng.random() < 0.5 and hard(rec):
            sc["leaky"] = True
        if rng.random() < 0.3:
            one["dispose_at"] = rng.randint(1, 4)
        if rng.random() < 0.3:
            sc["subpause"] = ("t", rng.randint(1, 4))
        if rng.random() < 0.3:
            sc["unsubpause"] = ("t", rng.randint(1, 4))
        if rng.random() < 0.3:
            sc["fnpause"] = [rng.choice([None, ("t", 1), ("t", 3)]) for _ in range(3)]
        if rng.random() < 0.2 and not tm:
            add_emit(sc, rng)
    elif p == "ill":  # badly behaved sources: concurrent pushes, pushes after the end
        sc["sched"] = pick_sched(rng, ("none", "k", "rand", "settle"))
        one["slow"] = pick_slow(rng)
        sc["ill"] = True
        sc["conc"] = rng.random() < 0.7
        sc["leaky"] = True
        scr = sc["script"]
        ends = [i for i, a in enumerate(scr) if a[0] == "s" and a[2] != "n"]
        srcs = sorted({a[1] for a in scr if a[0] == "s"})
        for _ in range(rng.randint(1, 4)):
            if not srcs:
                break
            s = rng.choice(srcs)
            if s == 1 and hop in ("merge_inner", "switch_latest"):
                v = [100 + 11 + rng.randint(0, 1)]
            elif any(o["op"] in PAIRY for o in rec["ops"]):
                v = [rng.randint(1, 4), 40]
            elif sc["classes"]:
                v = [rng.randint(1, len(sc["classes"]))]
            else:
                v = [rng.randint(1, 4)]
            ev = rng.choice([["s", s, "n", v], ["s", s, "n", v], ["s", s, "c", []], ["s", s, "e", [9]]])
            scr.insert(rng.randint(min(ends) if ends else 0, len(scr)), ev)
    elif p == "multi":  # several subscriptions to one pipeline
        sc["sched"] = pick_sched(rng)
        n = sc["nsub"] = rng.randint(2, 3)
        sc["obs"] = []
        for j in range(n):
            o = {"slow": pick_slow(rng)}
            r = rng.random()
            if r < 0.2:
                o["raise_at"] = rng.randint(1, 3)
            elif r < 0.4:
                o["dispose_at"] = rng.randint(1, 3)
            sc["obs"].append(o)
        if rng.random() < 0.5 and hop not in CREATOR:
            sc["substart"] = rng.randint(0, max(0, len(sc["script"]) - 1))
        out = []
        for a in sc["script"]:
            if a[0] == "d":
                a = ["d", rng.randint(1, n)]
            if a[0] == "s" and a[2] != "n" and rng.random() < 0.3 and hop == "one":
                a = a + [rng.randint(1, n)]
            out.append(a)
        sc["script"] = out
        if rng.random() < 0.3:
            sc["fnpause"] = [rng.choice([None, ("t", 1), ("t", 3)]) for _ in range(3)]
        return sc
    elif p == "settled":  # buffering operators in front of the head: one event at a time
        sc["sched"] = {"mode": "settle"}
        one["slow"] = pick_slow(rng, ms=False)
        if rng.random() < 0.3:
            one["dispose_at"] = rng.randint(1, 4)
        if rng.random() < 0.3:
            sc["unsubpause"] = ("t", rng.randint(1, 4))
    else:
        raise ValueError(p)
    sc["obs"] = [one]
    return sc
