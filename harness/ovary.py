"""Concrete executions of the object behaviours: schedules, values, observers."""
from variants import pick_sched

REACT = ["self", "other", "others", "sub", "push", "close", "ds"]


def base(rec, rng):
    return dict(rec, seed=rng.randrange(1 << 30), pal=rng.randrange(7), sched=pick_sched(rng))


def slow(rng, ms=True):
    c = [None, ("t", 1), ("t", 2), ("t", 5)] + ([("m", 10), ("m", 300)] if ms else [])
    return [rng.choice(c) for _ in range(rng.randint(1, 3))]


def subject(rec, rng):
    sc = base(rec, rng)
    sc.update(kind=rec["cfg"], cls=rng.choice([0, 0, 1, 2]), how=rng.choice(["obj", "fns"]))
    r = rng.random()
    obs = []
    for _ in range(rng.randint(1, 3)):
        o = {}
        if r < 0.5:
            o["gate"] = True
        elif rng.random() < 0.5:
            o["slow"] = slow(rng)
        if rng.random() < 0.3:
            o["at"] = rng.randint(1, 3)
            o["do"] = rng.choice(REACT if rec["cfg"] == "subject" else ["self", "push", "close", "ds"])
        if rng.random() < 0.12:
            o["raise_at"] = rng.randint(1, 2)
        obs.append(o)
    sc["obs"] = obs
    if rec["cfg"] == "subject" and rng.random() < 0.3:
        sc["who"] = rng.choice(["alike", "shared"])
        if sc["who"] == "shared":
            sc["how"] = "obj"
    return sc


def iterate(rec, rng):
    sc = base(rec, rng)
    sc["via"] = rng.choice(["method", "fn", "obj"])
    if rng.random() < 0.25 and not any(a[0] == "cancel" for a in rec["script"]):
        sc["subpause"] = rng.choice([("t", 1), ("t", 3), ("m", 50)])
    if rng.random() < 0.25:
        sc["unsubpause"] = rng.choice([("t", 1), ("t", 3), ("m", 50)])
    return sc


def running(rec, rng):
    sc = base(rec, rng)
    sc["limit"] = rng.choice([2000, 2000, 500, 4000, 1000, 1, 0])
    sc["default"] = rng.random() < 0.5
    sc["kw"] = rng.random() < 0.5
    sc["leaky"] = rng.random() < 0.3
    if rng.random() < 0.3:
        sc["slow"] = slow(rng)
    if rng.random() < 0.15:
        sc["raise_at"] = rng.randint(1, 3)
    if rng.random() < 0.2:
        sc["unsubpause"] = rng.choice([("t", 1), ("t", 3)])
    if rng.random() < 0.15 and not any(a[0] == "cancel" for a in rec["script"]):
        sc["subpause"] = rng.choice([("t", 1), ("t", 3)])
    if rec["cfg"] == "run" and rng.random() < 0.15 and not any(a[0] in ("cancel", "dp") for a in rec["script"]):
        sc.pop("slow", None)
        sc["emit"] = rng.choice([["n"], ["n", "n", "c"], ["c"], ["e"], ["n", "e"]])
    return sc


def recording(rec, rng):
    sc = running(dict(rec, cfg="await"), rng)
    sc["cfg"] = "await"
    sc.pop("raise_at", None)
    sc["script"] = [a for a in rec["script"] if a[0] in ("push", "w")]
    return sc


def vloop(rec, rng):
    sc = dict(rec, seed=rng.randrange(1 << 30))
    sc["unit"] = rng.choice([1.0, 0.25, 60.0, 0.001])
    sc["debug"] = rng.random() < 0.15
    sc["threadsafe"] = rng.random() < 0.3
    if rng.random() < 0.35:
        sc["bulk"] = {rng.randint(1, max(1, len(rec["script"]))): (rng.randint(90, 150), rng.choice([0.2, 0.55, 0.8, 1.0]))
                      for _ in range(rng.randint(1, 2))}
    if rng.random() < 0.2:
        sc["raising"] = [rng.randint(1, 6) for _ in range(2)]
    if rng.random() < 0.2:
        sc["stop"] = rng.randint(2, len(rec["script"]) + 1)
    sc["far"] = 1e6
    return sc


def scheduled(rec, rng):
    sc = base(rec, rng)
    sc["cls"] = rng.random() < 0.4
    sc["unit"] = rng.choice([100, 1, 5000, 33])
    return sc


def bridge(rec, rng):
    sc = base(rec, rng)
    sc["est"] = rng.random() < 0.6
    if rng.random() < 0.5:
        sc["subpause"] = rng.choice([("t", 1), ("t", 4), ("m", 50)])
        sc["estms"] = rng.choice([0, 50])
    if rng.random() < 0.3:
        sc["unsubpause"] = rng.choice([("t", 1), ("t", 3), ("m", 50)])
    if rng.random() < 0.2:
        sc["dispose_at"] = rng.randint(1, 3)
    if rng.random() < 0.15:
        sc["emit"] = rng.choice([["n"], ["n", "n"], ["n", "c"], ["e"]])
    return sc


def note(rec, rng):
    sc = base(rec, rng)
    sc["content"] = rng.randrange(6)
    sc["waited"] = rng.random() < 0.2
    r = rng.random()
    if r < 0.5:
        sc["gate"] = True
    elif r < 0.8:
        sc["slow"] = slow(rng)
    if rng.random() < 0.2:
        sc["raise_at"] = rng.randint(1, 2)
    return sc


def args(rec, rng):
    sc = base(rec, rng)
    sc["chain"] = rng.randrange(3)
    return sc


def failing(rec, rng):
    sc = base(rec, rng)
    sc["flavour"] = rng.randrange(12)
    sc["how"] = rng.choice(["obj", "obj", "fns", "iter", "sync", "run"])
    sc["ops"] = [rng.randrange(19) for _ in range(rng.choice([0, 0, 1, 1, 2]) + (rec["cfg"] == "one"))]
    sc["pre"] = rng.random() < 0.3
    sc["gate"] = rng.random() < 0.8
    sc["first"] = rng.random() < 0.15 and sc["how"] != "iter"
    if rng.random() < 0.3:
        sc["subpause"] = rng.choice([("t", 1), ("t", 4), ("m", 20)])
    if rng.random() < 0.3:
        sc["unsubpause"] = rng.choice([("t", 1), ("t", 4), ("m", 20)])
    if rng.random() < 0.3:
        sc["slow"] = rng.choice([("t", 1), ("t", 5), ("m", 30)])
    return sc
