"""Runs the pieces: TLC generating behaviours, the real code replaying them, TLC validating what happened."""
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"


class MachineryError(Exception):
    pass


def scratch():
    d = tempfile.mkdtemp(prefix="rxv_")
    return d


def tlc(module, cfg, env=None, workers=2, extra=(), heap="2g", timeout=850, serial=False):
    """Run TLC; returns (stdout, states generated, distinct states, return code)."""
    md = scratch()
    e = dict(os.environ)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if serial else "-XX:+UseParallelGC"
    cmd = ["java", f"-Xmx{heap}", gc, "-XX:TieredStopAtLevel=1" if serial else "-XX:+TieredCompilation",
           f"-Djava.io.tmpdir={md}", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", md, "-config", os.path.join(SPEC, cfg), *extra,
           os.path.join(SPEC, module)]
    try:
        p = subprocess.run(cmd, env=e, cwd=md, capture_output=True, text=True, timeout=timeout)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    gen = dist = 0
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout):
        gen, dist = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
    for m in re.finditer(r"number of states generated: ([\d,]+)", p.stdout, re.I):
        gen = max(gen, int(m[1].replace(",", "")))
    return p.stdout, gen, dist, p.returncode


def marks(out, tag):
    """Lines printed by PrintT("@X ...")."""
    res = []
    pre = f'"@{tag} '
    for line in out.splitlines():
        if line.startswith(pre):
            res.append(json.loads(line)[len(tag) + 2:])
    return res


def model_check(module, cfg, env=None, **kw):
    """Exhaustive check that must succeed; returns (gen, dist, out)."""
    out, gen, dist, rc = tlc(module, cfg, env, **kw)
    if rc != 0:
        raise MachineryError(f"TLC failed on {module} {cfg} {env}: rc={rc}\n{tail(out)}")
    return gen, dist, out


def tail(out, n=40):
    return "\n".join([x for x in out.splitlines() if not x.startswith('"@')][-n:])


def gen_scripts(suite, cfg="RxGen.cfg", module="RxGen.tla", simulate=None, seed=0, env=None, workers=2, key="RX_SUITE"):
    ex = []
    if simulate:
        num, depth = simulate
        ex = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed), "-aril", "0"]
    e = {key: suite}
    e.update(env or {})
    out, gen, dist, rc = tlc(module, cfg, e, workers=workers, extra=ex)
    if rc != 0:
        raise MachineryError(f"TLC failed generating {suite}: rc={rc}\n{tail(out)}")
    ss = sorted(set(marks(out, "S")))
    if not ss:
        raise MachineryError(f"TLC generated no scripts for {suite}")
    return [json.loads(s) for s in ss], gen, dist


def sample(recs, n, rng, keyf):
    """n records, spread evenly over the configurations."""
    if n is None or n >= len(recs):
        recs = list(recs)
        rng.shuffle(recs)
        return recs
    groups = {}
    for r in recs:
        groups.setdefault(keyf(r), []).append(r)
    for g in groups.values():
        rng.shuffle(g)
    order = sorted(groups)
    rng.shuffle(order)
    out, i = [], 0
    while len(out) < n:
        hit = False
        for k in order:
            if i < len(groups[k]):
                out.append(groups[k][i])
                hit = True
                if len(out) >= n:
                    break
        if not hit:
            break
        i += 1
    return out


# ------------------------------------------------------------------ validation
def validate(traces, module="RxTrace.tla", cfg="RxTrace.cfg"):
    """Returns {trace index: [(event index, clause)]}, states."""
    if not traces:
        return {}, 0
    d = scratch()
    f = os.path.join(d, "t.json")
    try:
        with open(f, "w") as fh:
            json.dump(traces, fh)
        out, gen, dist, rc = tlc(module, cfg, {"RX_TRACES": f}, workers=1, serial=True, heap="3g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    want = sum(len(t["ev"]) + 1 for t in traces)
    if rc != 0 or dist != want:
        raise MachineryError(f"validation incomplete: rc={rc} distinct={dist} expected={want}\n{tail(out)}")
    bad = {}
    for m in marks(out, "BAD"):
        t, i, c = m.split(" ")[:3]
        bad.setdefault(int(t) - 1, []).append((int(i), c))
    return bad, dist


def _shard(args, mark):
    """Run one shard of scenarios in this process and validate the recordings."""
    runner, scs, module, cfg, limit, seconds = args
    import importlib
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    modname, fn = runner.split(":")
    try:
        mod = importlib.import_module(modname)
    except Exception as ex:  # the library cannot even be imported
        return dict(fatal=f"import failed: {ex!r}")
    run = getattr(mod, fn)
    res = dict(n=0, events=0, states=0, bad=[], fatal=None, traces=0)
    batch, meta, evs, hangs = [], [], 0, 0

    def flush():
        nonlocal batch, meta, evs
        if not batch:
            return
        bad, st = validate(batch, module, cfg)
        res["states"] += st
        for t, cl in bad.items():
            res["bad"].append((meta[t], batch[t], cl))
        batch, meta, evs = [], [], 0

    try:
        for n, sc in enumerate(scs):
            mark.value = n
            t0 = time.monotonic()
            try:
                trs, extra = mod.guarded(run, sc, seconds)
            except (KeyboardInterrupt, MemoryError):
                trs = []
                res["bad"].append((sc, dict(kind="", ev=[dict(e="bad", k="hang")]), [(1, "hang")]))
            mark.value = -1
            if time.monotonic() - t0 > seconds * 0.9:
                hangs += 1
            res["n"] += 1
            for t in trs:
                batch.append(t)
                meta.append(sc)
                evs += len(t["ev"])
                res["events"] += len(t["ev"])
                res["traces"] += 1
            if evs > limit:
                flush()
            if hangs >= 2 or len(res["bad"]) > 200:
                break
        flush()
    except MachineryError as ex:
        res["fatal"] = str(ex)
    return res


def _child(conn, mark, args):
    try:
        conn.send(_shard(args, mark))
    except BaseException as ex:  # noqa: BLE001
        conn.send(dict(fatal=f"shard failed: {ex!r}"))
    finally:
        conn.close()


def run_shards(scs, runner="rxh:run_scenario", module="RxTrace.tla", cfg="RxTrace.cfg", procs=8, limit=60000, seconds=10):
    tot = dict(n=0, events=0, states=0, bad=[], traces=0)
    if not scs:
        return tot
    procs = max(1, min(procs, (len(scs) + 19) // 20))
    parts = [scs[i::procs] for i in range(procs)]
    ctx = mp.get_context("fork")
    jobs = []
    for p in parts:
        rd, wr = ctx.Pipe(False)
        mark = ctx.Value("l", -1)
        pr = ctx.Process(target=_child, args=(wr, mark, (runner, p, module, cfg, limit, seconds)))
        pr.start()
        wr.close()
        jobs.append(dict(p=p, rd=rd, mark=mark, pr=pr, seen=(-1, time.monotonic()), res=None))
    try:
        while True:
            live = [j for j in jobs if j["res"] is None]
            if not live:
                break
            mpc.wait([j["rd"] for j in live], 1.0)
            for j in live:
                lost = False
                if j["rd"].poll():
                    try:
                        j["res"] = j["rd"].recv()
                    except EOFError:
                        lost = True
                else:
                    n = j["mark"].value
                    if n != j["seen"][0]:
                        j["seen"] = (n, time.monotonic())
                    elif n >= 0 and time.monotonic() - j["seen"][1] > seconds * 2 + 20:
                        j["pr"].kill()
                        lost = True
                if lost:  # it ran out of memory or never came back: that is what this scenario does
                    n = j["mark"].value
                    if n < 0:
                        j["res"] = dict(fatal="a shard died while validating")
                    else:
                        tr = dict(kind="", ev=[dict(e="bad", k="hang")])
                        j["res"] = dict(n=n, events=0, states=0, traces=0, bad=[(j["p"][n], tr, [(1, "hang")])])
    finally:
        for j in jobs:
            j["pr"].kill() if j["pr"].is_alive() and j["res"] is None else None
            j["pr"].join()
    for j in jobs:
        r = j["res"]
        if r.get("fatal"):
            raise MachineryError(r["fatal"])
        for k in ("n", "events", "states", "traces"):
            tot[k] += r[k]
        tot["bad"] += r["bad"]
    return tot
