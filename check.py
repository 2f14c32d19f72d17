#!/opt/venv/bin/python
"""check.py <property> [--replay file]: decides one property on /repo's working tree.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: the machinery failed.
"""
import json
import os
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import engine  # noqa: E402
import plans  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


def key(rec):
    return json.dumps([rec.get("head"), rec.get("ops"), rec.get("cfg")], sort_keys=True)


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.states = self.transitions = self.traces = self.events = self.vstates = 0
        self.suites, self.samples, self.bad, self.models = {}, [], [], {}
        self.broken = []
        self.clauses = set()
        self.cache = {}
        self.exhaustive = True
        self.known, self.found = known(pid), set()

    def scripts(self, job):
        k = (job["gen"], job["suite"], job.get("sim"), job.get("cfg"))
        if k not in self.cache:
            sim = job.get("sim")
            recs, gen, dist = engine.gen_scripts(
                job["suite"], cfg=job.get("cfg") or job["gen"] + ".cfg", module=job["gen"] + ".tla", simulate=sim,
                seed=SEED, workers=1 if sim else 4)
            self.cache[k] = recs
            self.states += dist or gen
            self.transitions += gen
            self.suites[job["suite"] + (" (simulated)" if sim else "")] = dict(behaviours=len(recs), states=dist or gen)
        return self.cache[k]

    def model(self, m):
        """Exhaustive model checking without generation."""
        mod, cfg, env = m
        gen, dist, out = engine.model_check(mod + ".tla", cfg, env, workers=8, heap="8g")
        self.states += dist
        self.transitions += gen
        self.models[f"{mod}/{cfg}/{','.join(env.values())}"] = dist

    def vacuity(self, m):
        """A deliberately broken variant of the model: TLC must find the violation."""
        mod, cfg, env = m
        out, gen, dist, rc = engine.tlc(mod + ".tla", cfg, env, workers=4)
        if rc not in (12, 13):
            raise engine.MachineryError(f"{mod} {cfg} {env} should have been violated: rc={rc}")
        self.broken.append(f"{mod}/{cfg}/{','.join(env.values())}")

    def confs(self, suites):
        seen = {}
        for s in suites:
            for r in self.scripts(dict(gen="RxGen", suite=s)):
                seen.setdefault(key(r), {k: r.get(k) for k in ("head", "ops", "classes", "cfg")})
        return [seen[k] for k in sorted(seen)]

    def job(self, n, job):
        rng = random.Random(SEED * 1000003 + n)
        recs = self.scripts(job)
        if job.get("only"):
            recs = [r for r in recs if job["only"](r)]
        want = job["n"]
        scs = []
        vary = job["vary"]
        if job.get("over"):
            confs = self.confs(job["over"])
            spin = [0]

            def vary(r, rng):
                spin[0] += 1
                return job["vary"](r, confs[spin[0] % len(confs)], rng)
        if want is None or want >= len(recs):
            reps = 1 if want is None else max(1, min(want // max(1, len(recs)), 400))
            for _ in range(reps):
                for r in engine.sample(recs, None, rng, key):
                    scs.append(vary(r, rng))
        else:
            self.exhaustive = False
            for r in engine.sample(recs, want, rng, key):
                scs.append(vary(r, rng))
        scs = [s for s in scs if s is not None]
        res = engine.run_shards(scs, job["runner"], job["trace"] + ".tla", job["trace"] + ".cfg")
        self.traces += res["traces"]
        self.events += res["events"]
        self.vstates += res["states"]
        self.states += res["states"]
        self.transitions += res["events"]
        if scs and len(self.samples) < 4:
            self.samples.append(dict(suite=job["suite"], scenario=scs[0]))
        cl = set(job["clauses"]) | {"hang", "crash"}
        self.clauses |= cl
        for sc, tr, bad in res["bad"]:
            hit = []
            for i, c in bad:
                if c not in cl:
                    continue
                sig = signature(sc, tr, c)
                if sig in self.known:
                    self.found.add(sig)
                else:
                    hit.append((i, c))
            if hit:
                self.bad.append((job, sc, tr, hit))


def confirm(job, sc, sigs=()):
    """Run it once more, alone and with plenty of time."""
    r = engine.run_shards([sc], job["runner"], job["trace"] + ".tla", job["trace"] + ".cfg", procs=1, seconds=60)
    cl = set(job["clauses"]) | {"hang", "crash"}
    out = []
    for _, tr, bad in r["bad"]:
        hit = [(i, c) for i, c in bad if c in cl and signature(sc, tr, c) not in sigs]
        if hit:
            out.append((tr, hit))
    return out


def known(pid):
    """{signature: description} of the listed findings."""
    out = {}
    with open(os.path.join(ROOT, "known_findings.txt")) as fh:
        for line in fh:
            if line.startswith(f"known: property={pid} "):
                sig, _, what = line.split(" ", 2)[2].strip().partition(" ")
                out[sig] = what
    return out


def signature(sc, tr, clause):
    ops = "+".join(o["op"] for o in sc.get("ops", []))
    return f"{sc.get('head', {}).get('op') or tr.get('kind', '')}|{ops}|{clause}"


def replay(path):
    with open(path) as fh:
        d = json.load(fh)
    job = dict(runner=d["runner"], trace=d["trace_module"], clauses=d["clauses"])
    hits = confirm(job, d["scenario"])
    for tr, hit in hits:
        show(tr, hit)
    print("reproduced" if hits else "not reproduced")
    return 1 if hits else 0


def show(tr, hit):
    for i, e in enumerate(tr["ev"], 1):
        if abs(i - hit[0][0]) > 60:
            continue
        mark = " ".join(c for j, c in hit if j == i)
        print(f"  {i:3d} " + " ".join(f"{k}={v}" for k, v in e.items() if v not in ("", [], 0)) + (f"   <== {mark}" if mark else ""))


def main():
    pid = sys.argv[1]
    if pid == "--replay":
        return replay(sys.argv[2])
    t0 = time.time()
    r = Run(pid)
    plan = plans.plan(pid, TIER)
    for m in plan.get("models", []):
        r.model(m)
    for m in plan.get("vacuity", []):
        r.vacuity(m)
    for n, job in enumerate(plan["jobs"]):
        r.job(n, job)
        if r.bad:
            break
    sigs = r.known
    for sig in sorted(r.found):
        print(f"KNOWN-FINDING: property={pid} {sig} {sigs[sig]}")
    news, seen = [], set()
    for job, sc, tr, hit in sorted(r.bad, key=lambda b: (len(b[2]["ev"]), len(b[1].get("script", [])))):
        s = signature(sc, tr, hit[0][1])
        if s in seen:
            continue
        seen.add(s)
        if len(news) < 3:
            again = confirm(job, sc, sigs)
            if again:
                news.append((job, sc, again[0][0], again[0][1]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking",
              coverage=dict(states=r.states, transitions=r.transitions, traces_validated_against_impl=r.traces,
                            trace_events=r.events, suites=r.suites, models=r.models, broken_variants_detected=r.broken, clauses=sorted(r.clauses),
                            samples=r.samples),
              assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(news))
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if news:
        d = os.path.join(ROOT, "replay")
        os.makedirs(d, exist_ok=True)
        for k, (job, sc, tr, hit) in enumerate(news):
            path = os.path.join(d, f"{pid}-{k}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=pid, runner=job["runner"], trace_module=job["trace"],
                               clauses=sorted(job["clauses"]), scenario=sc, violated=hit, trace=tr), fh, indent=1)
            if k == 0:
                show(tr, hit)
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"OK {pid}: {r.traces} executions validated ({r.events} events), {r.states} states, {time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
