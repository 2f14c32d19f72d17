"""What each property's check runs: which specification suites, which executions of the real code, which clauses."""
import os

import ovary
import variants

VAL = {"wrong", "wrongend", "wrongerr", "lost", "lostend", "losterr"}
TIME = {"soon", "late"}
LIFE = {"sub", "starve", "early", "drop"}
FN = {"fnmore", "fnless"}
EXC = {"swallow", "raise", "fail", "faillost"}
SEM = VAL | TIME | LIFE | FN | EXC | {"grammar"}
ALL = SEM | {"serial", "silence", "detach", "bp", "undone"}


def stream(suite, profile, n, clauses, sim=None, post=None, only=None):
    def vary(rec, rng):
        sc = variants.vary(rec, rng, profile)
        if post and sc:
            sc = post(sc, rng)
        return sc
    if profile == "bulk":
        only = variants.valued
    return dict(gen="RxGen", only=only, suite=suite, sim=sim, n=n, vary=vary, clauses=clauses, runner="rxh:run_scenario",
                trace="RxTrace")


def life(cfg, suites, n, clauses, sim=None):
    """Behaviours of RxLife played on the pipelines of these suites, by holding await points open."""
    return dict(gen="RxLife", suite=cfg, cfg=cfg + ".cfg", sim=sim, n=n, over=suites, vary=variants.gated, clauses=clauses,
                runner="rxh:run_scenario", trace="RxTrace")


def obj(gen, cfg, vary, runner, n, clauses, sim=None):
    return dict(gen=gen, suite=cfg, cfg=cfg + ".cfg", sim=sim, n=n, vary=vary, clauses=clauses, runner="objh:" + runner,
                trace="ObjTrace")


SUBJ = {"ghost", "undone", "order", "lost", "noraise", "raise", "hang", "bp", "grammar"}


def op_plan(suite, q, clauses=SEM, longsuite=None, raises=True, multi=True, lazy=False, extra=(), bulk=True):
    jobs = [stream(suite, "plain", min(4000, q * 3), clauses), stream(suite, "mix", q * 3, clauses)]
    if raises:
        jobs.append(stream(suite, "raise", q, clauses))
    if multi:
        jobs.append(stream(suite, "multi", q, clauses))
    if bulk:
        jobs.append(stream(suite, "bulk", q // 5, clauses))
    if longsuite:
        jobs.append(stream(longsuite, "mix", q, clauses, sim=(max(150, q // 3), 60)))
    models = [("RxGen", "RxGenLazy.cfg", {"RX_SUITE": suite})] if lazy else []
    return dict(jobs=jobs + list(extra), models=models)


def has(op):
    return lambda rec: any(o["op"] == op for o in rec["ops"])


def headed(*ops):
    return lambda rec: rec["head"]["op"] in ops


def fronted(n, clauses, k, only=None, profiles=("mix", "raise", "disp")):
    """Operators in front of a head that combines several sequences."""
    sim = (int(1200 * k), 40)
    return [stream("pres", p, n, clauses, sim=sim, only=only) for p in profiles] + [
        stream("presB", "settled", n, clauses, sim=sim, only=only)]


def plan(pid, tier):
    k = float(os.environ.get("RX_K", 1 if tier == "quick" else 12))  # how many executions
    q = int(900 * k)
    mixed = (int(1500 * k), 40)
    one, two, longer = ["single", "timed"], ["multi"], ["single", "multi"]

    def lives(g, n=1):
        return [life("RxLifeGen1", one, q * 2 * n, g), life("RxLifeGen2", two, q * 3 * n, g),
                life("RxLifeLong", longer, q * 2 * n, g, sim=(int(500 * k), 60))]
    lifem = [("RxLife", "RxLife.cfg", {})]

    def broken(*names):
        return [("RxLife", "RxLifeBad.cfg", {"RX_BREAK": b}) for b in names]
    if pid == "C01":
        g = {"grammar"}
        return dict(jobs=[
            stream("multi", "mix", q * 2, g), stream("single", "mix", q * 2, g), stream("single", "raise", q * 2, g),
            stream("multi", "raise", q, g), stream("created", "mix", q, g), stream("created", "raise", q, g),
            stream("timed", "raise", q, g), stream("timed", "mix", q, g),
            stream("single", "ill", q * 2, g, only=variants.guarded), stream("multi", "ill", q * 2, g, only=variants.guarded),
            stream("timed", "ill", q, g, only=variants.guarded),
            stream("mixes", "mix", q, g, sim=mixed), stream("mixes", "raise", q, g, sim=mixed),
            stream("mixes", "ill", q, g, sim=mixed, only=variants.guarded)] + fronted(q, g, k) + lives(g),
            models=lifem, vacuity=broken("grammar"))
    if pid == "C02":
        g = {"serial"}
        return dict(jobs=[
            stream("multi", "sched", q * 2, g), stream("single", "sched", q * 2, g), stream("created", "sched", q * 2, g),
            stream("timed", "sched", q, g),
            stream("single", "ill", q * 3, g, only=variants.guarded), stream("multi", "ill", q * 3, g, only=variants.guarded),
            stream("timed", "ill", q, g, only=variants.guarded), stream("single", "multi", q, g),
            stream("mixes", "sched", q, g, sim=mixed), stream("mixes", "ill", q, g, sim=mixed, only=variants.guarded)] + lives(g))
    if pid == "C03":
        g = {"silence", "undone"}
        return dict(jobs=[
            stream("singleD", "disp", q * 4, g), stream("multiD", "disp", q * 4, g), stream("timedD", "disp", q * 2, g),
            stream("createdD", "disp", q * 2, g), stream("singleD", "multi", q, g),
            stream("singleD", "ill", q * 2, g, only=variants.guarded), stream("multiD", "ill", q * 2, g, only=variants.guarded),
            stream("mixes", "disp", q * 2, g, sim=mixed), stream("mixesT", "disp", q, g, sim=mixed)] + fronted(q, g, k, profiles=("disp",)) + lives(g),
            models=lifem, vacuity=broken("silence"))
    if pid == "C04":
        g = {"detach", "early", "drop"}
        return dict(jobs=[
            stream("single", "mix", q * 2, g), stream("multi", "mix", q * 2, g), stream("single", "raise", q * 2, g),
            stream("multi", "raise", q * 2, g), stream("singleD", "disp", q * 2, g), stream("multiD", "disp", q * 3, g),
            stream("timedD", "disp", q, g), stream("timed", "raise", q, g), stream("singleD", "multi", q, g),
            stream("multiD", "multi", q, g), stream("mixes", "disp", q * 2, g, sim=mixed),
            stream("mixes", "raise", q, g, sim=mixed), stream("mixesT", "disp", q, g, sim=mixed)] + fronted(q, g, k) + lives(g),
            models=lifem, vacuity=broken("late", "detach", "fail"))
    if pid == "C05":
        g = VAL
        return dict(jobs=[
            stream("single", "sched", q * 3, g), stream("multi", "sched", q * 4, g), stream("created", "sched", q, g),
            stream("single", "bulk", q // 10, g), stream("multi", "bulk", q // 10, g),
            stream("mixes", "sched", q * 3, g, sim=mixed),
            stream("singleL", "sched", q, g, sim=(int(200 * k), 40)), stream("multiL", "sched", q, g, sim=(int(300 * k), 50))]
            + fronted(q, g, k, profiles=("mix",)) + lives(g),
            models=lifem + [("RxGen", "RxGenLazy.cfg", {"RX_SUITE": "multi"})])
    if pid == "C06":
        return op_plan("elements", q, longsuite="elementsL")
    if pid == "C07":
        return op_plan("positions", q, longsuite="positionsL",
                       extra=[obj("Args", "ArgsGen", ovary.args, "run_args", 60, {"allowed", "refused"})])
    if pid == "C08":
        return op_plan("distinct", q, longsuite="distinctL")
    if pid == "C09":
        return op_plan("folds", q, longsuite="foldsL")
    if pid == "C10":
        return op_plan("merge", q * 2, longsuite="mergeL", lazy=True, extra=fronted(q, SEM, k, headed("merge", "merge_seq", "merge_inner", "flat_map"), ("mix", "raise")))
    if pid == "C11":
        return op_plan("concat", q * 2, longsuite="concatL", lazy=True, extra=fronted(q, SEM, k, headed("concat", "concat_seq", "concat_map"), ("mix", "raise")))
    if pid == "C12":
        return op_plan("switch", q * 2, longsuite="switchL", lazy=True, extra=fronted(q, SEM, k, headed("switch_latest", "flat_map_latest"), ("mix", "raise")))
    if pid == "C13":
        return op_plan("combine", q, longsuite="combineL", lazy=True, extra=fronted(q, SEM, k, headed("combine_latest", "with_latest_from"), ("mix", "raise")))
    if pid == "C14":
        return op_plan("until", q, longsuite="untilL", lazy=True, extra=fronted(q, SEM, k, headed("take_until"), ("mix", "raise")))
    if pid == "C15":
        return op_plan("catch", q, longsuite="catchL", lazy=True, extra=fronted(q, SEM, k, headed("catch", "retry"), ("mix", "raise")))
    if pid == "C16":
        return op_plan("creators", q, bulk=False, extra=[stream("created", "mix", q, SEM)])
    if pid == "C17":
        return op_plan("clocks", q, bulk=False, longsuite="clocksL", extra=[stream("clocks", "disp", q, SEM), stream("clocks", "ticks", q // 15, SEM)])
    if pid == "C18":
        return op_plan("delay", q, longsuite="delayL", extra=[stream("delay", "disp", q, SEM), stream("mixesT", "mix", q, SEM, sim=mixed, only=has("delay"))])
    if pid == "C19":
        return op_plan("debounce", q, longsuite="debounceL", extra=[stream("debounce", "disp", q, SEM), stream("mixesT", "mix", q, SEM, sim=mixed, only=has("debounce"))])
    if pid == "C24":
        g = {"bp"}
        un = lambda r: not variants.guarded(r) and r["head"]["op"] != "retry"  # noqa: E731
        return dict(jobs=[
            obj("Subject", "SubjectGen", ovary.subject, "run_subject", q * 3, g),
            obj("Single", "SingleGen", ovary.subject, "run_subject", q * 3, g),
            stream("unbuf", "mix", q * 3, g, only=un), stream("unbuf", "sched", q * 3, g, only=un),
            stream("unbufD", "disp", q * 2, g, only=un), life("RxLifeGen1", ["unbuf"], q * 2, g)])
    if pid == "C26":
        def chain(sc, rng):
            sc["flavour"] = "chain"
            sc["how"] = rng.choice(["obj", "fns", "pipe", "obj+", "fns+"])
            sc["index"] = rng.random() < 0.7
            return sc

        def ways(sc, rng):
            sc["how"] = rng.choice(["obj", "fns", "pipe", "obj+", "fns+"])
            return sc
        g = ALL
        return dict(jobs=[
            stream("single", "mix", q * 3, g, post=chain), stream("multi", "mix", q * 3, g, post=chain),
            stream("positions", "mix", q * 2, g, post=chain), stream("elements", "mix", q * 2, g, post=chain),
            stream("folds", "mix", q, g, post=chain), stream("created", "mix", q, g, post=chain),
            stream("timed", "mix", q, g, post=chain), stream("singleD", "disp", q, g, post=chain),
            stream("single", "mix", q, g, post=ways), stream("multi", "mix", q, g, post=ways),
            stream("multi", "multi", q, g, post=chain), stream("single", "multi", q, g, post=chain),
            stream("createdD", "multi", q, g, post=chain), stream("mixes", "mix", q, g, sim=mixed, post=chain)])
    if pid == "C27":
        g = ALL
        return dict(jobs=[
            stream("single", "multi", q * 2, g), stream("singleD", "multi", q * 2, g), stream("multi", "multi", q * 2, g),
            stream("multiD", "multi", q * 2, g), stream("timedD", "multi", q * 2, g), stream("createdD", "multi", q * 2, g),
            stream("mixes", "multi", q * 2, g, sim=mixed), stream("pres", "multi", q * 2, g, sim=mixed)])
    if pid == "C28":
        g = {"wrongerr", "losterr", "fail", "faillost", "swallow", "raise"}
        return dict(jobs=[
            stream("single", "mix", q * 2, g), stream("multi", "mix", q * 3, g), stream("single", "raise", q * 3, g),
            stream("multi", "raise", q * 3, g), stream("timed", "raise", q, g), stream("created", "raise", q, g),
            stream("timed", "mix", q, g), stream("elements", "raise", q, g), stream("mixes", "mix", q, g, sim=mixed),
            stream("mixes", "raise", q, g, sim=mixed)] + fronted(q, g, k) + lives(g))
    if pid == "C20":
        return dict(jobs=[obj("Subject", "SubjectGen", ovary.subject, "run_subject", q * 12, SUBJ),
                          obj("Subject", "SubjectLong", ovary.subject, "run_subject", q * 3, SUBJ, sim=(int(1500 * k), 60))],
                    models=[("Subject", "Subject.cfg", {})])
    if pid == "C21":
        return dict(jobs=[obj("Single", "SingleGen", ovary.subject, "run_subject", q * 12, SUBJ),
                          obj("Single", "SingleLong", ovary.subject, "run_subject", q * 3, SUBJ, sim=(int(1500 * k), 60))],
                    models=[("Single", "Single.cfg", {})])
    if pid == "C22":
        def it(sc, rng):
            sc["how"] = "iter"
            for o in sc.get("obs") or []:
                for x in ("raise_at", "raise_end", "dispose_at"):
                    o.pop(x, None)
            return sc
        g = {"wrong", "after", "bp", "hang", "held", "detach", "starve", "sub", "early", "raise", "undone"}
        return dict(jobs=[obj("Iter", "IterGen", ovary.iterate, "run_iter", q * 8, g),
                          obj("Iter", "IterLong", ovary.iterate, "run_iter", q * 2, g, sim=(int(1500 * k), 60)),
                          stream("single", "mix", q, VAL, post=it), stream("multi", "mix", q, VAL, post=it),
                          stream("created", "mix", q, VAL, post=it), stream("single", "multi", q // 2, VAL, post=it),
                          stream("createdD", "multi", q // 2, VAL, post=it)],
                    models=[("Iter", "Iter.cfg", {})])
    if pid == "C23":
        g = {"wrong", "soon", "late", "detach", "early", "hang", "cbmore", "cbless", "raise"}
        return dict(jobs=[obj("Run", "RunGen", ovary.running, "run_run", q * 12, g),
                          obj("Run", "RunLong", ovary.running, "run_run", q * 3, g, sim=(int(1500 * k), 40))],
                    models=[("Run", "Run.cfg", {})])
    if pid == "C25":
        g = {"twice", "cancelled", "fifo", "clock", "jump", "order", "ghost", "missed"}
        return dict(jobs=[obj("VLoop", "VLoopGen", ovary.vloop, "run_vloop", q * 5, g),
                          obj("VLoop", "VLoopLong", ovary.vloop, "run_vloop", q * 3, g, sim=(int(1500 * k), 60))],
                    models=[("VLoop", "VLoop.cfg", {})])
    if pid == "C29":
        g = {"record", "cbtwice", "cbmore", "cbless", "raise", "grammar", "soon", "late", "lost", "ghost"}
        return dict(jobs=[obj("TestUtil", "TestUtilGen", ovary.scheduled, "run_sched", q * 6, g),
                          obj("Run", "RunGen", ovary.recording, "run_rec", q * 6, g)],
                    models=[("TestUtil", "TestUtil.cfg", {})])
    if pid == "C30":
        g = {"wrong", "lost", "silence", "detach", "grammar", "early", "starve", "sub", "raise", "undone"}
        return dict(jobs=[obj("Bridge", "BridgeGen", ovary.bridge, "run_bridge", q * 8, g)],
                    models=[("Bridge", "Bridge.cfg", {})])
    if pid == "C31":
        g = {"wrong", "more", "less", "bp", "swallow", "raise", "equal", "hang"}
        return dict(jobs=[obj("Note", "NoteGen", ovary.note, "run_note", q * 6, g),
                          obj("Note", "NoteLong", ovary.note, "run_note", q * 2, g, sim=(int(1500 * k), 60))],
                    models=[("Note", "Note.cfg", {})])
    if pid == "C32":
        g = {"lost", "wrong", "grammar", "silence", "detach", "undone"}
        return dict(jobs=[obj("SubFail", "SubFailGen", ovary.failing, "run_fail", q * 8, g),
                          obj("SubFail", "SubFailPair", ovary.failing, "run_fail", q * 4, g)],
                    models=[("SubFail", "SubFail.cfg", {})])
    raise SystemExit(f"no plan for {pid}")
