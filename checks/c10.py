"""C10: a request is sent only after everything it needs has been answered, and doesn't wait for anything else."""
from pv.graph import Run, generate, program_sig

RULE = ("One case = one random program (resources, component trees, reads, functions, callbacks and tasks that declare more) under an engine "
        "that answers in adversarial order. For each request, all that it needs must have been answered before; and whenever the program "
        "is quiescent, each declared resource that wasn't requested yet must still lack something it needs; distinct by (program shape, "
        "order of answers), non-trivial if a request has prerequisites.")
ASSUMPTIONS = ["quiescence: the event loop sleeps and all executor jobs are held by the engine"]


def plan(tier, seed):
    n = 2000 if tier == "quick" else 9000
    return [{"i": i, "preview": i % 4 == 0, "schedule": ["shuffle", "lifo", "shuffle", "sleep", None][i % 5], "invokes": i % 3 == 0} for i in range(n)]


def minimum(tier):
    return {"prerequisites": 3000, "quiet_points": 500, "reordered": 200, "waiting_checked": 150}


def run(case, ctx):
    r = ctx.rng()
    gen = generate(r, case["preview"], invokes=case["invokes"], size=r.choice([5, 10, 16]))
    by_name = {s.name: s for s in gen.all if s.kind in ("custom", "remote", "read", "get", "prov", "comp", "call")}
    problems = []

    def quiet(run):
        req, done = run.snapshot()
        ctx.count("quiet_points")
        for n in list(run.declared):
            st = by_name.get(n)
            if st is None or st.key in req:
                continue
            ctx.count("waiting_checked")
            may = gen.may(st)
            if may <= done:
                problems.append(f"{st!r} waits although all of {sorted(may)} were answered; requested {sorted(req - done)}")

    run = Run(gen, preview=case["preview"], schedule=case["schedule"], seed=case["i"], on_quiet=quiet if not case["invokes"] else None)
    ctx.count("reordered", run.engine.reordered)
    if not ctx.check(run.result.ok, "program-failed", lambda: f"{run.result!r} {gen.root!r}"):
        return
    ctx.check(not problems, "unneeded-wait", lambda: "; ".join(problems[:3]) + f" in {gen.root!r}")
    ends = {k: max(e.end or 1 << 60 for e in es) for k, es in run.events.items()}
    n = 0
    for st in gen.all:
        if st.key is None or not st.executed:
            continue
        for e in run.events.get(st.key, []):
            ctx.evaluated()
            for a in st.after:
                n += 1
                ctx.count("prerequisites")
                ctx.check(ends.get(a, 1 << 60) < e.seq, "sent-too-early",
                          lambda: f"the request for {st!r} was sent (at {e.seq}) before {a} was answered (at {ends.get(a)}); {gen.root!r}")
    if n:
        ctx.sig(program_sig(gen) + run.engine.order_sig())
        ctx.sample({"program": repr(gen.root)[:800], "answers": run.engine.order_sig()[:400]})
