"""C11: everything that the program declares is requested exactly once, and the program isn't done before all of that is."""
import asyncio
import time
from collections import Counter

import pulumi

from pv.engine import Engine, observe, run_program
from pv.graph import Custom, Run, generate, program_sig

CASE_TIMEOUT = 900
RULE = ("One case = one random program (resources, component trees, reads, functions, calls; at the top level and inside callbacks, nested "
        "callbacks and asyncio tasks) under an engine that answers in adversarial order or with delays; requests are matched one to one with "
        "the declarations that a model says are executed; distinct by (program shape, order of answers), non-trivial if callbacks or tasks declared something.")
ASSUMPTIONS = ["the contents of the requests are decided by C05, C08, C09, C18 and C19", "programs that fail are decided by C12"]
ENTITY = ("custom", "remote", "read", "get", "prov", "comp", "invoke", "call")


def plan(tier, seed):
    n = 2500 if tier == "quick" else 12000
    slow = [{"i": i, "slow": 22 if tier == "quick" else 100, "preview": i % 2 == 0} for i in range(2 if tier == "quick" else 8)]
    return slow + [{"i": i, "preview": i % 3 == 0, "schedule": ["shuffle", "lifo", "sleep", None][i % 4]} for i in range(n)]


def minimum(tier):
    return {"slow": 2, "declared": 3000, "late_declared": 500, "callbacks": 300, "tasks": 100, "skipped": 50, "settled": 1500}


def run_slow(case, ctx):
    """Answers, callbacks and tasks may take long."""
    r = ctx.rng()
    long = case["slow"]
    seen = []

    def on_register(req, _):
        time.sleep({"a": long, "c": 2}.get(req.name, 0))
        return {"object": {"p": req.name}}

    eng = Engine(preview=case["preview"], on_register=on_register, on_outputs=lambda req: time.sleep(1), on_invoke=lambda req: time.sleep(1) or ("return", {}))

    async def task():
        await asyncio.sleep(2 * long)
        seen.append("task")
        Custom("c", {"x": b.p})

    b = None

    def program():
        nonlocal b
        a = Custom("a")
        b = Custom("b", {"x": a.p} if r.random() < 0.5 else None)
        asyncio.ensure_future(task())
        a.p.apply(lambda _: (seen.append("apply"), Custom("d"), pulumi.runtime.invoke("test:index:f", {})))
        pulumi.export("o", a.p)

    start = time.time()
    res = run_program(program, eng, preview=case["preview"], hang_s=3 * long, wall_s=8 * long)
    ctx.evaluated()
    ctx.count("slow")
    names = sorted(e.req.name for e in eng.events if e.method == "RegisterResource")
    ctx.check(res.ok and sorted(seen) == ["apply", "task"] and names == ["a", "b", "c", "d", "proj-stk"], "slow", lambda: f"with answers that take {long} s: {res!r} {seen} {names} after {time.time() - start:.1f} s")
    ctx.check(all(e.end is not None for e in eng.events) and len([e for e in eng.events if e.method == "RegisterResourceOutputs"]) == 1, "slow", lambda: f"{eng.events}")


def run(case, ctx):
    if case.get("slow"):
        run_slow(case, ctx)
        return
    r = ctx.rng()
    gen = generate(r, case["preview"], invokes=r.random() < 0.5, size=r.choice([5, 10, 16, 24]), tail=0.3)

    async def after(run):
        out = {"unanswered": [repr(e) for e in run.engine.events if e.end is None], "finished": list(run.finished_tasks), "settled": 0}
        for x in list(run.env.values()):
            for o in [x] if isinstance(x, pulumi.Output) else [x.urn, getattr(x, "p", None), getattr(x, "id", None)]:
                if isinstance(o, pulumi.Output):
                    got = await observe(o)
                    out["settled"] += 1
                    if got[0] != "ok":
                        out.setdefault("failed", []).append(repr(got[1]))
        return out

    run = Run(gen, preview=case["preview"], schedule=case["schedule"], seed=case["i"], after=after)
    res = run.result
    prog = lambda: f"{gen.root!r}"[:3000]
    if not ctx.check(res.ok, "program-failed", lambda: f"{res!r} {prog()}"):
        return
    got = res.state["after"]
    ctx.check(not got["unanswered"], "finished-early", lambda: f"the program returned while {got['unanswered'][:5]} were unanswered; {prog()}")
    ctx.check(res.leftover_tasks == 0, "leftover-tasks", lambda: f"{res.leftover_tasks} tasks were still pending when the program returned; {prog()}")
    ctx.check(sorted(got["finished"]) == sorted(run.started_tasks), "task-not-awaited",
              lambda: f"tasks {sorted(set(run.started_tasks) - set(got['finished']))} hadn't finished when the program returned; {prog()}")
    ctx.check("failed" not in got, "output-failed", lambda: f"Outputs failed: {got['failed'][:3]}; {prog()}")
    ctx.count("settled", got["settled"])
    late = 0
    top = {id(s) for s in gen.root}
    for st in gen.all:
        ctx.evaluated()
        es = run.events.get(st.key, []) if st.key else []
        if st.kind in ENTITY or st.kind == "outputs":
            want = 1 if st.executed else 0
            ctx.check(len(es) == want, "wrong-number-of-requests", lambda: f"{st!r} led to {len(es)} requests, expected {want}; {prog()}")
            if not want:
                ctx.count("skipped")
            else:
                ctx.count("declared")
                if id(st) not in top:
                    ctx.count("late_declared")
                    late += 1
            if st.kind == "comp" and st.outs is None:
                n = len(run.events.get(("outs", st.name), []))
                ctx.check(n == 0, "wrong-number-of-requests", lambda: f"{n} sets of outputs of {st.name}, which has none")
        if st.kind == "apply":
            n = run.order.count(st.name)
            want = 1 if st.executed and gen.known(st.src) else 0
            ctx.check(n == want, "wrong-number-of-calls", lambda: f"the callback of {st!r} ran {n} times, expected {want}; {prog()}")
            ctx.count("callbacks", n)
        if st.kind == "task":
            ctx.count("tasks", run.started_tasks.count(st.name))
    extra = Counter(k for k, es in run.events.items() for _ in es) - Counter(
        [s.key for s in gen.all if s.key and s.executed] + [("res", "proj-stk"), ("outs", "proj-stk")])
    ctx.check(not extra, "surplus-requests", lambda: f"requests that nothing declared: {extra}; {prog()}")
    outs = run.events.get(("outs", "proj-stk"), [])
    if ctx.check(len(outs) == 1, "stack-outputs", lambda: f"stack outputs were registered {len(outs)} times; {prog()}"):
        names = {s.name for s in gen.root if s.kind == "export"}
        sent = set(outs[0].req.outputs.fields)
        # What callbacks export may come too late for the stack's outputs.
        ctx.check(names <= sent <= set(run.exports), "stack-outputs", lambda: f"stack outputs {sorted(sent)} != {sorted(names)}; {prog()}")
    if late:
        ctx.sig(program_sig(gen) + run.engine.order_sig())
        ctx.sample({"program": repr(gen.root)[:800], "answers": run.engine.order_sig()[:400]})
