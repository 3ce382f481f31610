"""C12: a failure anywhere fails the program with its reason, never hangs it, and nothing that needs what failed is requested."""
import asyncio

import grpc
import pulumi

from pv.engine import Engine, RpcFault, observe, run_program
from pv.graph import Run, generate, program_sig

RULE = ("One case = one random program with one injected failure (the engine rejects a resource, read, function, call, outputs or feature query; "
        "a provider reports failures; a callback, component body or the main program raises; an input is an awaitable that raises, an Output "
        "whose callback raises, or not serializable; the program catches a failing function) under adversarial answer orders; distinct by "
        "(program shape, kind and place of the failure), non-trivial if the failure was reached.")
ASSUMPTIONS = ["exceptions of asyncio tasks that the program creates itself and never awaits are out of scope",
               "after one failure, which of the other pending requests are still made is not specified"]
KINDS = ["rpc", "rpc", "rpc", "failures", "unavailable", "callback", "before", "input", "input", "catch", "feature", "answer", "alone"]


def plan(tier, seed):
    n = 3900 if tier == "quick" else 14000
    return [{"i": i, "preview": i % 4 == 1, "schedule": ["shuffle", "lifo", "sleep", None][i % 4], "kind": KINDS[i % len(KINDS)]} for i in range(n)]


def minimum(tier):
    return {"settled": 700, "failed": 300, "dependents": 300, "caught": 15, "kind_rpc": 60, "kind_callback": 15, "kind_input": 30, "kind_before": 20,
            "kind_feature": 10, "kind_failures": 15, "kind_answer": 15, "kind_unavailable": 15, "kind_alone": 60}


class Odd:
    pass


def bad_input(r, reason):
    async def raising():
        await asyncio.sleep(0)
        raise ValueError(reason)

    def cb(_):
        raise ValueError(reason)

    how = r.choice(["coro", "task", "apply", "nested", "type", "deep", "settype"])
    if how == "coro":
        return raising, reason
    if how == "task":
        return lambda: asyncio.ensure_future(raising()), reason
    if how == "apply":
        return lambda: pulumi.Output.from_input(1).apply(cb), reason
    if how == "nested":
        return lambda: {"a": [pulumi.Output.from_input(raising())]}, reason
    if how == "deep":
        return lambda: [{"a": {"b": Odd()}}], "Odd"
    return (lambda: {1, 2}, "set") if how == "settype" else (lambda: Odd(), "Odd")


def containers(body, up, out):
    for st in body:
        out[id(st)] = up
        containers(st.body, (st, up), out)


def alone(case, ctx, r):
    """A callback that nothing awaits fails while all that's under way is something else that the program does."""
    reason = f"reason-{case['i']} ü"
    how = r.choice(["apply", "nested", "all", "coroutine", "item", "resource"])
    wait, slow, n = r.choice([0.0, 0.01, 0.03]), r.choice([0.0, 0.06, 0.12]), r.choice([0, 1, 3])
    ran = []

    def boom(_):
        ran.append(1)
        raise ValueError(reason)

    async def boomlater(_):
        await asyncio.sleep(r.choice([0, 0.005]))
        boom(_)

    def prog():
        res = pulumi.CustomResource("test:index:R", "r", {"p": None}) if how == "resource" or r.random() < 0.4 else None

        async def start():
            await asyncio.sleep(wait)
            o = pulumi.Output.from_input(1)
            if how == "apply":
                o.apply(boom)
            elif how == "nested":
                o.apply(lambda _: pulumi.Output.from_input(2).apply(boom) and 3)
            elif how == "all":
                pulumi.Output.all(o, [pulumi.Output.secret(2)]).apply(boom)
            elif how == "coroutine":
                o.apply(boomlater)
            elif how == "item":
                pulumi.Output.from_input({"a": [1]})["a"][0].apply(boom)
            else:
                res.urn.apply(boom)

        if slow:
            asyncio.ensure_future(asyncio.sleep(slow))
        task = asyncio.ensure_future(start())
        for _ in range(n):
            pulumi.Output.from_input(task).apply(lambda v: v)

    eng = Engine(preview=case["preview"], schedule=case["schedule"], seed=case["i"])
    res = run_program(prog, eng, preview=case["preview"])
    what = f"{how} after {wait} with {slow} and {n} more"
    ctx.evaluated()
    if not ctx.check(res.stuck is None, "hangs", lambda: f"{what}: {res.stuck}"):
        return
    ctx.check(len(ran) == 1, "callback", lambda: f"{what}: the callback ran {len(ran)} times; {res!r}")
    if ctx.check(res.exc is not None, "failure-lost", lambda: f"{what}: the program succeeded"):
        ctx.check(reason in str(res.exc), "wrong-reason", lambda: f"{what}: {res.exc!r}")
        ctx.count("failed")
        ctx.count("kind_alone")
        ctx.sig(what)


def run(case, ctx):
    r = ctx.rng()
    kind = case["kind"]
    if kind == "alone":
        alone(case, ctx, r)
        return
    for _ in range(200):
        gen = generate(r, case["preview"], invokes=kind in ("failures", "catch", "unavailable") or r.random() < 0.3, size=r.choice([4, 8, 14]), tail=0.5)
        up = {}
        containers(gen.root, None, up)

        def guard(st):
            """The nearest statement around st in which an exception ends up: an apply, a task or None for the main program."""
            u = up.get(id(st))
            while u is not None and u[0].kind not in ("apply", "task"):
                u = u[1]
            return u and u[0]

        ok = {"rpc": lambda s: s.kind in ("custom", "remote", "read", "get", "prov", "comp", "outputs", "call") or s.kind == "invoke" and not in_task(s),
              "unavailable": lambda s: s.kind in ("custom", "remote", "read", "get", "comp", "call") or s.kind == "invoke" and not in_task(s),
              "failures": lambda s: s.kind in ("call", "get") or s.kind == "invoke" and not in_task(s),
              "catch": lambda s: s.kind == "invoke",
              "callback": lambda s: s.kind == "apply" and gen.known(s.src),
              "before": lambda s: s.kind != "outputs" and not in_task(s),
              "input": lambda s: s.kind in ("custom", "remote", "read", "get", "prov"),
              "answer": lambda s: s.kind in ("custom", "remote", "read", "get"),
              "feature": lambda s: True}[kind]

        def in_task(s):
            g = guard(s)
            return g is not None and g.kind == "task"

        cands = [s for s in gen.all if s.executed and ok(s)]
        if cands:
            break
    else:
        ctx.count("no_candidate")
        return
    victim = r.choice(cands)
    reason = f"reason-{case['i']} \"quoted\" ü\nsecond line"
    faults = {}
    code = grpc.StatusCode.UNKNOWN
    expect = reason
    tainted = set()  # names whose value can't exist
    stopped = set()  # ids of statements that are never executed

    def rpc():
        raise RpcFault(code, reason)

    def raising():
        raise ValueError(reason)

    raises_here = victim.kind == "invoke" and kind != "feature" or kind == "before"
    if kind in ("rpc", "unavailable") or kind == "catch" and r.random() < 0.5:
        if kind == "unavailable":
            code = grpc.StatusCode.UNAVAILABLE
            expect = "Resource monitor has terminated"
        elif kind == "rpc":
            code = r.choice([grpc.StatusCode.UNKNOWN, grpc.StatusCode.INTERNAL, grpc.StatusCode.INVALID_ARGUMENT, grpc.StatusCode.DEADLINE_EXCEEDED])
        faults[victim.key] = rpc
        if victim.kind != "outputs":
            tainted.add(victim.name)
    elif kind in ("failures", "catch"):
        faults[victim.key] = lambda: ("failures", [("prop", reason), ("p2", "another")]) if victim.kind in ("invoke", "get") else ("failures", [("prop", reason)], {})
        tainted.add(victim.name)
    elif kind == "callback":
        how = r.choice(["raises", "raises", "coroutine", "coroutine", "late", "task", "output", "nested"])
        ctx.count("callback_" + how)
        if how == "raises":
            faults[("callback", victim.name)] = raising
        else:
            async def later(n=r.choice([0, 1, 9])):
                for _ in range(n):
                    await asyncio.sleep(0)
                if how == "late":
                    await asyncio.sleep(0.005)
                raising()

            faults[("result", victim.name)] = {"task": lambda: asyncio.ensure_future(later()), "output": lambda: pulumi.Output.from_input(0).apply(lambda _: raising()),
                                               "nested": lambda: pulumi.Output.all(1, pulumi.Output.from_input(later()))}.get(how, later)
        tainted.add(victim.name)
    elif kind == "before":
        faults[("before", victim.name)] = raising
        tainted.add(victim.name)
        stopped.add(id(victim))
    elif kind == "answer":
        expect = ""
        faults[("answer", victim.name)] = lambda: {"zz": 1, "p": {"4dabf18193072939515e22adb298388d": "bogus"}}
    elif kind == "input":
        make, expect = bad_input(r, reason)
        faults[("input", victim.name)] = make
        tainted.add(victim.name)
        stopped.add(id(victim))
    if kind == "catch":
        faults[("catch", victim.name)] = True
        tainted = set()
    if kind == "feature":
        n = r.choice([0, 0, 0, 1, 2])
        seen = []

        def feature(req):
            from pulumi.runtime.proto import resource_pb2
            seen.append(req.id)
            if len(seen) > n:
                raise RpcFault(grpc.StatusCode.INTERNAL, reason)
            return resource_pb2.SupportsFeatureResponse(hasSupport=True)

    def stop_rest(st):
        """Everything after st in its block, and after what contains it up to the callback, isn't executed."""
        u = up.get(id(st))
        body = u[0].body if u else gen.root
        i = [id(x) for x in body].index(id(st))
        for x in body[i + 1:]:
            stop_all(x)
        if u is None:
            return
        c = u[0]
        if c.kind == "apply":
            tainted.add(c.name)
        elif c.kind == "comp":
            outs = [x for x in gen.all if x.kind == "outputs" and x.name == c.name]
            stopped.update(id(x) for x in outs)
            stop_rest(c)

    def stop_all(x):
        stopped.add(id(x))
        tainted.add(x.name)
        stopped.update(id(y) for y in gen.all if y.kind == "outputs" and y.name == x.name)
        for y in x.body:
            stop_all(y)

    if raises_here and kind != "catch":
        stop_rest(victim)
        if kind == "before":
            for y in victim.body:
                stop_all(y)
            stopped.update(id(y) for y in gen.all if y.kind == "outputs" and y.name == victim.name)
    # What needs what failed, transitively (the identity of a resource whose answer is malformed may well be used).
    changed = True
    while changed and kind != "feature":
        changed = False
        for st in gen.all:
            if st.name in tainted and st.kind != "outputs":
                continue
            uses = {s[0] for s in st.ins} | {st.parent if st.kind != "get" else None, st.prov if st.kind != "get" else None, st.inner if st.kind == "apply" and gen.known(st.src) else None} | {d for d in st.deps if gen.vars[d].kind != "comp"}
            if st.kind == "apply":
                uses.add(st.src[0])
            if st.kind == "task" and st.form == "await":
                uses.add(st.src[0])
            if st.kind == "outputs":
                if (st.name in tainted or {s[0] for s in (by_comp(gen, st.name).outs or [])} & tainted) and id(st) not in stopped:
                    stopped.add(id(st))
                    changed = True
                continue
            if uses & tainted:
                changed = True
                tainted.add(st.name)
                if st.kind in ("apply", "task"):
                    if not (st.inner in tainted and st.src[0] not in tainted):
                        for y in st.body:
                            stop_all(y)
                else:
                    stopped.add(id(st))
                    if st.kind == "invoke":
                        stop_rest(st)
    async def after(run):
        """The Outputs of what failed must not stay unresolved: whatever waits for them would hang."""
        x = run.env.get(victim.name)
        if x is None or kind not in ("rpc", "unavailable", "answer", "failures"):
            return []
        outs = {"value": x} if isinstance(x, pulumi.Output) else {k: getattr(x, k, None) for k in ("urn", "id", "p")}
        pending = []
        for k, o in outs.items():
            if isinstance(o, pulumi.Output):
                try:
                    await asyncio.wait_for(asyncio.shield(asyncio.ensure_future(observe(o))), 2)
                except asyncio.TimeoutError:
                    pending.append(k)
                run.settled += 1
        return pending

    run_ = Run(gen, preview=case["preview"], schedule=case["schedule"], seed=case["i"], faults=faults,
               on_feature=feature if kind == "feature" else None, after=after, slow=0.15 if r.random() < 0.25 else 0.0)
    res = run_.result
    prog = lambda: f"victim {victim!r} ({kind}) in {gen.root!r}"[:3000]
    ctx.evaluated()
    if not ctx.check(res.stuck is None, "hangs", lambda: f"{res.stuck} {prog()}"):
        return
    pending = res.state.get("after") or []
    ctx.count("settled", run_.settled)
    ctx.check(not pending, "never-settles", lambda: f"{pending} of {victim!r} never settle; {prog()}")
    if kind == "catch":
        if not ctx.check(res.exc is None, "caught-failure-fails-program", lambda: f"{res!r} {prog()}"):
            return
        ctx.check([n for n, _ in run_.caught] == [victim.name] and reason in run_.caught[0][1], "wrong-reason",
                  lambda: f"caught {run_.caught}, expected {reason!r}; {prog()}")
        ctx.count("caught")
    else:
        if kind == "feature" and len(seen) <= n:
            ctx.count("not_reached")
            return
        if not ctx.check(res.exc is not None, "failure-lost", lambda: f"the program succeeded; {prog()}"):
            return
        chain, x = [], res.exc
        while x is not None:
            chain.append(x)
            x = x.__cause__ or x.__context__
        ctx.check(any(expect in str(c) for c in chain), "wrong-reason", lambda: f"failed with {chain!r}, expected {expect!r}; {prog()}")
        if kind == "unavailable" and victim.kind != "invoke":
            ctx.check(any(isinstance(c, pulumi.RunError) for c in chain), "wrong-error-class", lambda: f"failed with {chain!r}, expected a RunError")
        ctx.count("failed")
        ctx.count("kind_" + kind)
    for st in gen.all:
        if st.key is None:
            continue
        es = run_.events.get(st.key, [])
        if not st.executed or id(st) in stopped:
            ctx.check(not es, "dependent-requested", lambda: f"{st!r} was requested although it needs what failed; {prog()}")
            ctx.count("dependents")
        elif kind == "catch":
            ctx.check(len(es) == 1, "wrong-number-of-requests", lambda: f"{st!r} led to {len(es)} requests; {prog()}")
        else:
            ctx.check(len(es) <= 1, "wrong-number-of-requests", lambda: f"{st!r} led to {len(es)} requests; {prog()}")
    ctx.sig((program_sig(gen), kind, victim.kind, victim.name))
    ctx.sample({"program": repr(gen.root)[:600], "victim": repr(victim), "kind": kind, "failed_with": repr(res.exc)[:200]})


def by_comp(gen, name):
    for s in gen.all:
        if s.kind == "comp" and s.name == name:
            return s
    raise KeyError(name)
