"""C20: the outputs of another stack are read under the right name, with the right values and secretness."""
import pulumi

from pv import values, wire
from pv.engine import Engine, observe, run_program
from pv.wire import UNK, Secret

RULE = ("One case = one program with 1-3 stack references to stacks with 0-5 random outputs each (falsy, nested, secret, unknown; from engines that list the names of "
        "secret outputs and ones that don't), whose outputs are fetched by names given promptly or as Outputs and passed to a resource; each result and request is "
        "compared with the engine's answer; distinct by kinds of answer and access, non-trivial if an output was found.")
ASSUMPTIONS = ["an awaitable name is a future or an Output (a coroutine can be awaited once only)"]
KEYS = ["a", "b", "B", "fooBar", "foobar", "foo_bar", "items", "get", "é x", "0", "outputs", "name", "urn"]


def plan(tier, seed):
    n = 2400 if tier == "quick" else 10000
    return [{"i": i, "preview": i % 3 == 0, "schedule": [None, "shuffle"][i % 2], "failing": i % 12 == 5} for i in range(n)]


def minimum(tier):
    return {"found": 700, "missing": 200, "secret": 250, "not_secret_among_secrets": 150, "old_engine_secret": 60, "falsy": 100, "unknown": 20, "output_names": 200,
            "unknown_names": 15, "failures": 20, "output_stack_names": 80, "sent": 500}


def run(case, ctx):
    r = ctx.rng()
    preview = case["preview"]
    refs = []
    for i in range(r.choice([1, 2, 3])):
        f = {"name": r.choice(["org/proj/dev", "ref"]) + str(i), "stack": r.choice([None, f"org/other/s{i}", f"org/other/s{i}"])}
        f["stack_kind"] = r.choice(["str", "output", "future"]) if f["stack"] else "str"
        f["mode"] = r.choice(["names", "names", "names+marks", "names+secret", "old", "old-secret", "old-marks"])
        outs = {}
        for k in r.sample(KEYS, r.choice([0, 1, 2, 3, 5])):
            v = values.value(r, 2, False, 0.08 if preview else 0.0, 0.0)
            outs[k] = r.choice([v, v, 0, "", False, [], {}]) if r.random() < 0.4 else v
        f["outputs"] = outs
        f["secrets"] = [k for k in outs if r.random() < 0.4] + (["gone"] if r.random() < 0.1 else [])
        marked = {k: Secret(v) if f["mode"].endswith("marks") and k in f["secrets"] else v for k, v in outs.items()}
        f["wire"] = {"name": f["stack"] or f["name"], "outputs": Secret(marked) if f["mode"].endswith("secret") else marked}
        if f["mode"].startswith("names"):
            f["wire"]["secretOutputNames"] = f["secrets"]
        # what is known of the secretness of the outputs as a whole
        f["all_secret"] = f["mode"].endswith("secret") or values.has(marked, Secret)
        f["uses"] = []
        for j in range(r.choice([1, 2, 4])):
            k = r.choice(sorted(outs)) if outs and r.random() < 0.8 else r.choice(["missing", "gone", "a "])
            u = {"key": k, "how": "require" if k in outs and r.random() < 0.4 else "get", "name": r.choice(["str", "str", "output", "future", "resource"])}
            if preview and r.random() < 0.06:
                u["name"] = "unknown"
            f["uses"].append(u)
        refs.append(f)
    failing = None
    if case["failing"]:
        failing = {"key": "missing", "how": "require", "name": r.choice(["str", "output"])}
        r.choice(refs)["uses"].append(failing)
    obs = []

    def on_register(q, urn):
        if q.name == "names":
            return {"object": {**{f"n{i}_{j}": u["key"] for i, f in enumerate(refs) for j, u in enumerate(f["uses"])}, "unknown": UNK if preview else "x",
                               **{f"s{i}": f["stack"] or "" for i, f in enumerate(refs)}}}
        return None

    eng = Engine(preview=preview, schedule=case["schedule"], seed=case["i"], on_register=on_register,
                 on_read=lambda q, urn: {"object": next(f["wire"] for f in refs if f["name"] == q.name)})

    def prog():
        import asyncio

        names = pulumi.CustomResource("test:index:Names", "names", {**{f"n{i}_{j}": None for i, f in enumerate(refs) for j, u in enumerate(f["uses"])},
                                                                    **{f"s{i}": None for i in range(len(refs))}, "unknown": None})

        def inp(kind, v, attr):
            if kind == "output":
                return pulumi.Output.from_input(v)
            if kind == "resource":
                return getattr(names, attr)
            if kind == "unknown":
                return names.unknown
            if kind == "future":
                fut = asyncio.get_event_loop().create_future()
                asyncio.get_event_loop().call_later(0.001, fut.set_result, v)
                return fut
            return v

        for i, f in enumerate(refs):
            kw = {"stack_name": inp("resource" if f["stack_kind"] == "output" else f["stack_kind"], f["stack"], f"s{i}")} if f["stack"] else {}
            ref = pulumi.StackReference(f["name"], **kw)
            f["ref"] = ref
            for j, u in enumerate(f["uses"]):
                o = (ref.require_output if u["how"] == "require" else ref.get_output)(inp(u["name"], u["key"], f"n{i}_{j}"))
                u["out"] = o
                if u is not failing:
                    pulumi.CustomResource("test:index:User", f"u{i}_{j}", {"x": o})
        f0 = refs[0]
        obs.append(f0["ref"].name)

    async def after():
        for f in refs:
            for u in f["uses"]:
                x = u["obs"] = await observe(u["out"])
                u["deps"] = {await d.urn.future() for d in x[4]} if x[0] == "ok" else None

    res = run_program(prog, eng, preview=preview, after=after)
    show = lambda f, u: f"{ {k: v for k, v in f.items() if k not in ('ref', 'uses')} } {u['how']} {u['key']!r} ({u['name']}) preview={preview}"[:1500]
    if failing:
        f = next(f for f in refs if failing in f["uses"])
        if not values.has(f["outputs"], UNK):
            ctx.count("failures")
            ctx.check(res.stuck is None and isinstance(res.exc, KeyError) and "missing" in str(res.exc), "missing-accepted",
                      lambda: f"{show(f, failing)}: program {res!r}")
            return
    if not ctx.check(res.ok, "program-failed", lambda: f"{res!r} {refs}"[:2500]):
        return
    reads = {e.req.name: e.req for e in eng.by("ReadResource")}
    names_urn = eng.urn("test:index:Names", "names")
    ctx.check(len(eng.by("ReadResource")) == len(refs), "reads", lambda: f"{reads}")
    for i, f in enumerate(refs):
        q = reads.get(f["name"])
        target = f["stack"] or f["name"]
        ctx.count("output_stack_names", f["stack_kind"] != "str")
        ctx.check(q is not None and q.id == target and wire.dec(q.properties) == {"name": target}, "request", lambda: f"{f['name']} -> {target}: {q}")
        urn = eng.urn("pulumi:pulumi:StackReference", f["name"])
        for j, u in enumerate(f["uses"]):
            if u is failing:
                continue
            ctx.evaluated()
            k = u["key"]
            kind, val, known, secret, _ = u["obs"]
            if not ctx.check(kind == "ok", "failed", lambda: f"{show(f, u)}: {val!r}"):
                continue
            v = f["outputs"].get(k)
            ctx.count("output_names", u["name"] not in ("str", "unknown"))
            if u["name"] == "unknown":
                ctx.count("unknown_names")
                ctx.check(not known, "unknown-name", lambda: f"{show(f, u)}: {val!r} is known")
                want_secret = f["all_secret"]
            else:
                ctx.count("found" if k in f["outputs"] else "missing")
                ctx.count("falsy", k in f["outputs"] and not v)
                if values.has(v, UNK):
                    ctx.count("unknown")
                    ctx.check(not known, "unknown-output", lambda: f"{show(f, u)}: {val!r} is known")
                elif not values.has(f["outputs"], UNK):
                    ctx.check(known, "known-output", lambda: f"{show(f, u)} isn't known")
                if known:
                    ctx.check(wire.eq(values.from_py(val), values.strip_none(v)), "value", lambda: f"{show(f, u)}: {val!r} instead of {v!r}")
                want_secret = k in f["secrets"] if f["mode"].startswith("names") else f["all_secret"]
            ctx.count("secret", want_secret)
            ctx.count("old_engine_secret", want_secret and f["mode"].startswith("old"))
            ctx.count("not_secret_among_secrets", not want_secret and bool(f["secrets"]))
            ctx.check(secret == want_secret, "secretness", lambda: f"{show(f, u)}: secret={secret} instead of {want_secret}")
            deps = {urn} | ({names_urn} if u["name"] in ("resource", "unknown") else set())
            ctx.check(u["deps"] == deps, "dependencies", lambda: f"{show(f, u)}: depends on {u['deps']} instead of {deps}")
            got = wire.dec(eng.register(f"u{i}_{j}").req.object)
            if known:
                t = values.strip_none(v)
                exp = {} if t is None and not want_secret else {"x": Secret(t) if want_secret else t}
            else:
                exp = {"x": UNK}
            ctx.count("sent")
            ctx.check(wire.eq(got, exp), "sent", lambda: f"{show(f, u)}: sent {got} instead of {exp}")
            if k in f["outputs"]:
                ctx.sig((f["mode"], u["how"], u["name"], values.shape(v), want_secret, f["stack_kind"]))
                ctx.sample({"access": show(f, u)[:500]})
