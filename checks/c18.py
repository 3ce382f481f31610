"""C18: functions and methods get the arguments given, once per call, and hand back exactly what the engine answered."""
import os

import grpc
import pulumi

from pv import props, values, wire
from pv.engine import RpcFault, observe
from pv.propcase import PropCase

RULE = ("One case = one program with source resources, then 2-6 functions invoked (directly, or within callbacks and nested there) and methods called with random "
        "property trees as arguments and random answers (results, failures, faults); each request and each result is compared with the reference model; distinct by "
        "the kinds of call, arguments and answers; non-trivial if an argument has structure.")
ASSUMPTIONS = ["the engine doesn't send secrets in the result of an invoke (it doesn't keep them)",
               "an invoke within a callback takes arguments that don't need other callbacks to complete"]


def plan(tier, seed):
    n = 3200 if tier == "quick" else 14000
    return [{"i": i, "preview": i % 3 == 0, "features": [None, None, [], ["secrets", "resourceReferences"]][i % 4],
             "schedule": [None, "shuffle", None, "lifo", "sleep"][i % 5], "failing": i % 16 == 7,
             "refs": [None, None, "1", None, "true", "yes", "TRUE", "0", "True", "", "2"][i % 11]} for i in range(n)]


def minimum(tier):
    return {"invokes": 600, "calls": 400, "callback_invokes": 150, "nested_invokes": 60, "invoke_failures": 60, "invoke_faults": 25, "empty_results": 60,
            "unknown_results": 25, "secret_results": 60, "argument_dependencies": 200, "return_dependencies": 150, "output_arguments": 60, "failing_calls": 10,
            "awaited": 200, "references_refused": 150}


def run(case, ctx):
    fs = []
    got = {}
    env = {}

    def extra(c):
        r = c.rng
        term = lambda s: {k: values.value(r, 2, True, 0.1 if c.preview else 0.0, s) for k in r.sample(values.KEYS, r.choice([0, 0, 1, 2, 3]))}
        for i in range(r.choice([2, 3, 4, 6])):
            f = {"name": f"f{i}", "kind": r.choice(["invoke", "invoke", "callback", "nested", "call", "call", "call"]), "tok": r.choice(["test:index:get{}", "test:a/b:get{}", "other::{}"]).format(i),
                 "version": r.choice([None, None, "", "1.2.3", "2.0.0-alpha.1+x"]), "url": r.choice([None, None, "https://example.com/ü"])}
            f["args"] = [(k, c.gen.node(2)) for k in r.sample(values.KEYS[:8] + ["p-q", "é"], r.choice([0, 1, 2, 3]))]
            if f["kind"] in ("callback", "nested"):
                f["args"] = [("x", (("lit", i), i)), ("l", (("lit", ["a", {"b": None}]), ["a", {"b": None}]))]
                f["src"] = r.randrange(len(c.outs))
            f["how"] = r.choice(["value", "await"]) if f["kind"] == "invoke" else "value"
            f["sync"] = r.random() < 0.5
            how = r.random()
            if f["kind"] == "call":
                f["res"] = r.choice([None] + [n for n, w in c.world.items()])
                f["answer"] = ("return", term(0.25), {k: [f"urn:pulumi:stk::proj::x:y:Z::d{j}" for j in range(3) if r.random() < 0.4] for k in r.sample(["a", "b", "zz"], r.choice([0, 1, 2]))})
                if case["failing"] and not any(g.get("fails") for g in fs):
                    f["fails"] = True
                    f["answer"] = ("failures", [("bad_prop", f"reason of {f['name']}"), ("other", "x")], {})
            elif how < 0.12:
                f["answer"] = ("failures", [("bad_prop", f"reason of {f['name']}"), ("other", "x")][: r.choice([1, 2])])
            elif how < 0.2:
                f["answer"] = ("fault", f"details of {f['name']}")
            else:
                f["answer"] = ("return", term(0.0))
            fs.append(f)
        c.program = lambda: program(c)

    def on_invoke(q):
        f = next(f for f in fs if f["tok"] == q.tok)
        if f["answer"][0] == "fault":
            raise RpcFault(grpc.StatusCode.UNKNOWN, f["answer"][1])
        return f["answer"]

    def invoke(f, args):
        opts = pulumi.InvokeOptions(version=f["version"], plugin_download_url=f["url"]) if f["version"] is not None or f["url"] else None
        try:
            return "ok", pulumi.runtime.invoke(f["tok"], args, opts), env["c"].engine.clock
        except Exception as e:  # pylint: disable=broad-except
            return "exc", e, env["c"].engine.clock

    outs = []

    def program(c):
        env["c"] = c
        for n, w in c.world.items():
            v = c.res[n]
        for f in fs:
            f["before"] = c.engine.clock
            if f["kind"] == "call":
                args = {k: c.build(a) for k, (a, _) in f["args"]}
                f["out"] = pulumi.runtime.call(f["tok"], args, c.res[f["res"]] if f["res"] else None)
            elif f["kind"] == "invoke":
                args = {k: c.build(a) for k, (a, _) in f["args"]}
                got[f["name"]] = invoke(f, args)
            elif f["kind"] == "callback":
                def cb(v, f=f):
                    got[f["name"]] = invoke(f, {k: c.build(a) for k, (a, _) in f["args"]})
                    return 1
                outs.append((f, getattr(c.res[c.getters[f["src"]][0]], c.getters[f["src"]][1]).apply(cb, True)))
            else:
                def cb2(v, f=f):
                    def inner(w):
                        got[f["name"]] = invoke(f, {k: c.build(a) for k, (a, _) in f["args"]})
                        return w
                    return pulumi.Output.from_input({"y": v}).apply(inner, True)
                outs.append((f, getattr(c.res[c.getters[f["src"]][0]], c.getters[f["src"]][1]).apply(cb2, True)))

    async def after():
        for f in fs:
            if f["kind"] == "call":
                f["obs"] = await observe(f["out"])
                if f["obs"][0] == "ok":
                    f["deps"] = {await x.urn.future() for x in f["obs"][4]}
            elif f["how"] == "await" and got.get(f["name"], ("", 0))[0] == "ok":
                f["awaited"] = await got[f["name"]][1]

    if case.get("refs") is not None:
        os.environ["PULUMI_DISABLE_RESOURCE_REFERENCES"] = case["refs"]
    try:
        c = PropCase(ctx, case, depth=1, kinds=("custom",), extra=extra, on_invoke=on_invoke, on_call=lambda q: next(f for f in fs if f["tok"] == q.tok)["answer"], after=after)
    finally:
        os.environ.pop("PULUMI_DISABLE_RESOURCE_REFERENCES", None)
    show = lambda f: f"{ {k: v for k, v in f.items() if k not in ('out', 'obs')}!r}"[:1500]
    failing = next((f for f in fs if f.get("fails")), None)
    if failing:
        ctx.count("failing_calls")
        e = c.result.exc
        if not ctx.check(c.result.stuck is None and e is not None, "failure-lost", lambda: f"the call {show(failing)} failed, but the program {c.result!r}"):
            return
        ctx.check(all(s in str(e) for s in (failing["tok"], "reason of " + failing["name"], "bad_prop")), "failure-message", lambda: f"{show(failing)}: {e!r}")
        ctx.check(len([x for x in c.engine.by("Call") if x.req.tok == failing["tok"]]) == 1, "call-count", lambda: show(failing))
        x = failing.get("obs")
        ctx.check(x is None or x[0] == "exc" and "reason of" in str(x[1]), "failure-result", lambda: f"{show(failing)}: {x!r}")
        return
    if not c.ok(ctx):
        return
    for f in fs:
        ctx.evaluated()
        call = f["kind"] == "call"
        evs = [e for e in c.engine.by("Call" if call else "Invoke") if e.req.tok == f["tok"]]
        if not ctx.check(len(evs) == 1, "count", lambda: f"{len(evs)} requests for {show(f)}"):
            continue
        ctx.count(f["kind"] + "s" if call or f["kind"] == "invoke" else f["kind"] + "_invokes")
        e = evs[0]
        q = e.req
        want, deps = {}, {}
        for k, (a, v) in f["args"]:
            t, ds = c.model.ser(v, call)
            if t is not None:
                want[k] = t
                deps[k] = {c.world[d]["urn"] if d in c.world else d for d in ds}
                ctx.count("output_arguments", call and any(isinstance(x, wire.OutVal) for x in wire.walk(t)))
        term = wire.dec(q.args)
        ctx.check(wire.eq(term, want), "args", lambda: f"{show(f)}: sent {term!r} instead of {want!r}; preview={c.preview} features={sorted(c.features)}")
        if call:
            gotd = {k: list(v.urns) for k, v in q.argDependencies.items() if v.urns}
            wantd = {k: v for k, v in deps.items() if v}
            ctx.count("argument_dependencies", sum(map(len, wantd.values())))
            ctx.check({k: set(v) for k, v in gotd.items()} == wantd and all(len(v) == len(set(v)) for v in gotd.values()), "argument-dependencies",
                      lambda: f"{show(f)}: {gotd} instead of {wantd}")
            ctx.check(q.version == "" and q.pluginDownloadURL == "", "version", lambda: f"{show(f)}: {q.version!r} {q.pluginDownloadURL!r}")
        else:
            ctx.check(q.version == (f["version"] or "") and q.pluginDownloadURL == (f["url"] or ""), "version", lambda: f"{show(f)}: {q.version!r} {q.pluginDownloadURL!r}")
            ctx.count("references_refused", not q.acceptResources)
            ctx.check(q.acceptResources == ((case.get("refs") or "").upper() not in ("1", "TRUE")), "accept-resources", lambda: f"{case.get('refs')!r} {show(f)}")
        ctx.check(q.provider == "", "provider", lambda: f"{show(f)}: {q.provider}")
        ans = f["answer"][1]
        if call:
            x = f["obs"]
            ctx.check(x[0] == "ok", "result-failed", lambda: f"{show(f)}: {x!r}")
            if x[0] != "ok":
                continue
            known = not values.has(ans, wire.UNK)
            plain = values.strip_none(values.unsecret(ans))
            rd = {u for us in f["answer"][2].values() for u in us}
            ctx.check(x[2] == known and x[3] == values.has(ans, wire.Secret), "result-flags", lambda: f"{show(f)}: known={x[2]} secret={x[3]}")
            ctx.check(f["deps"] == rd, "result-dependencies", lambda: f"{show(f)}: {f['deps']} instead of {rd}")
            if known:
                ctx.check(wire.eq(values.from_py(x[1]), plain) and isinstance(x[1], dict), "result", lambda: f"{show(f)}: {x[1]!r} instead of {plain!r}")
            ctx.count("unknown_results", not known)
            ctx.count("secret_results", values.has(ans, wire.Secret))
            ctx.count("return_dependencies", len(rd))
        else:
            res = got.get(f["name"])
            if not ctx.check(res is not None, "no-result", lambda: show(f)):
                continue
            ctx.check(e.end is not None and e.end <= res[2], "returned-early", lambda: show(f))
            if f["answer"][0] == "return":
                if not ctx.check(res[0] == "ok", "result-failed", lambda: f"{show(f)}: {res!r}"):
                    continue
                vals = [res[1].value] + ([f["awaited"]] if f["how"] == "await" else [])
                ctx.count("awaited", f["how"] == "await")
                plain = values.strip_none(ans)
                for v in vals:
                    ctx.check(wire.eq(values.from_py(v), plain), "result", lambda: f"{show(f)}: {v!r} instead of {plain!r}")
                ctx.count("unknown_results", values.has(ans, wire.UNK))
            else:
                words = [ans[0][1], ans[0][0]] if f["answer"][0] == "failures" else [ans]
                ctx.count("invoke_failures" if f["answer"][0] == "failures" else "invoke_faults")
                ctx.check(res[0] == "exc" and all(s in str(res[1]) for s in [f["tok"], *words]), "failure", lambda: f"{show(f)}: {res!r}")
        ctx.count("empty_results", f["answer"][0] == "return" and ans == {})
        if f["args"]:
            ctx.sig(f["kind"] + f["answer"][0] + "|".join(props.sig(a) for _, (a, _) in f["args"]))
            ctx.sample({"call": show(f)[:600]})
    inv = [f for f in fs if f["kind"] == "invoke"]
    evs = {e.req.tok: e for e in c.engine.by("Invoke")}
    for f, g in zip(inv, inv[1:]):
        if f["tok"] in evs and g["tok"] in evs:
            ctx.check(evs[f["tok"]].end < evs[g["tok"]].seq, "order", lambda: f"{f['name']} {g['name']}")
