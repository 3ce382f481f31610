"""C17: typed properties: the names and types declared for properties are applied in both directions, at every depth."""
import sys

import pulumi

from pv import values, wire
from pv.engine import Engine, observe, run_program
from pv.schema import Schema
from pv.wire import UNK

RULE = ("One case = a random schema (a resource with typed properties: nested and recursive objects, lists, maps, enums, Any, optional ones; names that differ between Python and Pulumi) "
        "written as classes in one of the styles of typed and older SDKs, and a program that creates the resource with random inputs (objects as Args or dicts, partly as Outputs) and calls "
        "functions that return the types; the request is compared with the inputs under Pulumi's names, and everything that the program sees of answers with the declared types; distinct "
        "by schema and mode, non-trivial if a nested object type occurs.")
ASSUMPTIONS = ["apart from objects in the place of something else, answers conform to the declared types"]


def plan(tier, seed):
    n = 3500 if tier == "quick" else 10000
    return [{"i": i, "preview": i % 4 == 0} for i in range(n)]


def minimum(tier):
    return {"inputs": 700, "outputs": 800, "objects_in": 180, "objects_out": 250, "typed": 200, "legacy": 100, "functions": 600, "fallback": 60, "enums": 100, "secret": 60, "unknown": 30, "derived": 60, "misfits": 20}


def run(case, ctx):
    r = ctx.rng()
    s = Schema(r)
    modname = f"pv_generated_{case['i']}"
    m = s.module(modname)
    sys.modules[modname] = m
    try:
        go(case, ctx, r, s, m)
    finally:
        del sys.modules[modname]


def go(case, ctx, r, s, m):
    legacy = s.mode == "legacy"
    ctx.count(s.mode)
    ctx.count("derived", s.derived)
    given = {pul: s.value(t) for py, pul, t, req in s.fields if req or r.random() < 0.75}
    s.unk = 0.12 if case["preview"] and r.random() < 0.6 else 0
    answer = {pul: s.value(t) for py, pul, t, req in s.fields if r.random() < 0.75}
    secret = {pul for pul in answer if r.random() < 0.15}
    answer_wire = {pul: wire.Secret(v) if pul in secret else v for pul, v in answer.items()}
    if r.random() < 0.3:
        answer_wire["notDeclared"] = 1
    misfit = None
    if r.random() < 0.08:
        all_ = [(py, pul, pth, x) for py, pul, t, _ in s.fields if pul in answer and pul not in secret for pth, x in s.misfits(t, answer[pul])]
        if all_:
            py, pul, pth, x = r.choice(all_)
            misfit = ".".join((py, *pth))
            answer_wire[pul] = x
    calls = {}
    for name in s.names:
        while calls.get(name, UNK) is UNK:
            calls[name] = s.value(("obj", name))
    s.unk = 0
    fn = {}
    for name in s.names:
        fn[name] = s.value(("obj", name))
    types = {pul: t for py, pul, t, _ in s.fields}
    form = {pul: r.choice(["args", "dict"]) if legacy else None for pul in types}  # without declared types, what's in Args is typed, the rest isn't
    show = lambda: f"{s.text[-2500:]}\ninputs {given}\nanswer {answer}"[:3600]
    got = {}

    def wrap(x):
        k = r.random()
        if k < 0.1:
            return pulumi.Output.from_input(x)
        if k < 0.15:
            return pulumi.Output.from_input(0).apply(lambda _: x)
        return x

    def prog():
        props = {}
        for py, pul, t, req in s.fields:
            if pul in given:
                props[py] = s.build(m, t, given[pul], wrap, form[pul])
        got["res"] = m.R("res", props)
        got["read"] = m.R("read", props if r.random() < 0.5 else {}, pulumi.ResourceOptions(id="rid"))
        got["invoke"], got["call"] = {}, {}
        for name in s.names:
            cls = getattr(m, name)
            got["invoke"][name] = [pulumi.runtime.invoke("test:index:" + name, {}, None, cls).value for _ in range(2)]
            got["call"][name] = pulumi.runtime.call("test:index:" + name, {}, None, cls)

    obs = {}

    async def after():
        for k in ("res", "read"):
            obs[k] = {py: await observe(getattr(got[k], py)) for py, *_ in s.fields}
        obs["call"] = {n: await observe(o) for n, o in got["call"].items()}

    reg = lambda q, urn: {"object": answer_wire}
    eng = Engine(preview=case["preview"], seed=case["i"], on_register=reg, on_read=reg, on_invoke=lambda q: ("return", fn[q.tok.split(":")[-1]]),
                 on_call=lambda q: ("return", calls[q.tok.split(":")[-1]], {}))
    res = run_program(prog, eng, preview=case["preview"], after=None if misfit else after)
    if misfit:
        ctx.evaluated()
        ctx.count("misfits")
        ctx.check(not res.ok and any(f"resource `{x}`, property `{misfit}`" in repr(res) for x in ("res", "read")), "misfit", lambda: f"{answer_wire} at {misfit}: {res!r}; {show()}")
        return
    if not ctx.check(res.ok, "program-failed", lambda: f"{res!r} {show()}"):
        return
    # inputs
    req = eng.register("res").req
    sent = {k: wire.dec(v) for k, v in req.object.fields.items()}
    for py, pul, t, _ in s.fields:
        ctx.evaluated()
        if pul not in given:
            ctx.check(pul not in sent, "not-given", lambda: f"{pul} was sent as {sent[pul]!r}; {show()}")
            continue
        ctx.count("inputs")
        ctx.count("objects_in", "obj" in str(t))
        want = s.wire(t, given[pul], legacy, form[pul])
        have = sent.get(pul)
        ctx.check(pul in sent and wire.eq(want, have), "input", lambda: f"{pul} was sent as {have!r} instead of {want!r}; {show()}")
    extra = set(sent) - set(types)
    ctx.check(not extra, "input-name", lambda: f"{extra} were sent; {show()}")
    # outputs
    for which in ("res", "read"):
        inputs = {k: wire.dec(v) for k, v in (req.object if which == "res" else eng.by("ReadResource")[0].req.properties).fields.items()}
        for py, pul, t, _ in s.fields:
            ctx.evaluated()
            kind, v, known, sec, _ = obs[which][py]
            if not ctx.check(kind == "ok", "output-failed", lambda: f"{which}.{py}: {v!r}; {show()}"):
                continue
            if pul in answer:
                ctx.count("outputs")
                ctx.count("objects_out", "obj" in str(t))
                ctx.count("enums", "enum" in str(t))
                ctx.count("secret", sec)
                d = s.differs(m, t, answer[pul], v, legacy)
                ctx.check(d is None, "output", lambda: f"{which}.{py}{d}; {show()}")
                unknown = values.has(answer[pul], UNK)
                ctx.count("unknown", unknown)
                ctx.check(known != unknown and sec == (pul in secret), "output-flags", lambda: f"{which}.{py}: known={known} secret={sec}; {show()}")
            elif case["preview"]:
                ctx.check(not known, "output-known", lambda: f"{which}.{py} is {v!r} although the engine didn't say; {show()}")
            elif pul in inputs:
                ctx.count("fallback")
                d = s.differs(m, t, inputs[pul], v, legacy)
                ctx.check(d is None, "fallback", lambda: f"{which}.{py}{d} (from the inputs); {show()}")
            else:
                ctx.check(v is None, "output-none", lambda: f"{which}.{py} is {v!r}; {show()}")
    for name in s.names:
        ctx.count("functions")
        a, b = got["invoke"][name]
        d = s.differs(m, ("obj", name), fn[name], a)
        ctx.check(d is None, "invoke", lambda: f"{name}{d}; {show()}")
        ctx.check(a == b and not a != b, "equality", lambda: f"{a!r} {b!r}; {show()}")
        kind, v, known, sec, _ = obs["call"][name]
        unknown = values.has(calls[name], UNK)
        d = (None if unknown else s.differs(m, ("obj", name), calls[name], v)) if kind == "ok" else repr(v)
        ctx.check(d is None and known != unknown, "call", lambda: f"{name}{d}; {show()}")
    if "obj" in str(s.fields):
        ctx.sig(f"{s.mode} {s.rstyle} {s.fields} {sorted(s.ostyle.values())}")
        ctx.sample(show()[:900])
