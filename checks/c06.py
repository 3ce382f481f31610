"""C06: whatever is secret reaches the engine only inside a secret (taint tracking over every message that leaves the program)."""
import json
import re

import pulumi
from google.protobuf import struct_pb2

from pv import props, values, wire
from pv.propcase import PropCase
from pv.wire import Secret

RULE = ("One case = one program whose secrets (secret inputs, secret resource/invoke/call/stack-reference outputs, secret config) carry "
        "unique markers that flow through random property trees into registrations, reads, component outputs, invokes, calls and stack "
        "exports; every message to the engine is scanned for markers outside of secrets; distinct by (sink, property tree), non-trivial "
        "if a marker was sent.")
ASSUMPTIONS = ["the engine supports secrets", "debug log messages are not considered", "callbacks don't leak their argument by side effects"]
MARK = re.compile(r"TAINT\d+X")


def plan(tier, seed):
    n = 3500 if tier == "quick" else 14000
    return [{"i": i, "preview": i % 3 == 0, "features": [None, ["secrets"], ["secrets", "resourceReferences"], ["secrets", "outputValues"]][i % 4],
             "schedule": [None, None, None, "shuffle"][i // 4 % 4]} for i in range(n)]


def minimum(tier):
    m = {"markers_in_secrets": 800}
    for s in ("RegisterResource", "RegisterResourceOutputs", "Invoke", "Call", "ReadResource"):
        m["sink_" + s] = 25
    return m


def scan(p, secret, hit):
    """plain wire value -> hit(marker, within secret)"""
    if isinstance(p, str):
        for m in MARK.findall(p):
            hit(m, secret)
    elif isinstance(p, dict):
        s = secret or p.get(wire.SIG) == wire.SIG_SECRET or (p.get(wire.SIG) == wire.SIG_OUT and p.get("secret") is True)
        for k, v in p.items():
            for m in MARK.findall(k):
                hit(m, False)
            scan(v, s, hit)
    elif isinstance(p, list):
        for v in p:
            scan(v, secret, hit)


def leak(got, want, secret=False):
    """The first value that should be within a secret but isn't: True if there's one (values of any type, not only marked strings)."""
    if isinstance(want, (Secret, wire.OutVal)):
        if isinstance(want, Secret) or want.secret:
            return not (isinstance(got, Secret) or isinstance(got, wire.OutVal) and got.secret)
        return type(got) is type(want) and leak(got.v, want.v)
    if isinstance(got, wire.OutVal):
        return False
    if isinstance(want, dict) and isinstance(got, dict):
        return any(k in got and leak(got[k], v) for k, v in want.items())
    if isinstance(want, list) and isinstance(got, list) and len(want) == len(got):
        return any(leak(g, v) for g, v in zip(got, want))
    return False


def run(case, ctx):
    n = [0]

    def fresh():
        n[0] += 1
        return f"TAINT{n[0]}X"

    state = {}

    def extra(c):
        r, gen = c.rng, c.gen
        depth = 2
        state["exports"] = [(f"e{i}", gen.node(depth)[0]) for i in range(r.choice([1, 2]))]
        state["call"] = {k: gen.node(depth)[0] for k in r.sample(values.KEYS[:6], 2)}
        state["invoke"] = {k: gen.node(depth)[0] for k in r.sample(values.KEYS[:6], 2)}
        state["kinds"] = [r.random() < 0.6 for _ in range(4)]
        state["ref"] = {"outputs": {"a": Secret(fresh()), "b": "plain"}, "secretOutputNames": ["a"], "name": "other"}
        state["ret"] = {"x": props.mark(values.value(r, 2, False, 0, 0.3), fresh, False), "y": Secret(fresh())}
        cfg = [fresh(), json.dumps({"k": [fresh()]})]

        def program():
            if state["kinds"][0]:
                for k, a in state["exports"]:
                    pulumi.export(k, c.build(a))
            if state["kinds"][1]:
                o = pulumi.runtime.call("test:index:Fn", {k: c.build(a) for k, a in state["call"].items()}, None)
                pulumi.export("called", o)
                props_ = {"fromcall": o}
            else:
                props_ = {}
            if state["kinds"][2]:
                s = pulumi.StackReference("other")
                props_["ref"] = s.get_output("a")
                props_["reqref"] = [s.require_output("a").apply(lambda v: f"<{v}>")]
                pulumi.export("ref", {"deep": s.get_output("a")})
            if state["kinds"][3]:
                pulumi.runtime.set_all_config({"proj:s": cfg[0], "proj:o": cfg[1]}, ["proj:s", "proj:o"])
                k = pulumi.Config()
                props_["cfg"] = k.require_secret("s")
                props_["cfgo"] = k.get_secret_object("o")
                props_["cfgoi"] = pulumi.Output.concat("x", k.require_secret_object("o")["k"][0])
            pulumi.CustomResource("test:index:Sink", "sink", props_)
            if r.random() < 0.5:
                pulumi.runtime.invoke("test:index:get", {k: c.build(a) for k, a in state["invoke"].items()})

        c.program = program
        c.stack_reference = state["ref"]

    c = PropCase(ctx, case, depth=2, taint=fresh, extra=extra, on_call=lambda req: ("return", state["ret"], {}))
    if not c.ok(ctx):
        return
    sent = 0
    for e in c.engine.events:
        if e.method == "SupportsFeature":
            continue
        ctx.evaluated()
        hits = []
        plain = type(e.req)()
        plain.CopyFrom(e.req)
        for f, v in e.req.ListFields():
            if isinstance(v, struct_pb2.Struct):
                scan(wire.pb_plain(v), False, lambda m, s: hits.append((f.name, m, s)))
                plain.ClearField(f.name)
        for m in MARK.findall(str(plain)):
            hits.append(("message", m, False))
        for f, m, s in hits:
            ctx.count("markers_in_secrets", s)
            ctx.count("sink_" + e.method)
            sent += 1
            ctx.check(s, "secret-in-plaintext", lambda: f"{e.method} sends the secret {m} in plaintext ({f}): {str(e.req)[:1500]}; consumers {c.consumers!r}; sources {c.outs!r}; {state!r}")
        ctx.check(True, "", "")
    for kind, name, ps, dep, req in c.requests():
        if req is None:
            continue
        try:
            got = wire.dec(req.outputs if kind == "outputs" else req.properties if kind == "read" else req.object)
        except wire.BadWire:
            got = {}
        for k, a, v in ps:
            want, _ = c.model.ser(v, kind == "remote")
            if isinstance(want, Secret):
                ctx.count("secret_" + type(want.v).__name__)
            ctx.check(k not in got or not leak(got[k], want), "secret-not-marked",
                      lambda: f"{kind} property {k} = {a!r}: sent {got[k]!r}, which should hold {want!r}; sources {c.outs!r}")
        if MARK.search(str(req)):
            ctx.sig(kind + "|".join(props.sig(a) for _, a, _ in ps))
            ctx.sample({"sink": kind, "message": str(wire.pb_plain(req.outputs if kind == "outputs" else req.properties if kind == "read" else req.object))[:900]})
