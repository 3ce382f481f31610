"""C05: property values reach the engine exactly as the program gave them, in the encodings that the engine supports."""
from pv import props, wire
from pv.engine import ALL_FEATURES
from pv.propcase import PropCase

RULE = ("One case = one program with 1-6 source resources and 1-3 consumers (custom, remote, read resource, component outputs), whose "
        "properties are random trees of scalars/lists/dicts/input types/enums/assets/archives/resources/Outputs/awaitables, against an "
        "engine with a random set of features; the decoded wire message is compared with a reference encoder; distinct by tree and "
        "feature set, non-trivial if the tree has >= 2 nodes.")
ASSUMPTIONS = ["the fake engine stands for the real one's RPC interface", "dict keys are strings"]
SETS = [None, None, None, ["secrets"], ["resourceReferences"], ["secrets", "resourceReferences"], [], ["outputValues"],
        ["secrets", "outputValues"]]


def plan(tier, seed):
    n = 4000 if tier == "quick" else 16000
    return [{"i": i, "preview": i % 3 == 0, "features": SETS[i % len(SETS)], "unimplemented": i % 29 == 28,
             "schedule": [None, None, None, "shuffle"][i // 9 % 4]} for i in range(n)]


def minimum(tier):
    return {"properties": 1000, "secrets_on_wire": 50, "output_values_on_wire": 50, "references_on_wire": 100, "kind_spec": 30}


def run(case, ctx):
    c = PropCase(ctx, case)
    if not c.ok(ctx):
        return
    for k, n in c.gen.kinds.items():
        ctx.count("kind_" + k, n)
    for kind, name, ps, dep, req in c.requests():
        if not ctx.check(req is not None, "request-missing", lambda: f"no request was made for {kind} {name}"):
            continue
        ctx.evaluated()
        struct = req.outputs if kind == "outputs" else req.properties if kind == "read" else req.object
        try:
            got = wire.dec(struct)
        except wire.BadWire as exn:
            ctx.violation("malformed-message", f"{exn}: {struct}")
            continue
        want = {}
        for k, a, v in ps:
            t, _ = c.model.ser(v, kind == "remote")
            if t is not None:
                want[k] = t
        for k, a, v in ps:
            ctx.count("properties")
            ctx.check((k in got) == (k in want), "property-presence",
                      lambda: f"{kind} property {k} = {a!r}: sent {got.get(k, '<absent>')!r}, expected {want.get(k, '<absent>')!r}")
            if k in got and k in want:
                ctx.check(wire.eq(got[k], want[k]), "wrong-encoding",
                          lambda: f"{kind} property {k} = {a!r} (features {sorted(c.features)}, preview {c.preview}): sent {got[k]!r}, expected {want[k]!r}; sources {c.outs!r}")
                for x in wire.walk(got[k]):
                    ctx.count("secrets_on_wire", isinstance(x, wire.Secret))
                    ctx.count("output_values_on_wire", isinstance(x, wire.OutVal))
                    ctx.count("references_on_wire", isinstance(x, wire.ResRef))
            s = props.sig(a)
            if s.count("(") > 1:
                ctx.sig(kind + s + str(sorted(c.features)) + str(c.preview))
                ctx.sample({"consumer": kind, "property": repr(a)[:500], "sent": repr(got.get(k))[:500]})
        ctx.check(set(got) <= {k for k, _, _ in ps}, "extra-property", lambda: f"unexpected properties {sorted(set(got) - set(want))}")
