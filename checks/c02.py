"""C02: previews never run callbacks on values they don't know, and never claim to know a value they don't."""
from pv import wire, values, outexpr
from pv.outcase import OutCase, opsig
from pv.wire import UNK

RULE = ("One case = one program in a preview whose engine answers contain unknown values at random depths or leave properties out, "
        "with 6 random Output expressions; known-ness, the known parts and every callback invocation are compared with a reference "
        "model; distinct by operation nesting and the shape of the (partially unknown) value, non-trivial if an unknown is involved.")
ASSUMPTIONS = ["callbacks are deterministic", "legacy apply mode is off"]


def plan(tier, seed):
    n = 4800 if tier == "quick" else 20000
    return [{"i": i, "preview": True, "schedule": [None, None, "shuffle", "sleep"][i % 4]} for i in range(n)]


def minimum(tier):
    return {"expressions": 1000, "unknown_expressions": 300, "known_expressions": 300, "callbacks_checked": 300,
            "callbacks_held_back": 100}


def run(case, ctx):
    c = OutCase(ctx, case, secret=0.05)
    ctx.evaluated(len(c.exprs))
    if not c.ok(ctx):
        return
    for a, m, x, d in c.triples():
        ctx.count("expressions")
        ctx.count("known_expressions" if m.known else "unknown_expressions")
        got = values.from_py(outexpr.unbox(x[1]))
        ctx.check(x[2] == m.known, "wrong-known", lambda: f"{a!r}: is_known is {x[2]}, expected {m.known} (value {got!r})")
        if m.flag:
            ctx.check(wire.eq(got, m.v), "wrong-value", lambda: f"{a!r} should be {m.v!r} but is {got!r}")
        if not m.known:
            ctx.sig(opsig(a) + (values.shape(m.v) if m.flag else "?"))
            ctx.sample({"expression": repr(a)[:600], "value": repr(m.v)[:200] if m.flag else "unknown"})
    want, seen = c.gen.calls, {}
    for i, v in c.builder.calls:
        ctx.count("callbacks_checked")
        seen.setdefault(i, []).append(v)
        ctx.check(i in want, "callback-ran-on-unknown", lambda: f"callback {i} ran with {v!r} although its source isn't known; {c.exprs!r}")
    for i, v in want.items():
        g = seen.get(i, [])
        ctx.check(len(g) == 1, "callback-count", lambda: f"callback {i} ran {len(g)} times instead of once; {c.exprs!r}")
        if g:
            ctx.check(wire.eq(g[0], v), "callback-argument", lambda: f"callback {i} got {g[0]!r} instead of {v!r}")
    ctx.count("callbacks_held_back", c.gen.held)
