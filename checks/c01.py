"""C01: Output combinators compute the value that the combined values determine, and run each callback exactly once."""
from pv import wire, values, outexpr
from pv.outcase import OutCase, opsig
from pv.wire import UNK

RULE = ("One case = one program of 1-3 resources (custom/remote, random engine answers, random response order) and 6 random "
        "expressions of from_input/all/apply/secret/unsecret/concat/[]/attribute, nested to depth 4, compared with a reference "
        "model; an expression counts as distinct by its operation nesting and value shapes, non-trivial if it has >= 2 operations.")
ASSUMPTIONS = ["callbacks are deterministic", "dict keys are strings"]


def plan(tier, seed):
    n = 4800 if tier == "quick" else 20000
    return [{"i": i, "preview": False, "schedule": [None, None, "shuffle", "sleep"][i % 4]} for i in range(n)]


def minimum(tier):
    return {"expressions": 1000, "callbacks_checked": 600, "op_apply_out": 100, "op_allkw": 100, "op_concat": 50}


def run(case, ctx):
    c = OutCase(ctx, case)
    ctx.evaluated(len(c.exprs))
    if not c.ok(ctx):
        return
    for op in c.gen.ops:
        ctx.count("op_" + op)
    for a, m, x, d in c.triples():
        ctx.count("expressions")
        got = values.from_py(outexpr.unbox(x[1]))
        ctx.check(x[2] is True, "value-not-known", lambda: f"{a!r} is not known in an update")
        ctx.check(wire.eq(got, m.v), "wrong-value", lambda: f"{a!r} should be {m.v!r} but is {got!r}")
        s = opsig(a)
        if s.count("(") >= 2:
            ctx.sig(s + values.shape(m.v))
        ctx.sample({"expression": repr(a)[:600], "value": repr(got)[:300]})
    calls = c.builder.calls
    ctx.count("callbacks_checked", len(calls))
    want = c.gen.calls
    seen = {}
    for i, v in calls:
        seen.setdefault(i, []).append(v)
    for i, v in want.items():
        g = seen.get(i, [])
        ctx.check(len(g) == 1, "callback-count", lambda: f"callback {i} ran {len(g)} times instead of once; {c.exprs!r}")
        if g:
            ctx.check(wire.eq(g[0], v), "callback-argument", lambda: f"callback {i} got {g[0]!r} instead of {v!r}")
    extra = set(seen) - set(want)
    ctx.check(not extra, "callback-count", lambda: f"callbacks {sorted(extra)} ran unexpectedly")
