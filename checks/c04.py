"""C04: an Output tracks exactly the resources its value was computed from."""
from pv import wire, values, outexpr
from pv.outcase import OutCase, opsig

RULE = ("One case = one program (update or preview) with 1-3 resources, some of whose properties the engine reports as depending on "
        "further resources, and 6 random Output expressions over them; the set of resources of each is compared with a reference "
        "model; distinct by operation nesting, non-trivial if >= 2 resources are involved.")
ASSUMPTIONS = ["callbacks are deterministic"]


def plan(tier, seed):
    n = 4800 if tier == "quick" else 20000
    return [{"i": i, "preview": i % 2 == 0, "schedule": [None, None, None, "shuffle"][i // 2 % 4]} for i in range(n)]


def minimum(tier):
    return {"with_dependencies": 500, "multiple_dependencies": 200, "op_apply_out": 80}


def run(case, ctx):
    c = OutCase(ctx, case, secret=0.05)
    ctx.evaluated(len(c.exprs))
    if not c.ok(ctx):
        return
    for op in c.gen.ops:
        ctx.count("op_" + op)
    for a, m, x, d in c.triples():
        ctx.count("with_dependencies", bool(m.deps))
        ctx.count("multiple_dependencies", len(m.deps) > 1)
        ctx.check(d >= m.deps, "dependency-lost", lambda: f"{a!r} should depend on {sorted(m.deps)} but depends on {sorted(d)}; sources {c.srcs!r} preview={c.preview}")
        ctx.check(d <= m.deps, "dependency-invented", lambda: f"{a!r} should depend on {sorted(m.deps)} but depends on {sorted(d)}; sources {c.srcs!r} preview={c.preview}")
        if len(m.deps) > 1:
            ctx.sig(opsig(a))
            ctx.sample({"expression": repr(a)[:600], "resources": sorted(d)})
