"""C09: every resource's dependencies, as reported to the engine, are exactly those that its inputs and depends_on imply."""
from pv import props
from pv.propcase import PropCase

RULE = ("One case = one program with 1-6 source resources (custom, remote, trees of local components with children) and 1-3 consumers "
        "with random property trees and depends_on forms; per-property and total dependencies of each request are compared with a "
        "reference model; distinct by (property tree, depends_on form), non-trivial if something is depended on.")
ASSUMPTIONS = ["the fake engine stands for the real one's RPC interface"]


def plan(tier, seed):
    n = 4000 if tier == "quick" else 16000
    return [{"i": i, "preview": i % 3 == 0, "features": [None, None, [], ["secrets", "resourceReferences"]][i % 4],
             "schedule": [None, None, None, "shuffle"][i // 4 % 4]} for i in range(n)]


def minimum(tier):
    return {"requests_with_dependencies": 300, "depends_on_used": 150, "component_dependencies": 50, "property_dependencies": 500}


def run(case, ctx):
    c = PropCase(ctx, case, depth=2, kinds=("custom", "custom", "remote", "read"))
    if not c.ok(ctx):
        return
    for kind, name, ps, dep, req in c.requests():
        if req is None:
            continue
        ctx.evaluated()
        total, want = set(), {}
        for k, a, v in ps:
            t, ds = c.model.ser(v, kind == "remote")
            if t is not None:
                want[k] = c.model.expand(ds)
                total |= want[k]
                ctx.count("component_dependencies", any(d in c.world and c.world[d]["kind"] == "local" for d in ds))
        if dep is not None:
            ctx.count("depends_on_used")
            total |= c.model.expand(dep[1])
        got = list(req.dependencies)
        ctx.count("requests_with_dependencies", bool(total))
        ctx.check(set(got) >= total, "dependency-lost", lambda: f"{kind} {name} {ps!r} depends_on={dep!r} preview={c.preview}: dependencies {sorted(got)} lack {sorted(total - set(got))}")
        ctx.check(set(got) <= total, "dependency-invented", lambda: f"{kind} {name} {ps!r} depends_on={dep!r} preview={c.preview}: dependencies {sorted(set(got) - total)} are unjustified")
        ctx.check(len(got) == len(set(got)), "dependency-duplicated", lambda: f"{name}: {got}")
        if kind != "read":
            gotp = {k: list(v.urns) for k, v in req.propertyDependencies.items()}
            ctx.check(set(gotp) == set(want), "property-dependency-keys", lambda: f"{name}: {sorted(gotp)} instead of {sorted(want)}; {ps!r}")
            for k in want:
                ctx.count("property_dependencies", len(want[k]))
                g = gotp.get(k, [])
                ctx.check(set(g) == want[k] and len(g) == len(set(g)), "property-dependency",
                          lambda: f"{kind} {name}.{k} preview={c.preview}: {sorted(g)} instead of {sorted(want[k])}; {[a for q, a, _ in ps if q == k]!r}")
        if total:
            ctx.sig(kind + "|".join(props.sig(a) for _, a, _ in ps) + (dep[0][0] if dep else ""))
            ctx.sample({"kind": kind, "properties": repr(ps)[:500], "depends_on": repr(dep)[:200], "dependencies": sorted(got)})
