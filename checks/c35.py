"""C35: programs whose dependencies are circular by way of components, or very long, still finish."""
import pulumi
from pulumi import ComponentResource, CustomResource, Output, ResourceOptions

from pv.engine import Engine, run_program

RULE = ("One case = a program of 2-30 resources in random trees of components, each depending on up to 3 earlier components or resources, its own ancestors included, under engines that answer in random order; each "
        "dependency reported must be implied, the ones reported must form no cycle, and each implied one that's missing must close one; or a program with a chain, cycle or grid of 20-3000 resources, callbacks, Outputs or components; "
        "distinct by shape, non-trivial if implied dependencies are circular or the chain is longer than 300.")
ASSUMPTIONS = ["cycles arise from depends_on of resources that aren't components (else waiting for the parent makes the program itself circular)"]
CASE_TIMEOUT = 120
LONG = ["inputs", "depends", "mixed", "components", "parents", "applies", "alls", "callbacks", "nested callbacks", "component chain", "wide", "aliases", "component depth", "cycle", "diamonds"]


def plan(tier, seed):
    n, m = (520, 120) if tier == "quick" else (14000, 1200)
    return [{"i": i, "long": None} for i in range(n)] + [{"i": n + i, "long": LONG[i % len(LONG)], "big": (i // len(LONG)) % 4 == 0} for i in range(m)]


def minimum(tier):
    return {"circular": 120, "left_out": 300, "implied": 1500, "reported": 1000, "long": 40, "over_1000": 8, "long_cycles": 1, "reordered": 60}


class Comp(ComponentResource):
    def __init__(self, name, opts=None):
        super().__init__("my:c:Comp", name, {}, opts)


def circular(case, ctx, r):  # pylint: disable=too-many-locals
    n = r.choice([2, 4, 8, 15, 30])
    todo, comps, leaves = [], [], []
    for i in range(n):
        kind = "comp" if i == 0 or r.random() < 0.35 else "res"
        parent = r.choice(comps) if comps and r.random() < 0.75 else None
        deps = []
        if kind == "res":
            # The components that it's in, and any other that's declared so far.
            pool = comps + comps + leaves
            deps = [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 3]))] if pool else []
            if parent is not None and r.random() < 0.4:
                deps.append(parent)
        todo.append((i, kind, parent, deps))
        (comps if kind == "comp" else leaves).append(i)
    form = {i: r.choice(["list", "output", "single", "outputs"]) for i in range(n)}

    def program():
        objs = {}
        for i, kind, parent, deps in todo:
            opts = ResourceOptions(parent=objs.get(parent))
            ds = [objs[d] for d in deps]
            if ds:
                f = form[i]
                opts.depends_on = ds if f == "list" else Output.from_input(ds) if f == "output" else ds[0] if f == "single" and len(ds) == 1 else [Output.from_input(d) for d in ds]
            objs[i] = Comp(f"n{i}", opts) if kind == "comp" else CustomResource("t:m:R", f"n{i}", {}, opts)

    e = Engine(schedule=case["i"] % 3 and "shuffle" or r.choice([None, "lifo", "sleep"]), seed=case["i"], preview=r.random() < 0.2)
    res = run_program(program, e, preview=e.preview)
    show = f"{[(i, k, p, d, form[i]) for i, k, p, d in todo]} schedule={e.schedule}"
    ctx.count("reordered", e.reordered)
    ctx.evaluated()
    if not ctx.check(res.ok, "unfinished", lambda: f"{show}: {res!r}"[:3000]):
        return
    reqs = {x.req.name: x for x in e.registers()}
    if not ctx.check(sorted(reqs) == sorted(f"n{i}" for i in range(n)) and len(e.registers()) == n, "registrations", lambda: f"{show}: {sorted(reqs)}"):
        return
    urn = {x.resp.urn: int(x.req.name[1:]) for x in e.registers()}
    kinds = {i: k for i, k, _, _ in todo}

    def expand(i):
        if kinds[i] == "res":
            return {i}
        return set().union(*[expand(j) for j, _, p, _ in todo if p == i], set())

    implied = {i: set().union(*[expand(d) for d in deps], set()) - {i} for i, _, _, deps in todo}
    got = {i: {urn.get(u, u) for u in reqs[f"n{i}"].req.dependencies} for i in range(n)}

    def reach(graph, a):
        seen, st = set(), list(graph.get(a, ()))
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(graph.get(x, ()))
        return seen

    reaches = {i: reach(got, i) for i in range(n)}
    ctx.count("circular", any(i in reach(implied, i) for i in range(n)))
    for i in range(n):
        ctx.count("implied", len(implied[i]))
        ctx.count("reported", len(got[i]))
        ctx.check(got[i] <= implied[i], "invented", lambda: f"{show}: {i} depends on {got[i] - implied[i]} without reason")
        ctx.check(i not in reaches[i], "cycle-reported", lambda: f"{show}: {i} depends on itself by way of {got}")
        for j in implied[i] - got[i]:
            ctx.count("left_out")
            ctx.check(i in reaches.get(j, ()), "left-out", lambda: f"{show}: {i} doesn't depend on {j} although that makes no cycle: {got}")
        for j in got[i]:
            a, b = reqs[f"n{j}"], reqs[f"n{i}"]
            ctx.check(a.end is not None and a.end < b.seq, "too-early", lambda: f"{show}: {i} was requested before {j} was answered")
    ctx.sig(f"{n} {sorted((k, str(p), tuple(d)) for _, k, p, d in todo if d)}"[:200])


def long(case, ctx, r):  # pylint: disable=too-many-locals,too-many-statements
    kind = case["long"]
    n = r.choice([1100, 1300]) if case["big"] else r.choice([20, 60, 150, 400])
    if kind in ("applies", "callbacks", "nested callbacks") and case["big"]:
        n = r.choice([1200, 3000])
    if kind in ("components", "parents", "aliases", "component depth"):
        n = min(n, 250)
    names, urns, out = [], {}, {}

    def res(name, ps=None, **kw):
        names.append(name)
        return CustomResource("t:m:R", name, ps or {}, ResourceOptions(**kw))

    def program():
        p = None
        if kind in ("inputs", "depends", "mixed"):
            for i in range(n):
                how = kind if kind != "mixed" else r.choice(["inputs", "depends", "both"])
                p = res(f"r{i}", {"a": p.urn} if p and how != "depends" else {}, depends_on=[p] if p and how != "inputs" else None)
            urns.update({f"r{i}": {f"r{i - 1}"} for i in range(1, n)})
        elif kind == "components":
            for i in range(n):
                names.append(f"c{i}")
                p = Comp(f"c{i}", ResourceOptions(parent=p))
            p = res("leaf", parent=p)
        elif kind == "parents":
            for i in range(n):
                p = res(f"r{i}", parent=p)
        elif kind == "aliases":
            for i in range(n // 3):
                names.append(f"c{i}")
                p = Comp(f"c{i}", ResourceOptions(parent=p, aliases=[pulumi.Alias(name="old")] if i == 0 else None))
            p = res("leaf", parent=p)
        elif kind in ("applies", "alls"):
            o = res("r").urn.apply(lambda _: 0)
            for _ in range(n):
                o = o.apply(lambda v: v + 1) if kind == "applies" else Output.all(o, 1).apply(lambda vs: vs[0] + vs[1])
            o.apply(lambda v: out.update(v=v))
        elif kind in ("callbacks", "nested callbacks"):
            nested = kind != "callbacks"

            def cb(i):
                def f(_):
                    if i == n:
                        out["v"] = n
                        return "end"
                    o = res(f"r{i}").urn.apply(cb(i + 1))
                    return o if nested else None

                return f

            o = Output.from_input(1).apply(cb(0))
            o.apply(lambda v: out.update(end=v))
        elif kind == "component chain":
            for i in range(n // 2):
                names.append(f"c{i}")
                c = Comp(f"c{i}")
                res(f"r{i}", parent=c, depends_on=[p] if p else None)
                p = c
            urns.update({f"r{i}": {f"r{i - 1}"} for i in range(1, n // 2)})
        elif kind == "wide":
            names.append("c")
            c = Comp("c")
            for i in range(n):
                res(f"r{i}", parent=c)
            res("leaf", depends_on=c)
            urns["leaf"] = {f"r{i}" for i in range(n)}
        elif kind == "cycle":  # by way of all of a chain, which ends in a resource of a component that its first depends on
            names.append("c")
            c = Comp("c")
            for i in range(n):
                p = res(f"r{i}", depends_on=[p or c])
            urns.update({f"r{i}": {f"r{i - 1}"} for i in range(1, n)})
            res("leaf", parent=c, depends_on=[p])
            urns.update({"r0": {"leaf"}, "leaf": {f"r{n - 1}"}})
        elif kind == "diamonds":
            q = None
            for i in range(n // 2):
                ds = [x for x in (p, q) if x]
                p, q = res(f"a{i}", depends_on=ds), res(f"b{i}", depends_on=ds)
                if i:
                    urns[f"a{i}"] = urns[f"b{i}"] = {f"a{i - 1}", f"b{i - 1}"}
        elif kind == "component depth":
            d = min(n, 120)
            for i in range(d):
                names.append(f"c{i}")
                p = Comp(f"c{i}", ResourceOptions(parent=p))
                if i % 10 == 9:
                    res(f"r{i}", parent=p)
                if i == 0:
                    out["top"] = p
            res("leaf", depends_on=[out["top"]])
            urns["leaf"] = {f"r{i}" for i in range(9, d, 10)}

    e = Engine(preview=case["i"] % 5 == 0, seed=case["i"])
    done = run_program(program, e, preview=e.preview)
    show = f"{kind} of {n}, preview={e.preview}"
    ctx.evaluated()
    ctx.count("long")
    ctx.count("over_1000", n > 1000)
    ctx.sig(f"{kind} {n}")
    if not ctx.check(done.ok, "unfinished", lambda: f"{show}: {done!r}"[-2500:]):
        return
    regs = {x.req.name: x for x in e.registers()}
    ctx.check(sorted(x.req.name for x in e.registers()) == sorted(names), "registrations", lambda: f"{show}: {len(e.registers())} instead of {len(names)}")
    name = {x.resp.urn: x.req.name for x in e.registers()}
    missing = 0
    for k in names:
        if k in regs and kind == "cycle":
            got = {name.get(u, u) for u in regs[k].req.dependencies}
            ctx.check(got <= urns.get(k, set()), "dependencies", lambda: f"{show}: {k} depends on {sorted(got)[:5]} instead of {sorted(urns.get(k, set()))[:5]}")
            missing += len(urns.get(k, set()) - got)
        elif k in regs:
            got = {name.get(u, u) for u in regs[k].req.dependencies}
            ctx.check(got == urns.get(k, set()), "dependencies", lambda: f"{show}: {k} depends on {len(got)} {sorted(got)[:5]} instead of {sorted(urns.get(k, set()))[:5]}")
    if kind == "cycle":
        ctx.count("long_cycles", n > 50)
        ctx.check(missing == 1, "long-cycle", lambda: f"{show}: {missing} of the dependencies, which form a cycle, were left out")
    if kind in ("applies", "alls", "callbacks", "nested callbacks"):
        ctx.check(out.get("v") == n, "value", lambda: f"{show}: {out}")
    if kind == "nested callbacks":
        ctx.check(out.get("end") == "end", "value", lambda: f"{show}: {out}")
    if kind in ("components", "parents", "aliases") and "leaf" in regs:
        ctx.check(name.get(regs["leaf"].req.parent) == names[-2], "parent", lambda: f"{show}: {regs['leaf'].req.parent}"[:500])
    if kind == "aliases":
        ctx.count("aliases", len(regs["leaf"].req.aliases))
        ctx.check(len(regs["leaf"].req.aliases) == 1, "aliases", lambda: f"{show}: {list(regs['leaf'].req.aliases)}"[:500])


def run(case, ctx):
    r = ctx.rng()
    if case["long"]:
        long(case, ctx, r)
    else:
        circular(case, ctx, r)
