"""C15: merging options concatenates collections, lets later scalars win, and leaves the operands alone."""
import asyncio
import copy

import pulumi

from pv.engine import Engine, observe, run_program

RULE = ("One case = one program that merges 2-6 random resource options and invoke options (every option; every form of depends_on and providers; None operands; static and "
        "instance form; any association) and uses the results; each result, its use in a request and all operands are compared with a reference merge; distinct by the "
        "options set, non-trivial if an option was set on two operands.")
ASSUMPTIONS = ["provider mappings that are used without being merged have the providers' packages as keys"]
LISTS = ["ignore_changes", "replace_on_changes", "aliases", "additional_secret_outputs", "transformations"]
SCALARS = {"protect": [True, False], "delete_before_replace": [True, False], "version": ["1.0.0", "2.0.0-x", ""], "plugin_download_url": ["https://a", "https://b", ""],
           "retain_on_delete": [True, False], "import_": ["i1", "i2"], "id": ["r1", "r2"], "urn": ["urn:1", "urn:2"]}
FIELDS = {"protect": "protect", "delete_before_replace": "deleteBeforeReplace", "version": "version", "plugin_download_url": "pluginDownloadURL",
          "retain_on_delete": "retainOnDelete", "import_": "importId"}


def plan(tier, seed):
    n = 2400 if tier == "quick" else 8000
    return [{"i": i, "preview": i % 4 == 0} for i in range(n)]


def minimum(tier):
    return {"merges": 900, "both_set": 3000, "dependencies": 600, "operands_checked": 2000, "invoke_merges": 600, "used": 300, "instance_form": 300,
            "conflicting_providers": 10, "resolved_to_none": 30, "unknown_dependencies": 12, "disagreeing_keys": 50}


def resolve(x):
    """Any depends_on as a list of names."""

    async def f():
        v = x
        while isinstance(v, (pulumi.Output, asyncio.Future)) or asyncio.iscoroutine(v):
            v = await (v.future() if isinstance(v, pulumi.Output) else v)
        if v is None:
            return []
        if isinstance(v, pulumi.Resource):
            return [v._name]
        out = []
        for y in v:
            out += await resolve(y)
        return out

    return f()


def run(case, ctx):
    r = ctx.rng()
    eng = Engine(preview=case["preview"], seed=case["i"])
    deps_names = [f"d{i}" for i in range(4)]
    provs = {"pa": "test", "pb": "test", "pc": "other", "pd": "other"}
    checks = []
    fs = [lambda args, i=i: None for i in range(4)]

    def prog():
        res = {n: pulumi.CustomResource("test:index:R", n, {}) for n in deps_names}
        comp = {n: pulumi.ComponentResource("test:index:C", n) for n in ("k0", "k1")}
        prov = {n: pulumi.ProviderResource(p, n, {}) for n, p in provs.items()}

        def depends():
            """(depends_on, model, the resources the value of depends_on itself comes from)"""
            form = r.choice(["one", "list", "tuple", "out", "outlist", "future", "coro", "mixed", "empty", "outone", "none", "unknown", "unknowns"])
            ns = [r.choice(deps_names) for _ in range(r.choice([1, 2]))]
            rs = [res[n] for n in ns]

            async def co(x):
                await asyncio.sleep(0)
                return x

            if form == "one":
                return rs[0], ns[:1], []
            if form == "list":
                return list(rs), ns, []
            if form == "tuple":
                return tuple(rs), ns, []
            if form == "out":
                return pulumi.Output.from_input(1).apply(lambda _: list(rs)), ns, []
            if form == "outone":
                return pulumi.Output.from_input(1).apply(lambda _: rs[0]), ns[:1], []
            if form == "outlist":
                return [pulumi.Output.from_input(1).apply(lambda _, x=x: x) for x in rs], ns, []
            if form == "future":
                return asyncio.ensure_future(co(list(rs))), ns, []
            if form == "coro":
                return co(list(rs)), ns, []
            if form == "mixed":
                return [rs[0], asyncio.ensure_future(co(rs[-1]))], [ns[0], ns[-1]], []
            if form == "none":
                ctx.count("resolved_to_none")
                return pulumi.Output.from_input(None), [], []
            if form in ("unknown", "unknowns"):  # unknown in previews
                src = r.choice(deps_names)
                if case["preview"]:
                    ctx.count("unknown_dependencies")
                known = [] if case["preview"] else ns
                if form == "unknown":
                    return res[src].id.apply(lambda _: list(rs)), known, [src]
                return [res[src].id.apply(lambda _, x=x: x) for x in rs], known, [src]
            return [], [], []

        def options():
            kw, m = {}, {}
            for k, vs in SCALARS.items():
                if r.random() < 0.4:
                    kw[k] = m[k] = r.choice(vs)
            for k in LISTS:
                if r.random() < 0.4:
                    pool = fs if k == "transformations" else ["a", "b", "*", "c.d"] if k != "aliases" else ["urn:pulumi:s::p::t:t:t::x", "urn:pulumi:s::p::t:t:t::y"]
                    v = [r.choice(pool) for _ in range(r.choice([0, 1, 2, 3]))]
                    m[k] = list(v)
                    kw[k] = v if k == "transformations" or r.random() < 0.8 else tuple(v)
            if r.random() < 0.3:
                m["custom_timeouts"] = kw["custom_timeouts"] = pulumi.CustomTimeouts(create=r.choice(["1m", "2m"]))
            if r.random() < 0.3:
                m["parent"] = kw["parent"] = r.choice(list(comp.values()))
            if r.random() < 0.3:
                m["provider"] = kw["provider"] = r.choice([prov["pa"], prov["pb"]])
            if r.random() < 0.5:
                ps = r.sample(list(prov.values()), r.choice([0, 1, 2, 2]))
                if r.random() < 0.5:
                    kw["providers"] = {p.package: p for p in ps}
                    if r.random() < 0.3:  # keys that aren't the packages are ignored by merging
                        kw["providers"] = {p._name: p for p in ps}
                        ps = list({p.package: p for p in ps}.values())
                else:
                    kw["providers"] = list(ps) if r.random() < 0.7 else tuple(ps)
                m["providers"] = {p.package: p for p in ps}
            if r.random() < 0.6:
                kw["depends_on"], m["depends_on"], m["sources"] = depends()
            return pulumi.ResourceOptions(**kw), m

        def merged(a, b):
            out = {}
            for k in a.keys() | b.keys():
                if k in a and k in b:
                    ctx.count("both_set")
                if k in LISTS or k in ("depends_on", "sources"):
                    out[k] = a.get(k, []) + b.get(k, [])
                elif k == "providers":
                    x, y = a.get(k, {}), b.get(k, {})
                    if any(x[p] is not y[p] for p in x.keys() & y.keys()):  # the later one wins
                        ctx.count("conflicting_providers")
                    out[k] = {**x, **y}
                else:
                    out[k] = b[k] if k in b else a[k]
            return out

        def snapshot(o):
            return {k: (v, copy.copy(v) if isinstance(v, (list, dict, tuple)) else v) for k, v in vars(o).items() if k != "merge"}

        def same(o, snap):
            now = {k: v for k, v in vars(o).items() if k != "merge"}
            return now.keys() == snap.keys() and all(now[k] is snap[k][0] and (now[k] is snap[k][1] or not isinstance(now[k], (list, dict, tuple)) or
                                                     (type(now[k]) is type(snap[k][1]) and len(now[k]) == len(snap[k][1]) and
                                                      all(x is y for x, y in zip(now[k], snap[k][1])))) for k in now)

        def judge(o, m, what, operands):
            ctx.evaluated()
            ctx.check(type(o) is pulumi.ResourceOptions, "type", lambda: f"{what}: {o!r}")
            for k in SCALARS.keys() | {"custom_timeouts", "parent", "provider"}:
                ctx.check(getattr(o, k) is m.get(k) or getattr(o, k) == m.get(k), "scalar-" + k, lambda: f"{what}: {k} is {getattr(o, k)!r} instead of {m.get(k)!r}")
            for k in LISTS:
                got = getattr(o, k)
                ctx.check(list(got or []) == m.get(k, []), "list-" + k, lambda: f"{what}: {k} is {got!r} instead of {m.get(k)!r}")
            ps = o.providers or {}
            if any(isinstance(x.providers, dict) and any(k != p.package for k, p in x.providers.items()) for x in operands if x is not None):
                ctx.count("disagreeing_keys")
                wrong.add(1)
            ps = dict(ps) if isinstance(ps, dict) else {p.package: p for p in ps}
            want = m.get("providers", {})
            ctx.check(ps.keys() == want.keys() and all(ps[k] is want[k] for k in ps), "providers", lambda: f"{what}: providers are {ps!r} instead of {want!r}")
            checks.append((o.depends_on, m.get("depends_on", []), what))

        pool = [options() for _ in range(r.choice([2, 3, 4]))] + [(None, {})]
        snaps = [(o, snapshot(o)) for o, _ in pool if o is not None]
        for _ in range(r.choice([2, 4, 6])):
            (a, ma), (b, mb) = r.choice(pool), r.choice(pool)
            if a is not None and r.random() < 0.5:
                ctx.count("instance_form")
                o = a.merge(b)
            else:
                o = pulumi.ResourceOptions.merge(a, b)
            m = merged(ma, mb)
            ctx.count("merges")
            if a is not None and b is not None:
                ctx.sig(f"{sorted(ma)}+{sorted(mb)}")
            judge(o, m, f"merge of {sorted(ma)} and {sorted(mb)}", (a, b))
            for x, snap in snaps:
                ctx.count("operands_checked")
                ctx.check(same(x, snap), "operand-changed", lambda: f"{ {k: (v[1], vars(x).get(k)) for k, v in snap.items()} }")
            snaps.append((o, snapshot(o)))
            pool.append((o, m))
        # use some of them
        for i, (o, m) in enumerate(r.sample(pool, min(3, len(pool)))):
            if o is not None and isinstance(o.providers, dict):
                o = pulumi.ResourceOptions.merge(o, None)
            if o is None or m.get("urn") or m.get("id") or m.get("transformations"):
                o = pulumi.ResourceOptions.merge(o, None)
                o.urn = o.id = o.transformations = None
            if "provider" in m and "test" in m.get("providers", {}):
                continue
            use.append((f"use{i}", m))
            pulumi.CustomResource("test:index:Use", f"use{i}", {}, o)
        # functions
        ipool = [(None, {})]
        for _ in range(3):
            kw = {}
            for k, vs in {"parent": list(comp.values()), "provider": [prov["pa"], prov["pb"]], "version": ["1.0.0", "2.0.0", ""], "plugin_download_url": ["a", "b", ""]}.items():
                if r.random() < 0.5:
                    kw[k] = r.choice(vs)
            ipool.append((pulumi.InvokeOptions(**kw), kw))
        isnaps = [(o, snapshot(o)) for o, _ in ipool if o is not None]
        for _ in range(4):
            (a, ma), (b, mb) = r.choice(ipool), r.choice(ipool)
            o = a.merge(b) if a is not None and r.random() < 0.5 else pulumi.InvokeOptions.merge(a, b)
            m = {k: mb[k] if k in mb and not (k == "version" and not mb[k]) else ma.get(k) for k in ("parent", "provider", "version", "plugin_download_url")}
            ctx.count("invoke_merges")
            ctx.evaluated()
            for k, v in m.items():
                g = getattr(o, k)
                ctx.check(g is v or (g or "") == (v or "") and (k == "version" or g == v), "invoke-" + k, lambda: f"merge of {ma} and {mb}: {k} is {g!r} instead of {v!r}")
            for x, snap in isnaps:
                ctx.check(same(x, snap), "invoke-operand-changed", lambda: f"{vars(x)} {snap}")
            isnaps.append((o, snapshot(o)))
            ipool.append((o, {k: v for k, v in m.items() if v is not None}))

    use, wrong = [], set()

    async def after():
        for d, want, what in checks:
            got = await asyncio.wait_for(resolve(d), 20)
            ctx.count("dependencies")
            ctx.check(got == want, "depends-on", lambda: f"{what}: depends_on is {got} instead of {want}")

    res = run_program(prog, eng, preview=case["preview"], after=after)
    if not ctx.check(res.ok, "program-failed", lambda: f"{res!r}"):
        return
    ctx.check(bool(wrong) <= any("Key will be ignored" in c.message for _, c in eng.logs), "disagreement-not-reported", lambda: "no warning")
    for name, m in use:
        e = eng.register(name)
        if not ctx.check(e is not None, "not-used", lambda: name):
            continue
        ctx.count("used")
        for k, f in FIELDS.items():
            if k == "protect" and k not in m:
                continue
            ctx.check(getattr(e.req, f) == (m.get(k) or type(getattr(e.req, f))()), "used-" + k, lambda: f"{m}: {f} is {getattr(e.req, f)!r}")
        ctx.check(list(e.req.ignoreChanges) == m.get("ignore_changes", []), "used-ignore-changes", lambda: f"{m}: {e.req.ignoreChanges}")
        got = {u.split("::")[-1] for u in e.req.dependencies}
        ctx.check(got == {*m.get("depends_on", []), *m.get("sources", [])}, "used-depends-on", lambda: f"{m}: {got}")
        p = m.get("provider") or m.get("providers", {}).get("test")
        ctx.check(e.req.provider.split("::")[-2:-1] == ([p._name] if p else []), "used-provider", lambda: f"{m}: {e.req.provider}")
        ctx.sample(f"{sorted(m)} -> {str(e.req)[:300]}")
