"""C16: each request names the provider, and has the protection, that the option on the resource or else its ancestors determine."""
import pulumi

from pv.engine import Engine, run_program

RULE = ("One case = one program with a random tree of 5-12 custom, read, fetched, remote and local resources and providers of several packages, with provider, providers and "
        "protect options anywhere, and functions and methods called below them; the provider references and protection of every request are compared with a model of "
        "inheritance; distinct by tree and options, non-trivial if something was inherited.")
ASSUMPTIONS = ["a component's provider option is of the component's own package", "nothing inherits from a resource with both a provider and another one of that package in providers"]
UNKNOWN = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"
PKGS = ["test", "other", "x"]


def plan(tier, seed):
    n = 2100 if tier == "quick" else 10000
    return [{"i": i, "preview": i % 3 == 0, "schedule": ["shuffle", None][i % 2]} for i in range(n)]


def minimum(tier):
    return {"requests": 1500, "inherited": 120, "grandparent": 25, "own": 200, "none": 300, "wrong_package": 60, "remote": 150, "invokes": 150, "invoke_inherited": 50,
            "calls": 80, "protect_inherited": 150, "reads": 100, "overridden": 10, "unprotected": 60}


class Node:
    def __repr__(self):
        return f"{self.kind}:{self.name}:{self.type}<{self.parent and self.parent.name} provider={self.provider} providers={self.providers} protect={self.protect}"


def run(case, ctx):
    r = ctx.rng()
    provs = {}
    for i, p in enumerate(["test", "test", "other", "other", "x"][: r.choice([3, 4, 5])]):
        provs[f"p{i}"] = p
    pid = {n: "" if case["preview"] and r.random() < 0.4 else f"id{n}" for n in provs}
    of = lambda pkg: [n for n in provs if provs[n] == pkg]
    nodes = []
    as_parent = {}  # providers may be parents, too
    for name, p in provs.items():
        n = as_parent[name] = Node()
        n.name, n.kind, n.pkg, n.type, n.parent, n.provider, n.providers, n.protect, n.version, n.url, n.more = name, "prov", p, f"pulumi:providers:{p}", None, None, None, None, None, None, []
        n.effective, n.conflict, n.map, n.fails, n.protected, n.how, n.providers_form = None, False, {}, None, False, "none", "list"
    for i in range(r.choice([6, 9, 12])):
        n = Node()
        n.name = f"n{i}"
        n.kind = r.choice(["custom", "custom", "custom", "comp", "comp", "comp", "remote", "read", "get", "prov"])
        n.pkg = r.choice(PKGS)
        n.type = {"comp": r.choice([f"{n.pkg}:index:Comp", f"{n.pkg}:index:Comp", "my:Comp"]), "prov": f"pulumi:providers:{n.pkg}"}.get(
            n.kind, r.choice([f"{n.pkg}:index:R", f"{n.pkg}:a/b:R", f"{n.pkg}::R"]))
        if n.type == "my:Comp":
            n.pkg = None
        par = [m for m in nodes if m.fails is None and not m.conflict]
        comps = [m for m in par if m.kind in ("comp", "remote")]
        n.parent = r.choice(comps[-4:] if comps and r.random() < 0.7 else par[-5:]) if par and r.random() < 0.85 else None
        n.provider = n.providers = None
        n.providers_form = r.choice(["list", "dict", "tuple"])
        if n.kind != "prov" and n.pkg and of(n.pkg) and r.random() < 0.3:
            n.provider = r.choice(of(n.pkg))
        wrong = [p for p in provs if provs[p] != n.pkg]
        wrong = r.choice(wrong) if n.kind in ("custom", "read", "get") and wrong and r.random() < 0.06 else None
        n.provider = wrong or n.provider
        if r.random() < 0.12:
            n.parent = as_parent[n.provider if n.provider and r.random() < 0.7 else r.choice(sorted(provs))]
        if r.random() < (0.5 if n.kind in ("comp", "remote") else 0.15):
            n.providers = {}
            for p in r.sample(sorted(provs), r.choice([0, 1, 2, 2, 3])):
                if provs[p] not in [provs[q] for q in n.providers.values()]:
                    n.providers[provs[p]] = p
            if wrong:  # not both that failure and the warning about a conflict
                n.providers.pop(n.pkg, None)
        n.protect = r.choice([None, None, None, True, False])
        n.version = r.choice([None, "1.2.3"])
        n.url = r.choice([None, None, "https://example.com/" + n.name])
        # Several ones for a package: the last one counts, like for merged options.
        n.more = [p for p in sorted(provs) if n.providers_form != "dict" and n.providers and provs[p] in n.providers and p != n.providers[provs[p]] and r.random() < 0.3] if n.providers is not None else []
        # the model
        own = n.providers or {}
        base = n.parent.map if n.parent else {}
        pkg = n.pkg if n.kind != "prov" else "pulumi"
        n.effective = n.provider or own.get(pkg) or base.get(pkg)
        n.conflict = bool(n.provider and pkg in own)
        n.map = {**base, **own}
        if n.provider and not n.conflict:
            n.map[pkg] = n.provider
        n.fails = "wrong" if n.kind in ("custom", "read", "get") and n.effective and provs[n.effective] != pkg else None
        n.protected = n.protect if n.protect is not None else bool(n.parent and n.parent.protected)
        n.how = "own" if n.provider or pkg in own else "inherited" if n.effective else "none"
        nodes.append(n)
    funcs = []
    for i in range(r.choice([1, 2, 4])):
        n = r.choice([m for m in nodes if m.fails is None] or [None])
        if n is None:
            break
        pkg = r.choice(PKGS)
        if r.random() < 0.65:
            p = r.choice(of(pkg) or [None]) if r.random() < 0.3 else None
            par = n if not n.conflict and r.random() < 0.8 else None
            funcs.append(("invoke", f"{pkg}:index:f{i}", par, p, p or (par.map.get(pkg) if par else None)))
        else:
            custom = n.kind in ("custom", "read", "get", "prov")
            funcs.append(("call", f"{pkg}:index:m{i}", n, None, n.effective if custom else None))
    raised = {}

    def prog():
        prov = {n: pulumi.ProviderResource(p, n, {}) for n, p in provs.items()}
        res = {as_parent[n]: p for n, p in prov.items()}
        for n in nodes:
            kw = {}
            if n.parent:
                kw["parent"] = res[n.parent]
            if n.provider:
                kw["provider"] = prov[n.provider]
            if n.providers is not None:
                ps = {k: prov[v] for k, v in n.providers.items()}
                kw["providers"] = ps if n.providers_form == "dict" else [prov[x] for x in n.more] + list(ps.values()) if n.providers_form == "list" else (*(prov[x] for x in n.more), *ps.values())
            if n.protect is not None:
                kw["protect"] = n.protect
            if n.version:
                kw["version"] = n.version
            if n.url:
                kw["plugin_download_url"] = n.url
            if n.kind == "read":
                kw["id"] = "rid"
            if n.kind == "get":
                kw["urn"] = f"urn:pulumi:stk::proj::{n.type}::{n.name}"
            opts = pulumi.ResourceOptions(**kw)
            try:
                if n.kind == "prov":
                    res[n] = pulumi.ProviderResource(n.pkg, n.name, {}, opts)
                elif n.kind in ("comp", "remote"):
                    res[n] = pulumi.ComponentResource(n.type, n.name, {}, opts, n.kind == "remote")
                else:
                    res[n] = pulumi.CustomResource(n.type, n.name, {}, opts)
            except Exception as e:  # pylint: disable=broad-except
                raised[n] = e
        for kind, tok, n, p, _ in funcs:
            if kind == "invoke":
                pulumi.runtime.invoke(tok, {}, pulumi.InvokeOptions(parent=res[n] if n else None, provider=prov[p] if p else None) if n or p else None)
            else:
                pulumi.runtime.call(tok, {}, res[n])

    eng = Engine(preview=case["preview"], schedule=case["schedule"], seed=case["i"], on_register=lambda q, urn: {"id": pid[q.name]} if q.name in pid else None,
                 on_invoke=lambda q: ("return", {"urn": dict(q.args.items())["urn"], "id": "gid", "state": {}} if q.tok == "pulumi:pulumi:getResource" else {}))
    res = run_program(prog, eng, preview=case["preview"])
    show = lambda: f"{nodes} {funcs} {provs}"[:1700]
    if not ctx.check(res.ok, "program-failed", lambda: f"{res!r} {show()}"):
        return
    reg = {e.req.name: e.req for e in eng.registers()}
    reads = {e.req.name: e.req for e in eng.by("ReadResource")}
    inv = {e.req.tok: e.req for e in eng.by("Invoke")}
    calls = {e.req.tok: e.req for e in eng.by("Call")}
    ref = lambda p: f"{eng.urn('pulumi:providers:' + provs[p], p)}::{pid[p] or UNKNOWN}"
    for n in nodes:
        ctx.evaluated()
        e = raised.get(n)
        if n.fails:
            ctx.count("wrong_package")
            ctx.check(isinstance(e, ValueError) and provs[n.effective] in str(e), "wrong-package-accepted", lambda: f"{n}: {e!r}; {show()}")
            ctx.check(n.name not in reg and n.name not in reads, "wrong-package-requested", lambda: f"{n}; {show()}")
            continue
        if not ctx.check(e is None, "rejected", lambda: f"{n}: {e!r}; {show()}"):
            continue
        if n.kind == "get":
            continue
        req = reads.get(n.name) if n.kind == "read" else reg.get(n.name)
        if not ctx.check(req is not None, "not-requested", lambda: f"{n}; {show()}"):
            continue
        ctx.count("requests")
        want = ref(n.effective) if n.effective and n.kind in ("custom", "read") else ""
        ctx.check(req.provider == want, "provider", lambda: f"{n}: provider is {req.provider!r} instead of {want!r}; {show()}")
        if n.kind == "read":
            ctx.count("reads")
            continue
        if n.kind == "custom":
            ctx.count(n.how)
            if n.how == "inherited":
                ctx.count("grandparent", bool(n.parent.parent and n.parent.parent.map.get(n.pkg) == n.effective))
            if n.how == "own" and n.parent and n.parent.map.get(n.pkg, n.effective) != n.effective:
                ctx.count("overridden")
        want = {}
        if n.kind == "remote":
            ctx.count("remote")
            want = {k: ref(v) for k, v in (n.providers or {}).items()}
            if n.effective:
                want[n.pkg] = ref(n.effective)
        ctx.check(dict(req.providers) == want, "providers", lambda: f"{n}: providers are {dict(req.providers)!r} instead of {want!r}; {show()}")
        ctx.count("protect_inherited", n.protect is None and n.protected)
        ctx.count("unprotected", n.protect is False and bool(n.parent and n.parent.protected))
        ctx.check(req.protect == n.protected, "protect", lambda: f"{n}: protect is {req.protect} instead of {n.protected}; {show()}")
    ctx.count("child_of_its_provider", sum(n.provider is not None and n.parent is as_parent[n.provider] for n in nodes))
    ctx.count("several", sum(bool(n.more) for n in nodes))
    for kind, tok, n, p, eff in funcs:
        ctx.evaluated()
        req = (inv if kind == "invoke" else calls).get(tok)
        ctx.count(kind + "s")
        ctx.count("invoke_inherited", kind == "invoke" and bool(eff) and not p)
        want = ref(eff) if eff else ""
        ctx.check(req is not None and req.provider == want, "function-provider", lambda: f"{kind} {tok} below {n} with provider {p}: {req} instead of {want}; {show()}")
        if kind == "invoke" and req is not None:
            ctx.check(req.version == "", "invoke-version", lambda: f"{kind} {tok} below {n}: {req}")
        if kind == "call" and req is not None:
            ctx.check(req.version == (n.version or "") and req.pluginDownloadURL == (n.url or ""), "call-version", lambda: f"{kind} {tok} on {n}: {req}")
    if any(n.how == "inherited" for n in nodes):
        ctx.sig(show())
        ctx.sample(show()[:600])
