"""C13: the aliases of a registration are exactly those that the resource's and its ancestors' aliases stand for."""
import pulumi

from pv.engine import Engine, run_program

RULE = ("One case = one program with a random tree of 3-6 components, custom and remote resources, providers with random aliases (URNs, Alias objects with any subset of "
        "name, type, parent, stack and project, as plain values or Outputs; names that do or don't start with the parent's name); the aliases "
        "of each request are compared with a model on strings; distinct by tree and alias forms, non-trivial if something is inherited.")
ASSUMPTIONS = ["names don't contain '::'", "an alias with a stack or project and a parent: only the parent counts, as in the other SDKs (not generated)"]
NAMES = ["app", "app-db", "db", "a", "ap", "appapp", "x y", "ü", "app-"]
TYPES = ["test:index:C", "my:mod/sub:Thing", "other:index:R", "t:t:T"]


def plan(tier, seed):
    n = 1500 if tier == "quick" else 6000
    return [{"i": i, "preview": i % 3 == 0, "schedule": ["shuffle", None][i % 2]} for i in range(n)]


def minimum(tier):
    return {"requests": 900, "aliases": 1500, "inherited": 600, "output_parts": 100, "renamed": 150, "grandchildren": 60}


class Custom(pulumi.CustomResource):
    def __init__(self, name, t, opts):
        super().__init__(t, name, {}, opts)


class Comp(pulumi.ComponentResource):
    def __init__(self, name, t, opts):
        super().__init__(t, name, None, opts)


class Remote(pulumi.ComponentResource):
    def __init__(self, name, t, opts):
        super().__init__(t, name, {}, opts, True)


class Prov(pulumi.ProviderResource):
    def __init__(self, name, t, opts):
        super().__init__("test", name, {}, opts)


class Node:
    def __repr__(self):
        return self.name


def child_urn(parent_urn, t, name):
    """The URN of something below parent_urn."""
    *head, qualified, _ = parent_urn.split("::")
    return "::".join(head + [qualified + "$" + t, name])


def run(case, ctx):
    r = ctx.rng()
    eng = Engine(preview=case["preview"], schedule=case["schedule"], seed=case["i"])
    nodes = []
    used = set()
    for i in range(r.choice([3, 4, 5, 6])):
        n = Node()
        n.parent = r.choice(nodes) if nodes and r.random() < 0.75 else None
        n.kind = r.choice(["comp", "comp", "custom", "remote", "prov"]) if i else "comp"
        n.type = "pulumi:providers:test" if n.kind == "prov" else r.choice(TYPES)
        while True:
            n.name = r.choice(NAMES)
            if n.parent is not None and r.random() < 0.6:
                n.name = n.parent.name + r.choice(["-x", "", "2", "-db", "/é"])
            n.urn = child_urn(n.parent.urn, n.type, n.name) if n.parent else f"urn:pulumi:stk::proj::{n.type}::{n.name}"
            if n.urn not in used:
                break
            n.type = "pulumi:providers:test" if n.kind == "prov" else f"test:index:N{len(used)}"
            if n.kind == "prov":
                n.kind = "comp"
        used.add(n.urn)
        n.specs = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4])):
            if r.random() < 0.3:
                parentq = r.choice(["", "p:p:P$", "a:b:C$d:e:F$"])
                spec = ("urn", f"urn:pulumi:{r.choice(['stk', 'old'])}::{r.choice(['proj', 'p0'])}::{parentq}{r.choice(TYPES)}::{r.choice(NAMES + [n.name, n.name + '-z'])}")
            else:
                kw = {}
                if r.random() < 0.5:
                    kw["name"] = r.choice(NAMES + [n.name + "-old", (n.parent.name if n.parent else "q") + "-was"])
                if r.random() < 0.4:
                    kw["type_"] = r.choice(TYPES)
                if r.random() < 0.4:
                    others = [m for m in nodes if m is not n.parent]
                    form = r.choice(["none", "res", "urn", "out"])
                    if form == "none" or not others and form != "urn":
                        kw["parent"] = None
                    elif form == "urn":
                        kw["parent"] = "urn:pulumi:st0::pr0::x:y:Z::gone"
                    else:
                        kw["parent"] = (form, r.choice(others))
                effective = kw["parent"] if "parent" in kw else n.parent
                if effective is None:
                    if r.random() < 0.4:
                        kw["stack"] = r.choice(["old", "stk"])
                    if r.random() < 0.4:
                        kw["project"] = r.choice(["p0", "proj"])
                spec = ("alias", kw)
            n.specs.append((spec, r.choice(["plain", "plain", "out", "apply"])))
        nodes.append(n)
        n.expected, n.own, n.inherited, n.renamed = model(n)

    def alias_of(spec, form):
        kind, x = spec
        if kind == "alias":
            kw = dict(x)
            if isinstance(kw.get("parent"), tuple):
                f, node = kw["parent"]
                kw["parent"] = node.res if f == "res" else node.res.urn
            for k in ("stack", "project"):
                if k in kw and len(repr(x)) % 3:
                    ctx.count("output_parts")
                    kw[k] = pulumi.Output.from_input(kw[k])
            x = pulumi.Alias(**kw)
        if form == "out":
            return pulumi.Output.from_input(x)
        if form == "apply":
            return pulumi.Output.from_input(1).apply(lambda _: x)
        return x

    def prog():
        for n in nodes:
            aliases = [alias_of(*s) for s in n.specs]
            opts = pulumi.ResourceOptions(parent=n.parent.res if n.parent else None, aliases=aliases if aliases or r.random() < 0.5 else None)
            cls = {"comp": Comp, "custom": Custom, "remote": Remote, "prov": Prov}[n.kind]
            n.res = cls(n.name, n.type, opts)

    res = run_program(prog, eng, preview=case["preview"])
    show = lambda: str([(m.kind, m.name, m.type, m.parent and m.parent.name, m.specs) for m in nodes])[:1800]
    if not ctx.check(res.ok, "program-failed", lambda: f"{res!r} {show()}"):
        return
    by = {}
    for e in eng.registers():
        by[eng.urn(e.req.type, e.req.name, e.req.parent)] = e.req
    for n in nodes:
        req = by.get(n.urn)
        if not ctx.check(req is not None, "not-registered", lambda: f"{n.urn} wasn't registered; {show()}"):
            continue
        ctx.evaluated()
        ctx.count("requests")
        ctx.count("aliases", len(n.expected))
        ctx.count("inherited", n.inherited)
        ctx.count("renamed", n.renamed)
        ctx.count("grandchildren", 1 if n.parent and n.parent.parent and n.parent.inherited else 0)
        got = list(req.aliases)
        ctx.check(len(set(got)) == len(got), "repeated-alias", lambda: f"{n.urn}: {got}; {show()}")
        missing, extra = n.expected - set(got), set(got) - n.expected
        ctx.check(not missing, "alias-lost", lambda: f"{n.urn} lacks {sorted(missing)}, has {got}; {show()}")
        ctx.check(not extra, "alias-wrong", lambda: f"{n.urn} has surplus {sorted(extra)}, expected {sorted(n.expected)}; {show()}")
    if any(n.inherited for n in nodes):
        ctx.sig(show())
        ctx.sample(show()[:600])


def model(n):
    """All the URNs that a resource may have had: under its own aliases, and under each alias of its parent, as itself or as its own aliases."""
    own = []
    for (kind, x), _ in n.specs:
        if kind == "urn":
            own.append(x)
            continue
        parent = x["parent"] if "parent" in x else n.parent
        name, t = x.get("name", n.name), x.get("type_", n.type)
        if parent is None:
            own.append(f"urn:pulumi:{x.get('stack', 'stk')}::{x.get('project', 'proj')}::{t}::{name}")
        else:
            purn = parent if isinstance(parent, str) else parent[1].urn if isinstance(parent, tuple) else parent.urn
            own.append(child_urn(purn, t, name))
    out = set(own)
    inherited = renamed = 0
    if n.parent is not None:
        for pa in n.parent.expected:
            aliased_parent_name = pa.split("::")[-1]
            for t, name in [(n.type, n.name)] + [(o.split("::")[2].split("$")[-1], o.split("::")[3]) for o in own]:
                if name.startswith(n.parent.name):
                    renamed += name[:len(n.parent.name)] != aliased_parent_name
                    name = aliased_parent_name + name[len(n.parent.name):]
                out.add(child_urn(pa, t, name))
                inherited += 1
    return out, own, inherited, renamed
