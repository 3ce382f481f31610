"""One program: sources (custom, remote, local component trees) and consumers with random property trees and depends_on."""
import pulumi

from . import props, values, wire
from .engine import ALL_FEATURES, Engine, run_program
from .outcase import Custom, Remote, term
from .props import Out


class Local(pulumi.ComponentResource):
    def __init__(self, name, opts=None):
        super().__init__("test:index:Local", name, None, opts)


class PropCase:
    def __init__(self, ctx, case, depth=3, nprops=(1, 2, 3), secret=0.15, depends=True, after=None, kinds=("custom", "custom", "remote", "read",
                                                                                              "outputs"), taint=None, extra=None, **eng_kw):
        r = self.rng = ctx.rng()
        preview = self.preview = case["preview"]
        feats = case.get("features")
        self.features = ALL_FEATURES if feats is None else frozenset(feats)
        custom_invoke = eng_kw.pop("on_invoke", None)

        def on_invoke(req):
            if req.tok == "pulumi:pulumi:getResource" and req.args["urn"].split("::")[-1] in self.world:
                name = req.args["urn"].split("::")[-1]
                return "return", {"urn": req.args["urn"], "id": self.ids[name], "state": self.objects.get(name, {})}
            return custom_invoke(req) if custom_invoke else ("return", {})

        eng = self.engine = Engine(preview=preview, schedule=case.get("schedule"), seed=case["i"], features=self.features,
                                   on_register=self.on_register, on_read=self.on_read,
                                   supports_unimplemented=case.get("unimplemented", False), on_invoke=on_invoke, **eng_kw)
        if case.get("unimplemented"):
            self.features = frozenset()
        self.objects, self.deps, self.ids = {}, {}, {}
        self.outs, self.getters = [], []
        self.world = {}
        self.stack_reference = {}
        self.program = None  # set by `extra`
        plan = []  # (kind, name, propnames, parent)
        for i in range(r.choice([1, 2, 3])):
            kind = r.choice(["custom", "custom", "custom", "remote", "got"])
            plan.append((kind, f"r{i}", [f"p{j}" for j in range(r.choice([1, 2]))], None))
        if r.random() < 0.6:
            # Components may exist already, too, which makes no difference for what depends on them.
            plan.append((r.choice(["local"] * 4 + ["gotlocal"]), "c0", [], None))
            for i in range(r.choice([0, 1, 2, 2, 5])):
                plan.append((r.choice(["custom", "custom", "remote", "remote", "got"]), f"c0k{i}", ["p0"], "c0"))
            if r.random() < 0.6:
                plan.append((r.choice(["local", "local", "gotlocal"]), "c0c", [], "c0"))
                for i in range(r.choice([0, 1, 2])):
                    plan.append((r.choice(["custom", "custom", "got"]), f"c0ck{i}", [], "c0c"))
            if r.random() < 0.6 and any(p[1] == "c0k0" for p in plan):
                plan.append(("custom", "c0k0x", [], "c0k0"))
        self.plan = plan
        typs = {"custom": "test:index:Custom", "got": "test:index:Custom", "remote": "test:index:Remote", "local": "test:index:Local", "gotlocal": "test:index:Local"}
        for kind, name, ps, parent in plan:
            purn = self.world[parent]["urn"] if parent else ""
            urn = eng.urn(typs[kind], name, purn)
            rid = None
            if kind == "custom":
                rid = "id-" + name if not preview or r.random() < 0.5 else ""
                self.ids[name] = rid
            elif kind == "got":  # exists already, and is fetched by its URN
                rid = self.ids[name] = "id-" + name
            elif kind == "gotlocal":
                self.ids[name] = ""
            self.world[name] = {"urn": urn, "id": rid, "kind": "local" if kind == "gotlocal" else kind, "parent": parent}
            self.outs.append((f"{name}.urn", Out(urn, True, False, {name})))
            self.getters.append((name, "urn"))
            if rid is not None:
                self.outs.append((f"{name}.id", Out(rid, rid != "", False, {name})))
                self.getters.append((name, "id"))
            for p in ps:
                t = None if r.random() < 0.1 else term(r, preview, secret)
                if taint is not None:
                    t = props.mark(t, taint, False)
                extra_deps = [f"urn:pulumi:stk::proj::x:y:Z::d{k}" for k in range(3) if t is not None and kind != "got" and r.random() < 0.15]
                if t is not None:
                    self.objects.setdefault(name, {})[p] = t
                    self.deps.setdefault(name, {})[p] = extra_deps
                v = values.strip_none(values.unsecret(t))
                known = (t is not None or not preview) and not values.has(v, wire.UNK)
                self.outs.append((f"{name}.{p}", Out(v, known, values.has(t, wire.Secret), {name, *extra_deps})))
                self.getters.append((name, p))
        for name, w in self.world.items():
            w["expand"] = self.expand(name)
        self.model = props.World(self.features, self.world)
        gen = self.gen = props.PropGen(r, preview, self.outs, list(self.world))
        gen.taint = taint
        if extra is not None:
            extra(self)
        self.consumers = []
        for i in range(r.choice([1, 2, 3])):
            kind = r.choice(kinds)
            ps = [(k, gen.node(depth)) for k in r.sample(values.KEYS[:8] + ["p-q", "é"], r.choice(nprops))]
            dep = self.gen_depends() if depends and kind in ("custom", "remote", "read") and r.random() < 0.5 else None
            self.consumers.append((kind, f"x{i}", ps, dep))

        res = self.res = {}

        def program():
            for kind, name, ps, parent in plan:
                opts = pulumi.ResourceOptions(parent=res.get(parent)) if parent else None
                if kind in ("got", "gotlocal"):
                    opts = pulumi.ResourceOptions(parent=res.get(parent), urn=self.world[name]["urn"])
                if kind in ("local", "gotlocal"):
                    res[name] = Local(name, opts)
                else:
                    res[name] = (Remote if kind == "remote" else Custom)(name, {p: None for p in ps}, opts)
            outs = [lambda n=n, p=p: getattr(res[n], p) for n, p in self.getters]
            self.build = lambda a: props.build(a, outs, res)
            for kind, name, ps, dep in self.consumers:
                bag = {k: self.build(a) for k, (a, _) in ps}
                kw = {}
                if dep is not None:
                    kw["depends_on"] = self.build_depends(dep[0])
                if kind == "read":
                    kw["id"] = "given-id"
                opts = pulumi.ResourceOptions(**kw)
                if kind in ("custom", "read"):
                    Custom(name, bag, opts)
                elif kind == "remote":
                    Remote(name, bag, opts)
                else:
                    Local(name, opts).register_outputs(bag)
            if self.program is not None:
                self.program()

        self.result = run_program(program, eng, preview=preview, after=after)

    # depends_on: a resource, a list, Outputs of either, awaitables of either, nested; ast -> names
    def gen_depends(self):
        r = self.rng
        names = list(self.world)

        def one():
            n = r.choice(names)
            k = r.choice(["res", "res", "out", "coro", "applied"])
            if k == "applied":
                i = r.randrange(len(self.outs))
                o = self.outs[i][1]
                got = set(o.deps)
                if o.known or not self.preview:
                    got.add(n)
                return ("applied", i, n), got
            return (k, n), {n}

        k = r.choice(["one", "list", "list", "outlist", "corolist"])
        if k == "one":
            a, ns = one()
            return ("one", a), ns
        xs = [one() for _ in range(r.choice([0, 1, 2, 3]))]
        if k in ("outlist", "corolist"):
            n = [r.choice(names) for _ in range(r.choice([0, 1, 2]))]
            if k == "outlist":
                i = r.randrange(len(self.outs))
                o = self.outs[i][1]
                got = set(o.deps)
                if o.known or not self.preview:
                    got |= set(n)
                return ("outlist", i, n), got
            return ("corolist", n), set(n)
        return ("list", [a for a, _ in xs]), set().union(*[s for _, s in xs])

    def build_depends(self, a):
        res = self.res
        O = pulumi.Output
        out = lambda i: getattr(res[self.getters[i][0]], self.getters[i][1])

        async def later(v):
            return v

        def one(x):
            if x[0] == "res":
                return res[x[1]]
            if x[0] == "out":
                return O.from_input(res[x[1]])
            if x[0] == "coro":
                return later(res[x[1]])
            return out(x[1]).apply(lambda _: res[x[2]])

        if a[0] == "one":
            return one(a[1])
        if a[0] == "list":
            return [one(x) for x in a[1]]
        if a[0] == "corolist":
            return later([res[n] for n in a[1]])
        return out(a[1]).apply(lambda _: [res[n] for n in a[2]])

    def expand(self, name):
        w = self.world[name]
        if w["kind"] != "local":
            return {w["urn"]}
        out = set()
        for n, c in self.world.items():
            if c["parent"] == name:
                out |= self.expand(n)
        return out

    def on_register(self, req, urn):
        if req.name in self.world:
            d = {"object": self.objects.get(req.name, {}), "deps": self.deps.get(req.name, {})}
            if req.name in self.ids:
                d["id"] = self.ids[req.name]
            return d
        return None

    def on_read(self, req, urn):
        if req.type == "pulumi:pulumi:StackReference":
            return {"object": self.stack_reference}
        return {"object": {}}

    def ok(self, ctx):
        if not self.result.ok:
            ctx.violation("program-failed", f"a program that only passes legal values failed or hung: {self.result!r} {self.consumers!r}")
            return False
        return True

    def requests(self):
        """(consumer kind, name, [(prop, ast, rv)], depends_on, request)"""
        outs = {e.req.urn.split("::")[-1]: e.req for e in self.engine.by("RegisterResourceOutputs")}
        for kind, name, ps, dep in self.consumers:
            if kind == "outputs":
                req = outs.get(name)
            elif kind == "read":
                req = next((e.req for e in self.engine.by("ReadResource") if e.req.name == name), None)
            else:
                e = self.engine.register(name)
                req = e.req if e else None
            yield kind, name, [(k, a, v) for k, (a, v) in ps], dep, req
