"""C38: mistakes in using the API are reported where they're made, and leave no traces."""
import asyncio
import warnings

import pulumi
from pulumi import CustomResource, Output, ResourceOptions

from pv.engine import Engine, run_program

RULE = ("One case = a program of 3-10 resources, components, functions and exports with 1-5 mistakes among 50 kinds (arguments, options, providers, dependencies, assets, aliases, transformations and merges of the wrong "
        "kind) that it handles, or with one that it doesn't handle or that only shows later, under adversarial orders of answers; what's raised, the engine's trace and the program's outcome are compared with a model of the "
        "program without the mistakes; distinct by the mistakes and the program's shape, non-trivial if something depends on the parent of what was refused.")
ASSUMPTIONS = ["an exception of the documented class or one derived from it"]
CASE_TIMEOUT = 120


def plan(tier, seed):
    return [{"i": i, "preview": i % 3 == 2, "schedule": ["shuffle", "lifo", None, "sleep"][i % 4], "how": "handled" if i % 5 < 3 else ("unhandled" if i % 5 == 3 else "late")}
            for i in range(4500 if tier == "quick" else 15000)]


def minimum(tier):
    return {"handled": 900, "unhandled": 120, "late": 120, "kinds": 400, "dependents": 120, "registered": 2500, "functions": 200}


class Comp(pulumi.ComponentResource):
    def __init__(self, name, opts=None):
        super().__init__("my:c:Comp", name, {}, opts)


class Odd:
    def __repr__(self):
        return "odd!"


def changes_parent(other):
    return lambda a: pulumi.ResourceTransformationResult(props=a.props, opts=ResourceOptions.merge(a.opts, ResourceOptions(parent=other)))


def raising(_):
    raise KeyError("from the transformation")


# kind -> (what it does with the surroundings e, class of what's raised, text in it)
R = lambda *a, **k: CustomResource(*a, **k)  # noqa: E731
MISTAKES = {
    "no-type": (lambda e: R(e.r.choice([None, ""]), e.name, {}, e.opts()), TypeError, "type"),
    "type-kind": (lambda e: R(e.r.choice([5, ["t:m:R"], b"t:m:R"]), e.name, {}, e.opts()), TypeError, "type"),
    "no-name": (lambda e: R("t:m:R", e.r.choice([None, ""]), {}, e.opts()), TypeError, "name"),
    "name-kind": (lambda e: R("t:m:R", e.r.choice([5, ["n"], b"n"]), {}, e.opts()), TypeError, "name"),
    "name-output": (lambda e: R("t:m:R", Output.from_input("n"), {}, e.opts()), TypeError, "name"),
    "comp-no-name": (lambda e: pulumi.ComponentResource("my:c:Comp", e.r.choice([None, ""]), {}, e.opts()), TypeError, "name"),
    "comp-no-type": (lambda e: pulumi.ComponentResource(e.r.choice([None, ""]), e.name, {}, e.opts()), TypeError, "type"),
    "opts-kind": (lambda e: R("t:m:R", e.name, {}, e.r.choice([{"protect": True}, pulumi.InvokeOptions(), "x", [ResourceOptions()]])), TypeError, "options"),
    "comp-opts-kind": (lambda e: pulumi.ComponentResource("my:c:Comp", e.name, {}, e.r.choice([{"protect": True}, "x"])), TypeError, "options"),
    "provider-opts-provider": (lambda e: pulumi.ProviderResource("t", e.name, {}, ResourceOptions(provider=e.prov)), TypeError, "rovider"),
    "parent-kind": (lambda e: R("t:m:R", e.name, {}, ResourceOptions(parent=e.r.choice(["x", 5]))), Exception, ""),
    "wrong-provider": (lambda e: R("t:m:R", e.name, {}, e.opts(provider=e.prov)), ValueError, "register resource t:m:R"),
    "wrong-provider-read": (lambda e: R("t:m:R", e.name, {}, e.opts(provider=e.prov, id="x")), ValueError, "read resource t:m:R"),
    "wrong-provider-get": (lambda e: R("t:m:R", e.name, {}, e.opts(provider=e.prov, urn="urn:pulumi:s::p::t:m:R::n")), ValueError, "get resource t:m:R"),
    "comp-id": (lambda e: pulumi.ComponentResource("my:c:Comp", e.name, {}, e.opts(id="x")), Exception, "custom"),
    "depends-kind": (lambda e: R("t:m:R", e.name, {}, e.opts(depends_on=[e.some(), e.r.choice(["x", 5, None, {}])])), Exception, ""),
    "depends-kind-one": (lambda e: R("t:m:R", e.name, {}, e.opts(depends_on=e.r.choice(["x", 5]))), Exception, ""),
    "file-asset": (lambda e: pulumi.FileAsset(e.r.choice([None, 5, b"x", ["x"]])), TypeError, "path"),
    "string-asset": (lambda e: pulumi.StringAsset(e.r.choice([None, 5, b"x", {"a": 1}])), TypeError, "string"),
    "remote-asset": (lambda e: pulumi.RemoteAsset(e.r.choice([None, 5, b"x"])), TypeError, "URI"),
    "file-archive": (lambda e: pulumi.FileArchive(e.r.choice([None, 5, b"x"])), TypeError, "path"),
    "remote-archive": (lambda e: pulumi.RemoteArchive(e.r.choice([None, 5, b"x"])), TypeError, "URI"),
    "asset-archive": (lambda e: pulumi.AssetArchive(e.r.choice([None, [pulumi.StringAsset("x")], "x"])), TypeError, "dictionary"),
    "asset-archive-key": (lambda e: pulumi.AssetArchive({"ok": pulumi.StringAsset("y"), e.r.choice([1, None, b"k"]): pulumi.StringAsset("x")}), TypeError, "keys"),
    "asset-archive-value": (lambda e: pulumi.AssetArchive({"ok": pulumi.StringAsset("y"), "a": e.r.choice(["x", None, {}, Output.from_input(pulumi.StringAsset("x"))])}), TypeError, "Assets"),
    "all-mixed": (lambda e: Output.all(1, a=2), ValueError, "named"),
    "iterate": (lambda e: list(e.output()), TypeError, "iterable"),
    "unpack": (lambda e: (lambda a, b: None)(*e.output()), TypeError, ""),
    "contains": (lambda e: "x" in e.output(), TypeError, "iterable"),
    "merge-first": (lambda e: ResourceOptions.merge(e.r.choice([{"protect": True}, pulumi.InvokeOptions(), "x"]), ResourceOptions()), TypeError, "opts1"),
    "merge-second": (lambda e: ResourceOptions.merge(e.r.choice([None, ResourceOptions()]), e.r.choice([{"protect": True}, pulumi.InvokeOptions(), "x"])), TypeError, "opts2"),
    "merge-own": (lambda e: ResourceOptions().merge(e.r.choice([{"protect": True}, pulumi.InvokeOptions(), "x"])), TypeError, "opts2"),
    "invoke-merge-first": (lambda e: pulumi.InvokeOptions.merge(e.r.choice([{"parent": None}, ResourceOptions(), "x"]), pulumi.InvokeOptions()), TypeError, "opts1"),
    "invoke-merge-second": (lambda e: pulumi.InvokeOptions.merge(None, e.r.choice([{"parent": None}, ResourceOptions(), "x"])), TypeError, "opts2"),
    "transformation-parent": (lambda e: R("t:m:R", e.name, {}, e.opts(transformations=[changes_parent(e.other)])), Exception, "parent"),
    "transformation-raises": (lambda e: R("t:m:R", e.name, {}, e.opts(transformations=[raising])), KeyError, "from the transformation"),
    "invoke-typ": (lambda e: pulumi.runtime.invoke("t:m:f", {}, None, Odd), TypeError, "output_type"),
    "call-typ": (lambda e: pulumi.runtime.call("t:m:f", {}, e.some(), Odd), TypeError, "output_type"),
    "second-stack": (lambda e: pulumi.runtime.Stack(lambda: None) if hasattr(pulumi.runtime, "Stack") else __import__("pulumi.runtime.stack", fromlist=["Stack"]).Stack(lambda: None), Exception, "Stack"),
    "settings": (lambda e: pulumi.runtime.configure(e.r.choice([None, {}, "x"])), TypeError, "Settings"),
    "input-type-twice": (lambda e: pulumi.input_type(pulumi.input_type(type("In", (), {"__annotations__": {}}))), Exception, ""),
    "output-type-twice": (lambda e: pulumi.output_type(pulumi.output_type(type("Out", (), {"__annotations__": {}}))), Exception, ""),
    "property-name": (lambda e: pulumi.property(e.r.choice([None, "", 5])), TypeError, "name"),
    "getter-kind": (lambda e: pulumi.getter(5) if e.r.random() < 0.5 else pulumi.getter(name="x")("y"), TypeError, "callable"),
    "set-kind": (lambda e: pulumi.set(Odd(), "a", 1), Exception, ""),
    "get-kind": (lambda e: pulumi.get(Odd(), "a"), Exception, ""),
    "set-name": (lambda e: pulumi.set(e.inp, e.r.choice([None, ""]), 1), TypeError, "name"),
    "get-name": (lambda e: pulumi.get(e.inp, e.r.choice([None, "", 5])), TypeError, "name"),
    "input-missing": (lambda e: Inp(), TypeError, ""),
    "input-extra": (lambda e: Inp(first=1, other=2), TypeError, ""),
    "input-positional": (lambda e: Inp(1), TypeError, ""),
    "stack-reference-name": (lambda e: pulumi.StackReference(e.r.choice([None, ""])), Exception, ""),
}


@pulumi.input_type
class Inp:
    def __init__(self, *, first):
        pulumi.set(self, "first", first)

    @property
    @pulumi.getter
    def first(self):
        return pulumi.get(self, "first")


async def later(v):
    await asyncio.sleep(0)
    return v


# Mistakes that can't be seen in the call.
LATE = {
    "value": (lambda e: {"props": {"a": e.r.choice([Odd(), {1, 2}, {"b": [Odd()]}, lambda: 1, range(3), 1j])}}, ""),
    "value-of-output": (lambda e: {"props": {"a": e.r.choice([Output.from_input(Odd()), Output.all(1, Odd()), later(Odd()), [later({"b": Odd()})]])}}, "Odd"),
    "alias-name": (lambda e: {"opts": {"aliases": [pulumi.Alias(name=None)]}}, "name"),
    "alias-type": (lambda e: {"opts": {"aliases": ["ok", Output.from_input(pulumi.Alias(type_=None))]}}, "type"),
    "depends-output": (lambda e: {"opts": {"depends_on": e.r.choice([Output.from_input("x"), Output.from_input([e.some(), 5]), [later("x")], [Output.from_input(5)]])}}, ""),
    "parent-of-alias": (lambda e: {"opts": {"aliases": [pulumi.Alias(parent=Output.from_input(5))]}}, ""),
}


class Env:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.res, self.comps = [], []
        self.prov = self.fresh = self.other = self.inp = None

    @property
    def name(self):
        self.n += 1
        return f"bad{self.n}"

    def some(self):
        return self.r.choice(self.res)

    def output(self):
        return self.r.choice([lambda: self.some().urn, lambda: Output.from_input([1, 2]), lambda: Output.secret("xy")])()

    def opts(self, **kw):
        if self.comps and self.r.random() < 0.7:
            kw["parent"] = self.r.choice(self.comps)
        return ResourceOptions(**kw)


def run(case, ctx):  # pylint: disable=too-many-locals,too-many-statements
    r = ctx.rng()
    how = case["how"]
    kinds = r.sample(sorted(MISTAKES), r.choice([1, 2, 3, 5])) if how == "handled" else [r.choice(sorted(MISTAKES if how == "unhandled" else LATE))]
    steps = []
    n = r.choice([3, 5, 10])
    for k in range(n):
        steps.append((r.choice(["custom", "custom", "custom", "comp", "comp", "invoke", "export"]), k, r.random(), r.random(), r.random()))
    for k in kinds:
        steps.insert(r.randrange(1, len(steps) + 1), ("mistake", k, 0, 0, 0))
    raised, want, functions, exports, children = [], [], [], {}, {}
    deps = {}
    trace = []

    def contains(c, x):
        while x is not None and x is not c:
            x = up_of.get(x._name)
        return x is not None

    def closed(c):
        while c is not None and c._name not in deps.values():
            c = up_of.get(c._name)
        return c is not None

    def prog():  # pylint: disable=too-many-branches
        e = Env(r)
        e.prov = pulumi.ProviderResource("other", "prov", {})
        e.fresh = Comp("fresh")
        e.other = Comp("other")  # In nobody's options.
        e.inp = Inp(first=1)
        want.extend(["prov", "fresh", "other"])
        e.res.append(e.prov)
        e.comps.append(e.fresh)
        children.update(fresh=[])
        for kind, k, x, y, z in steps:
            pool = [c for c in e.comps if not closed(c)]
            parent = pool[int(x * len(pool))] if y < 0.6 and pool else None
            if kind in ("custom", "comp"):
                kw = {}
                name = f"{kind}{k}"
                if parent:
                    kw["parent"] = parent
                    children[parent._name].append(name)
                if z < 0.5:
                    # Nothing is added to what's depended upon, so that nothing depends on what contains it.
                    pool = [c for c in e.comps + e.res if not contains(c, parent)]
                    if pool:
                        on = pool[int(z * 2 * len(pool))]
                        kw["depends_on"] = [on]
                        deps[name] = on._name
                trace.append((name, parent and parent._name, deps.get(name)))
                want.append(name)
                if kind == "comp":
                    c = Comp(name, ResourceOptions(**kw))
                    children[name] = []
                    up_of[name] = parent
                    e.comps.append(c)
                else:
                    e.res.append(R("t:m:R", name, {"v": k}, ResourceOptions(**kw)))
            elif kind == "invoke":
                functions.append(f"t:m:f{k}")
                pulumi.runtime.invoke(f"t:m:f{k}", {}, pulumi.InvokeOptions(parent=parent) if parent else None)
            elif kind == "export":
                exports[f"e{k}"] = k
                pulumi.export(f"e{k}", e.output().apply(lambda _, k=k: k))
            elif how == "late":
                a = LATE[k][0](e)
                trace.append(("late", k, str(a)))
                R("t:m:R", e.name, a.get("props", {}), e.opts(**a.get("opts", {})))
            else:
                fn, exc, text = MISTAKES[k]
                trace.append(("mistake", k))
                if how == "unhandled":
                    fn(e)
                    raised.append((k, exc, text, None))
                    continue
                try:
                    got = fn(e)
                    raised.append((k, exc, text, f"returned {got!r}"))
                except Exception as exn:  # pylint: disable=broad-except
                    raised.append((k, exc, text, exn))

    up_of = {}
    eng = Engine(preview=case["preview"], schedule=case["schedule"], seed=case["i"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = run_program(prog, eng, preview=case["preview"])
    show = lambda: f"{how} {kinds} {trace} {res}"[:2500]  # noqa: E731
    ctx.evaluated()
    ctx.count(how, max(len(kinds), 1))
    ctx.count("kinds", len(set(kinds)))
    ctx.sig(how + ",".join(sorted(kinds)) + "".join(s[0][0] for s in steps))
    names = [e.req.name for e in eng.registers()] + [e.req.name for e in eng.by("ReadResource")]
    ctx.check(res.stuck is None, "stuck", show)
    if how == "handled":
        for k, exc, text, got in raised:
            ctx.check(isinstance(got, exc), "raised", lambda: f"{k}: {got!r} instead of {exc}; {show()}")
            ctx.check(not isinstance(got, Exception) or text in str(got), "text", lambda: f"{k}: {got} lacks {text!r}; {show()}")
        ctx.check(res.ok, "outcome", show)
        ctx.check(sorted(names) == sorted(want), "registrations", lambda: f"{sorted(names)} instead of {sorted(want)}; {show()}")
        ctx.count("registered", len(names))
        toks = sorted(e.req.tok for e in eng.by("Invoke"))
        ctx.check(toks == sorted(functions) and not eng.by("Call"), "functions", lambda: f"{toks}; {show()}")
        ctx.count("functions", len(toks))
        urn = {e.req.name: eng.urn(e.req.type, e.req.name, e.req.parent) for e in eng.registers()}

        def below(n):
            if n not in children:
                return {n}
            return {n}.union(*(below(c) for c in children[n])) if children[n] else {n}

        for name, on in deps.items():
            e = eng.register(name)
            got = set(e.req.dependencies) if e else None
            least = {urn[x] for x in below(on) if not x.startswith(("comp", "fresh"))}
            most = {urn[x] for x in below(on)}
            ctx.count("dependents", on in children)
            ctx.check(e is not None and least <= got <= most, "dependencies", lambda: f"{name} on {on}: {got}, not between {least} and {most}; {show()}")
        return
    ctx.check(set(names) <= set(want), "registrations", lambda: f"{sorted(names)}, not among {sorted(want)}; {show()}")
    ctx.check(not res.ok and isinstance(res.exc, Exception), "outcome", show)
    if how == "unhandled":
        _, exc, text = MISTAKES[kinds[0]]
        chain, x = [], res.exc
        while x is not None:
            chain.append(x)
            x = x.__cause__ or x.__context__
        ctx.check(not raised and any(isinstance(x, exc) and text in str(x) for x in chain), "raised", lambda: f"{res.exc!r} instead of {exc}; {show()}")
    else:
        ctx.check(LATE[kinds[0]][1] in str(res.exc), "text", lambda: f"{res.exc!r} lacks {LATE[kinds[0]][1]!r}; {show()}")
