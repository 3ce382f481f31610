"""C19: the outputs of the stack are exactly what was exported, deeply converted."""
import collections

import pulumi

from pv import props, values, wire
from pv.propcase import PropCase
from pv.props import Out, Res, has_unk

RULE = ("One case = one program that exports 1-5 random values made of prompt values, Outputs, awaitables, resources, components with attributes, plain objects, dictionaries with "
        "private keys, tuples, sets, generators, shared and cyclic parts; the registered outputs of the stack are compared with a model of the conversion; distinct by "
        "structure, non-trivial if a value has structure.")
ASSUMPTIONS = ["keys are strings", "exports are made before the program's function returns"]


def plan(tier, seed):
    n = 4000 if tier == "quick" else 14000
    return [{"i": i, "preview": i % 3 == 0, "features": [None, None, [], None][i % 4], "schedule": [None, "shuffle", None][i % 3]} for i in range(n)]


def minimum(tier):
    return {"exports": 1200, "private_keys": 100, "objects": 150, "cycles": 80, "shared": 100, "resources": 150, "components": 60, "iterables": 200,
            "overwritten": 60, "secrets": 100, "unknown": 40, "private_exports": 40}


class Obj:
    def __init__(self, kw):
        self.__dict__.update(kw)


class Attrs(pulumi.ComponentResource):
    def __init__(self, name):
        super().__init__("test:index:Attrs", name)


class ObjRV(dict):
    pass


class Shared:
    """A container that is referred to from several places, perhaps from within itself."""

    def __init__(self, rv=None):
        self.rv = rv


class Gen(props.PropGen):
    def node(self, depth):
        r = self.rng
        ks = ["lit", "lit", "out", "out", "res", "enum"]
        if depth > 0:
            ks += ["list", "dict", "dict", "odict", "tuple", "set", "gen", "obj", "obj", "secret", "from", "future", "coro", "apply", "cycle", "shared", "attrs"]
        k = r.choice(ks)
        if k in ("future", "coro"):  # of what Output.from_input leaves alone
            v = r.choice([3, "x", [1, {"_p": 2, "q": (3,)}], {"_a": 1, "b": [None]}])
            return (k, ("py", v)), Out(v)
        self.kinds[k] += 1
        return getattr(self, "n_" + k)(depth)

    def n_secret(self, depth):
        return self.wrap(super().n_secret, depth)

    def n_from(self, depth):
        return self.wrap(super().n_from, depth)

    def wrap(self, f, depth):
        """Only what PropGen itself knows goes through from_input."""
        base = props.PropGen(self.rng, self.preview, self.outs, [], secret=self.secret)
        node = base.node
        base.node = lambda d: self.plain(base, node, d)
        return getattr(base, f.__name__)(depth)

    def plain(self, base, node, d):
        while True:
            a, v = node(d)
            if not any(s in repr(a) for s in ("'spec'", "'asset'", "'udict'", "'ulist'", "'res'", "'secret'", "'apply'", "'future'", "'coro'")):
                return a, v

    def n_apply(self, depth):
        i = self.rng.randrange(len(self.outs))
        src = self.outs[i][1]
        a, v = self.node(depth - 1)
        while a[0] in ("future", "coro"):
            a, v = self.node(depth - 1)
        if self.preview and not src.known:
            return ("apply", i, a), Out(None, False, src.secret, src.deps)
        if isinstance(v, Out):
            return ("apply", i, a), Out(v.v, v.known, v.secret or src.secret, v.deps | src.deps)
        return ("apply", i, a), Out(v, not has_unk(v), src.secret, src.deps)

    def n_tuple(self, depth):
        a, v = self.n_list(depth)
        return ("tuple", a), v

    def n_set(self, depth):
        v = [self.rng.choice([1, "x", True, 2.5])] if self.rng.random() < 0.8 else []
        return (self.rng.choice(["set", "frozenset"]), v), list(v)

    def n_gen(self, depth):
        a, v = self.n_list(depth)
        return ("gen", a), v

    def names(self, ks):
        return [("_" if self.rng.random() < 0.25 else "__" if self.rng.random() < 0.05 else "") + k for k in ks]

    def n_dict(self, depth):
        xs = self.kids(depth)
        xs = list(zip(self.names(self.rng.sample(values.KEYS, len(xs))), xs))
        return ("dict", [(k, a) for k, (a, _) in xs]), {k: v for k, (_, v) in xs}

    def n_obj(self, depth):
        a, v = self.n_dict(depth)
        return ("obj", a), ObjRV(v)

    def n_cycle(self, depth):
        """A dict, list or object that holds itself, below another container."""
        a, v = self.node(depth - 1)
        s = Shared()
        k = self.rng.choice(["dict", "list", "obj", "deep", "out"])
        s.rv = {"dict": {"v": v, "me": s}, "list": [v, s, 1], "obj": ObjRV(v=v, me=[s]), "deep": {"v": v, "l": [ObjRV(up=s)]}, "out": {"v": v, "l": [Out(s)]}}[k]
        return ("cycle", k, a), s

    def n_shared(self, depth):
        a, v = self.node(depth - 1)
        while "'gen'" in repr(a) or "'coro'" in repr(a):  # usable once only
            a, v = self.node(depth - 1)
        return ("shared", a), {"one": [v], "two": {"x": v}, "three": v}

    def n_attrs(self, depth):
        """A component with attributes, one of which leads back to it."""
        self.n = getattr(self, "n", 0) + 1
        a, v = self.node(depth - 1)
        return ("attrs", f"attrs{self.n}", a), Shared(("attrs", f"attrs{self.n}", v))


def run(case, ctx):
    exports = []
    env = {}

    def extra(c):
        r = c.rng
        g = Gen(r, c.preview, c.outs, list(c.world))
        for i in range(r.choice([1, 2, 3, 5])):
            name = r.choice(["a", "b", "fooBar", "é x", "_private", "k1"] + values.KEYS[:6])
            exports.append((name, *g.node(3)))
        c.gen2 = g
        c.program = lambda: program(c)

    def build(c, a):
        k = a[0]
        b = lambda x: build(c, x)
        if k == "py":
            return a[1]
        if k == "list":
            return [b(x) for x in a[1]]
        if k == "tuple":
            return tuple(b(a[1]))
        if k == "gen":
            return (x for x in b(a[1]))
        if k in ("set", "frozenset"):
            return (set if k == "set" else frozenset)(a[1])
        if k == "dict":
            return {n: b(x) for n, x in a[1]}
        if k == "odict":
            return collections.OrderedDict((n, b(x)) for n, x in a[1])
        if k == "obj":
            return Obj(b(a[1]))
        if k == "apply":
            return getattr(c.res[c.getters[a[1]][0]], c.getters[a[1]][1]).apply(lambda _: b(a[2]))
        if k == "shared":
            v = b(a[1])
            return {"one": [v], "two": {"x": v}, "three": v}
        if k == "cycle":
            v = b(a[2])
            if a[1] == "dict":
                d = {"v": v}
                d["me"] = d
                return d
            if a[1] == "list":
                d = [v]
                d += [d, 1]
                return d
            d = Obj({}) if a[1] == "obj" else {"v": v}
            if a[1] == "out":
                d["l"] = [pulumi.Output.from_input(1).apply(lambda _: d)]
                return d
            if a[1] == "obj":
                d.v, d.me = v, [d]
            else:
                d["l"] = [Obj({"up": d})]
            return d
        if k == "attrs":
            d = Attrs(a[1])
            d.plain, d.child, d._hidden = b(a[2]), Obj({"owner": d}), 1
            return d
        if k in ("future", "coro"):
            return props.build((k, ("lit", 0)), [], {}) if False else awaitable(k, a[1][1])
        return c.build(a)

    def program(c):
        for name, a, _ in exports:
            pulumi.export(name, build(c, a))

    c = PropCase(ctx, case, depth=1, kinds=("custom",), nprops=(0,), depends=False, extra=extra)
    if not c.ok(ctx):
        return

    def attrs(name):
        pre = name + "."
        d = {k[len(pre):]: o for k, o in c.outs if k.startswith(pre)}
        if c.world[name]["kind"] == "custom" and "id" not in d:
            d["id"] = Out(c.world[name]["id"], bool(c.world[name]["id"]), False, {name})
        return d

    def mark(d):
        if c.preview:
            d["@isPulumiResource"] = True
        return d

    def conv(v, seen):
        if isinstance(v, Out):
            if not v.known:
                return Out(None, False, v.secret, v.deps)
            x = conv(v.v, seen)
            if isinstance(x, Out):
                return Out(x.v, x.known, x.secret or v.secret)
            return Out(x, not has_unk(x), v.secret)
        if isinstance(v, Res):
            if v.name in seen:
                return attrs(v.name)["urn"]
            ctx.count("resources")
            return mark({k: conv(o, seen + [v.name]) for k, o in attrs(v.name).items()})
        if isinstance(v, Shared):
            if isinstance(v.rv, tuple):
                _, name, x = v.rv
                urn = c.engine.urn("test:index:Attrs", name)
                ctx.count("components")
                # its first attribute is its URN, which is emitted for the reference back to it as well
                return mark({"urn": Out(urn), "plain": conv(x, seen + [v]), "child": {"owner": Out(urn)}})
            if any(v is s for s in seen):
                ctx.count("cycles")
                return None
            return conv(v.rv, seen + [v])
        if isinstance(v, dict):
            ctx.count("private_keys", sum(k.startswith("_") for k in v))
            ctx.count("objects", isinstance(v, ObjRV))
            return {k: conv(x, seen) for k, x in v.items() if not k.startswith("_")}
        if isinstance(v, (list, tuple)):
            return [conv(x, seen) for x in v]
        return v

    want = {}
    for name, a, v in exports:
        ctx.count("overwritten", name in want)
        want[name] = (a, v)
    outs = c.engine.by("RegisterResourceOutputs")
    urn = c.engine.urn("pulumi:pulumi:Stack", "proj-stk")
    mine = [e.req for e in outs if e.req.urn == urn]
    if not ctx.check(len(mine) == 1, "registered", lambda: f"outputs registered for the stack {len(mine)} times: {outs}"):
        return
    got = without_id(wire.dec(mine[0].outputs))
    exp = {}
    for name, (a, v) in want.items():
        ctx.evaluated()
        ctx.count("exports")
        ctx.count("private_exports", name.startswith("_"))
        ctx.count("shared", "'shared'" in repr(a))
        ctx.count("iterables", sum(repr(a).count(s) for s in ("'tuple'", "'set'", "'gen'")))
        if name.startswith("_"):
            ctx.check(name not in got, "private-exported", lambda: f"{name}: {got}")
            continue
        t, _ = c.model.ser(conv(v, []), False)
        if t is None:
            ctx.check(name not in got, "none-exported", lambda: f"{name}: {a!r} led to {got.get(name)}")
            continue
        exp[name] = t
        ctx.count("secrets", values.has(t, wire.Secret))
        ctx.count("unknown", values.has(t, wire.UNK))
        ctx.check(name in got and wire.eq(got[name], t), "output", lambda: f"export of {name} = {a!r}: registered {got.get(name, '<nothing>')!r} instead of {t!r}; preview={c.preview} {sorted(c.features)}"[:2500])
        ctx.sig(props.sig(a))
        ctx.sample({"export": repr(a)[:500], "registered": repr(t)[:500]})
    ctx.check(set(got) <= set(exp), "invented", lambda: f"{sorted(set(got) - set(exp))}")


def without_id(t):
    """A component has no ID, or a null one."""
    if isinstance(t, wire.Secret):
        return wire.Secret(without_id(t.v))
    if isinstance(t, list):
        return [without_id(x) for x in t]
    if isinstance(t, dict):
        return {k: without_id(x) for k, x in t.items() if not (k == "id" and x is None and "urn" in t)}
    return t


def awaitable(k, v):
    import asyncio

    async def later():
        await asyncio.sleep(0)
        return v

    if k == "coro":
        return later()
    f = asyncio.get_event_loop().create_future()
    asyncio.get_event_loop().call_later(0.001, f.set_result, v)
    return f
