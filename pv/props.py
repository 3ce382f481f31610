"""Random property trees (everything a program can pass as an input), their construction with the SDK, and a reference model
of what goes on the wire for them and of the resources they depend on."""
import asyncio
import collections
import enum

import pulumi

from . import values, wire
from .wire import UNK, AssetT, ArchiveT, OutVal, ResRef, Secret


class Color(str, enum.Enum):
    RED = "red"
    BLUE = "blue 💙"


@pulumi.input_type
class Spec:
    """An input type, whose names differ between Python and Pulumi."""

    def __init__(__self__, *, first_prop=None, nested_spec=None, plain=None):
        if first_prop is not None:
            pulumi.set(__self__, "first_prop", first_prop)
        if nested_spec is not None:
            pulumi.set(__self__, "nested_spec", nested_spec)
        if plain is not None:
            pulumi.set(__self__, "plain", plain)

    @property
    @pulumi.getter(name="firstProp")
    def first_prop(self):
        return pulumi.get(self, "first_prop")

    @property
    @pulumi.getter(name="nestedSpec")
    def nested_spec(self):
        return pulumi.get(self, "nested_spec")

    @property
    @pulumi.getter
    def plain(self):
        return pulumi.get(self, "plain")


SPEC_NAMES = {"first_prop": "firstProp", "nested_spec": "nestedSpec", "plain": "plain"}


# ---- the model's runtime values -------------------------------------------------------------------------------------
class Out:
    def __init__(self, v, known=True, secret=False, deps=frozenset()):
        self.v, self.known, self.secret, self.deps = v, known, secret, frozenset(deps)

    def __repr__(self):
        return f"Out({self.v!r}, known={self.known}, secret={self.secret}, deps={sorted(self.deps)})"


class Res:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Res({self.name})"


class SpecRV(dict):
    pass


class UDict(dict):
    pass


class UList(list):
    pass


def has_unk(v):
    if v is UNK:
        return True
    if isinstance(v, (Out, Res, SpecRV, UDict, UList)):
        return False
    if isinstance(v, dict):
        return any(has_unk(x) for x in v.values())
    if isinstance(v, list):
        return any(has_unk(x) for x in v)
    return False


def deep_unk(v):
    if isinstance(v, SpecRV):
        return any(deep_unk(x) for x in v.values())
    return has_unk(v)


def norm(o):
    """What a container sees of a flattened Output."""
    return UNK if not o.known and not has_unk(o.v) else o.v


def join(os, v):
    return Out(v, not any(not o.known for o in os) and not has_unk(v), any(o.secret for o in os),
               frozenset().union(*[o.deps for o in os]))


def flatten(rv):
    """Output.from_input"""
    if isinstance(rv, Out):
        if not rv.known and not has_unk(rv.v):
            return Out(UNK, False, rv.secret, rv.deps)
        i = flatten(rv.v)
        return Out(i.v, i.known, rv.secret or i.secret, rv.deps | i.deps)
    if isinstance(rv, SpecRV):
        os = {k: flatten(v) for k, v in rv.items()}
        d = SpecRV({k: norm(o) for k, o in os.items() if norm(o) is not None})
        if any(deep_unk(x) for x in d.values()):
            j = join(list(os.values()), None)
            return Out(UNK, False, j.secret, j.deps)
        return join(list(os.values()), d)
    if isinstance(rv, (UDict, UList, Res)):
        return Out(rv)
    if isinstance(rv, dict) and rv:
        os = {k: flatten(v) for k, v in rv.items()}
        return join(list(os.values()), {k: norm(o) for k, o in os.items()})
    if isinstance(rv, list) and rv:
        os = [flatten(v) for v in rv]
        return join(os, [norm(o) for o in os])
    return Out(rv, not has_unk(rv))


def mark(t, fresh, secret=True):
    """Replaces the strings of a term that are within secrets by fresh markers."""
    if isinstance(t, Secret):
        return Secret(mark(t.v, fresh, True))
    if isinstance(t, dict):
        return {k: mark(v, fresh, secret) for k, v in t.items()}
    if isinstance(t, list):
        return [mark(v, fresh, secret) for v in t]
    return fresh() if secret and isinstance(t, str) else t


class World:
    """The resources that exist: name -> dict(urn, id (None: component), expand: set of urns as dependency)."""

    def __init__(self, features, resources):
        self.features, self.resources = features, resources

    def expand(self, names):
        out = set()
        for n in names:
            r = self.resources.get(n)
            out |= r["expand"] if r else {n}
        return out

    def ser(self, rv, keep):
        """(wire term, names of the resources it depends on)"""
        if rv is UNK:
            return UNK, set()
        if isinstance(rv, Res):
            r = self.resources[rv.name]
            rid = r["id"]
            rid = UNK if rid == "" else rid
            if "resourceReferences" in self.features:
                return ResRef(r["urn"], "<none>" if rid is None else rid), {rv.name}
            return (r["urn"] if rid is None else rid), {rv.name}
        if isinstance(rv, Out):
            if has_unk(rv.v) or not rv.known:
                term, deps, known = None, set(), False
                if not has_unk(rv.v):  # what an unknown Output still holds
                    term, deps = self.ser(rv.v, False)
            else:
                (term, deps), known = self.ser(rv.v, False), True
            deps = deps | rv.deps
            if keep and "outputValues" in self.features:
                return OutVal(known, term if known else None, rv.secret, tuple(sorted(self.expand(deps)))), deps
            if not known:
                return UNK, deps
            if rv.secret and "secrets" in self.features:
                return Secret(term), deps
            return term, deps
        if isinstance(rv, (AssetT, ArchiveT)):
            return rv, set()
        if isinstance(rv, dict):
            out, deps = {}, set()
            for k, v in rv.items():
                t, d = self.ser(v, keep)
                out[SPEC_NAMES[k] if isinstance(rv, SpecRV) else k] = t
                deps |= d
            return out, deps
        if isinstance(rv, list):
            out, deps = [], set()
            for v in rv:
                t, d = self.ser(v, keep)
                out.append(t)
                deps |= d
            return out, deps
        if isinstance(rv, enum.Enum):
            return rv.value, set()
        return rv, set()


class PropGen:
    """Generates (ast, rv)."""

    def __init__(self, rng, preview, outs, resources, unk=0.0, secret=0.25):
        """outs: list of (key, Out) that exist; resources: names that can be passed as values."""
        self.rng, self.preview, self.outs, self.resources = rng, preview, outs, resources
        self.secret = secret
        self.kinds = collections.Counter()
        self.taint = None  # callable giving a fresh marker: strings in secrets become markers, unsecret isn't used
        self.tainted = 0

    def asset(self, depth=1):
        r = self.rng
        k = r.choice(["path", "text", "uri", "apath", "auri", "aassets"])
        if k == "path":
            return AssetT("path", r.choice(["./a.txt", "/tmp/ü b"]))
        if k == "text":
            return AssetT("text", r.choice(["", "hello\n☃"]))
        if k == "uri":
            return AssetT("uri", "https://x/y")
        if k == "apath":
            return ArchiveT("path", "./dir")
        if k == "auri":
            return ArchiveT("uri", "https://x/y.zip")
        if depth <= 0:
            return ArchiveT("assets", {})
        return ArchiveT("assets", {"f%d" % i: self.asset(depth - 1) for i in range(r.choice([0, 1, 2]))})

    def node(self, depth):
        r = self.rng
        ks = ["lit", "lit", "out", "out", "res", "asset", "enum"]
        if depth > 0:
            ks += ["list", "list", "dict", "dict", "spec", "secret", "from", "unsecret", "future", "coro", "apply", "udict", "ulist",
                   "odict", "all"]
        if self.taint:
            ks = [k for k in ks if k != "unsecret"] + ["secret"] * 2
        k = r.choice(ks)
        if k == "out" and not self.outs or k == "res" and not self.resources:
            k = "lit"
        self.kinds[k] += 1
        return getattr(self, "n_" + k)(depth)

    def n_lit(self, depth):
        v = values.value(self.rng, 1)
        if self.tainted and self.taint:
            v = mark(v, self.taint)
        return ("lit", v), v

    def n_enum(self, depth):
        c = self.rng.choice(list(Color))
        return ("enum", c.name), c

    def n_out(self, depth):
        i = self.rng.randrange(len(self.outs))
        return ("out", i), self.outs[i][1]

    def n_res(self, depth):
        n = self.rng.choice(self.resources)
        return ("res", n), Res(n)

    def n_asset(self, depth):
        a = self.asset()
        return ("asset", a), a

    def kids(self, depth, lo=0):
        return [self.node(depth - 1) for _ in range(self.rng.choice([lo, 1, 1, 2, 3]))]

    def n_list(self, depth):
        xs = self.kids(depth)
        return ("list", [a for a, _ in xs]), [v for _, v in xs]

    def n_ulist(self, depth):
        xs = self.kids(depth)
        return ("ulist", [a for a, _ in xs]), UList(v for _, v in xs)

    def keyed(self, depth):
        xs = self.kids(depth)
        return list(zip(self.rng.sample(values.KEYS, len(xs)), xs))

    def n_dict(self, depth):
        xs = self.keyed(depth)
        return ("dict", [(k, a) for k, (a, _) in xs]), {k: v for k, (_, v) in xs}

    def n_odict(self, depth):
        xs = self.keyed(depth)
        return ("odict", [(k, a) for k, (a, _) in xs]), {k: v for k, (_, v) in xs}

    def n_udict(self, depth):
        xs = self.keyed(depth)
        return ("udict", [(k, a) for k, (a, _) in xs]), UDict({k: v for k, (_, v) in xs})

    def n_spec(self, depth):
        ks = self.rng.sample(sorted(SPEC_NAMES), self.rng.choice([0, 1, 2, 3]))
        d, a = SpecRV(), []
        for k in ks:
            x, v = self.node(depth - 1)
            if v is None:
                x, v = ("lit", 1), 1
            a.append((k, x))
            d[k] = v
        return ("spec", a), d

    def n_secret(self, depth):
        self.tainted += 1
        a, v = self.node(depth - 1)
        self.tainted -= 1
        o = flatten(v)
        return ("secret", a), Out(o.v, o.known, True, o.deps)

    def n_unsecret(self, depth):
        a, v = self.node(depth - 1)
        o = flatten(v)
        return ("unsecret", a), Out(o.v, o.known, False, o.deps)

    def n_from(self, depth):
        a, v = self.node(depth - 1)
        return ("from", a), flatten(v)

    def n_all(self, depth):
        xs = self.kids(depth)
        os = [flatten(v) for _, v in xs]
        return ("all", [a for a, _ in xs]), join(os, [norm(o) for o in os])

    def n_future(self, depth):
        a, v = self.node(depth - 1)
        return ("future", a), v

    def n_coro(self, depth):
        a, v = self.node(depth - 1)
        return ("coro", a), v

    def n_apply(self, depth):
        """An apply whose callback returns a structure that still contains Inputs."""
        if not self.outs:
            return self.n_lit(depth)
        i = self.rng.randrange(len(self.outs))
        src = self.outs[i][1]
        a, v = self.node(depth - 1)
        while a[0] in ("future", "coro"):  # callbacks return prompt values or Outputs (an awaitable of an Output isn't an Input)
            a = a[1]
        if self.preview and not src.known:
            return ("apply", i, a), Out(None, False, src.secret, src.deps)
        if isinstance(v, Out):
            return ("apply", i, a), Out(v.v, v.known, v.secret or src.secret, v.deps | src.deps)
        return ("apply", i, a), Out(v, not has_unk(v), src.secret, src.deps)


def build(a, outs, res):
    """ast -> the value to pass to the SDK. outs: list of callables; res: name -> resource."""
    k = a[0]
    b = lambda x: build(x, outs, res)
    if k == "lit":
        return values.to_py(a[1])
    if k == "enum":
        return Color[a[1]]
    if k == "out":
        return outs[a[1]]()
    if k == "res":
        return res[a[1]]
    if k == "asset":
        return asset(a[1])
    if k == "list":
        return [b(x) for x in a[1]]
    if k == "ulist":
        return collections.UserList([b(x) for x in a[1]])
    if k == "dict":
        return {n: b(x) for n, x in a[1]}
    if k == "odict":
        return collections.OrderedDict((n, b(x)) for n, x in a[1])
    if k == "udict":
        return collections.UserDict({n: b(x) for n, x in a[1]})
    if k == "spec":
        return Spec(**{n: b(x) for n, x in a[1]})
    if k == "secret":
        return pulumi.Output.secret(b(a[1]))
    if k == "unsecret":
        return pulumi.Output.unsecret(pulumi.Output.from_input(b(a[1])))
    if k == "from":
        return pulumi.Output.from_input(b(a[1]))
    if k == "all":
        return pulumi.Output.all(*[b(x) for x in a[1]])
    if k == "future":
        f = asyncio.get_event_loop().create_future()
        v = b(a[1])
        if len(repr(a)) % 2:
            f.set_result(v)
        else:
            asyncio.get_event_loop().call_later(0.001, f.set_result, v)
        return f
    if k == "coro":
        v = b(a[1])

        async def later():
            await asyncio.sleep(0)
            return v
        return later()
    if k == "apply":
        return outs[a[1]]().apply(lambda _: b(a[2]))
    raise AssertionError(a)


def asset(t):
    if isinstance(t, AssetT):
        return {"path": pulumi.FileAsset, "text": pulumi.StringAsset, "uri": pulumi.RemoteAsset}[t.kind](t.v)
    if t.kind == "assets":
        return pulumi.AssetArchive({k: asset(v) for k, v in t.v.items()})
    return {"path": pulumi.FileArchive, "uri": pulumi.RemoteArchive}[t.kind](t.v)


def sig(a):
    if isinstance(a, tuple) and a and isinstance(a[0], str):
        if a[0] == "lit":
            return "l" + values.shape(a[1])
        return a[0] + "(" + ",".join(sig(x) for x in a[1:] if isinstance(x, (tuple, list))) + ")"
    if isinstance(a, (tuple, list)):
        return "[" + ",".join(sig(x) for x in a if isinstance(x, (tuple, list))) + "]"
    return ""
