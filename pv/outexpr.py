"""Random expressions over Outputs, their construction with the SDK, and a reference model of what they must yield.

Model value: M(v, flag, secret, deps): `v` may contain UNK; `flag` False = the whole value is not known (v meaningless).
"""
import asyncio
import itertools
from dataclasses import dataclass, field
from typing import Any

import pulumi

from . import values, wire
from .wire import UNK


@pulumi.input_type
class Args:
    def __init__(__self__, *, first=None, second=None):
        if first is not None:
            pulumi.set(__self__, "first", first)
        if second is not None:
            pulumi.set(__self__, "second", second)

    @property
    @pulumi.getter
    def first(self):
        return pulumi.get(self, "first")

    @property
    @pulumi.getter
    def second(self):
        return pulumi.get(self, "second")


class Box:
    """A plain object, for attribute access on Outputs."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class ObjD(dict):
    """Model of an object (rather than a dict): has attributes, no items."""


@dataclass
class M:
    v: Any
    flag: bool = True
    secret: bool = False
    deps: frozenset = field(default_factory=frozenset)

    @property
    def known(self):
        return self.flag and not values.has(self.v, UNK)


class Gen:
    """`srcs`: list of (name, prop, term, deps, known): what each source Output holds."""

    def __init__(self, rng, srcs, preview, ids=None):
        self.rng, self.srcs, self.preview = rng, srcs, preview
        self.ids = ids if ids is not None else itertools.count(1)
        self.calls = {}  # callback id -> expected argument (absent = must not run)
        self.ops = []
        self.held = 0
        self.shared = []

    def fresh(self):
        return next(self.ids)

    # every method returns (ast, M); ast is a nested tuple interpreted by `build`
    def expr(self, depth):
        """An Output-valued expression."""
        r = self.rng
        if depth <= 0:
            return self.src() if r.random() < 0.75 or not self.srcs else self.frm(depth)
        op = r.choice(["src", "from", "all", "all", "allkw", "secret", "unsecret", "concat", "item", "item", "attr", "apply", "apply",
                       "apply_out", "apply_out", "apply_coro", "run_unk", "wide", "share", "share"])
        self.ops.append(op)
        return getattr(self, "g_" + op)(depth)

    def src(self):
        if not self.srcs:
            return self.frm(0)
        i = self.rng.randrange(len(self.srcs))
        _, _, term, deps, known = self.srcs[i]
        m = M(values.strip_none(values.unsecret(term)), known, values.has(term, wire.Secret), deps)
        return ("src", i), m

    def inp(self, depth):
        """An Input-valued expression: prompt value, nested structure, awaitable or Output."""
        r = self.rng
        k = r.randrange(10)
        if k < 4:
            return self.expr(depth - 1)
        if k < 6 or depth <= 0:
            v = values.value(r, 1)
            return ("lit", v), M(v)
        if k == 6:
            n = r.choice([0, 1, 2])
            parts = [self.inp(depth - 1) for _ in range(n)]
            return ("list", [a for a, _ in parts]), self.join([m for _, m in parts], [self.norm(m).v for _, m in parts])
        if k == 7:
            ks = r.sample(values.KEYS, r.choice([0, 1, 2]))
            parts = [self.inp(depth - 1) for _ in ks]
            return ("dict", list(zip(ks, [a for a, _ in parts]))), self.join(
                [m for _, m in parts], {k2: self.norm(m).v for k2, (_, m) in zip(ks, parts)})
        if k == 8:
            a, m = self.inp(depth - 1)
            return ("coro", a), m
        before, shared = dict(self.calls), list(self.shared)
        a1, m1 = self.inp(depth - 1)
        if m1.known and m1.v is None:
            self.calls.clear()
            self.calls.update(before)
            self.shared = shared
            a1, m1 = ("lit", 5), M(5)
        m = self.join([m1], ObjD(first=self.norm(m1).v))
        if self.preview and not m.known:
            m = M(UNK, True, m.secret, m.deps)
        return ("args", a1), m

    def norm(self, m):
        """from_input on an Output: a value that's not known becomes an explicit unknown."""
        return M(UNK, True, m.secret, m.deps) if not m.flag else m

    def join(self, ms, v):
        return M(v, True, any(m.secret for m in ms), frozenset().union(*[m.deps for m in ms]))

    def frm(self, depth):
        a, m = self.inp(max(depth, 0))
        return ("from", a), self.norm(m)

    g_from = frm

    def g_src(self, depth):
        return self.src()

    def g_all(self, depth):
        parts = [self.inp(depth - 1) for _ in range(self.rng.choice([0, 1, 2, 3]))]
        return ("all", [a for a, _ in parts]), self.join([m for _, m in parts], [self.norm(m).v for _, m in parts])

    def g_allkw(self, depth):
        ks = self.rng.sample(values.KEYS, self.rng.choice([1, 2, 3]))
        parts = [self.inp(depth - 1) for _ in ks]
        return ("allkw", list(zip(ks, [a for a, _ in parts]))), self.join(
            [m for _, m in parts], {k: self.norm(m).v for k, (_, m) in zip(ks, parts)})

    def g_wide(self, depth):
        """Many parts at once, most of them small."""
        r = self.rng
        n = r.choice([4, 7, 12])
        deep = r.randrange(n)
        parts = [self.inp(depth - 1 if i == deep else 1 if depth > 1 else 0) if r.random() < 0.4 else self.src() for i in range(n)]
        ms = [m for _, m in parts]
        how = r.randrange(4)
        if how % 2:
            ks = r.sample(values.KEYS, n)
            v, a = {k: self.norm(m).v for k, m in zip(ks, ms)}, list(zip(ks, [a for a, _ in parts]))
        else:
            v, a = [self.norm(m).v for m in ms], [a for a, _ in parts]
        if how < 2:
            return (("allkw", "all")[1 - how % 2], a), self.join(ms, v)
        return ("from", (("dict", "list")[1 - how % 2], a)), self.join(ms, v)

    def g_share(self, depth):
        """An Output that several expressions use."""
        if self.shared and self.rng.random() < 0.6:
            return self.rng.choice(self.shared)
        a, m = self.expr(depth - 1)
        self.shared.append((("shared", self.fresh(), a), m))
        return self.shared[-1]

    def g_secret(self, depth):
        a, m = self.inp(depth - 1)
        m = self.norm(m)
        return ("secret", a), M(m.v, True, True, m.deps)

    def g_unsecret(self, depth):
        a, m = self.expr(depth - 1)
        return ("unsecret", a), M(m.v, m.flag, False, m.deps)

    def g_concat(self, depth):
        r = self.rng
        parts = []
        for _ in range(r.choice([0, 1, 2, 3])):
            if r.random() < 0.5:
                s = r.choice(values.WORDS)
                parts.append((("lit", s), M(s)))
            else:
                a, m = self.expr(depth - 1)
                i = self.fresh()
                # make it a string with an apply; the callback must run iff known
                parts.append(self.apply(a, m, ("str", i), i, lambda v: "s%d" % i))
        ms = [m for _, m in parts]
        j = self.join(ms, None)
        known = all(self.norm(m).known for m in ms)
        if known or not self.preview:
            j.v = "".join(self.norm(m).v for m in ms)
            return ("concat", [a for a, _ in parts]), j
        return ("concat", [a for a, _ in parts]), M(None, False, j.secret, j.deps)

    def lift(self, m, get):
        """item / attribute access: runs with unknowns."""
        v = self.norm(m).v
        if v is UNK:
            return M(UNK, True, m.secret, m.deps)
        return M(get(v), True, m.secret, m.deps)

    def g_item(self, depth):
        a, m = self.expr(depth - 1)
        v = self.norm(m).v
        if v is UNK:
            k = self.rng.choice(["a", 0])
        elif isinstance(v, ObjD):
            k = self.rng.choice(sorted(v))
            return ("attr", a, k), self.lift(m, lambda x: x[k])
        elif isinstance(v, dict) and v:
            k = self.rng.choice(sorted(v))
        elif isinstance(v, list) and v:
            k = self.rng.randrange(len(v))
        else:
            return a, m
        return ("item", a, k), self.lift(m, lambda x: x[k])

    def g_attr(self, depth):
        a, m = self.inp(depth - 1)
        i = self.fresh()
        # from(box) isn't unwrapped: build an Output of an object with an apply
        base = ("from", a)
        m = self.norm(m)
        a2, m2 = self.apply(base, m, ("box", i), i, lambda v: ObjD(boxed=v))
        return ("attr", a2, "boxed"), self.lift(m2, lambda x: x["boxed"])

    def apply(self, a, m, fn, i, f, extra=None):
        if self.preview and not m.known:
            self.held += 1
            return ("apply", a, fn), M(None, False, m.secret, m.deps)
        self.calls[i] = m.v
        if extra is None:
            return ("apply", a, fn), M(f(m.v), True, m.secret, m.deps)
        return ("apply", a, fn), M(extra.v, extra.flag, m.secret or extra.secret, m.deps | extra.deps)

    def g_apply(self, depth):
        a, m = self.expr(depth - 1)
        i = self.fresh()
        k = self.rng.randrange(3)
        if k == 0:
            return self.apply(a, m, ("mark", i), i, lambda v: {"m": i, "v": v})
        if k == 1:
            return self.apply(a, m, ("const", i), i, lambda v: i)
        return self.apply(a, m, ("ident", i), i, lambda v: v)

    def g_apply_coro(self, depth):
        a, m = self.expr(depth - 1)
        i = self.fresh()
        return self.apply(a, m, ("coro", i), i, lambda v: ["c", i, v])

    def g_apply_out(self, depth):
        a, m = self.expr(depth - 1)
        i = self.fresh()
        sub = Gen(self.rng, self.srcs, self.preview, self.ids)
        b, mb = sub.expr(depth - 1)
        self.ops += sub.ops
        runs = not (self.preview and not m.known)
        if runs:
            self.calls.update(sub.calls)
        else:
            self.ops.append("skipped")
        return self.apply(a, m, ("out", i, b), i, None, extra=mb)

    def g_run_unk(self, depth):
        a, m = self.expr(depth - 1)
        i = self.fresh()
        v = m.v
        if self.preview and not m.flag and not values.has(m.v, UNK):
            v = UNK
        self.calls[i] = v
        return ("applyunk", a, ("mark", i)), M({"m": i, "v": v}, True, m.secret, m.deps)


class Builder:
    """Builds an AST with the SDK; records every callback invocation."""

    def __init__(self, sources):
        self.sources = sources
        self.calls = []
        self.shared = {}

    def cb(self, fn):
        kind, i = fn[0], fn[1]

        def f(v):
            self.calls.append((i, values.from_py(unbox(v))))
            if kind == "mark":
                return {"m": i, "v": v}
            if kind == "const":
                return i
            if kind == "str":
                return "s%d" % i
            if kind == "box":
                return Box(boxed=v)
            if kind == "out":
                return self.build(fn[2])
            if kind == "coro":
                async def later():
                    await asyncio.sleep(0)
                    return ["c", i, v]
                return later()
            return v

        return f

    def build(self, a):
        k = a[0]
        O = pulumi.Output
        if k == "src":
            return self.sources[a[1]]()
        if k == "lit":
            return values.to_py(a[1])
        if k == "list":
            return [self.build(x) for x in a[1]]
        if k == "dict":
            return {n: self.build(x) for n, x in a[1]}
        if k == "coro":
            async def later():
                await asyncio.sleep(0)
                return self.build(a[1])
            return later()
        if k == "args":
            return Args(first=self.build(a[1]))
        if k == "shared":
            if a[1] not in self.shared:
                self.shared[a[1]] = self.build(a[2])
            return self.shared[a[1]]
        if k == "from":
            return O.from_input(self.build(a[1]))
        if k == "all":
            return O.all(*[self.build(x) for x in a[1]])
        if k == "allkw":
            return O.all(**{n: self.build(x) for n, x in a[1]})
        if k == "secret":
            return O.secret(self.build(a[1]))
        if k == "unsecret":
            return O.unsecret(self.build(a[1]))
        if k == "concat":
            return O.concat(*[self.build(x) for x in a[1]])
        if k == "item":
            return self.build(a[1])[a[2]]
        if k == "attr":
            return getattr(self.build(a[1]), a[2])
        if k == "apply":
            return self.build(a[1]).apply(self.cb(a[2]))
        if k == "applyunk":
            return self.build(a[1]).apply(self.cb(a[2]), run_with_unknowns=True)
        raise AssertionError(a)


def unbox(v):
    """Turns the objects of the workload into comparable plain values."""
    if isinstance(v, Args):
        return {"first": unbox(v.first)}
    if isinstance(v, Box):
        return {"boxed": unbox(v.boxed)}
    if isinstance(v, dict):
        return {k: unbox(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [unbox(x) for x in v]
    return v
