"""One program with random sources and random Output expressions over them; shared by C01-C04."""
import pulumi

from . import outexpr, values, wire
from .engine import Engine, observe, run_program
from .wire import UNK


class Custom(pulumi.CustomResource):
    def __init__(self, name, props, opts=None):
        super().__init__("test:index:Custom", name, props, opts)


class Remote(pulumi.ComponentResource):
    def __init__(self, name, props, opts=None):
        super().__init__("test:index:Remote", name, props, opts, True)


async def dep_id(r):
    return await r.urn.future()


def term(r, preview, secret):
    return values.value(r, 2, True, 0.15 if preview else 0.0, secret)


class OutCase:
    """Runs case and leaves `results`: list of (ast, model, observation, dep urns)."""

    def __init__(self, ctx, case, secret=0.12, nexpr=6, depth=3, read=False):
        r = self.rng = ctx.rng()
        self.preview = preview = case["preview"]
        self.schedule = case.get("schedule")
        self.objects, self.deps, srcs, acc = {}, {}, [], []
        nres = r.choice([1, 2, 3])
        eng = Engine(preview=preview, schedule=self.schedule, seed=case["i"], on_register=self.on_register)
        self.kinds, self.rids = {}, {}
        for i in range(nres):
            name = f"r{i}"
            kind = r.choice(["custom", "custom", "remote"])
            self.kinds[name] = kind
            typ = "test:index:Custom" if kind == "custom" else "test:index:Remote"
            urn = eng.urn(typ, name)
            obj = {}
            for j in range(r.choice([1, 2])):
                p = f"p{j}"
                if r.random() < 0.12:
                    t = None  # missing from the engine's answer
                else:
                    t = term(r, preview, secret)
                extra = [f"urn:pulumi:stk::proj::x:y:Z::d{k}" for k in range(3) if r.random() < 0.2]
                if t is not None:
                    obj[p] = t
                self.deps.setdefault(name, {})[p] = extra
                ds = frozenset([urn] + extra)
                if t is None and preview:
                    srcs.append((name, p, None, ds, False))
                else:
                    srcs.append((name, p, t, ds, True))
                acc.append((name, p))
            self.objects[name] = obj
            if kind == "custom" and r.random() < 0.5:
                # An ID that isn't known yet is the empty string to the engine.
                rid = r.choice(["", "id-1"]) if preview else "id-" + name
                self.rids[name] = rid
                srcs.append((name, "id", rid if rid else None, frozenset([urn]), bool(rid)))
                acc.append((name, "id"))
        self.srcs = srcs
        gen = self.gen = outexpr.Gen(r, srcs, preview)
        self.exprs = [gen.expr(r.choice([1, 2, depth, depth])) for _ in range(nexpr)]
        outs = []
        self.builder = None

        def program():
            res = {}
            for name, kind in self.kinds.items():
                cls = Custom if kind == "custom" else Remote
                res[name] = cls(name, {p: None for n, p in acc if n == name and p != "id"})
            self.builder = outexpr.Builder([lambda n=n, p=p: getattr(res[n], p) for n, p in acc])
            for a, _ in self.exprs:
                outs.append(self.builder.build(a))

        async def after():
            obs = []
            for o in outs:
                x = await observe(o)
                d = frozenset([await dep_id(y) for y in x[4]]) if x[0] == "ok" else None
                obs.append((x, d))
            return obs

        self.engine = eng
        self.result = run_program(program, eng, preview=preview, after=after)
        self.obs = self.result.state.get("after") or []

    def on_register(self, req, urn):
        if req.name in self.objects:
            ans = {"object": self.objects[req.name], "deps": self.deps.get(req.name, {})}
            if req.name in self.rids:
                ans["id"] = self.rids[req.name]
            return ans
        return None

    def ok(self, ctx):
        if not self.result.ok or len(self.obs) != len(self.exprs):
            ctx.violation("program-failed", f"a program that only combines outputs failed or hung: {self.result!r}")
            return False
        for (a, m), (x, _) in zip(self.exprs, self.obs):
            if x[0] == "exc":
                ctx.violation("output-failed", f"{a!r} failed with {x[1]!r}")
                return False
        return True

    def triples(self):
        for (a, m), (x, d) in zip(self.exprs, self.obs):
            yield a, m, x, d


def size(a):
    if isinstance(a, (list, tuple)):
        return 1 + sum(size(x) for x in a)
    return 0


def opsig(a):
    """Nesting of operations: what tells expressions apart."""
    if isinstance(a, tuple) and a and isinstance(a[0], str):
        if a[0] == "lit":
            return "lit" + values.shape(a[1])
        return a[0] + "(" + ",".join(opsig(x) for x in a[1:] if isinstance(x, (tuple, list))) + ")"
    if isinstance(a, (tuple, list)):
        return "[" + ",".join(opsig(x) for x in a if isinstance(x, (tuple, list))) + "]"
    return ""
