"""C33: references to resources become those of the best registered version of their package or module."""
import itertools

import pulumi
from semver import VersionInfo

from pv.engine import Engine, observe, run_program
from pv.wire import ResRef

RULE = ("One case = 2-8 versions (or none) of random modules and packages registered in random order, and a program whose resource, function and call are answered with references to resources and providers of random "
        "versions, types and IDs, at random depth; which registration constructs each, from what, and which registrations are refused is compared with a model; distinct by versions registered and wanted, non-trivial if "
        "several registered versions compete.")
ASSUMPTIONS = ["compatible versions are those of the same major version whose minor and patch numbers are both at least the wanted ones, as in the Node.js SDK"]
serial = itertools.count()
VERSIONS = ["1.0.0", "1.2.0", "1.2.3", "1.2.10", "1.10.0", "1.10.3", "1.9.9", "2.0.0", "2.2.3", "10.0.0", "0.1.0", "0.1.5", "1.2.3-alpha.1", "1.2.3-alpha.10", None]
WANTED = ["", "1.0.0", "1.2.3", "1.2.0", "1.10.0", "1.9.9", "2.0.0", "2.1.0", "3.0.0", "0.1.2", "0.0.1", "1.2.3-alpha.2"]


def plan(tier, seed):
    return [{"i": i} for i in range(4500 if tier == "quick" else 25000)]


def minimum(tier):
    return {"references": 3500, "constructed": 1500, "not_compatible": 300, "competing": 400, "refused": 500, "providers": 600, "unregistered": 500, "nested": 600, "with_id": 800, "any_version": 150}


class Made(pulumi.CustomResource):
    def __init__(self, by, name, typ, urn):
        self.by, self.given = by, (name, typ, urn)
        super().__init__(typ, name, {"state": None}, pulumi.ResourceOptions(urn=urn))


class MadeProvider(pulumi.ProviderResource):
    def __init__(self, by, name, typ, urn):
        self.by, self.given = by, (name, typ, urn)
        super().__init__(typ.split(":")[2], name, {}, pulumi.ResourceOptions(urn=urn))


def run(case, ctx):  # pylint: disable=too-many-locals,too-many-statements
    r = ctx.rng()
    n = next(serial)
    pkgs = [f"pk{n}a", f"pk{n}b-x"][: r.choice([1, 2])]
    mods = r.sample(["index", "index/thing", "s3", "é"], r.choice([1, 2]))
    registered = {}
    built = []

    def register(kind, key, text):
        ver = None if text is None else VersionInfo.parse(text)

        class Reg:
            def version(self):
                return ver

            def construct(self, name, typ, urn):
                built.append(urn)
                return Made((kind, key, text), name, typ, urn)

            def construct_provider(self, name, typ, urn):
                built.append(urn)
                return MadeProvider((kind, key, text), name, typ, urn)

        have = registered.setdefault((kind, key), [])
        clash = bool(have) and (text is None or None in have or text in have)
        try:
            if kind == "module":
                pulumi.runtime.rpc.register_resource_module(key[0], key[1], Reg())
            else:
                pulumi.runtime.rpc.register_resource_package(key, Reg())
            ok = True
        except ValueError:
            ok = False
        ctx.count("refused", not ok)
        ctx.check(ok != clash, "registration", lambda: f"registering {kind} {key} {text} after {have} {'succeeded' if ok else 'failed'}")
        if not clash:
            have.append(text)

    for _ in range(r.choice([2, 6, 12])):
        kind = r.choice(["module", "module", "package"])
        register(kind, (r.choice(pkgs), r.choice(mods)) if kind == "module" else r.choice(pkgs), r.choice(VERSIONS + ["1.2.3", "1.10.0", "1.2.0"]))

    def expected(kind, key, want):
        """The registered version that is to be used, or 'none'."""
        have = registered.get((kind, key), [])
        if have == [None]:
            return None
        w = VersionInfo.parse(want) if want else None
        fit = [VersionInfo.parse(h) for h in have]
        fit = [h for h in fit if w is None or (h.major == w.major and h.minor >= w.minor and h.patch >= w.patch)]
        ctx.count("competing", len(fit) > 1)
        ctx.count("not_compatible", not fit and bool(have))
        ctx.count("unregistered", not have)
        return str(max(fit)) if fit else "none"

    refs = []

    def reference(i):
        name = r.choice([f"res{i}", f"née {i}", f"x-{i}"])
        pkg = r.choice(pkgs)
        provider = r.random() < 0.25
        typ = f"pulumi:providers:{pkg}" if provider else f"{pkg}:{r.choice(mods)}:{r.choice(['Thing', 'Other'])}"
        parent = r.choice(["", "my:c:Comp$", "a:b:C$d:e:F$"])
        urn = f"urn:pulumi:stk::proj::{parent}{typ}::{name}"
        want = r.choice(WANTED)
        rid = r.choice(["<none>", "id-" + str(i)])
        best = expected("package", pkg, want) if provider else expected("module", (pkg, typ.split(":")[1]), want)
        refs.append((urn, name, typ, want, rid, best, provider))
        return ResRef(urn, rid, want)

    def place(i):
        v = reference(i)
        k = r.choice(["", "", "", "l", "d", "dl"])
        ctx.count("nested", bool(k))
        for c in k:
            v = [v] if c == "l" else {"k": v}
        return k, v

    answers = {where: place(i) for i, where in enumerate(("custom", "custom2", "invoke", "call", "nested", "remote"))}
    got = {}
    fetched = []

    def on_register(q, urn):
        if q.name in answers:
            return {"urn": urn, "id": "i" if q.custom else "", "object": {"p": answers[q.name][1]}, "deps": {}}
        return None

    def on_invoke(q):
        if q.tok == "pulumi:pulumi:getResource":
            u = dict(q.args.items())["urn"]
            fetched.append(u)
            return ("return", {"urn": u, "id": "fetched", "state": {}})
        return ("return", {"p": answers["invoke"][1]})

    e = Engine(on_register=on_register, on_invoke=on_invoke, on_call=lambda q: ("return", {"p": answers["call"][1]}, {}), seed=case["i"])

    def program():
        for where in ("custom", "custom2", "nested"):
            got[where] = pulumi.CustomResource("t:m:R", where, {"p": None})
        got["remote"] = pulumi.ComponentResource("t:m:C", "remote", {"p": None}, None, True)
        got["invoke"] = pulumi.runtime.invoke("t:m:f", {}).value
        got["call"] = pulumi.runtime.call("t:m:f", {})

    async def after():
        out = {}
        for where, x in got.items():
            if where == "invoke":
                out[where] = x["p"]
            elif where == "call":
                out[where] = (await observe(x))[1]["p"]
            else:
                out[where] = (await observe(getattr(x, "p")))[1]
        return out

    res = run_program(program, e, after=after)
    show = f"registered {registered}; refs {refs}"
    ctx.evaluated()
    if not ctx.check(res.ok and "after" in res.state, "failed", lambda: f"{show}: {res!r} {res.state}"[:3000]):
        return
    out = res.state["after"]
    for (where, (path, _)), (urn, name, typ, want, rid, best, provider) in zip(answers.items(), refs):
        v = out[where]
        ctx.count("references")
        ctx.count("providers", provider)
        ctx.count("with_id", rid != "<none>")
        try:
            for c in reversed(path):
                v = v[0] if c == "l" else v["k"]
        except Exception as exn:  # pylint: disable=broad-except
            ctx.violation("shape", f"{show}: {where} is {out[where]!r}: {exn!r}")
            continue
        what = f"{where}: {typ} wanted in version {want!r}, of {registered.get(('package', typ.split(':')[2]) if provider else ('module', tuple(typ.split(':')[:2])))}, id {rid!r}"
        if best == "none":
            fallback = urn if rid == "<none>" else rid
            ctx.check(v == fallback, "fallback", lambda: f"{what}: {v!r} instead of {fallback!r}")
            continue
        ctx.count("constructed")
        ctx.count("any_version", best is None)
        if not ctx.check(isinstance(v, MadeProvider if provider else Made), "not-constructed", lambda: f"{what}: {v!r}"):
            continue
        ctx.check(v.by[2] == best, "version", lambda: f"{what}: constructed by {v.by[2]} instead of {best}")
        ctx.check(v.by[1] == (typ.split(":")[2] if provider else tuple(typ.split(":")[:2])), "module", lambda: f"{what}: constructed by {v.by}")
        ctx.check(v.given == (name, typ, urn), "identity", lambda: f"{what}: constructed from {v.given} instead of {(name, typ, urn)}")
        ctx.check(built.count(urn) == 1, "times", lambda: f"{what}: constructed {built.count(urn)} times")
        ctx.check(urn in fetched, "not-fetched", lambda: f"{what}: its state wasn't fetched")
    ctx.sig(str(sorted((k[0], str(v)) for k, v in registered.items())) + str([(x[3], x[5]) for x in refs]))
