"""C07: values from the engine become exactly the corresponding program values."""
import pulumi
from pulumi.runtime.rpc import register_resource_module

from pv import props, values, wire
from pv.engine import Engine, observe, run_program
from pv.wire import UNK, ArchiveT, AssetT, ResRef, Secret

RULE = ("One case = one program whose registered, read, fetched (by URN), invoked and called resources/functions are answered with random "
        "values (unknowns, nested secrets, assets, archives, resource references, internal and null fields); what the program observes is "
        "compared with a reference decoder; distinct by (path, value shape), non-trivial if the value has >= 2 levels.")
ASSUMPTIONS = ["the fake engine stands for the real one's RPC interface"]


_registered = False


class Mod:
    """A registered resource module: references to its resources become resources."""

    def version(self):
        return None

    def construct(self, name, typ, urn):
        return Known(name, typ, urn)


class Known(pulumi.CustomResource):
    def __init__(self, name, typ, urn):
        super().__init__(typ, name, {"state": None}, pulumi.ResourceOptions(urn=urn))
        self.given = (name, typ, urn)


def asset(rng, depth=1):
    k = rng.randrange(6)
    if k == 0:
        return AssetT("path", "./f")
    if k == 1:
        return AssetT("text", rng.choice(["", "x☃"]))
    if k == 2:
        return AssetT("uri", "https://u")
    if k == 3 and depth > 0:
        return ArchiveT("assets", {f"n{i}": asset(rng, depth - 1) for i in range(rng.choice([0, 1, 2]))})
    return ArchiveT(rng.choice(["path", "uri"]), "./d.zip")


def ref(rng, eng_urn):
    typ = rng.choice(["unk:index:Custom", "unk:mod:Comp", "known:index:Known"])
    name = rng.choice(["n", "a-b", "ü"])
    urn = eng_urn(typ, name)
    if typ == "unk:mod:Comp":
        return ResRef(urn)
    return ResRef(urn, rng.choice(["i-1", "", "x"]), rng.choice(["", "1.2.3"]))


def gen(rng, preview, depth, eng_urn):
    k = rng.random()
    if k < 0.1:
        return asset(rng)
    if k < 0.2:
        return ref(rng, eng_urn)
    if k < 0.28:
        v = gen(rng, preview, depth, eng_urn)
        return v if isinstance(v, Secret) or v is None or isinstance(v, ResRef) else Secret(v)
    if preview and k < 0.36:
        return UNK
    if depth <= 0 or k < 0.55:
        return values.scalar(rng)
    n = rng.choice([0, 1, 2, 3])
    if rng.random() < 0.5:
        return [gen(rng, preview, depth - 1, eng_urn) for _ in range(n)]
    return {k2: gen(rng, preview, depth - 1, eng_urn) for k2 in rng.sample(values.KEYS + ["__internal", "__defaults", "__props", "__providers"], n)}


def plan(tier, seed):
    n = 3500 if tier == "quick" else 14000
    return [{"i": i, "preview": i % 2 == 0} for i in range(n)]


def minimum(tier):
    return {"values": 2000, "with_secret": 200, "with_asset": 200, "with_reference": 200, "with_known_reference": 30, "with_unknown": 100,
            "path_custom": 100, "path_read": 100, "path_get": 100, "path_invoke": 100, "path_call": 100, "path_echo": 100, "path_remote_echo": 100, "answered_over_input": 100}


def expect(t, preview):
    """term -> (value, secret, known): value uses AssetT/ArchiveT/('known', urn) leaves"""
    secret = False
    known = True

    def go(t):
        nonlocal secret, known
        if t is UNK:
            known = False
            return UNK
        if isinstance(t, Secret):
            secret = True
            return go(t.v)
        if isinstance(t, ResRef):
            if "known:index:Known" in t.urn:
                return ("known", t.urn)
            if t.id == "<none>":
                return t.urn
            if t.id == "":
                if preview:
                    known = False
                    return UNK
                return None
            return t.id
        if isinstance(t, dict):
            out = {}
            for k, v in t.items():
                if k.startswith("__"):
                    # dropped as a whole, including any secret within
                    continue
                x = go(v)
                if x is not None:
                    out[k] = x
            return out
        if isinstance(t, list):
            return [go(v) for v in t]
        return t

    return go(t), secret, known


def from_py(v):
    if isinstance(v, Known):
        return ("known", v.given[2])
    if isinstance(v, pulumi.FileAsset):
        return AssetT("path", v.path)
    if isinstance(v, pulumi.StringAsset):
        return AssetT("text", v.text)
    if isinstance(v, pulumi.RemoteAsset):
        return AssetT("uri", v.uri)
    if isinstance(v, pulumi.AssetArchive):
        return ArchiveT("assets", {k: from_py(x) for k, x in v.assets.items()})
    if isinstance(v, pulumi.FileArchive):
        return ArchiveT("path", v.path)
    if isinstance(v, pulumi.RemoteArchive):
        return ArchiveT("uri", v.uri)
    if isinstance(v, pulumi.output.Unknown):
        return UNK
    if isinstance(v, dict):
        return {k: from_py(x) for k, x in v.items()}
    if isinstance(v, list):
        return [from_py(x) for x in v]
    return v


def run(case, ctx):
    r, preview = ctx.rng(), case["preview"]
    answers, seen_known = {}, []
    got_id = r.choice(["got-id", "got-id", "é/x", ""])

    def on_register(req, urn):
        return {"object": answers.get(req.name, {}), "id": "id-" + req.name}

    def on_read(req, urn):
        return {"object": answers["rd"]}

    def on_invoke(req):
        if req.tok == "pulumi:pulumi:getResource":
            urn = req.args["urn"]
            if urn.endswith("::got"):
                return ("return", {"urn": urn, "id": got_id, "state": answers["gt"]})
            return ("return", {"urn": urn, "id": "kid", "state": {"state": "hydrated " + urn}})
        return ("return", answers["inv"])

    eng = Engine(preview=preview, seed=case["i"], on_register=on_register, on_read=on_read, on_invoke=on_invoke,
                 on_call=lambda req: ("return", answers["cl"], {}))
    mk = lambda: gen(r, preview, r.choice([1, 2, 3]), eng.urn)
    for n in ("cu", "rd", "gt", "inv", "cl", "rm"):
        answers[n] = {p: mk() for p in ("p", "q")}
    # functions don't return secrets from a legacy invoke
    answers["ec"] = {p: mk() if r.random() < 0.5 else r.choice([0, "", False, [], {}, None]) for p in ("p", "q") if r.random() < 0.5}
    for p in list(answers["inv"]):
        while values.has(answers["inv"][p], Secret) or values.has(answers["inv"][p], UNK):
            answers["inv"][p] = mk()
    echo = {p: v for p, v in (("p", mk()), ("q", mk())) if not any(isinstance(x, ResRef) for x in wire.walk(v))}
    echo = {k: v for k, v in echo.items() if v is not None and not _internal(v)}
    global _registered
    if not _registered:
        _registered = True
        register_resource_module("known", "index", Mod())
    got = {}

    class R(pulumi.CustomResource):
        pass

    def wrapped(v):
        x = r.random()
        if x < 0.6:
            return pulumi.Output.from_input(v) if x < 0.4 else got["custom"].urn.apply(lambda _: v)
        if isinstance(v, (list, dict)) and x < 0.9:
            return [wrapped(y) for y in v] if isinstance(v, list) else {k: wrapped(y) for k, y in v.items()}
        return v

    def program():
        none = {"p": None, "q": None}
        got["custom"] = R("t:i:R", "cu", dict(none))
        got["read"] = R("t:i:R", "rd", dict(none), pulumi.ResourceOptions(id="an-id"))
        got["get"] = R("t:i:R", "got", dict(none), pulumi.ResourceOptions(urn=eng.urn("t:i:R", "got")))
        got["remote"] = pulumi.ComponentResource("t:i:C", "rm", dict(none), None, True)
        got["invoke"] = pulumi.runtime.invoke("t:i:f", {}).value
        got["call"] = pulumi.runtime.call("t:i:f", {})
        # (its inputs go to the engine as output values, which isn't to be seen in what comes of them)
        got["remote_echo"] = pulumi.ComponentResource("t:i:C", "rec", {k: wrapped(topy(v)) for k, v in echo.items()}, None, True)
        got["echo"] = R("t:i:R", "ec", {k: topy(v) for k, v in echo.items()})

    async def after():
        out = {}
        for path in ("custom", "read", "get", "remote", "echo", "remote_echo"):
            for p in list(echo) if path.endswith("echo") else ("p", "q"):
                out[path, p] = await observe(getattr(got[path], p))
        out["call"] = await observe(got["call"])
        out["ids"] = {n: (await got[n].id.future() or None, await got[n].id.is_known()) for n in ("custom", "read", "get")}
        for path, o in list(out.items()):
            if path != "ids" and o[0] == "ok":
                for k in knowns(o[1]):
                    seen_known.append((k.given, await k.urn.future(), await k.id.future(), await observe(k.state)))
        return out

    res = run_program(program, eng, preview=preview, after=after)
    if not res.ok or "after" not in res.state:
        ctx.violation("program-failed", f"{res!r} {answers!r} {echo!r} {res.state}")
        return
    obs = res.state["after"]
    names = {"custom": "cu", "read": "rd", "get": "gt", "remote": "rm"}

    def one(path, term, o):
        ctx.count("values")
        ctx.count("path_" + path)
        ctx.count("with_secret", values.has(term, Secret))
        ctx.count("with_unknown", values.has(term, UNK))
        ctx.count("with_asset", values.has(term, AssetT) or values.has(term, ArchiveT))
        ctx.count("with_reference", values.has(term, ResRef))
        want, secret, known = expect(term, preview)
        if want is None and preview:
            known = False
        if not ctx.check(o[0] == "ok", "output-failed", lambda: f"{path}: {term!r} failed: {o[1]!r}"):
            return
        val = from_py(o[1])
        ctx.check(wire.eq(val, want), "wrong-value", lambda: f"{path} (preview {preview}): {term!r} became {val!r} instead of {want!r}")
        ctx.check(o[3] == secret, "wrong-secretness", lambda: f"{path}: secretness of {term!r} is {o[3]}")
        ctx.check(o[2] == known, "wrong-known", lambda: f"{path} (preview {preview}): known of {term!r} is {o[2]}")
        s = values.shape(term)
        if len(s) > 3:
            ctx.sig(path + s)
            ctx.sample({"path": path, "sent": repr(term)[:400], "observed": repr(val)[:400]})

    for path, n in names.items():
        for p in ("p", "q"):
            one(path, answers[n][p], obs[path, p])
    for p, t in echo.items():
        # in a preview, what the engine doesn't answer is unknown
        if expect(answers["ec"].get(p), preview)[0] is not None:
            ctx.count("answered_over_input")
            one("echo", answers["ec"][p], obs["echo", p])
        elif preview:
            ctx.check(obs["echo", p][2] is False, "wrong-known", lambda: f"an unanswered {t!r} is known in a preview")
            ctx.count("path_echo")
        else:
            one("echo", t, obs["echo", p])
    for p, t in echo.items():
        if preview:
            ctx.check(obs["remote_echo", p][2] is False, "wrong-known", lambda: f"an unanswered {t!r} of a component is known in a preview")
            ctx.count("path_remote_echo")
        else:
            one("remote_echo", t, obs["remote_echo", p])
    inv = {k: v for k, v in ((p, expect(t, preview)[0]) for p, t in answers["inv"].items()) if v is not None}
    ctx.count("path_invoke")
    gi = from_py(got["invoke"])
    ctx.check(wire.eq(gi, inv), "wrong-value", lambda: f"invoke: {answers['inv']!r} became {gi!r}")
    want, secret, known = expect(answers["cl"], preview)
    o = obs["call"]
    ctx.count("path_call")
    ctx.check(o[0] == "ok" and o[2] == known and o[3] == secret and (not known or wire.eq(from_py(o[1]), want)), "wrong-value",
              lambda: f"call: {answers['cl']!r} became {o!r}")
    ctx.check(obs["ids"] == {"custom": ("id-cu", True), "read": ("an-id", True), "get": (got_id or None, bool(got_id))}, "wrong-id", lambda: f"ids {obs['ids']}")
    for (name, typ, urn), u, i, st in seen_known:
        ctx.count("with_known_reference")
        ctx.check((name, typ) == (urn.split("::")[-1], "known:index:Known") and u == urn and i == "kid" and st[1] == "hydrated " + urn,
                  "wrong-reference", lambda: f"reference to {urn} became name={name} type={typ} urn={u} id={i} state={st}")
    ctx.evaluated(len(obs) + 1)


def knowns(v):
    if isinstance(v, Known):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from knowns(x)
    elif isinstance(v, list):
        for x in v:
            yield from knowns(x)


def _internal(t):
    return any(isinstance(x, dict) and any(k.startswith("__") for k in x) for x in wire.walk(t))


def topy(t):
    if isinstance(t, Secret):
        return pulumi.Output.secret(topy(t.v))
    if isinstance(t, (AssetT, ArchiveT)):
        return props.asset(t)
    if isinstance(t, dict):
        return {k: topy(v) for k, v in t.items()}
    if isinstance(t, list):
        return [topy(v) for v in t]
    return values.to_py(t)
