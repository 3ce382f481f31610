"""C08: the request for a resource carries exactly what the program declared: identity, kind, parent and every option."""
import os

import pulumi

from pv.engine import Engine, observe, run_program

RULE = ("One case = one program with 4-9 resources of all kinds (custom with untyped, translated or typed properties, remote and local "
        "components, providers, reads, gets), each with a random set of options; every field of every request is compared with what was "
        "declared; distinct by (kind, set of options), non-trivial if an option was set.")
ASSUMPTIONS = ["properties, dependencies, aliases and inheritance are decided by C05, C09, C13 and C16"]
UNKNOWN = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"
NAMES = ["n", "my-res", "a b", "ü☃", "x.y/z", "N_1", "q\"'", "$d", "0"]
PATHS = ["first_prop", "other_prop", "plain", "a.b", "tags[0].k", "*", "firstProp", "", "nested_prop.first_prop", "out_only"]
TYPED = {"first_prop": "firstProp", "other_prop": "OtherProp"}
TYPED_OUT = {"first_prop": "firstProp", "out_only": "outOnly"}


def camel(s):
    h, *t = s.split("_")
    return h + "".join(x.title() for x in t)


@pulumi.input_type
class Args:
    def __init__(__self__, *, first_prop=None, other_prop=None, plain=None):
        for k, v in (("first_prop", first_prop), ("other_prop", other_prop), ("plain", plain)):
            if v is not None:
                pulumi.set(__self__, k, v)

    @property
    @pulumi.getter(name="firstProp")
    def first_prop(self):
        return pulumi.get(self, "first_prop")

    @property
    @pulumi.getter(name="OtherProp")
    def other_prop(self):
        return pulumi.get(self, "other_prop")

    @property
    @pulumi.getter
    def plain(self):
        return pulumi.get(self, "plain")


class Untyped(pulumi.CustomResource):
    def __init__(self, name, opts, t="test:index:Untyped"):
        super().__init__(t, name, {"p": 1}, opts)


class Translated(pulumi.CustomResource):
    def __init__(self, name, opts, t="test:index:Translated"):
        super().__init__(t, name, {"first_prop": 1}, opts)

    def translate_input_property(self, prop):
        return camel(prop)

    def translate_output_property(self, prop):
        return {"firstProp": "first_prop"}.get(prop, prop)


class Typed(pulumi.CustomResource):
    def __init__(self, name, opts, t="test:index/typed:Typed"):
        a = Args.__new__(Args)
        a.__dict__["first_prop"] = "x"
        a.__dict__["out_only"] = None
        super().__init__(t, name, a, opts)

    @property
    @pulumi.getter(name="firstProp")
    def first_prop(self) -> pulumi.Output[str]:
        return pulumi.get(self, "first_prop")

    @property
    @pulumi.getter(name="outOnly")
    def out_only(self) -> pulumi.Output[str]:
        return pulumi.get(self, "out_only")


class TypedRemote(pulumi.ComponentResource):
    def __init__(self, name, opts, t="test:index:TypedRemote"):
        super().__init__(t, name, Args(first_prop="x"), opts, True)


class Remote(pulumi.ComponentResource):
    def __init__(self, name, opts, t="test:index:Remote"):
        super().__init__(t, name, {"p": 1}, opts, True)


class Local(pulumi.ComponentResource):
    def __init__(self, name, opts, t="test:index:Local"):
        super().__init__(t, name, None, opts)


class Prov(pulumi.ProviderResource):
    def __init__(self, name, opts, t="test"):
        super().__init__(t, name, {"p": 1}, opts)


KINDS = {"untyped": Untyped, "translated": Translated, "typed": Typed, "remote": Remote, "typedremote": TypedRemote, "local": Local,
         "prov": Prov}


def plan(tier, seed):
    n = 2500 if tier == "quick" else 12000
    refs = [None, None, "1", "true", "TRUE", "0", "false", "", "True", "yes", "2"]
    return [{"i": i, "preview": i % 3 == 0, "refs": refs[i % len(refs)], "schedule": [None, None, "shuffle"][i // 3 % 3]} for i in range(n)]


def minimum(tier):
    return {"registrations": 1500, "reads": 150, "gets": 150, "options_set": 3000}


def options(r, kind, providers, i):
    """(description, expectations)"""
    o = {}

    def maybe(k, f, p=0.35):
        if r.random() < p:
            o[k] = f()

    path_list = lambda: [r.choice(PATHS) for _ in range(r.choice([0, 1, 2, 4]))]
    text = lambda *xs: (lambda: r.choice(xs))
    maybe("protect", text(True, False))
    maybe("delete_before_replace", text(True, False))
    maybe("ignore_changes", path_list)
    maybe("replace_on_changes", path_list)
    maybe("additional_secret_outputs", path_list)
    maybe("version", text("1.2.3", "v0.0.1-alpha.1+x", "", " 1.0", "latest"))
    maybe("plugin_download_url", text("https://x/y?z=1", "s3://ü", "", "https://x/", "/p/", "github://api.x.com/o "))
    maybe("import_", text("i-1", "a/b c", "::"), 0.25)
    maybe("custom_timeouts", lambda: (r.choice(["obj", "dict"]),
                                      {k: r.choice(["5m", "1h30m", "0s"]) for k in r.sample(["create", "update", "delete"], r.choice([0, 1, 2, 3]))}))
    maybe("retain_on_delete", text(True, False))
    if kind != "prov":
        maybe("provider", text(*[p for p in providers if providers[p] == "test"]), 0.4)
    free = [p for p in providers if not ("provider" in o and providers[p] == "test")]
    maybe("providers", lambda: r.sample(free, min(len(free), r.choice([0, 1, 2]))), 0.3)
    if "providers" in o:  # one provider per package
        seen, ps = set(), []
        for p in o["providers"]:
            if providers[p] not in seen:
                seen.add(providers[p])
                ps.append(p)
        o["providers"] = ps
        o["providers_form"] = r.choice(["list", "dict", "tuple"])
    return o


def run(case, ctx):
    r = ctx.rng()
    preview = case["preview"]
    names = r.sample(NAMES, len(NAMES))
    decl = []  # (kind, name, type, mode, modearg, parent index, options)
    providers = {}
    pid = {}
    for i, pkg in enumerate(["test", "test", "other", "aws"][: r.choice([2, 3, 4])]):
        n = f"prov{i}"
        providers[n] = pkg
        pid[n] = "" if preview and r.random() < 0.5 else f"pid{i}::x" if r.random() < 0.2 else f"pid{i}"
    for i in range(r.choice([4, 6, 9])):
        kind = r.choice(["untyped", "untyped", "translated", "typed", "typed", "remote", "typedremote", "local", "prov"])
        t = {"untyped": ["test:index:Untyped", "test:a/b:C", "test::X", "pulumi:pulumi:StackReference", "pulumi:pulumi:X"], "prov": ["test", "other", "ü"],
             "local": ["test:index:Local", "my:Comp", "comp", "pulumi:pulumi:Comp"]}.get(kind)
        opts = options(r, kind, providers, i)
        t = r.choice(t) if t else None
        if t and t.startswith("pulumi:pulumi:"):
            opts.pop("provider", None)  # rejected: it's for another package
        mode = "register"
        if kind in ("untyped", "translated", "typed") and r.random() < 0.3:
            mode = "read"
        elif kind in ("untyped", "typed", "local", "remote") and r.random() < 0.15:
            mode = "get"
        parents = [j for j, d in enumerate(decl) if d[3] != "get"]
        parent = r.choice(parents) if parents and r.random() < 0.4 else None
        form = r.choice(["str", "out"])
        decl.append((kind, names[i], t, mode, form, parent, opts))
    urns, res, opts_of = {}, {}, {}

    def program():
        prov = {}
        for n, pkg in providers.items():
            prov[n] = Prov(n, None, pkg)
        for i, (kind, name, t, mode, form, parent, o) in enumerate(decl):
            kw = {k: v for k, v in o.items() if k not in ("custom_timeouts", "provider", "providers", "providers_form")}
            if "custom_timeouts" in o:
                f, d = o["custom_timeouts"]
                kw["custom_timeouts"] = pulumi.CustomTimeouts(**d) if f == "obj" else dict(d)
            if "provider" in o:
                kw["provider"] = prov[o["provider"]]
            if "providers" in o:
                ps = [prov[p] for p in o["providers"]]
                kw["providers"] = {p.package: p for p in ps} if o["providers_form"] == "dict" else ps if o["providers_form"] == "list" else tuple(ps)
            if parent is not None:
                kw["parent"] = res[parent]
            if mode == "read":
                kw["id"] = f"rid{i}" if form == "str" else pulumi.Output.from_input(f"rid{i}").apply(lambda x: x)
            elif mode == "get":
                kw["urn"] = f"urn:pulumi:stk::proj::parent$got:index:T::g{i}"
            opts = pulumi.ResourceOptions(**kw)
            res[i] = KINDS[kind](name, opts, *([t] if t else []))

    env = "PULUMI_DISABLE_RESOURCE_REFERENCES"
    old = os.environ.pop(env, None)
    if case["refs"] is not None:
        os.environ[env] = case["refs"]

    def on_register(req, urn):
        if req.name in pid:
            return {"id": pid[req.name]}
        return None

    def on_invoke(req):
        return "return", {"urn": dict(req.args.items())["urn"], "id": "gid", "state": {}}

    eng = Engine(preview=preview, schedule=case["schedule"], seed=case["i"], on_register=on_register, on_invoke=on_invoke)
    try:
        result = run_program(program, eng, preview=preview)
    finally:
        os.environ.pop(env, None)
        if old is not None:
            os.environ[env] = old
    if not ctx.check(result.ok, "program-failed", lambda: f"{result!r} {decl!r}"):
        return
    accept = (case["refs"] or "").upper() not in ("1", "TRUE")
    stack = eng.register("proj-stk").req
    stack_urn = eng.urn(stack.type, stack.name)
    ctx.check(stack.type == "pulumi:pulumi:Stack" and stack.parent == "" and not stack.custom and not stack.remote, "stack", lambda: str(stack))
    for n, pkg in providers.items():
        urns[n] = eng.urn("pulumi:providers:" + pkg, n)
    reg = {}
    for e in eng.registers():
        ctx.check((e.req.name not in reg), "declared-once-registered-twice", lambda: e.req.name)
        reg[e.req.name] = e.req
    reads = {e.req.name: e.req for e in eng.by("ReadResource")}
    gets = {dict(e.req.args.items())["urn"]: e.req for e in eng.by("Invoke")}
    ctx.check(set(reg) == set(providers) | {d[1] for d in decl if d[3] == "register"}, "registrations", lambda: f"{sorted(reg)} for {decl!r}")
    ctx.check(set(reads) == {d[1] for d in decl if d[3] == "read"}, "reads", lambda: f"{sorted(reads)} for {decl!r}")
    actual = {}
    for i, (kind, name, t, mode, form, parent, o) in enumerate(decl):
        ctx.evaluated()
        typ = t if t and kind != "prov" else "pulumi:providers:" + t if kind == "prov" else {
            "translated": "test:index:Translated", "typed": "test:index/typed:Typed", "remote": "test:index:Remote",
            "typedremote": "test:index:TypedRemote", "local": "test:index:Local"}.get(kind, "test:index:Untyped")
        purn = stack_urn if parent is None else actual[parent]
        what = f"{kind} {name} {mode} {typ} parent={parent} {o!r}"
        if mode == "get":
            u = f"urn:pulumi:stk::proj::parent$got:index:T::g{i}"
            actual[i] = u
            req = gets.get(u)
            ctx.count("gets")
            ctx.check(req is not None and req.tok == "pulumi:pulumi:getResource" and len(req.args.fields) == 1, "get-request", lambda: f"{what}: {req}")
            continue
        actual[i] = eng.urn(typ, name, purn)
        req = reg.get(name) if mode == "register" else reads.get(name)
        if req is None:
            continue
        ctx.count("options_set", len(o))
        tr = {"translated": camel, "typed": lambda p: TYPED.get(p, p), "typedremote": lambda p: TYPED.get(p, p)}.get(kind, lambda p: p)
        tro = {"typed": lambda p: TYPED_OUT.get(p, p), "typedremote": lambda p: p}.get(kind, tr)
        custom = kind in ("untyped", "translated", "typed", "prov")
        ref = lambda p: f"{urns[p]}::{pid[p] or UNKNOWN}"
        pkg = typ.split(":")[0] if typ.count(":") == 2 else None
        eff = o.get("provider") or next((p for p in o.get("providers", []) if providers[p] == pkg), None)
        if eff is None and parent is not None:  # inherited (decided by C16)
            eff = Ellipsis
        want = {"type": typ, "name": name, "parent": purn, "acceptSecrets": True, "acceptResources": accept, "version": o.get("version") or "",
                "pluginDownloadURL": o.get("plugin_download_url") or "",
                "additionalSecretOutputs": [tro(p) for p in o.get("additional_secret_outputs", [])]}
        if eff is not Ellipsis:
            want["provider"] = ref(eff) if eff and custom else ""
        if mode == "register":
            ctx.count("registrations")
            ct = dict(o["custom_timeouts"][1]) if "custom_timeouts" in o else None
            want.update({"custom": custom, "remote": kind in ("remote", "typedremote"),
                         "deleteBeforeReplace": o.get("delete_before_replace", False),
                         "deleteBeforeReplaceDefined": "delete_before_replace" in o,
                         "ignoreChanges": [tr(p) for p in o.get("ignore_changes", [])],
                         "replaceOnChanges": [tr(p) for p in o.get("replace_on_changes", [])], "importId": o.get("import_", ""),
                         "retainOnDelete": o.get("retain_on_delete", False), "supportsPartialValues": True,
                         "aliases": [], "dependencies": []})
            if "protect" in o or parent is None:
                want["protect"] = o.get("protect", False)
            if parent is None:
                want["providers"] = {} if kind not in ("remote", "typedremote") else {
                    providers[p]: ref(p) for p in o.get("providers", []) + ([o["provider"]] if "provider" in o else [])}
            got_ct = {k: getattr(req.customTimeouts, k) for k in ("create", "update", "delete") if getattr(req.customTimeouts, k)}
            ctx.check(req.HasField("customTimeouts") == (ct is not None) and got_ct == (ct or {}), "custom-timeouts", lambda: f"{what}: {req.customTimeouts}")
        else:
            ctx.count("reads")
            want["id"] = f"rid{i}"
        for k, v in want.items():
            g = getattr(req, k)
            g = dict(g) if isinstance(v, dict) else list(g) if isinstance(v, list) else g
            ctx.check(g == v, "request-" + k, lambda: f"{what}: {k} is {g!r} instead of {v!r}")
        ctx.sig(f"{kind} {mode} {sorted(o)}")
        if o:
            ctx.sample({"declared": what, "request": str(req)[:700]})
