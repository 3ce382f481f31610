"""C25: what a program passes is left as it was, so that using an object again is like using an equal one."""
import json
import os
import random
import shutil

import pulumi
from google.protobuf import json_format
from pulumi import Alias, ComponentResource, CustomResource, InvokeOptions, Output, ProviderResource, ResourceOptions
from pulumi import automation as auto
from pulumi.automation._stack_settings import StackSettingsSecureConfigValue
from pulumi.dynamic import CreateResult, ResourceProvider
from pulumi.dynamic import Resource as DynResource

from pv import clisim
from pv.engine import Engine, run_program
from pv.props import Spec

RULE = ("One case = a program of 5-16 statements (resources of all kinds, components whose children share options, functions, calls, exports, registered outputs, merges) drawing options, properties, collections, "
        "aliases and transformations from a small pool, run once with the pool's objects shared and once with equal ones made for each use: the requests must be the same, and each object in the pool as it was; or stacks "
        "created and operated with shared options, compared likewise; distinct by statements and objects, non-trivial if an object is used twice.")
ASSUMPTIONS = ["transformations and callbacks of the program itself don't change what they're given"]
CASE_TIMEOUT = 60
STATEMENTS = ["custom", "custom", "typed", "component", "family", "remote", "dynamic", "read", "get", "invoke", "invoke", "call", "export", "outputs", "merge", "output"]


def plan(tier, seed):
    n = 500 if tier == "quick" else 12000
    return [{"i": i, "auto": i % 12 == 5, "preview": i % 4 == 0} for i in range(n)]


def minimum(tier):
    return {"statements": 1600, "reused": 1600, "objects": 2000, "requests": 1600, "stacks": 30, **{k: 70 for k in set(STATEMENTS)}}


class Prov(ProviderResource):
    pass


class P1(ResourceProvider):
    def create(self, props):
        return CreateResult("x", props)


class Comp(ComponentResource):
    def __init__(self, name, props=None, opts=None, kids=(), outputs=None):
        super().__init__("my:c:Comp", name, props, opts)
        for i, (kp, ko) in enumerate(kids):
            CustomResource("t:m:K", f"{name}-{i}", kp, ResourceOptions.merge(ko, ResourceOptions(parent=self)))
        if outputs is not None:
            self.register_outputs(outputs)


def mark(args):
    return pulumi.ResourceTransformationResult(props={**args.props, "marked": args.name} if isinstance(args.props, dict) else args.props, opts=args.opts)


def seen(args):
    return None


def options(args):
    return pulumi.ResourceTransformationResult(props=args.props, opts=ResourceOptions.merge(args.opts, ResourceOptions(ignore_changes=["byTransformation"])))


SEEN_TYPES = (ResourceOptions, InvokeOptions, Alias, Spec, auto.LocalWorkspaceOptions, auto.ProjectSettings, auto.StackSettings, auto.ConfigValue, auto.Deployment, pulumi.AssetArchive, pulumi.StringAsset,
              StackSettingsSecureConfigValue, P1)


def snap(x, depth=12):
    """The structure of an object, by the identity of the leaves."""
    if depth == 0:
        return id(x)
    if isinstance(x, dict):
        return ("d", id(x), [(k if isinstance(k, str) else id(k), snap(v, depth - 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("l", id(x), [snap(v, depth - 1) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("s", id(x), sorted(id(v) for v in x))
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    if isinstance(x, SEEN_TYPES):
        return ("o", id(x), type(x).__name__, sorted((k, snap(v, depth - 1)) for k, v in vars(x).items() if k != "merge"))
    return id(x)


class Pool:
    """Objects by kind and number: the same each time if shared, else equal ones."""

    def __init__(self, seed, shared, world):
        self.seed, self.shared, self.world, self.cache, self.snaps, self.uses = seed, shared, world, {}, {}, {}

    def get(self, kind, i):
        key = (kind, i)
        self.uses[key] = self.uses.get(key, 0) + 1
        if self.shared and key in self.cache:
            return self.cache[key]
        r = random.Random(f"{self.seed} {kind} {i}")
        obj = getattr(self, "m_" + kind)(r)
        if self.shared:
            self.cache[key] = obj
            self.snaps[key] = snap(obj)
        return obj

    # Nested objects are taken from the pool as well.
    def leaf(self, r):
        k = r.choice("sssnbuoax")
        return {"s": lambda: r.choice(["", "text", "ünï"]), "n": lambda: r.choice([0, 1.5, -3]), "b": lambda: True, "u": lambda: None, "o": lambda: self.world["r0"].urn, "a": lambda: pulumi.StringAsset("x"),
                "x": lambda: Output.secret("s")}[k]()

    def value(self, r, depth=2):
        k = r.choice("lldd....") if depth else "."
        if k == "l":
            return [self.value(r, depth - 1) for _ in range(r.choice([0, 1, 3]))]
        if k == "d":
            return {x: self.value(r, depth - 1) for x in r.sample(["a", "snake_key", "camelKey", "__x", "id"], 2)}
        return self.leaf(r)

    def m_props(self, r):
        d = {k: self.value(r) for k in r.sample(["one", "two_words", "threeWords", "four", "five"], r.choice([1, 2, 4]))}
        if r.random() < 0.5:
            d["shared"] = self.get("list", r.randrange(2))
        if r.random() < 0.3:
            d["spec"] = self.get("spec", r.randrange(2))
        return d

    def m_args(self, r):
        return self.get("props", r.randrange(3)) if r.random() < 0.3 else self.m_props(r)

    def m_list(self, r):
        return [self.value(r, 1) for _ in range(r.choice([1, 2, 4]))]

    def m_spec(self, r):
        return Spec(first_prop=self.value(r, 1), nested_spec=Spec(first_prop="x") if r.random() < 0.5 else {"plain": 1}, plain=self.get("list", r.randrange(2)) if r.random() < 0.4 else None)

    def m_names(self, r):
        return r.sample(["a", "b", "c.d", "e[0]"], r.choice([1, 2]))

    def m_resources(self, r):
        return r.sample([self.world["r0"], self.world["r1"], self.world["c0"]], r.choice([1, 2]))

    def m_alias(self, r):
        return r.choice([lambda: Alias(name="old"), lambda: Alias(name="old2", parent=self.world["r0"]), lambda: Alias(type_="t:m:Old"), lambda: "urn:pulumi:stk::proj::t:m:X::y",
                         lambda: Alias(project="other", stack="s2")])()

    def m_aliases(self, r):
        return [self.get("alias", r.randrange(3)) for _ in range(r.choice([1, 2]))]

    def m_transformations(self, r):
        return r.sample([mark, seen, options], r.choice([1, 2]))

    def m_providers(self, r):
        if r.random() < 0.5:
            return {"t": self.world["pt"], "u": self.world["pu"]}
        return r.sample([self.world["pt"], self.world["pu"]], 2)

    def m_others(self, r):
        return r.choice([{"u": self.world["pu"]}, [self.world["pu"]], {}, []])

    def m_timeouts(self, r):
        return pulumi.CustomTimeouts(create="5m", delete=r.choice([None, "1h"]))

    def m_opts(self, r):
        kw = {}
        for k, p, fn in [("depends_on", 0.4, lambda: self.get("resources", r.randrange(2))), ("ignore_changes", 0.3, lambda: self.get("names", r.randrange(2))),
                         ("additional_secret_outputs", 0.2, lambda: self.get("names", r.randrange(2))), ("replace_on_changes", 0.2, lambda: self.get("names", r.randrange(2))),
                         ("aliases", 0.3, lambda: self.get("aliases", r.randrange(2))), ("transformations", 0.3, lambda: self.get("transformations", r.randrange(2))),
                         ("providers", 0.35, lambda: self.get("providers", r.randrange(2))), ("provider", 0.0, lambda: self.world["pt"]), ("custom_timeouts", 0.2, lambda: self.get("timeouts", 0)),
                         ("protect", 0.3, lambda: r.choice([True, False])), ("version", 0.2, lambda: "1.2.3"), ("parent", 0.3, lambda: r.choice([self.world["c1"], self.world["p0"]])),
                         ("delete_before_replace", 0.2, lambda: True), ("plugin_download_url", 0.2, lambda: "http://x"), ("retain_on_delete", 0.2, lambda: True)]:
            v = fn()
            if r.random() < p:
                kw[k] = v
        if r.random() < 0.3:
            kw["provider"] = self.world["pt"]
            if "providers" in kw:  # those of other packages
                kw["providers"] = self.get("others", r.randrange(2))
        return ResourceOptions(**kw)

    def m_iopts(self, r):
        return InvokeOptions(parent=r.choice([None, self.world["c1"]]), provider=r.choice([None, None, self.world["pt"]]), version=r.choice(["", "2.0.0"]), plugin_download_url=r.choice([None, "http://y"]))


def statement(k, i, pool, r):  # pylint: disable=too-many-branches
    pick = lambda kind, n: pool.get(kind, r.randrange(n))  # noqa: E731
    name = f"s{i}"
    if k == "custom":
        CustomResource("t:m:R", name, pick("props", 3), pick("opts", 3))
    elif k == "typed":
        CustomResource("t:m:R", name, pick("spec", 2), pick("opts", 3))
    elif k == "component":
        Comp(name, {}, pick("opts", 3))
    elif k == "family":
        Comp(name, {}, pick("opts", 3), [(pick("props", 3), pick("opts", 3)) for _ in range(2)], pick("props", 3))
    elif k == "remote":
        ComponentResource("t:m:Remote", name, pick("props", 3), pick("opts", 3), remote=True)
    elif k == "dynamic":
        o = pick("opts", 3)
        DynResource(P1(), name, pick("props", 3), o if not o.provider else None)
    elif k == "read":
        CustomResource("t:m:R", name, pick("props", 3), ResourceOptions.merge(pick("opts", 3), ResourceOptions(id="some")))
    elif k == "get":
        CustomResource("t:m:R", name, pick("props", 3), ResourceOptions(urn="urn:pulumi:stk::proj::t:m:R::" + name))
    elif k == "invoke":
        pulumi.runtime.invoke("t:m:fn" + str(i), pick("args", 3), pick("iopts", 2))
    elif k == "call":
        pulumi.runtime.call("t:m:R/do" + str(i), {**pick("args", 3)} if r.random() < 0.1 else pick("args", 3), pool.world["r0"])
    elif k == "export":
        pulumi.export(name, pick("props", 3))
    elif k == "outputs":
        Comp(name).register_outputs(pick("props", 3))
    elif k == "merge":
        CustomResource("t:m:R", name, pick("props", 3), ResourceOptions.merge(pick("opts", 3), pick("opts", 3)) if r.random() < 0.5 else ResourceOptions.merge(pick("opts", 3), None))
    elif k == "output":
        v = pick("props", 3)
        Output.from_input(v).apply(lambda x: x)
        pulumi.export(name, Output.all(v, pick("list", 2)))
        pulumi.export(name + "k", Output.all(**v))


def tidy(x):
    """Requests as JSON, with sets sorted."""
    if isinstance(x, dict):
        return {k: sorted(v) if k in ("dependencies", "urns") and isinstance(v, list) and all(isinstance(e, str) for e in v) else tidy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [tidy(v) for v in x]
    return x


def requests(e):
    out = []
    for ev in e.events:
        if ev.method in ("SupportsFeature", "SetRootResource", "GetRootResource", "Log"):
            continue
        d = tidy(json_format.MessageToDict(ev.req))
        if "object" in d and "__provider" in d["object"]:
            d["object"]["__provider"] = "..."
        out.append(ev.method + " " + json.dumps(d, sort_keys=True))
    return sorted(out)


def sdk_case(case, ctx):
    r = ctx.rng()
    n = r.choice([5, 8, 16])
    kinds = [r.choice(STATEMENTS) for _ in range(n)]
    seed = r.random()
    got = {}
    pools = {}

    for shared in (True, False):
        def program():
            world = {"pt": Prov("t", "pt"), "pu": Prov("u", "pu"), "r0": CustomResource("t:m:R", "r0", {"x": 1}), "r1": CustomResource("t:m:R", "r1", {}),
                     "p0": CustomResource("t:m:R", "p0", {})}
            world["c0"] = Comp("c0", {}, ResourceOptions(providers=[world["pt"]]))
            CustomResource("t:m:K", "c0-child", {}, ResourceOptions(parent=world["c0"]))
            world["c1"] = Comp("c1", {}, ResourceOptions(providers=[world["pt"]]))
            pool = pools[shared] = Pool(seed, shared, world)
            rr = random.Random(seed)
            for i, k in enumerate(kinds):
                statement(k, i, pool, rr)

        e = Engine(preview=case["preview"], seed=1,
                   on_invoke=lambda q: ("return", {"urn": dict(q.args.items())["urn"], "id": "gid", "state": {}} if q.tok == "pulumi:pulumi:getResource" else {}))
        res = run_program(program, e, preview=case["preview"])
        if not ctx.check(res.ok, "failed", lambda: f"{kinds} shared={shared} seed={seed}: {res!r} {res.tb if hasattr(res, 'tb') else ''}"[-3000:]):
            return
        got[shared] = requests(e)
    pool = pools[True]
    ctx.evaluated()
    ctx.count("statements", n)
    for k in kinds:
        ctx.count(k)
    ctx.count("requests", len(got[True]))
    ctx.count("reused", sum(v - 1 for v in pool.uses.values()))
    for key, obj in pool.cache.items():
        ctx.count("objects")
        ctx.check(snap(obj) == pool.snaps[key], "changed", lambda: f"{key} used by {kinds} is now {show(obj)}, was of structure {pool.snaps[key]}"[:3000])
    diff = [x for x in got[True] if x not in got[False]], [x for x in got[False] if x not in got[True]]
    ctx.check(got[True] == got[False], "differs", lambda: f"{kinds} seed={seed}: with shared objects: {diff[0][:2]}; with equal ones: {diff[1][:2]}"[:4000])
    ctx.sig(" ".join(kinds) + " ".join(f"{k}{i}" for k, i in pool.uses))


def show(obj):
    return f"{type(obj).__name__} {vars(obj) if hasattr(obj, '__dict__') else obj!r}"[:1500]


def nothing():
    return None


def auto_case(case, ctx):  # pylint: disable=too-many-locals
    """Stacks of inline and local programs, created and operated with the same objects."""
    r = ctx.rng()
    base = os.path.join(ctx.tmp, "c25")
    clisim.install(os.path.join(ctx.tmp, "bin"))
    seed = r.random()
    seen_files, logs, snaps = {}, {}, []

    class Objects:
        def __init__(self, shared, d):
            self.shared, self.d, self.cache = shared, d, {}

        def __call__(self, kind):
            if self.shared and kind in self.cache:
                return self.cache[kind]
            q = random.Random(f"{seed}{kind}")
            work = self.d
            obj = {
                "opts": lambda: auto.LocalWorkspaceOptions(env_vars=self("env") if q.random() < 0.9 else None, pulumi_home=os.path.join(work, "home") if q.random() < 0.5 else None,
                                                           secrets_provider=q.choice([None, "passphrase"]), project_settings=self("project") if q.random() < 0.4 else None,
                                                           stack_settings={"one": self("settings")} if q.random() < 0.5 else None),
                "env": lambda: {"A": "1", "B_C": "ü"},
                "project": lambda: auto.ProjectSettings(name="given", runtime="python", description=q.choice([None, "text"])),
                "settings": lambda: auto.StackSettings(config={"given:k": "v", "given:s": StackSettingsSecureConfigValue(secure="abc")}),
                "config": lambda: {"proj:a": auto.ConfigValue("1"), "proj:b": auto.ConfigValue("2", secret=True)},
                "keys": lambda: ["proj:a", "proj:b"],
                "targets": lambda: ["urn:a", "urn:b"], "replace": lambda: ["urn:c"], "packs": lambda: ["p1", "p2"],
                "deployment": lambda: auto.Deployment(version=3, deployment={"resources": [{"urn": "x", "n": [1, 2]}]}),
            }[kind]()
            if self.shared:
                self.cache[kind] = obj
                snaps.append((kind, obj, snap(obj)))
            return obj

    for shared in (True, False):
        d = os.path.join(base, "files")
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(d)
        cli = os.path.join(base, "cli")
        clisim.write(cli, clisim.initial())
        os.environ["PV_CLI"] = cli
        o = Objects(shared, d)
        q = random.Random(seed)
        try:
            stacks = []
            for i in range(q.choice([2, 3])):
                work = os.path.join(d, f"work{i}")
                os.makedirs(work)
                if q.random() < 0.5:
                    with open(os.path.join(work, "Pulumi.yaml"), "w", encoding="utf-8") as f:
                        f.write(f"name: local{i}\nruntime: python\n")
                    if q.random() < 0.5:
                        args = {"work_dir": work}
                    else:
                        args = {"project_name": f"proj{i}", "program": nothing}
                else:
                    args = {"project_name": f"proj{i}", "program": nothing}
                fn = q.choice([auto.create_stack, auto.create_or_select_stack])
                opts = o("opts")
                if args.get("work_dir") and opts.project_settings is not None and q.random() < 0.5:
                    args = {"project_name": f"proj{i}", "program": nothing}
                st = fn(f"s{i}", opts=opts, **args)
                stacks.append(st)
                ctx.count("stacks")
                seen_files[(shared, i, "name")] = st.workspace.project_settings().name
                seen_files[(shared, i, "program")] = st.workspace.program is not None
                seen_files[(shared, i, "dir")] = st.workspace.work_dir == work
            for i in range(4):
                st = q.choice(stacks)
                what = q.choice(["set", "rm", "up", "destroy", "import", "refresh"])
                if what == "set":
                    st.set_all_config(o("config"))
                elif what == "rm":
                    st.remove_all_config(o("keys"))
                elif what == "import":
                    st.import_stack(o("deployment"))
                else:
                    clisim.change(cli, lambda s: s["ops"].append({"stack": st.name, "actions": [], "history": {
                        "kind": "update", "startTime": "2022-01-01T00:00:00.000Z", "message": "", "environment": {}, "config": {}, "result": "succeeded"}}))
                    kw = {"target": o("targets")} if q.random() < 0.7 else {}
                    if what == "up":
                        kw.update(replace=o("replace"), policy_packs=o("packs"))
                    getattr(st, what)(**kw)
        finally:
            os.environ.pop("PV_CLI", None)
        recs = []
        for x in clisim.log(cli):
            fl = {k: v for k, v in x.get("flags", {}).items() if k not in ("--client", "--file")}
            recs.append((x.get("cmd"), x.get("args"), fl, x.get("file"), {k: v for k, v in x["env"].items() if k in ("A", "B_C", "PULUMI_HOME")}))
        logs[shared] = recs
    ctx.evaluated()
    for kind, obj, was in snaps:
        ctx.count("objects")
        ctx.check(snap(obj) == was, "changed", lambda: f"{kind} is now {show(obj)}, was of structure {was}"[:3000])
    a = {k[1:]: v for k, v in seen_files.items() if k[0]}
    b = {k[1:]: v for k, v in seen_files.items() if not k[0]}
    ctx.check(a == b, "workspaces", lambda: f"with shared options: {a}; with equal ones: {b}")
    ctx.check(logs[True] == logs[False], "commands", lambda: f"with shared objects: {logs[True]}; with equal ones: {logs[False]}"[:4000])
    shutil.rmtree(base, ignore_errors=True)
    ctx.sig("auto " + " ".join(k for k, _, _ in snaps) + str([x[0] for x in logs[True]]))


def run(case, ctx):
    if case["auto"]:
        auto_case(case, ctx)
    else:
        sdk_case(case, ctx)
