"""C29: configuration, outputs, history, stacks, plugins and deployments pass through the Automation API unchanged."""
import json
import os
import shutil
from datetime import datetime, timedelta

from pulumi import automation as auto

from pv import clisim

RULE = ("One case = 14 random calls of the Automation API on up to three stacks of one workspace over a simulated CLI that keeps its own state: configuration (set, set-all, get, get-all, rm, rm-all, refresh), "
        "stacks (create, select, create_or_select, remove, list, current), outputs, history, info, plugins, export and import, user; each result and the CLI's final state are compared with a model; "
        "distinct by the sequence of calls, non-trivial if a call reads what an earlier one has written.")
ASSUMPTIONS = ["the simulated CLI answers in the format of the real one", "[secret] as the whole value of an output means that it's secret", "arguments hold no NUL character"]
CASE_TIMEOUT = 120
VALUES = ["", "plain", "-v", "--", "--secret", "a=b", "=", "ünï ©", "multi\nline\n", " spaced ", "{\"json\": [1]}", "[secret]x", "'q' \"d\"", "$X", "null", "1.50", "y" * 3000, "\u2028\\n"]
KEYS = ["a", "proj:a", "b", "other:a", "nested.key", "lst[0]", "ü", "has space"]
CALLS = ["set", "set", "set", "set_all", "set_all", "get", "get", "get_all", "get_all", "rm", "rm_all", "refresh", "create", "select", "create_or_select", "remove", "remove", "list", "current", "outputs", "outputs", "history",
         "history", "info", "install", "install", "rm_plugin", "plugins", "plugins", "export", "import", "import", "whoami", "do_history", "do_history", "do_outputs", "do_outputs", "do_stack", "do_plugins"]


def plan(tier, seed):
    return [{"i": i} for i in range(260 if tier == "quick" else 3500)]


def minimum(tier):
    return {"calls": 900, "set": 60, "set_all": 40, "get": 40, "get_all": 50, "rm": 20, "create": 10, "select": 10, "create_or_select": 20, "list": 15, "outputs": 40, "history": 40, "plugins": 40, "export": 10, "import": 30,
            "secrets": 60, "expected_errors": 30, "falsy_outputs": 10, "in_progress": 15, "hidden": 3, "long_histories": 4, "none_current": 6, "hidden_info": 2}


def full(k):
    return k if ":" in k else "proj:" + k


def jv(r, depth=2):
    k = r.choice(["s", "s", "n", "b", "none", "l", "o"] if depth else ["s", "n", "b", "none"])
    if k == "l":
        return [jv(r, depth - 1) for _ in range(r.choice([0, 1, 3]))]
    if k == "o":
        return {x: jv(r, depth - 1) for x in r.sample(["a", "b_c", "é", "", "value", "secret"], r.choice([0, 1, 2]))}
    return {"s": r.choice(VALUES), "n": r.choice([0, -1.5, 7, 1e21]), "b": r.choice([True, False]), "none": None}[k]


def stamp(r):
    t = datetime(2022, 1, 1) + timedelta(seconds=r.randrange(10**7), milliseconds=r.randrange(1000))
    return t.strftime("%Y-%m-%dT%H:%M:%S.") + f"{t.microsecond // 1000:03d}Z", t


def run(case, ctx):
    r = ctx.rng()
    base = os.path.join(ctx.tmp, "c29")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(os.path.join(base, "work"))
    d = os.path.join(base, "cli")
    clisim.install(os.path.join(ctx.tmp, "bin"))
    version = r.choice(["v3.39.3", "3.100.0", "v3.40.1-alpha.1+dirty"])
    clisim.write(d, clisim.initial(version=version, user=r.choice(["someone", "ünï", "a b"])))
    old = os.environ.get("PV_CLI")
    os.environ["PV_CLI"] = d
    try:
        Case(r, ctx, d, base, version).run()
    finally:
        if old is None:
            del os.environ["PV_CLI"]
        else:
            os.environ["PV_CLI"] = old


class Case:
    def __init__(self, r, ctx, d, base, version):
        self.r, self.ctx, self.d = r, ctx, d
        self.ws = auto.LocalWorkspace(work_dir=os.path.join(base, "work"))
        ctx.check(self.ws.pulumi_version == version.lstrip("v"), "version", lambda: f"{self.ws.pulumi_version} instead of {version}")
        self.m = {}
        self.current = None
        self.names = ["dev", "org/proj/prod", "ü-1"]
        self.trace = []
        self.handles = {}

    def run(self):
        names = []
        self.call("create")
        for _ in range(14):
            c = self.r.choice(CALLS)
            names.append(c)
            self.call(c)
        self.ctx.sig(",".join(names))
        # What arrived at the CLI.
        st = clisim.read(self.d)
        got = {n: s["config"] for n, s in st["stacks"].items()}
        want = {n: {k: {"value": v, "secret": x} for k, (v, x) in s["config"].items()} for n, s in self.m.items()}
        self.ctx.check(got == want, "state", lambda: f"the stacks' configuration is {got} instead of {want}; {self.trace}"[:2500])
        self.ctx.check(st["current"] == self.current, "state", lambda: f"the current stack is {st['current']} instead of {self.current}; {self.trace}"[:2500])

    def call(self, c):
        r, ctx = self.r, self.ctx
        if c in ("create", "select", "create_or_select", "remove", "remove", "list", "current", "whoami", "install", "rm_plugin", "plugins", "do_plugins"):
            getattr(self, "c_" + c)()
        else:
            if not self.m:
                return
            n = r.choice(list(self.m))
            getattr(self, "c_" + c)(n, r.choice([(self.ws, (n,)), (self.handles.get(n) or self.ws, () if self.handles.get(n) else (n,))]))
        ctx.count("calls")
        ctx.evaluated()
        ctx.count(c)

    def expect(self, what, ok, fn, err=auto.CommandError):
        """Calls fn, which has to fail exactly unless ok."""
        self.trace.append(what)
        try:
            res = fn()
        except Exception as exn:  # pylint: disable=broad-except
            self.ctx.count("expected_errors", not ok)
            self.ctx.check(not ok and isinstance(exn, err), "raised", lambda: f"{what} raised {exn!r}; {self.trace}"[:2500])
            return None
        self.ctx.check(ok, "not-raised", lambda: f"{what} returned {res!r}; {self.trace}"[:2500])
        return res

    def same(self, kind, what, got, want):
        self.ctx.check(got == want and repr(got) == repr(want), kind, lambda: f"{what}: {got!r} instead of {want!r}; {self.trace}"[:2500])

    # Stacks.
    def new(self):
        return {"config": {}, "outputs": {}, "history": [], "deployment": {"version": 3, "deployment": {}}, "meta": {}}

    def c_create(self):
        n = self.r.choice(self.names)
        h = self.expect(f"create {n}", n not in self.m, lambda: self.r.choice([auto.Stack.create])(n, self.ws), auto.StackAlreadyExistsError)
        if n not in self.m:
            self.m[n], self.current, self.handles[n] = self.new(), n, h

    def c_select(self):
        n = self.r.choice(self.names)
        h = self.expect(f"select {n}", n in self.m, lambda: auto.Stack.select(n, self.ws), auto.StackNotFoundError)
        if n in self.m:
            self.current, self.handles[n] = n, h

    def c_create_or_select(self):
        n = self.r.choice(self.names)
        broken = self.r.random() < 0.25
        if broken:
            clisim.change(self.d, lambda s: s["faults"].update({"stack init": {"stderr": "error: denied\n", "code": 255}}))
        h = self.expect(f"create_or_select {n} broken={broken}", not broken, lambda: auto.Stack.create_or_select(n, self.ws))
        clisim.change(self.d, lambda s: s["faults"].clear())
        if not broken:
            self.m.setdefault(n, self.new())
            self.current, self.handles[n] = n, h

    def c_remove(self):
        n = self.r.choice(self.names)
        if len(self.m) > 1 and self.current and self.r.random() < 0.7:
            n = self.current
        elif self.r.random() < 0.5:
            return
        self.expect(f"remove {n}", n in self.m, lambda: self.ws.remove_stack(n), auto.StackNotFoundError)
        if n in self.m:
            del self.m[n]
            self.handles.pop(n, None)
            self.current = None if self.current == n else self.current
            self.c_current()
            self.c_list()

    def c_do_stack(self, n, _):
        meta = {}
        text, t = stamp(self.r)
        st = {}
        if self.r.random() < 0.6:
            st["lastUpdate"], meta["last_update"] = text, t
        if self.r.random() < 0.6:
            st["resourceCount"] = meta["resource_count"] = self.r.choice([0, 1, 12])
        if self.r.random() < 0.6:
            st["url"] = meta["url"] = self.r.choice(["", "https://app/ü?x=1"])
        st["updating"] = meta["update_in_progress"] = self.r.choice([True, False])
        self.m[n]["meta"] = meta

        def fn(s):
            for k in ("lastUpdate", "resourceCount", "url", "updating"):
                s["stacks"][n].pop(k, None)
            s["stacks"][n].update(st)

        clisim.change(self.d, fn)

    def summary(self, x):
        return (x.name, x.current, bool(x.update_in_progress), x.last_update, x.resource_count, x.url)

    def want(self, n):
        m = self.m[n]["meta"]
        return (n, n == self.current, m.get("update_in_progress", False), m.get("last_update"), m.get("resource_count"), m.get("url"))

    def c_list(self):
        res = self.expect("list", True, self.ws.list_stacks)
        self.same("stacks", "list_stacks", [self.summary(x) for x in res or []], [self.want(n) for n in self.m])

    def c_current(self):
        self.ctx.count("none_current", bool(self.m) and not self.current)
        res = self.expect("stack", True, self.ws.stack)
        self.same("stacks", "stack", res and self.summary(res), self.want(self.current) if self.current else None)

    def c_whoami(self):
        res = self.expect("who_am_i", True, self.ws.who_am_i)
        self.same("user", "who_am_i", res and res.user, clisim.read(self.d)["user"])

    # Configuration.
    def c_set(self, n, h):
        o, a = h
        k, v, s = self.r.choice(KEYS), self.r.choice(VALUES), self.r.random() < 0.4
        self.expect(f"set_config {n} {k} {v!r} {s}", True, lambda: o.set_config(*a, k, auto.ConfigValue(value=v, secret=s)))
        self.m[n]["config"][full(k)] = (v, s)

    def c_set_all(self, n, h):
        o, a = h
        # Keys with the same full name would be ambiguous.
        ks = self.r.sample([k for k in KEYS if k != "proj:a"], self.r.choice([0, 1, 2, 4]))
        conf = {k: auto.ConfigValue(value=self.r.choice(VALUES), secret=self.r.random() < 0.4) for k in ks}
        self.expect(f"set_all_config {n} {({k: (v.value, v.secret) for k, v in conf.items()})}", True, lambda: o.set_all_config(*a, conf))
        for k, v in conf.items():
            self.m[n]["config"][full(k)] = (v.value, v.secret)

    def c_get(self, n, h):
        o, a = h
        conf = self.m[n]["config"]
        k = self.r.choice(list(conf)) if conf and self.r.random() < 0.8 else self.r.choice(KEYS)
        res = self.expect(f"get_config {n} {k}", full(k) in conf, lambda: o.get_config(*a, k))
        if res:
            self.ctx.count("secrets", res.secret)
            self.same("config", f"get_config({n}, {k})", (res.value, res.secret), conf[full(k)])

    def c_get_all(self, n, h):
        o, a = h
        res = self.expect(f"get_all_config {n}", True, lambda: o.get_all_config(*a))
        conf = self.m[n]["config"]
        self.ctx.count("secrets", sum(s for _, s in conf.values()))
        self.same("config", f"get_all_config({n})", sorted((k, v.value, v.secret) for k, v in (res or {}).items()), sorted((k, *v) for k, v in conf.items()))

        for k, v in (res or {}).items():
            self.ctx.check(not v.secret or repr(v) == "[secret]", "repr", lambda: f"{k}: {v!r}")

    def c_rm(self, n, h):
        o, a = h
        k = self.r.choice(KEYS)
        self.expect(f"remove_config {n} {k}", True, lambda: o.remove_config(*a, k))
        self.m[n]["config"].pop(full(k), None)

    def c_rm_all(self, n, h):
        o, a = h
        ks = self.r.sample(KEYS, self.r.choice([1, 2, 3]))
        self.expect(f"remove_all_config {n} {ks}", True, lambda: o.remove_all_config(*a, list(ks)))
        for k in ks:
            self.m[n]["config"].pop(full(k), None)

    def c_refresh(self, n, h):
        o, a = h
        hist = self.m[n]["history"]
        self.expect(f"refresh_config {n}", bool(hist), lambda: o.refresh_config(*a))
        if hist:
            self.m[n]["config"] = {k: (v["value"], v["secret"]) for k, v in hist[0]["config"].items()}

    # Outputs.
    def c_do_outputs(self, n, _):
        outs = {k: {"value": jv(self.r), "secret": self.r.random() < 0.4} for k in self.r.sample(["a", "b_c", "é", "url", "secret"], self.r.choice([0, 1, 3]))}
        self.m[n]["outputs"] = outs
        clisim.change(self.d, lambda s: s["stacks"][n].update(outputs=outs))
        self.c_outputs(n, self.r.choice([(self.ws, (n,)), (self.handle(n), ())]))

    def c_outputs(self, n, h):
        o, a = h
        if not a:
            res = self.expect(f"outputs {n}", True, o.outputs)
        else:
            res = self.expect(f"stack_outputs {n}", True, lambda: o.stack_outputs(n))
        want = {k: (v["value"], v["secret"]) for k, v in self.m[n]["outputs"].items()}
        self.ctx.count("falsy_outputs", sum(not v for v, _ in want.values()))
        self.ctx.count("secrets", sum(s for _, s in want.values()))
        self.same("outputs", f"outputs of {n}", {k: (v.value, v.secret) for k, v in (res or {}).items()}, want)
        for k, v in (res or {}).items():
            self.ctx.check(not v.secret or repr(v) == "[secret]", "repr", lambda: f"{k}: {v!r}")

    # History.
    def c_do_history(self, n, _):
        def entry(i):
            e = {"kind": self.r.choice(["update", "preview", "refresh", "destroy"]), "startTime": stamp(self.r)[0], "message": self.r.choice(VALUES), "environment": {"a.b": self.r.choice(VALUES)},
                 "config": {k: {"value": self.r.choice(VALUES), "secret": self.r.random() < 0.4} for k in self.r.sample(["p:a", "p:b", "é:x"], self.r.choice([0, 1, 2, 3]))},
                 "result": self.r.choice(["succeeded", "failed", "in-progress"])}
            if self.r.random() < 0.7:
                e["endTime"] = stamp(self.r)[0]
            if self.r.random() < 0.7:
                e["version"] = self.r.choice([0, i])
            if self.r.random() < 0.7:
                e["resourceChanges"] = self.r.choice([{}, {"create": 1, "same": 0}])
            if self.r.random() < 0.3:
                e["Deployment"] = "xyz"
            return e

        hist = [entry(i) for i in range(self.r.choice([0, 1, 3, 5, 8, 10, 11, 25]))]
        self.m[n]["history"] = hist
        clisim.change(self.d, lambda s: s["stacks"][n].update(history=hist))
        self.c_history(n, None)
        self.c_info(n, None)

    def entry(self, e, show):
        f = "%Y-%m-%dT%H:%M:%S.%fZ"
        return (e["kind"], datetime.strptime(e["startTime"], f), e["message"], e["environment"], e["result"], datetime.strptime(e["endTime"], f) if "endTime" in e else None, e.get("version"),
                e.get("resourceChanges"), e.get("Deployment"), sorted((k, v["value"] if show or not v["secret"] else "[secret]", v["secret"]) for k, v in e["config"].items()))

    def actual(self, u):
        return (u.kind, u.start_time, u.message, u.environment, u.result, u.end_time, u.version, u.resource_changes, u.Deployment, sorted((k, v.value, v.secret) for k, v in u.config.items()))

    def handle(self, n):
        if n not in self.handles:
            self.handles[n] = auto.Stack.select(n, self.ws)
            self.current = n
        return self.handles[n]

    def c_history(self, n, _):
        kw = {}
        hist = self.m[n]["history"]
        show = self.r.choice([None, True, False])
        if show is not None:
            kw["show_secrets"] = show
        want = hist
        if self.r.random() < 0.5:
            size = kw["page_size"] = self.r.choice([1, 2, 10, 10, 20, 0])
            page = self.r.choice([None, 1, 2])
            if page:
                kw["page"] = page
            want = hist[((page or 1) - 1) * size:(page or 1) * size] if size else hist
        self.ctx.count("long_histories", not kw.get("page_size") and len(want) > 10)
        st = self.handle(n)
        res = self.expect(f"history {n} {kw}", True, lambda: st.history(**kw))
        self.ctx.count("in_progress", sum("endTime" not in e for e in want))
        self.ctx.count("hidden", show is False and any(v["secret"] for e in want for v in e["config"].values()))
        self.same("history", f"history({n}, {kw})", [self.actual(u) for u in res or []], [self.entry(e, show is not False) for e in want])

    def c_info(self, n, _):
        show = self.r.choice([None, True, False])
        kw = {} if show is None else {"show_secrets": show}
        hist = self.m[n]["history"]
        st = self.handle(n)
        self.ctx.count("hidden_info", show is False and any(v["secret"] for e in hist[:1] for v in e["config"].values()))
        res = self.expect(f"info {n} {kw}", True, lambda: st.info(**kw))
        self.same("history", f"info({n}, {kw})", res and self.actual(res), self.entry(hist[0], show is not False) if hist else None)

    # Plugins.
    def c_do_plugins(self):
        def plugin():
            p = {"name": self.r.choice(["aws", "ü", "a-b"]), "kind": self.r.choice(["resource", "analyzer"]), "size": self.r.choice([0, 12345678901])}
            if self.r.random() < 0.7:
                p["version"] = self.r.choice(["1.0.0", "2.0.0"])
            if self.r.random() < 0.6:
                p["installTime"] = stamp(self.r)[0]
            if self.r.random() < 0.6:
                p["lastUsedTime"] = stamp(self.r)[0]
            return p

        ps = [plugin() for _ in range(self.r.choice([1, 2, 4]))]
        clisim.change(self.d, lambda s: s.update(plugins=ps))
        self.trace.append("plugins set")

    def plugs(self):
        return clisim.read(self.d)["plugins"]

    def c_install(self):
        before = self.plugs()
        name, ver = self.r.choice(["aws", "ü", "a-b"]), self.r.choice(["1.0.0", "v2.0.0"])
        kind = self.r.choice([None, "resource", "analyzer"])
        self.expect(f"install {name} {ver} {kind}", True, lambda: self.ws.install_plugin(name, ver, **({"kind": kind} if kind else {})))
        self.same("plugins", "installed", self.plugs(), before + [{"name": name, "kind": kind or "resource", "version": ver, "size": 0}])

    def c_rm_plugin(self):
        before = self.plugs()
        kind = self.r.choice([None, "resource", "analyzer"])
        name = self.r.choice([None, "aws", "ü"])
        ver = self.r.choice([None, "1.0.0"]) if name else None
        kw = {k: v for k, v in (("name", name), ("version_range", ver), ("kind", kind)) if v}
        self.expect(f"remove_plugin {kw}", True, lambda: self.ws.remove_plugin(**kw))
        want = [p for p in before if not (p["kind"] == (kind or "resource") and name in (None, p["name"]) and ver in (None, p.get("version")))]
        self.same("plugins", f"remaining after remove_plugin({kw})", self.plugs(), want)

    def c_plugins(self):
        res = self.expect("list_plugins", True, self.ws.list_plugins)
        f = "%Y-%m-%dT%H:%M:%S.%fZ"
        t = lambda p, k: datetime.strptime(p[k], f) if k in p else None  # noqa: E731
        self.same("plugins", "list_plugins", [(p.name, p.kind, p.size, p.install_time, p.last_used_time, p.version) for p in res or []],
                  [(p["name"], p["kind"], p["size"], t(p, "installTime"), t(p, "lastUsedTime"), p.get("version")) for p in self.plugs()])

    # Deployments.
    def c_export(self, n, h):
        o, a = h
        res = self.expect(f"export {n}", True, lambda: o.export_stack(*a))
        self.same("deployment", f"export of {n}", res and {"version": res.version, "deployment": res.deployment}, self.m[n]["deployment"])

    def c_import(self, n, h):
        o, a = h
        dep = {"version": self.r.choice([0, 1, 3]), "deployment": self.r.choice([{"manifest": jv(self.r), "resources": [jv(self.r, 3)]}] * 4 + [{}, None])}
        self.expect(f"import {n}", True, lambda: o.import_stack(*a, auto.Deployment(**json.loads(json.dumps(dep)))))
        self.m[n]["deployment"] = dep
        self.same("deployment", f"imported into {n}", clisim.read(self.d)["stacks"][n]["deployment"], dep)
        if self.r.random() < 0.5:
            self.c_export(n, h)
