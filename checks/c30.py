"""C30: project and stack settings survive being saved and loaded."""
import json
import os
import shutil

import yaml
from pulumi import automation as auto
from pulumi.automation._project_settings import ProjectTemplate, ProjectTemplateConfigValue
from pulumi.automation._stack_settings import StackSettingsSecureConfigValue

from pv import clisim

RULE = ("One case = a workspace whose directory may hold settings files of some format, and 5 random operations: saving or loading project and stack settings, creating a workspace or stack with settings; the "
        "files' contents (parsed independently) and what's loaded are compared with a model; distinct by the settings' shape, non-trivial if nested or ambiguous values occur.")
ASSUMPTIONS = ["keys that the settings classes don't know aren't in the files", "options that are None count as not given", "a config value that is a dict with only the key 'secure' is a secret"]
CASE_TIMEOUT = 60
STRINGS = ["plain", "yes", "1.0", "null", "~", "2022-01-01", "a: b", "# c", "multi\nline\n", " lead", "trail ", "ünï \u2028 😀", "'q'", "\"d\"", "[x]", "{y}", "*a", "&a", "!!str x", "%", "@", "0o7", "1_000", "12:30:45", "tab\t",
           "- x", "x" * 200, "\\n", "=", "<<", "é: ü"]
CLASSES = (auto.ProjectSettings, auto.ProjectRuntimeInfo, ProjectTemplate, ProjectTemplateConfigValue, auto.ProjectBackend)


def plan(tier, seed):
    return [{"i": i} for i in range(960 if tier == "quick" else 20000)]


def minimum(tier):
    return {"projects_saved": 250, "stacks_saved": 250, "projects_loaded": 800, "stacks_loaded": 500, "json": 200, "yml": 200, "templates": 120, "secure": 300, "nested": 200, "missing": 60, "workspaces": 90, "inline": 60,
            "foreign": 150}


def s(r):
    return r.choice(STRINGS)


def val(r, depth=2):
    k = r.choice(["s", "s", "i", "f", "b", "d", "l", "n"] if depth else ["s", "i", "b"])
    if k == "d":
        return {x: val(r, depth - 1) for x in r.sample(["a", "b c", "1", "é", "secure", "yes"], r.choice([0, 1, 2]))}
    if k == "l":
        return [val(r, depth - 1) for _ in range(r.choice([0, 1, 3]))]
    return {"s": s(r), "i": r.choice([0, 1, -7, 10**15]), "f": r.choice([0.5, -1.25, 1e100]), "b": r.choice([True, False]), "n": None}[k]


def maybe(r, d, k, f, p=0.4):
    if r.random() < p:
        d[k] = f(r)


def project(r):
    """The plain form of a project's settings, as in the file."""
    p = {"name": s(r), "runtime": r.choice(["python", "nodejs", "go", "dotnet", {"name": "python"}, {"name": s(r), "options": {"virtualenv": s(r), "typescript": False, "n": {"a": [1, s(r)]}}}])}
    for k in ("main", "description", "author", "website", "license", "config"):
        maybe(r, p, k, s)
    if r.random() < 0.4:
        t = {}
        for k in ("description", "quickstart"):
            maybe(r, t, k, s)
        maybe(r, t, "important", lambda r: r.choice([True, False]))
        t["config"] = {}
        for k in r.sample(["aws:region", "x", "é"], r.choice([0, 1, 2])):
            c = {"secret": r.choice([True, False])}
            maybe(r, c, "description", s)
            maybe(r, c, "default", s)
            t["config"][k] = c
        p["template"] = t
    if r.random() < 0.3:
        p["backend"] = {"url": s(r)} if r.random() < 0.8 else {}
    return p


def to_project(p):
    p = dict(p)
    if isinstance(p["runtime"], dict):
        p["runtime"] = auto.ProjectRuntimeInfo(**p["runtime"])
    if "template" in p:
        t = dict(p["template"])
        t["config"] = {k: ProjectTemplateConfigValue(**v) for k, v in t["config"].items()}
        p["template"] = ProjectTemplate(**t)
    if "backend" in p:
        p["backend"] = auto.ProjectBackend(**p["backend"])
    return auto.ProjectSettings(**p)


def stack(r):
    d = {}
    for k in ("secretsprovider", "encryptedkey", "encryptionsalt"):
        maybe(r, d, k, s)
    if r.random() < 0.75:
        c = {}
        for k in r.sample(["proj:a", "proj:b", "aws:region", "é:x", "p:yes", "p:1"], r.choice([0, 1, 2, 4])):
            c[k] = r.choice([lambda: {"secure": s(r)}, lambda: val(r), lambda: val(r), lambda: s(r)])()
        d["config"] = c
    return d


def secure(v):
    return isinstance(v, dict) and set(v) == {"secure"}


def to_stack(d):
    c = d.get("config")
    if c is not None:
        c = {k: StackSettingsSecureConfigValue(**v) if secure(v) and isinstance(v["secure"], str) else v for k, v in c.items()}
    return auto.StackSettings(d.get("secretsprovider"), d.get("encryptedkey"), d.get("encryptionsalt"), c)


def dump_project(o):
    """The plain form of settings objects, None left out, with classes checked."""
    if isinstance(o, CLASSES):
        return {"!": type(o).__name__, **{k: dump_project(v) for k, v in vars(o).items() if v is not None}}
    if isinstance(o, dict):
        return {k: dump_project(v) for k, v in o.items()}
    return o


def dump_stack(o):
    c = o.config
    # No configuration is the same as an empty one.
    return (o.secrets_provider, o.encrypted_key, o.encryption_salt, None if not c else {k: ("secure", v.secure) if isinstance(v, StackSettingsSecureConfigValue) else v for k, v in c.items()})


def typed(x):
    """Tells 1, 1.0 and True apart."""
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [typed(v) for v in x]
    return (type(x).__name__, x)


def fits(d):
    """Secure values must be strings, also when nested in what the generator makes."""
    for k, v in list((d.get("config") or {}).items()):
        if secure(v) and not isinstance(v["secure"], str):
            d["config"][k] = "x"
    return d


class Case:
    def __init__(self, r, ctx):
        self.r, self.ctx = r, ctx
        base = os.path.join(ctx.tmp, "c30")
        shutil.rmtree(base, ignore_errors=True)
        self.dir = os.path.join(base, "wörk")
        os.makedirs(self.dir)
        self.d = os.path.join(base, "cli")
        clisim.install(os.path.join(ctx.tmp, "bin"))
        clisim.write(self.d, clisim.initial())
        self.files, self.model, self.trace = {}, {}, []

    def path(self, stem):
        for ext in (".yaml", ".yml", ".json"):
            p = os.path.join(self.dir, stem + ext)
            if os.path.exists(p):
                return p
        return None

    def foreign(self, stem, plain):
        """A file that someone else wrote."""
        r = self.r
        old = self.path(stem)
        ext = os.path.splitext(old)[1] if old else r.choice([".yaml", ".yml", ".json"])
        self.ctx.count("foreign")
        self.ctx.count(ext[1:])
        with open(os.path.join(self.dir, stem + ext), "w", encoding="utf-8") as f:
            if ext == ".json":
                json.dump(plain, f, ensure_ascii=r.choice([True, False]))
            elif not plain:
                f.write(r.choice(["", "{}\n", "# nothing\n"]))
            else:
                yaml.safe_dump(plain, f, allow_unicode=r.choice([True, False]), default_flow_style=r.choice([True, False]), sort_keys=r.choice([True, False]))
        self.model[stem] = plain
        self.trace.append(f"file {stem}{ext}")

    def saved(self, stem, plain, before):
        p = self.path(stem)
        if not self.ctx.check(p is not None, "file", lambda: f"no file for {stem} in {os.listdir(self.dir)}; {self.trace}"):
            return
        self.ctx.check(before is None or p == before, "file", lambda: f"{stem} was in {before}, now in {p}")
        self.ctx.check(sum(os.path.exists(os.path.join(self.dir, stem + e)) for e in (".yaml", ".yml", ".json")) == 1, "file", lambda: f"{stem}: {os.listdir(self.dir)}")
        self.ctx.count(os.path.splitext(p)[1][1:])
        with open(p, encoding="utf-8") as f:
            text = f.read()
        try:
            got = json.loads(text) if p.endswith(".json") else yaml.safe_load(text)
        except (ValueError, yaml.YAMLError) as exn:
            self.ctx.violation("unreadable", f"{p}: {exn}: {text[:500]}; {self.trace}")
            return
        got, want = ({k: v for k, v in (x or {}).items() if k != "config" or v} for x in (got, plain))
        self.ctx.check(typed(got) == typed(want), "content", lambda: f"{p} holds {got} instead of {plain}; {self.trace}"[:2500])
        self.model[stem] = plain

    def run(self):
        r, ctx = self.r, self.ctx
        stems = {"dev": "Pulumi.dev", "org/proj/dev": "Pulumi.dev", "ü-2": "Pulumi.ü-2", "a.b": "Pulumi.a.b"}
        ws = auto.LocalWorkspace(work_dir=self.dir)
        for _ in range(5):
            k = r.choice(["foreign_project"] * 2 + ["foreign_stack"] * 3 if not self.model else ["foreign_project", "foreign_stack", "save_project", "save_project", "save_stack", "save_stack", "workspace", "inline", "edit_project", "edit_stack"])
            name = r.choice(list(stems))
            stem = stems[name]
            p, st = project(r), fits(stack(r))
            self.trace.append(k + " " + name)
            ctx.count("templates", "template" in p)
            ctx.count("secure", sum(secure(v) for v in (st.get("config") or {}).values()))
            ctx.count("nested", sum(isinstance(v, (dict, list)) and not secure(v) for v in (st.get("config") or {}).values()))
            ctx.sig(str(sorted(p)) + str(sorted(map(str, map(type, (st.get("config") or {}).values())))))
            if k == "foreign_project":
                self.foreign("Pulumi", p)
            elif k == "foreign_stack":
                self.foreign(stem, st)
            elif k == "save_project":
                before = self.path("Pulumi")
                obj = to_project(p)
                ws.save_project_settings(obj)
                ctx.count("projects_saved")
                self.saved("Pulumi", p, before)
                ctx.check(typed(dump_project(obj)) == typed(dump_project(to_project(p))), "changed", lambda: f"saving changed {p}")
            elif k == "save_stack":
                before = self.path(stem)
                obj = to_stack(st)
                ws.save_stack_settings(name, obj)
                ctx.count("stacks_saved")
                self.saved(stem, st, before)
                ctx.check(typed(dump_stack(obj)) == typed(dump_stack(to_stack(st))), "changed", lambda: f"saving changed {st}")
            elif k == "edit_project" and "Pulumi" in self.model:
                before = self.path("Pulumi")
                obj = ws.project_settings()
                obj.description = "edited"
                ws.save_project_settings(obj)
                ctx.count("projects_saved")
                self.saved("Pulumi", {**self.model["Pulumi"], "description": "edited"}, before)
            elif k == "edit_stack" and stem in self.model:
                before = self.path(stem)
                obj = ws.stack_settings(name)
                obj.config = {**(obj.config or {}), "new:key": "yes"}
                ws.save_stack_settings(name, obj)
                ctx.count("stacks_saved")
                m = self.model[stem]
                self.saved(stem, {**m, "config": {**(m.get("config") or {}), "new:key": "yes"}}, before)
            elif k == "workspace":
                before = {x: self.path(x) for x in ("Pulumi", stem)}
                kw = {}
                if r.random() < 0.7:
                    kw["project_settings"] = to_project(p)
                if r.random() < 0.7:
                    kw["stack_settings"] = {name: to_stack(st)}
                auto.LocalWorkspace(work_dir=self.dir, **kw)
                ctx.count("workspaces")
                if "project_settings" in kw:
                    self.saved("Pulumi", p, before["Pulumi"])
                if "stack_settings" in kw:
                    self.saved(stem, st, before[stem])
            elif k == "inline":
                before = self.path("Pulumi")
                given = r.random() < 0.4
                opts = auto.LocalWorkspaceOptions(work_dir=self.dir, project_settings=to_project(p) if given else None)
                auto.create_or_select_stack("dev", project_name="the-proj", program=lambda: None, opts=opts)
                ctx.count("inline")
                if given:
                    self.saved("Pulumi", p, before)
                elif before is None:
                    self.saved("Pulumi", {"name": "the-proj", "runtime": "python", "main": os.getcwd()}, before)
                ctx.check(given or opts.project_settings is None, "changed", lambda: "the options were changed")
            ctx.evaluated()
            self.load(ws, stems)

    def load(self, ws, stems):
        ctx = self.ctx
        if self.r.random() < 0.5:
            ws = auto.LocalWorkspace(work_dir=self.dir)
        if "Pulumi" in self.model:
            ctx.count("projects_loaded")
            got = ws.project_settings()
            ctx.check(typed(dump_project(got)) == typed(dump_project(to_project(self.model["Pulumi"]))), "loaded", lambda: f"loaded {dump_project(got)} instead of {self.model['Pulumi']}; {self.trace}"[:2500])
        else:
            self.missing(ws.project_settings)
        name = self.r.choice(list(stems))
        if stems[name] in self.model:
            ctx.count("stacks_loaded")
            got = ws.stack_settings(name)
            want = to_stack(self.model[stems[name]])
            ctx.check(typed(dump_stack(got)) == typed(dump_stack(want)), "loaded", lambda: f"loaded {dump_stack(got)} instead of {dump_stack(want)}; {self.trace}"[:2500])
        else:
            self.missing(lambda: ws.stack_settings(name))

    def missing(self, fn):
        self.ctx.count("missing")
        try:
            got = fn()
        except FileNotFoundError:
            return
        self.ctx.violation("loaded", f"loaded {got!r} though there's no file; {self.trace}")


def run(case, ctx):
    old = os.environ.get("PV_CLI")
    c = Case(ctx.rng(), ctx)
    os.environ["PV_CLI"] = c.d
    try:
        c.run()
    finally:
        if old is None:
            del os.environ["PV_CLI"]
        else:
            os.environ["PV_CLI"] = old
