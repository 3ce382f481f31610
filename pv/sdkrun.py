"""Runs random programs against one generated package of /repo's testdata, in a process of its own, with its schema as the oracle.

Usage: sdkrun.py TESTDATA NAME SEED PROGRAMS; the last line of the output is a JSON object."""
import ast
import asyncio
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import random
import re
import sys
import types
import warnings

import yaml

import pulumi
import pulumi.runtime

from pv import wire
from pv.engine import Engine, run_program
from pv.wire import UNK, ArchiveT, AssetT, OutVal, ResRef, Secret

VERSIONS = [("1.2.3", "1.2.3"), ("0.0.1a7", "0.0.1-alpha.7"), ("2.0.0b3", "2.0.0-beta.3"), ("1.0.0rc2", "1.0.0-rc.2"), ("3.1.4.dev15", "3.1.4-dev.15")]
WORDS = ["", "plain", "two words", "ünï ©", "line\nbreak", "{}", "null", "04da6b54", "x" * 300]


class Skip(Exception):
    pass


class Stubs(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Stands for the packages that the generated ones refer to."""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("pulumi_random", "pulumi_aws", "pulumi_kubernetes", "pulumi_google_native", "pulumi_azure_native") and name.split(".")[0] != OWN:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        m.__path__ = []

        def get(attr):
            if attr.startswith("__"):
                raise AttributeError(attr)
            if attr[0].isupper():
                tok = {"RandomPet": "random:index/randomPet:RandomPet"}.get(attr, f"{spec.name}:{attr}")
                c = type(attr, (pulumi.CustomResource,), {"__init__": lambda self, name, props=None, opts=None: pulumi.CustomResource.__init__(self, tok, name, props or {}, opts)})
                setattr(m, attr, c)
                return c
            return importlib.import_module(f"{spec.name}.{attr}")

        m.__getattr__ = get
        return m

    def exec_module(self, module):
        pass


OWN = None


def const(node):
    return node.value if isinstance(node, ast.Constant) else None


def dotted(node):
    return ast.unparse(node)


class Sdk:
    """What a generated package has, by its source, and what it should have, by its schema."""

    def __init__(self, testdata, name):
        d = os.path.join(testdata, name)
        f = [x for x in ("schema.json", "schema.yaml") if os.path.exists(os.path.join(d, x))][0]
        with open(os.path.join(d, f), encoding="utf-8") as fh:
            self.schema = yaml.safe_load(fh)
        py = os.path.join(d, "python")
        self.pkg = [x for x in sorted(os.listdir(py)) if os.path.exists(os.path.join(py, x, "__init__.py")) and x != "tests"][0]
        self.root = py
        self.getters = {}  # (module, class) -> {Python name: Pulumi name}
        self.res, self.fns, self.methods, self.classes = {}, {}, {}, {}
        self.inputs, self.outputs, self.enums = {}, {}, {}
        for dirpath, dirs, files in os.walk(os.path.join(py, self.pkg)):
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for x in files:
                if x.endswith(".py"):
                    rel = os.path.relpath(os.path.join(dirpath, x), py)[:-3].replace(os.sep, ".")
                    with open(os.path.join(dirpath, x), encoding="utf-8") as fh:
                        self.module(rel[: -len(".__init__")] if rel.endswith(".__init__") else rel, ast.parse(fh.read()))

    def module(self, fqn, tree):
        short = fqn.split(".")[-1]
        for node in tree.body:
            if isinstance(node, ast.ClassDef):
                self.klass(fqn, short, node, node.name)
            if isinstance(node, ast.FunctionDef):
                for call in ast.walk(node):
                    if isinstance(call, ast.Call) and dotted(call.func) == "pulumi.runtime.invoke":
                        self.fns[const(call.args[0])] = (fqn, node.name, self.args(node))

    @staticmethod
    def args(node):
        out = {}
        for x in ast.walk(node):
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and dotted(x.targets[0].value) == "__args__" and isinstance(x.value, ast.Name):
                out[const(x.targets[0].slice)] = x.value.id
        return out

    def klass(self, fqn, short, node, name):
        props = {}
        own_args = None
        tok = None
        for m in node.body:
            if isinstance(m, ast.ClassDef):
                self.klass(fqn, short, m, f"{name}.{m.name}")
            if not isinstance(m, ast.FunctionDef):
                continue
            for dec in m.decorator_list:
                if dotted(dec) == "pulumi.getter":
                    props[m.name] = m.name
                elif isinstance(dec, ast.Call) and dotted(dec.func) == "pulumi.getter":
                    props[m.name] = const(dec.keywords[0].value)
            for call in ast.walk(m):
                if not isinstance(call, ast.Call):
                    continue
                f = dotted(call.func)
                if f == f"super({node.name}, __self__).__init__" and call.args and const(call.args[0]):
                    tok = const(call.args[0])
                elif f == "_utilities.get_resource_args_opts":
                    own_args = call.args[0].id
                elif f == "pulumi.runtime.call":
                    self.methods.setdefault(name, {})[const(call.args[0])] = (m.name, self.args(m), any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(m)))
        self.getters[(fqn, name)] = props
        if tok is not None and own_args is not None:
            self.res[("provider:" if short == "provider" else "") + tok] = (fqn, name, own_args)
        elif short == "_inputs":
            self.inputs.setdefault(name, []).append(fqn)
        elif short == "outputs":
            self.outputs.setdefault(name, []).append(fqn)
        elif short == "_enums":
            self.enums.setdefault(name, []).append(fqn)

    def load(self, fqn, name):
        # (a lazy parent would be loaded, with all that's in it, amid the import of its child)
        parts = fqn.split(".")
        for i in range(1, len(parts)):
            getattr(importlib.import_module(".".join(parts[:i])), "__path__")
        x = importlib.import_module(fqn)
        for part in name.split("."):
            x = getattr(x, part)
        return x

    def pick(self, table, tok, name):
        """The one module that has the class of the token, or none."""
        found = table.get(name, [])
        mod = tok.split(":")[1].split("/")
        if len(found) > 1:
            part = mod[0].replace("-", "_").lower() if mod[0] not in ("", "index") else None
            found = [x for x in found if (part in x.split(".") if part else len(x.split(".")) == 2)]
        return found[0] if len(found) == 1 else None


def title(s):
    return s[:1].upper() + s[1:]


def ref(spec):
    r = spec.get("$ref")
    if r is None:
        return None, None
    if r.startswith("pulumi.json#/"):
        return "builtin", r[len("pulumi.json#/"):]
    m = re.match(r"^#/(types|resources)/(.*)$", r)
    if m:
        from urllib.parse import unquote

        return m[1], unquote(m[2])
    return "external", r


class Program:
    """One random program and what's expected of it."""

    def __init__(self, sdk, r, report, number):
        self.sdk, self.r, self.report = sdk, r, report
        self.preview = r.random() < 0.35
        self.schedule = r.choice([None, None, "shuffle", "lifo"])
        self.n = 0
        self.made = {}  # token -> [(object, name, custom)]
        self.expect = {}  # name -> what should be registered
        self.invokes, self.calls = [], []
        self.answers = {}  # name -> object
        self.replies = {}  # token -> list of replies
        self.trace = []
        self.checks = []  # coroutines
        self.back = True  # Whether what's sent may come back.
        self.dicts = False  # Whether dictionaries may stand for objects.
        self.engine = Engine(preview=self.preview, schedule=self.schedule, seed=number, on_register=self.on_register, on_read=self.on_read, on_invoke=self.on_invoke, on_call=self.on_call)

    # -- the engine's side
    def on_register(self, req, urn):
        return {"object": self.answers.get(req.name)}

    def on_read(self, req, urn):
        return {"object": self.answers.get(req.name, {})}

    def on_invoke(self, req):
        if req.tok == "pulumi:pulumi:getResource":
            u = req.args["urn"]
            name = u.split("::")[-1]
            return "return", {"urn": u, "id": f"id-{name}", "state": self.answers.get(name) or {}}
        return "return", self.replies[req.tok]

    def on_call(self, req):
        return "return", self.replies[req.tok], {}

    # -- values of a property
    def scalar(self, t):
        r = self.r
        return {"string": lambda: r.choice(WORDS), "integer": lambda: r.choice([0, 1, -7, 2**31]), "number": lambda: r.choice([0.5, 2.0, -1.25]), "boolean": lambda: r.random() < 0.5}[t]()

    def wrap(self, v, term, remote, deps):
        """An Output (or awaitable) of a value that holds none itself."""
        r = self.r
        x = r.random()
        if x < 0.45:
            return v, term
        self.report.count("outputs")
        if x < 0.6:
            return pulumi.Output.from_input(v), OutVal(True, term, False) if remote else term
        if x < 0.75:
            self.report.count("secrets")
            return pulumi.Output.secret(v), OutVal(True, term, True) if remote else Secret(term)
        if x < 0.9:
            deps.add("src")
            self.report.count("dependencies")
            return self.src.urn.apply(lambda _: v), OutVal(True, term, False, ("src",)) if remote else term
        deps.add("src")
        if self.preview:
            self.report.count("unknown")
            return self.src.id.apply(lambda _: v), OutVal(False, None, False, ("src",)) if remote else UNK
        return self.src.id.apply(lambda _: v), OutVal(True, term, False, ("src",)) if remote else term

    def wrapped(self, v, t, remote, inner, deps):
        """The same, with the dependencies of the value among it."""
        v, t = self.wrap(v, t, remote, deps)
        if not (t is UNK or isinstance(t, OutVal) and not t.known):
            deps |= inner
        return v, t

    def value(self, spec, plain, remote, deps, depth=0, json_=False):
        """(what the program passes, what should arrive)"""
        plain = plain or bool(spec.get("plain")) or "const" in spec
        r = self.r
        if not plain and r.random() < 0.5:
            inner = set()
            v, t = self.raw(spec, True, remote, inner, depth, json_)
            return self.wrapped(v, t, remote, inner, deps)
        return self.raw(spec, plain, remote, deps, depth, json_)

    def raw(self, spec, plain, remote, deps, depth, json_):  # pylint: disable=too-many-return-statements,too-many-branches
        r = self.r
        if "const" in spec:
            return spec["const"], spec["const"]
        if "oneOf" in spec:
            dicts, self.dicts = self.dicts, False
            try:
                return self.value(r.choice(spec["oneOf"]), True, remote, deps, depth, json_)
            finally:
                self.dicts = dicts
        kind, tok = ref(spec)
        if kind == "builtin":
            if tok == "Any":
                v = r.choice([lambda: self.scalar("string"), lambda: self.scalar("integer"), lambda: {"someKey": [1, {"other_key": True}], "x": "y"}, lambda: [[], {}, "z"]])()
                return v, v
            if tok == "Json":
                v = json.dumps({"a": [self.scalar("string")]})
                return v, v
            if json_ and tok in ("Asset", "Archive"):
                raise Skip("asset in JSON")
            if tok == "Asset" or tok == "Archive" and False:
                v = r.choice(WORDS[1:3])
                return r.choice([(pulumi.StringAsset(v), AssetT("text", v)), (pulumi.FileAsset("./" + v), AssetT("path", "./" + v)), (pulumi.RemoteAsset("http://" + v), AssetT("uri", "http://" + v))])
            if tok == "Archive":
                return r.choice([(pulumi.FileArchive("./a"), ArchiveT("path", "./a")), (pulumi.AssetArchive({"k": pulumi.StringAsset("t")}), ArchiveT("assets", {"k": AssetT("text", "t")}))])
            raise Skip(tok)
        if kind == "external":
            m = re.match(r"^/random/.*/resources/random.*RandomPet$", tok)
            if not m or json_:
                raise Skip(tok)
            self.n += 1
            name = f"pet{self.n}"
            self.report.count("references")
            obj = importlib.import_module("pulumi_random").RandomPet(name)
            self.expect[name] = None
            deps.add(name)
            return obj, ("ref", name)
        if kind == "resources":
            if json_ or tok not in self.sdk.res or self.back and "::" in tok:
                # (the URN of a type without module can't be read: what comes back of one is no reference)
                raise Skip(tok)
            if not self.made.get(tok) or depth == 0 and r.random() < 0.2:
                if depth > 1:
                    raise Skip(tok)
                self.resource(tok, depth + 1)
            obj, name, _ = r.choice(self.made[tok])
            self.report.count("references")
            deps.add(name)
            return obj, ("ref", name)
        if kind == "types":
            t = self.sdk.schema["types"].get(tok)
            if t is None:
                raise Skip(tok)
            name = title(tok.split(":")[-1])
            if "enum" in t:
                e = r.choice(t["enum"])
                self.report.count("enums")
                fqn = self.sdk.pick(self.sdk.enums, tok, name)
                if fqn and r.random() < 0.6:
                    return self.sdk.load(fqn, name)(e["value"]), e["value"]
                return e["value"], e["value"]
            if t.get("type") != "object":
                return self.scalar(t["type"]), None
            if depth > 3 or t.get("isOverlay"):
                raise Skip(tok)
            fqn = self.sdk.pick(self.sdk.inputs, tok, name + "Args")
            cls = name + "Args"
            if plain and self.sdk.pick(self.sdk.inputs, tok, name) and (fqn is None or r.random() < 0.5):
                fqn, cls = self.sdk.pick(self.sdk.inputs, tok, name), name
            if fqn is None:
                raise Skip(tok)
            kw, term = self.fields(t, self.sdk.getters[(fqn, cls)], plain, remote, deps, depth + 1, json_)
            self.report.count("objects")
            if self.dicts and not json_ and r.random() < 0.25:
                # A dictionary by Python names, or the schema's.
                self.report.count("dictionaries")
                names = self.sdk.getters[(fqn, cls)]
                return {names[k] if r.random() < 0.2 else k: v for k, v in kw.items()}, term
            if r.random() < 0.3:
                # Its dictionary, as it is, has no defaults.
                self.report.count("setters")
                obj = self.sdk.load(fqn, cls)(**kw)
                for k, v in kw.items():
                    setattr(obj, k, v)
            else:
                obj = self.sdk.load(fqn, cls)(**kw)
            return obj, term
        if spec.get("type") == "array":
            xs = [self.value(spec["items"], plain, remote, deps, depth, json_) for _ in range(r.choice([0, 1, 2, 3]))]
            return [x for x, _ in xs], [t for _, t in xs]
        if spec.get("type") == "object":
            xs = {k: self.value(spec.get("additionalProperties", {"type": "string"}), plain, remote, deps, depth, json_) for k in r.sample(["a", "some_key", "someKey", "ü", "x.y"], r.choice([0, 1, 2]))}
            return {k: x for k, (x, _) in xs.items()}, {k: t for k, (_, t) in xs.items()}
        v = self.scalar(spec["type"])
        return v, v

    def default(self, spec):
        """What's sent for a property that isn't given."""
        if "default" in spec:
            return True, spec["default"]
        return False, None

    def fields(self, t, names, plain, remote, deps, depth, json_=False):
        kw, term = {}, {}
        py = {v: k for k, v in names.items()}
        for k, spec in (t.get("properties") or {}).items():
            if k not in py:
                continue
            must = k in t.get("required", ())
            if must or self.r.random() < (0.6 if depth < 3 else 0.3):
                d = set()
                try:
                    v, x = self.value(spec, plain, remote, d, depth, json_)
                except Skip:
                    if must:
                        raise
                    self.report.count("skipped")
                    self.omitted(spec, k, term)
                    continue
                deps |= d
                kw[py[k]], term[k] = v, x
            else:
                self.omitted(spec, k, term)
        return kw, term

    def omitted(self, spec, k, term):
        if "default" in spec or "defaultInfo" in spec or "const" in spec or ref(spec)[0] == "types":
            # Whether defaults are filled in, the generator's options tell.
            term[k] = ("default", spec)

    # -- what the engine answers, and what's seen of it
    def answer(self, spec, depth=0):  # pylint: disable=too-many-return-statements
        r = self.r
        if "const" in spec:
            return spec["const"]
        if "oneOf" in spec:
            flat = [x for x in spec["oneOf"] if x.get("type") in ("string", "integer", "number", "boolean") and "$ref" not in x]
            if not flat:
                raise Skip("oneOf")
            return self.answer(r.choice(flat), depth)
        kind, tok = ref(spec)
        if kind == "builtin":
            if tok in ("Any", "Json"):
                return r.choice(["s", 5, {"someKey": [1, {"other_key": True}]}, [[], {}, "z"]]) if tok == "Any" else '{"a": 1}'
            return AssetT("text", "t") if tok == "Asset" else ArchiveT("path", "./p")
        if kind == "external":
            raise Skip(tok)
        if kind == "resources":
            # (the URN of a type without module is none)
            have = [x for x in self.made.get(tok, []) if x[2] and "::" not in tok]
            if not have:
                raise Skip(tok)
            self.report.count("answered_references")
            return ("made", tok, r.choice(have)[1])
        if kind == "types":
            t = self.sdk.schema["types"].get(tok)
            if t is None or depth > 3 or t.get("isOverlay"):
                raise Skip(tok)
            if "enum" in t:
                return r.choice(t["enum"])["value"]
            if t.get("type") != "object":
                return self.scalar(t["type"])
            return self.struct(t, depth + 1)
        if spec.get("type") == "array":
            return [self.answer(spec["items"], depth) for _ in range(r.choice([0, 1, 2]))]
        if spec.get("type") == "object":
            return {k: self.answer(spec.get("additionalProperties", {"type": "string"}), depth) for k in r.sample(["a", "some_key", "someKey", "ü"], r.choice([0, 1, 2]))}
        return self.scalar(spec["type"])

    def struct(self, t, depth=0):
        out = {}
        for k, spec in (t.get("properties") or {}).items():
            if k in t.get("required", ()) or self.r.random() < 0.7:
                try:
                    out[k] = self.answer(spec, depth)
                except Skip:
                    pass
        return out

    def send(self, v):
        """An answer as it goes over the wire."""
        if isinstance(v, tuple) and v[0] == "made":
            _, tok, name = v
            return ResRef(self.engine.urn(tok, name), "" if self.preview else f"id-{name}", self.version)
        if isinstance(v, dict):
            return {k: self.send(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.send(x) for x in v]
        return v

    async def same(self, got, want, spec, where):  # pylint: disable=too-many-return-statements,too-many-branches
        """Whether what the program sees is what was answered."""
        c = self.report.check
        self.report.count("compared")
        if want is None or isinstance(want, tuple) and want[0] == "absent":
            # Absent ones have the default at most.
            return c(got is None or "default" in spec or "defaultInfo" in spec, "value", lambda: f"{where}: {got!r} without any answer; {self.show()}")
        kind, tok = ref(spec)
        if isinstance(want, tuple):
            name = want[2]
            if not c(isinstance(got, self.sdk.load(*self.sdk.res[tok][:2])), "reference", lambda: f"{where}: {got!r} instead of a {tok}; {self.show()}"):
                return False
            urn = await got.urn.future()
            if not c(urn == self.engine.urn(tok, name), "reference", lambda: f"{where}: {urn} instead of {name}; {self.show()}"):
                return False
            state = self.answers[name]
            for py, k in self.sdk.getters[self.sdk.res[tok][:2]].items():
                if k in state and where.count("->") < 2:
                    self.report.count("referenced_attributes")
                    await self.same(await getattr(got, py).future(), state[k], self.sdk.schema["resources"][tok]["properties"][k], f"{where}->{py}")
            return True
        if isinstance(want, AssetT):
            return c(isinstance(got, pulumi.StringAsset) and got.text == want.v, "value", lambda: f"{where}: {got!r} instead of {want}; {self.show()}")
        if isinstance(want, ArchiveT):
            return c(isinstance(got, pulumi.FileArchive) and got.path == want.v, "value", lambda: f"{where}: {got!r} instead of {want}; {self.show()}")
        if kind == "types" and "oneOf" not in spec:
            t = self.sdk.schema["types"][tok]
            if "enum" in t:
                import enum

                return c(isinstance(got, enum.Enum) and got.value == want or not self.sdk.enums.get(title(tok.split(":")[-1])) and got == want, "enum", lambda: f"{where}: {got!r} instead of the enum's {want!r}; {self.show()}")
            if t.get("type") == "object":
                key = (type(got).__module__, type(got).__qualname__)
                names = self.sdk.getters.get(key)
                if not c(names is not None and key[0].endswith(".outputs"), "type", lambda: f"{where}: {got!r} of {type(got)} instead of an output type; {self.show()}"):
                    return False
                self.report.count("output_objects")
                for py, k in names.items():
                    await self.same(getattr(got, py), want.get(k, ("absent",)), t["properties"][k], f"{where}.{py}")
                return True
        if isinstance(want, list) and spec.get("type") == "array":
            if not c(isinstance(got, list) and len(got) == len(want), "value", lambda: f"{where}: {got!r} instead of {want!r}; {self.show()}"):
                return False
            for i, (a, b) in enumerate(zip(got, want)):
                await self.same(a, b, spec["items"], f"{where}[{i}]")
            return True
        if isinstance(want, dict) and spec.get("type") == "object":
            if not c(isinstance(got, dict) and set(got) == set(want), "value", lambda: f"{where}: {got!r} instead of {want!r}; {self.show()}"):
                return False
            for k in want:
                await self.same(got[k], want[k], spec.get("additionalProperties", {"type": "string"}), f"{where}[{k!r}]")
            return True
        return c(wire.eq(got.value if hasattr(got, "value") and not isinstance(got, dict) else got, want), "value", lambda: f"{where}: {got!r} instead of {want!r}; {self.show()}")

    # -- what a program does
    def resource(self, tok, depth=0):
        r, sdk = self.r, self.sdk
        fqn, name, args = sdk.res[tok]
        provider = tok.startswith("provider:")
        spec = sdk.schema["provider"] if provider else sdk.schema["resources"][tok]
        cls = sdk.load(fqn, name)
        remote = bool(spec.get("isComponent"))
        rname = f"r{self.n}"
        self.n += 1
        kw, term, deps = {}, {}, {}
        back, self.back, dicts, self.dicts = self.back, True, self.dicts, not provider
        py = {v: k for k, v in sdk.getters[(fqn, args)].items()}
        for k, p in (spec.get("inputProperties") or {}).items():
            if k not in py:
                continue
            must = k in spec.get("requiredInputs", ())
            if not must and r.random() < 0.35:
                self.omitted(p, k, term)
                continue
            d = set()
            try:
                # What's secret as a whole, or sent as JSON, holds no Outputs itself.
                v, t = self.value(p, False, remote, d, depth) if not p.get("secret") and not provider else self.raw(p, True, remote, d, depth, provider)
            except Skip:
                if must:
                    raise
                self.report.count("skipped")
                self.omitted(p, k, term)
                continue
            if provider:
                v, t = self.wrap(v, ("json", t), False, d)
            kw[py[k]] = v
            if p.get("secret"):
                t = OutVal(True, t, True, tuple(sorted(d)) if False else ()) if remote else Secret(t)
                self.report.count("secret_inputs")
            term[k], deps[k] = t, d
        self.back, self.dicts = back, dicts
        opts = {}
        version = None
        if r.random() < 0.2:
            version = opts["version"] = "9.8.7"
        if r.random() < 0.3:
            opts["protect"] = True
        if depth == 0 and r.random() < 0.25:
            opts["parent"] = self.comp
        self.answers[rname] = self.struct({"properties": spec.get("properties"), "required": spec.get("required", ())}) if not provider else None
        ans = self.answers[rname]
        o = pulumi.ResourceOptions(**opts) if opts or r.random() < 0.5 else None
        how = r.choice(["args", "kwargs", "args-keyword"])
        self.trace.append((tok, rname, how, repr(kw)[:600], opts))
        self.expect[rname] = {"tok": f"pulumi:providers:{tok.split(':', 1)[1]}" if provider else tok, "term": term, "deps": deps, "remote": remote, "version": version, "spec": spec, "provider": provider, "protect": "protect" in opts}
        if how == "kwargs":
            obj = cls(rname, o, **kw) if o is not None else cls(rname, **kw)
        else:
            a = sdk.load(fqn, args)(**kw)
            obj = cls(rname, a, o) if how == "args" else cls(rname, args=a, opts=o)
        self.report.count("providers" if provider else "remote" if remote else "custom")
        if not provider:
            self.made.setdefault(tok, []).append((obj, rname, not remote))
            echoed = {}
            if not self.preview:
                for k, v in term.items():
                    if k not in ans and (spec.get("properties") or {}).get(k) == (spec.get("inputProperties") or {}).get(k):
                        try:
                            echoed[k] = self.plain(v)
                        except Skip:
                            pass
                self.report.count("echoed", len(echoed))
            self.attributes(obj, (fqn, name), spec, {**echoed, **ans}, rname)
        return obj

    def plain(self, term):
        """What's passed, without anything special in it."""
        if isinstance(term, dict):
            return {k: self.plain(v) for k, v in term.items() if self.given(v)}
        if isinstance(term, list):
            return [self.plain(v) for v in term]
        if isinstance(term, OutVal) and term.known and not term.secret:
            return self.plain(term.v)
        if term is None or isinstance(term, (bool, int, float, str)):
            return term
        raise Skip("special")

    @staticmethod
    def given(term):
        if isinstance(term, tuple) and term[0] == "default":
            raise Skip("default")
        return True

    def attributes(self, obj, key, spec, ans, where):
        names = self.sdk.getters[key]

        async def look():
            for py, k in names.items():
                p = (spec.get("properties") or {}).get(k)
                if p is None:
                    continue
                out = getattr(obj, py)
                if not self.report.check(isinstance(out, pulumi.Output), "attribute", lambda: f"{where}.{py} is {out!r}; {self.show()}"):  # noqa: B023
                    continue
                known = await out.is_known()
                if k not in (ans or {}):
                    continue  # The provider has none.
                self.report.count("attributes")
                if not self.report.check(known, "known", lambda: f"{where}.{py} is unknown; {self.show()}"):  # noqa: B023
                    continue
                await self.same(await out.future(), ans[k], p, f"{where}.{py}")

        self.checks.append(look)

    def read(self, tok):
        fqn, name, _ = self.sdk.res[tok]
        spec = self.sdk.schema["resources"][tok]
        cls = self.sdk.load(fqn, name)
        if not hasattr(cls, "get") or spec.get("isComponent"):
            return
        rname = f"g{self.n}"
        self.n += 1
        self.answers[rname] = ans = self.struct({"properties": spec.get("properties"), "required": spec.get("required", ())})
        self.trace.append((tok, rname, "get"))
        self.expect[rname] = {"tok": tok, "read": True}
        obj = cls.get(rname, f"the-{rname}")
        self.report.count("gets")
        self.attributes(obj, (fqn, name), spec, ans, rname)

    def holder(self, tok):
        """A resource that's answered with references to what's been made."""
        if "::" in tok:
            return
        if not self.made.get(tok):
            self.resource(tok)
        refs = [("made", tok, self.r.choice(self.made[tok])[1]) for _ in range(self.r.choice([1, 2]))]
        hname = f"h{self.n}"
        self.n += 1
        self.answers[hname] = ans = {"ref": refs[0], "refs": {"a": refs}}
        self.expect[hname] = None
        self.trace.append(("holder", hname, repr(refs)))
        obj = pulumi.CustomResource("t:m:Holder", hname, {"ref": None, "refs": None})
        self.report.count("answered_references")
        spec = {"$ref": "#/resources/" + tok.replace("/", "%2F")}

        async def look():
            await self.same(await obj.ref.future(), ans["ref"], spec, hname + ".ref")
            await self.same(await obj.refs.future(), ans["refs"], {"type": "object", "additionalProperties": {"type": "array", "items": spec}}, hname + ".refs")

        self.checks.append(look)

    def jsons(self, tok):
        """What's made of input types, as JSON."""
        d, t = set(), {"$ref": "#/types/" + tok.replace("/", "%2F")}
        for _ in range(self.r.choice([0, 1, 2])):
            t = self.r.choice([{"type": "array", "items": t}, {"type": "object", "additionalProperties": t}])
        v, term = self.wrap(*self.raw(t, True, False, d, 0, True), False, d)
        name = f"j{self.n}"
        self.n += 1
        self.trace.append(("json", name, repr(v)[:600]))
        special = term is UNK or isinstance(term, Secret)
        self.expect[name] = {"json": UNK if term is UNK else Secret(("json", term.v)) if special else ("json", term)}
        pulumi.CustomResource("t:m:Json", name, {"x": pulumi.Output.from_input(v).apply(pulumi.runtime.to_json) if special or isinstance(v, pulumi.Output) or self.r.random() < 0.7 else pulumi.runtime.to_json(v)})
        self.report.count("jsons")

    def function(self, tok):
        fqn, name, args = self.sdk.fns[tok]
        spec = self.sdk.schema["functions"][tok]
        if tok in self.replies:
            return
        r = self.r
        self.sdk.load(fqn, name)
        lifted = r.random() < 0.5 and hasattr(importlib.import_module(fqn), name + "_output")
        ins = spec.get("inputs") or {}
        kw, term, deps = {}, {}, set()
        taint = {"secret": False, "known": True}
        for k, p in (ins.get("properties") or {}).items():
            if k not in args:
                continue
            if k not in ins.get("required", ()) and r.random() < 0.4:
                self.omitted(p, k, term)
                continue
            try:
                v, t = self.raw(p, True, False, deps, 0, False)
            except Skip:
                if k in ins.get("required", ()):
                    return
                self.omitted(p, k, term)
                continue
            if lifted:
                v, w = self.wrap(v, t, False, deps)
                taint["secret"] |= isinstance(w, Secret)
                taint["known"] &= w is not UNK
            kw[args[k]], term[k] = v, t
        self.replies[tok] = ans = self.struct(spec.get("outputs") or {})
        fn = self.sdk.load(fqn, name + ("_output" if lifted else ""))
        self.trace.append((tok, fn.__name__, repr(kw)[:600]))
        self.report.count("lifted" if lifted else "functions")
        # (what arrives in an invocation is plain)
        self.invokes.append({"tok": tok, "term": term, "made": taint["known"]})
        got = fn(**kw)
        outs = {"properties": (spec.get("outputs") or {}).get("properties") or {}}

        async def look():
            x = got
            if lifted:
                self.report.check(isinstance(got, pulumi.Output), "lifted", lambda: f"{tok}: {got!r}; {self.show()}")
                known, secret = await got.is_known(), await got.is_secret()
                self.report.check((known, secret) == (taint["known"], taint["secret"]), "lifted", lambda: f"{tok}: known {known} secret {secret}, not {taint}; {self.show()}")
                if not known:
                    return
                x = await got.future()
            elif not outs["properties"]:
                return
            cls = type(x)
            key = (cls.__module__, cls.__qualname__ if (cls.__module__, cls.__qualname__) in self.sdk.getters and self.sdk.getters[(cls.__module__, cls.__qualname__)] else cls.__mro__[1].__qualname__)
            names = self.sdk.getters.get(key)
            if outs["properties"] and self.report.check(bool(names), "type", lambda: f"{tok}: {x!r} of {cls}; {self.show()}"):
                for py, k in names.items():
                    if k in outs["properties"]:
                        await self.same(getattr(x, py), ans.get(k, ("absent",)), outs["properties"][k], f"{tok}.{py}")

        self.checks.append(look)

    def method(self, tok):
        """A method of a component."""
        sdk = self.sdk
        rtok = tok.split("/")[0]
        if rtok not in sdk.res or tok in self.replies:
            return
        if not self.made.get(rtok):
            self.resource(rtok)
        obj, rname, _ = self.made[rtok][0]
        name, args, returns = sdk.methods[type(obj).__name__][tok]
        spec = sdk.schema["functions"][tok]
        ins, kw, term, deps = spec.get("inputs") or {}, {}, {}, {}
        self.back = False
        for k, p in (ins.get("properties") or {}).items():
            if k == "__self__" or k not in args:
                continue
            if k not in ins.get("required", ()) and self.r.random() < 0.4:
                continue
            d, inner = set(), set()
            try:
                # (plain by itself, or for all of the method)
                v, t = self.raw(p, True, True, inner, 0, False)
                v, t = (v, t) if p.get("plain") else self.wrapped(v, t, True, inner, d)
                d |= inner if p.get("plain") else set()
            except Skip:
                if k in ins.get("required", ()):
                    self.back = True
                    return
                continue
            kw[args[k]], term[k], deps[k] = v, t, d
        self.back = True
        term["__self__"] = ("ref", rname)
        deps["__self__"] = {rname}
        self.replies[tok] = ans = self.struct(spec.get("outputs") or {})
        self.trace.append((tok, name, repr(kw)[:600]))
        self.calls.append({"tok": tok, "term": term, "deps": deps})
        self.report.count("methods")
        got = getattr(obj, name)(**kw)
        outs = (spec.get("outputs") or {}).get("properties") or {}

        async def look():
            if not returns:
                return
            x = await got.future()
            if not await got.is_known():
                return
            names = sdk.getters.get((type(x).__module__, type(x).__qualname__))
            if names:
                for py, k in names.items():
                    await self.same(getattr(x, py), ans.get(k, ("absent",)), outs[k], f"{tok}.{py}")
            elif len(outs) == 1:
                (k, p), = outs.items()
                await self.same(x, ans.get(k, ("absent",)), p, tok)

        self.checks.append(look)

    def show(self):
        return f"{self.sdk.pkg} preview={self.preview} schedule={self.schedule} {self.trace}"[:2200]

    def body(self):
        r, sdk = self.r, self.sdk
        self.version = importlib.import_module(sdk.pkg + "._utilities").get_version()
        self.src = pulumi.CustomResource("t:m:Src", "src", {})
        self.comp = pulumi.ComponentResource("t:m:Comp", "comp")
        self.expect.update(src=None, comp=None)
        ops = [(self.resource, t) for t in sdk.res if t.startswith("provider:") and "provider" in sdk.schema or t in (sdk.schema.get("resources") or {})] * 2
        ops += [(self.read, t) for t in sdk.res if t in (sdk.schema.get("resources") or {})]
        ops += [(self.holder, t) for t in sdk.res if t in (sdk.schema.get("resources") or {})]
        ops += [(self.function, t) for t in sdk.fns if t in (sdk.schema.get("functions") or {})]
        ops += [(self.method, t) for c in sdk.methods.values() for t in c if t in (sdk.schema.get("functions") or {})]
        if not ops:
            return
        ops += [(self.jsons, t) for t, x in (sdk.schema.get("types") or {}).items() if x.get("type") == "object"]
        for _ in range(r.choice([1, 3, 6])):
            fn, tok = r.choice(ops)
            try:
                self.back, self.dicts = True, False
                fn(tok)
                self.report.sig(f"{tok} {self.trace[-1:] and self.trace[-1][2:]}")
            except Skip as exn:
                self.report.count("skipped")
                self.trace.append(("skipped", tok, str(exn)))

    def matches(self, got, want):  # pylint: disable=too-many-return-statements
        if isinstance(want, tuple):
            if want[0] == "ref":
                return isinstance(got, ResRef) and got.urn == self.urns.get(want[1])
            if want[0] == "json":
                if isinstance(want[1], str) and got == want[1]:
                    return True
                try:
                    return isinstance(got, str) and self.matches(json.loads(got), want[1])
                except ValueError:
                    return False
        if isinstance(want, Secret):
            return isinstance(got, Secret) and self.matches(got.v, want.v)
        if isinstance(want, OutVal):
            deps = {self.urns.get(x) for x in want.deps}
            return isinstance(got, OutVal) and got.known == want.known and got.secret == want.secret and set(got.deps) >= deps and (not want.known or self.matches(got.v, want.v))
        if isinstance(want, dict) and isinstance(got, dict):
            must = {k for k, v in want.items() if not (isinstance(v, tuple) and v[0] == "default")}
            if not must <= set(got) <= set(want):
                return False
            return all(self.matches(got[k], want[k]) if k in must else self.fits(got[k], want[k][1]) for k in got)
        if isinstance(want, list) and isinstance(got, list):
            return len(got) == len(want) and all(self.matches(a, b) for a, b in zip(got, want))
        return wire.eq(got, want)

    def fits(self, got, spec):
        """Whether it may be what a property that wasn't given has."""
        got = got.v if isinstance(got, (Secret, OutVal)) else got
        if "const" in spec:
            return wire.eq(got, spec["const"])
        if "default" in spec:
            return wire.eq(got, spec["default"]) or got == json.dumps(spec["default"])
        return isinstance(got, (dict, str)) and ref(spec)[0] == "types"

    def run(self):  # pylint: disable=too-many-locals
        rep = self.report
        result = None
        before = len(rep.violations)

        async def after():
            have = len(rep.violations)
            for look in self.checks:
                await look()
            return rep.violations[have:]

        # References need the wire form once they're sent.
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            orig = self.on_register

            def on_register(req, urn):
                d = orig(req, urn)
                if d["object"] is not None:
                    d["object"] = self.send(d["object"])
                return d

            self.engine.on_register = on_register
            self.engine.on_read = lambda req, urn: {"object": self.send(self.answers.get(req.name, {}))}
            self.engine.on_invoke = lambda req: self.sent(self.on_invoke(req))
            self.engine.on_call = lambda req: self.sent(self.on_call(req))
            result = run_program(self.body, self.engine, preview=self.preview, after=after)
        rep.evaluated()
        if not result.ok:
            # What's read from the rest tells nothing of its own.
            rep.violations = rep.violations[:before]
        if not rep.check(result.ok, "outcome", lambda: f"{result!r}; {self.show()}"):
            return
        e = self.engine
        self.urns = {x.req.name: x.resp.urn for x in e.registers() + e.by("ReadResource")}
        names = sorted(x.req.name for x in e.registers() + e.by("ReadResource"))
        rep.check(names == sorted(self.expect), "registrations", lambda: f"{names} instead of {sorted(self.expect)}; {self.show()}")
        for x in e.registers():
            w = self.expect.get(x.req.name)
            if w:
                self.registered(x.req, w)
        for x in e.by("ReadResource"):
            rep.check(x.req.type == self.expect[x.req.name]["tok"] and x.req.id == "the-" + x.req.name and x.req.version == self.version, "read", lambda: f"{x.req}; {self.show()}")  # noqa: B023
        for method, wants in (("Invoke", self.invokes), ("Call", self.calls)):
            reqs = {x.req.tok: x.req for x in e.by(method) if x.req.tok != "pulumi:pulumi:getResource"}
            made = [w for w in wants if w.get("made", True)]
            rep.check(sorted(reqs) == sorted(w["tok"] for w in made), "calls", lambda: f"{sorted(reqs)} instead of {made}; {self.show()}")  # noqa: B023
            for w in made:
                req = reqs.get(w["tok"])
                if req is None:
                    continue
                got = wire.dec(req.args)
                rep.count("arguments", len(w["term"]))
                rep.check(self.matches(got, w["term"]), "arguments", lambda: f"{w['tok']}: {got} instead of {w['term']}; {self.show()}")  # noqa: B023
                if method == "Invoke":
                    rep.check(req.version == self.version, "version", lambda: f"{req.version} instead of {self.version}; {self.show()}")  # noqa: B023
                else:
                    for k, d in w["deps"].items():
                        have = set(req.argDependencies[k].urns)
                        rep.check(have == {self.urns[n] for n in d}, "argument-dependencies", lambda: f"{w['tok']} {k}: {have} instead of {d}; {self.show()}")  # noqa: B023

    def sent(self, x):
        return (x[0], self.send(x[1])) + tuple(x[2:])

    def registered(self, req, w):
        rep = self.report
        got = wire.dec(req.object)
        rep.count("inputs", len(got))
        if "json" in w:
            rep.check(self.matches(got, {"x": w["json"]}), "json", lambda: f"{req.name}: {got} instead of {w['json']}; {self.show()}")
            return
        spec = w["spec"]
        rep.check(req.type == w["tok"] and req.remote == w["remote"] and req.custom == (not w["remote"]), "type", lambda: f"{req.name}: {req.type}; {self.show()}")
        want = w["term"]
        if w["provider"]:
            got = {k: v for k, v in got.items() if k not in ("version", "pluginDownloadURL")}
        rep.check(self.matches(got, want), "inputs", lambda: f"{req.name}: {got} instead of {want}; {self.show()}")
        rep.check(req.version == (w["version"] or self.version), "version", lambda: f"{req.name}: {req.version} instead of {w['version'] or self.version}; {self.show()}")
        rep.check(req.protect == w["protect"], "protect", lambda: f"{req.name}; {self.show()}")
        url = self.sdk.schema.get("pluginDownloadURL") or ""
        rep.check(req.pluginDownloadURL == url, "url", lambda: f"{req.name}: {req.pluginDownloadURL} instead of {url}; {self.show()}")
        secrets = {k for k, p in (spec.get("properties") or {}).items() if p.get("secret")}
        rep.check(w["provider"] or secrets <= set(req.additionalSecretOutputs), "secret-outputs", lambda: f"{req.name}: {req.additionalSecretOutputs} instead of {secrets}; {self.show()}")
        rep.count("secret_outputs", len(secrets))
        for k, d in w["deps"].items():
            have = set(req.propertyDependencies[k].urns) if k in req.propertyDependencies else set()
            need = {self.urns[n] for n in d}
            rep.check(have == need, "dependencies", lambda: f"{req.name}.{k}: {have} instead of {need}; {self.show()}")  # noqa: B023


class Report:
    def __init__(self):
        self.counts, self.violations, self.sigs, self.evals = {}, [], set(), 0

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def evaluated(self):
        self.evals += 1

    def sig(self, s):
        self.sigs.add(str(s)[:400])

    def check(self, cond, kind, msg):
        self.count("oracle_evaluations")
        if not cond and len(self.violations) < 20:
            self.violations.append((kind, str(msg())[:2800]))
        return bool(cond)


def main():
    global OWN  # pylint: disable=global-statement
    testdata, name, seed, programs = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    rep = Report()
    r = random.Random(f"{seed}/{name}")
    version, semver = r.choice(VERSIONS)
    fake = types.ModuleType("pkg_resources")
    fake.require = lambda _: [types.SimpleNamespace(version=version)]
    sys.modules["pkg_resources"] = fake
    sdk = Sdk(testdata, name)
    OWN = sdk.pkg
    sys.meta_path.append(Stubs())
    sys.path.insert(0, sdk.root)
    importlib.import_module(sdk.pkg)
    got = importlib.import_module(sdk.pkg + "._utilities").get_version()
    rep.check(got in (semver, sdk.schema.get("version")), "package-version", lambda: f"{got} instead of {semver}")
    for i in range(programs):
        Program(sdk, random.Random(f"{seed}/{name}/{i}"), rep, i).run()
    print(json.dumps({"counts": rep.counts, "violations": rep.violations, "sigs": sorted(rep.sigs), "evals": rep.evals}))


if __name__ == "__main__":
    main()
