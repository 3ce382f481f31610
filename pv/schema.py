"""Random schemas of resources with nested types, their Python classes in all the styles that SDKs are written in, and the values of both sides."""
import sys
import types

import pulumi

from .wire import UNK

PAIRS = [("first_arg", "firstArg"), ("id_x", "idX"), ("self_link", "selfLink"), ("http2_on", "http2On"), ("from_", "from"), ("items", "items"), ("keys", "keys"),
         ("get", "get"), ("values_list", "values"), ("a", "A"), ("plain", "plain"), ("a_b_c", "aBC"), ("copy", "copy"), ("upper", "UPPER"), ("x1", "x-1"), ("type_", "type"),
         ("kind", "kind"), ("update", "update"), ("class_", "class")]
PY2PUL = dict(PAIRS)
PUL2PY = {b: a for a, b in PAIRS}
USER_KEYS = ["first_arg", "firstArg", "k", "a_b", "UPPER", "from", "x-1", "", "id_x", "é", "items"]


class Schema:
    def __init__(self, r):
        self.r, self.unk = r, 0
        self.enums = {f"E{i}": r.choice([("str", ["a", "B b", "first_arg"]), ("int", [0, 1, 7]), ("float", [0.5, 2.0])]) for i in range(2)}
        self.objs = {}
        n = r.choice([1, 2, 3])
        self.names = [f"O{i}" for i in range(n)]
        for i, name in enumerate(self.names):
            fields = []
            for py, pul in r.sample(PAIRS, r.choice([1, 2, 4])):
                fields.append((py, pul, self.type(2, i), r.random() < 0.5))
            if r.random() < 0.25:
                free = [p for p in PAIRS if p[0] not in [f[0] for f in fields]]
                py, pul = r.choice(free)
                fields.append((py, pul, (r.choice(["list", "map"]), ("obj", name)), False))  # a recursive type
            fields.sort(key=lambda f: not f[3])
            self.objs[name] = fields
        self.fields = []
        for py, pul in r.sample(PAIRS, r.choice([2, 3, 5])):
            self.fields.append((py, pul, self.type(3, n), r.random() < 0.3))
        self.fields.sort(key=lambda f: not f[3])
        self.ostyle = {n: r.choice(["getter-dict", "getter", "annot-dict", "annot", "empty-getter", "translate-dict"]) for n in self.names}
        self.istyle = {n: r.choice(["getter", "annot", "annot-dict", "empty-getter"]) for n in self.names}
        self.rstyle = r.choice(["getter", "annot"])
        self.mode = r.choice(["typed", "typed", "legacy"])

    def type(self, depth, nobj):
        r = self.r
        k = r.choice(["str", "int", "float", "bool", "any", "enum"] + (["list", "map", "obj", "obj", "list", "map"] if depth > 0 else []))
        if k == "enum":
            return ("enum", r.choice(sorted(self.enums)))
        if k in ("list", "map"):
            return (k, self.type(depth - 1, nobj))
        if k == "obj":
            return ("obj", f"O{r.randrange(nobj)}") if nobj else ("str",)
        return (k,)

    # ---- source
    def ann(self, t, required=True):
        s = {"str": "str", "int": "int", "float": "float", "bool": "bool", "any": "Any"}.get(t[0])
        if t[0] in ("enum", "obj"):
            s = repr(t[1])
        elif t[0] == "list":
            s = f"{self.r.choice(['Sequence', 'List'])}[{self.ann(t[1])}]"
        elif t[0] == "map":
            s = f"{self.r.choice(['Mapping', 'Dict'])}[str, {self.ann(t[1])}]"
        return s if required else f"Optional[{s}]"

    def iann(self, t, required=True):
        s = {"str": "str", "int": "int", "float": "float", "bool": "bool", "any": "Any"}.get(t[0])
        if t[0] == "enum":
            s = repr(t[1])
        elif t[0] == "obj":
            s = self.r.choice([f"'{t[1]}Args'", f"pulumi.InputType['{t[1]}Args']"])
        elif t[0] == "list":
            s = f"{self.r.choice(['Sequence', 'List'])}[{self.iann(t[1])}]"
        elif t[0] == "map":
            s = f"{self.r.choice(['Mapping', 'Dict'])}[str, {self.iann(t[1])}]"
        if s != "Any" and self.r.random() < 0.8:
            s = f"pulumi.Input[{s}]"
        return s if required else f"Optional[{s}]"

    def source(self):
        out = ["import enum", "import pulumi", "from typing import *", f"PUL2PY = {PUL2PY!r}", f"PY2PUL = {PY2PUL!r}"]
        for name, (base, values) in self.enums.items():
            out += [f"class {name}({base}, enum.Enum):"] + [f"    V{i} = {v!r}" for i, v in enumerate(values)]
        for name in self.r.sample(self.names, len(self.names)):
            out += self.cls(name, self.objs[name], "output_type", self.ostyle[name], self.ann)
            out += self.cls(name + "Args", self.objs[name], "input_type", self.istyle[name], self.iann)
        out += self.cls("RArgs", self.fields, "input_type", "getter", self.iann)
        derived = self.rstyle == "getter" and self.r.random() < 0.4
        out += [f"class {'RBase' if derived else 'R'}(pulumi.CustomResource):"]
        if self.mode == "typed":
            out += ["    def __init__(self, name, props, opts=None):", "        a = RArgs.__new__(RArgs)"]
            out += [f"        a.__dict__[{py!r}] = props.get({py!r})" for py, *_ in self.fields]
            out += ["        super().__init__('test:index:R', name, a, opts)"]
        else:
            out += ["    def __init__(self, name, props, opts=None):",
                    f"        super().__init__('test:index:R', name, {{**dict.fromkeys({[f[0] for f in self.fields]!r}), **props}}, opts)",
                    "    def translate_input_property(self, prop):", "        return PY2PUL.get(prop) or prop",
                    "    def translate_output_property(self, prop):", "        return PUL2PY.get(prop) or prop"]
        for py, pul, t, req in self.fields:
            a = self.r.choice([f"pulumi.Output[{self.ann(t, req)}]"] * 2 + [f"'pulumi.Output[{self.ann(t, req)}]'"] if "'" not in self.ann(t, req) else [f"pulumi.Output[{self.ann(t, req)}]"])
            if self.rstyle == "annot":
                out += [f"    {py}: {a} = pulumi.property({pul!r})"]
            else:
                out += ["    @property", f"    @pulumi.getter(name={pul!r})", f"    def {py}(self) -> {a}:", f"        return pulumi.get(self, {py!r})"]
        if derived:
            out += ["class Mixin:", "    first_arg2 = 1", "class R(Mixin, RBase):" if self.r.random() < 0.3 else "class R(RBase):", "    pass"]
        self.derived = derived
        return "\n".join(out) + "\n"

    def cls(self, name, fields, deco, style, ann):
        base = "(dict)" if style.endswith("-dict") else ""
        out = [f"@pulumi.{deco}", f"class {name}{base}:"]
        if style.startswith("translate"):
            out += ["    def _translate_property(self, prop):", "        return PUL2PY.get(prop) or prop"]
        if style.startswith("annot"):
            for py, pul, t, req in fields:
                out += [f"    {py}: {ann(t, req)} = pulumi.property({pul!r}{'' if req else ', default=None'})"]
            return out
        params = "".join(f", {py}: {ann(t, True)}" if req else f", {py}: {ann(t, False)} = None" for py, pul, t, req in fields)
        out += [f"    def __init__(__self__, *{params}):"]
        for py, pul, t, req in fields:
            s = f"pulumi.set(__self__, {py!r}, {py})"
            out += [f"        {s}"] if req else [f"        if {py} is not None:", f"            {s}"]
        for py, pul, t, req in fields:
            out += ["    @property", f"    @pulumi.getter(name={pul!r})", f"    def {py}(self) -> {ann(t, req)}:",
                    "        ..." if style in ("empty-getter", "translate-dict") else f"        return pulumi.get(self, {py!r})"]
            if deco == "input_type":
                out += [f"    @{py}.setter", f"    def {py}(self, value: {ann(t, req)}):", "        ..." if style == "empty-getter" else f"        pulumi.set(self, {py!r}, value)"]
        return out

    def module(self, name):
        self.text = self.source()
        m = types.ModuleType(name)
        sys.modules[name] = m
        exec(compile(self.text, name, "exec"), m.__dict__)  # pylint: disable=exec-used
        return m

    # ---- values, under Pulumi's names
    def value(self, t, depth=3):
        r = self.r
        k = t[0]
        if self.unk and r.random() < self.unk:
            return UNK
        if k == "str":
            return r.choice(["", "a", "first_arg", "ü", "1"])
        if k == "int":
            return r.choice([0, 1, -3, 2 ** 31])
        if k == "float":
            return r.choice([0.5, -1.25, 3.0])
        if k == "bool":
            return r.random() < 0.5
        if k == "any":
            return r.choice(["s", 2.5, True, ["x", {"first_arg": 1.5}], {"first_arg": "v", "k" if self.mode == "legacy" else "firstArg": {"a_b": [False]}}, {}, []])
        if k == "enum":
            return r.choice(self.enums[t[1]][1])
        n = r.choice([0, 1, 2]) if depth > 0 else 0
        if k == "list":
            return [self.value(t[1], depth - 1) for _ in range(n)]
        if k == "map":
            return {x: self.value(t[1], depth - 1) for x in r.sample([k for k in USER_KEYS if k != "firstArg" or self.mode != "legacy"], n)}
        return {pul: self.value(ft, depth - 1) for py, pul, ft, req in self.objs[t[1]] if req or depth > 0 and r.random() < 0.7}

    def build(self, m, t, v, wrap, form=None):
        """The value as a program writes it. form: how the outermost objects are written."""
        r = self.r
        k = t[0]
        if k == "enum":
            x = getattr(m, t[1])(v) if r.random() < 0.7 else v
        elif k == "list":
            x = [self.build(m, t[1], e, wrap, form) for e in v]
        elif k == "map":
            x = {a: self.build(m, t[1], e, wrap, form) for a, e in v.items()}
        elif k == "obj":
            fs = {pul: (py, ft) for py, pul, ft, _ in self.objs[t[1]]}
            kw = {fs[a][0]: self.build(m, fs[a][1], e, wrap, form if form == "dict" else None) for a, e in v.items()}
            how = form or r.choice(["args", "args", "args", "dict", "set"])
            cls = getattr(m, t[1] + "Args")
            if r.random() < 0.15:
                cls = type(cls.__name__ + "Derived", (cls,), {"__module__": cls.__module__})
            if how == "dict":
                x = kw
                if r.random() < 0.2:  # Pulumi's own names work as well
                    x = {(PY2PUL[a] if r.random() < 0.5 and PY2PUL[a] not in PY2PUL else a): e for a, e in kw.items()}
            elif how == "set" and all(not req for *_, req in self.objs[t[1]]):
                x = cls()
                for a, e in kw.items():
                    setattr(x, a, e)
            else:
                x = cls(**kw)
        else:
            x = v
        return wrap(x)

    def wire(self, t, v, legacy, typed=False):
        """The value as it arrives at the engine. typed: within objects that were given as Args, whose types say that maps aren't translated."""
        k = t[0]
        if k == "list":
            return [self.wire(t[1], e, legacy, typed) for e in v]
        if k == "map":
            return {(PY2PUL.get(a, a) if legacy and typed is not True else a): self.wire(t[1], e, legacy, typed) for a, e in v.items()}
        if k == "obj":
            fs = {pul: ft for py, pul, ft, _ in self.objs[t[1]]}
            return {a: self.wire(fs[a], e, legacy, typed == "args" or typed is True) for a, e in v.items()}
        if k == "any" and legacy:
            return walk(v, PY2PUL)
        return v

    def misfits(self, t, v, path=()):
        """Copies of v that have an object where t doesn't have one, with the path."""
        k = t[0]
        if v is UNK or k == "any":
            return
        if k == "map" or k == "obj":
            fs = {pul: ft for py, pul, ft, _ in self.objs[t[1]]} if k == "obj" else {}
            for a, e in v.items():
                for pth, x in self.misfits(fs.get(a) or t[1], e, path + (a,)):
                    yield pth, {**v, a: x}
            return
        if k == "list":
            for i, e in enumerate(v):
                for pth, x in self.misfits(t[1], e, path + (str(i),)):
                    yield pth, v[:i] + [x] + v[i + 1:]
        yield path, {"a": 1}

    def differs(self, m, t, v, got, legacy=False, path=""):
        """What is wrong with what a program sees of the engine's value v, if anything."""
        k = t[0]
        if v is UNK:
            return None if isinstance(got, pulumi.output.Unknown) else f"{path}: {got!r} instead of an unknown"
        if k == "any":
            want = walk(v, PUL2PY) if legacy else v
            return None if same(want, got) else f"{path}: {got!r} instead of {want!r}"
        if k == "enum":
            want = getattr(m, t[1])(v)
            return None if got is want else f"{path}: {got!r} instead of {want!r}"
        if k == "int":
            return None if type(got) is int and got == v else f"{path}: {got!r} instead of the int {v!r}"
        if k in ("str", "float", "bool"):
            return None if type(got) is type(v) and got == v else f"{path}: {got!r} instead of {v!r}"
        if k == "list":
            if type(got) is not list or len(got) != len(v):
                return f"{path}: {got!r} instead of {v!r}"
            return first(self.differs(m, t[1], a, b, legacy, f"{path}[{i}]") for i, (a, b) in enumerate(zip(v, got)))
        if k == "map":
            want = {(PUL2PY.get(a, a) if legacy else a): e for a, e in v.items()}
            if type(got) is not dict or got.keys() != want.keys():
                return f"{path}: {got!r} instead of {want!r}"
            return first(self.differs(m, t[1], e, got[a], legacy, f"{path}.{a}") for a, e in want.items())
        cls = getattr(m, t[1])
        if type(got) is not cls:
            return f"{path}: {got!r} is not a {cls}"
        for py, pul, ft, req in self.objs[t[1]]:
            x = getattr(got, py)
            if pul not in v:
                if x is not None:
                    return f"{path}.{py}: {x!r} instead of None"
                continue
            d = self.differs(m, ft, v[pul], x, legacy, f"{path}.{py}")
            if d:
                return d
            if isinstance(got, dict) and (dict.get(got, py) is not x or dict.__getitem__(got, py) is not x):
                return f"{path}[{py}]: {dict.get(got, py)!r} instead of {x!r}"
        return None


def walk(v, table):
    if isinstance(v, dict):
        return {table.get(k, k): walk(e, table) for k, e in v.items()}
    if isinstance(v, list):
        return [walk(e, table) for e in v]
    return v


def same(a, b):
    if isinstance(a, dict):
        return type(b) is dict and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return type(b) is list and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b or not isinstance(a, bool) and not isinstance(b, bool) and isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b


def first(xs):
    return next((x for x in xs if x), None)

