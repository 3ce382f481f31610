"""C23: a dynamic resource's provider does, in the provider's process, what it would have done in the program."""
import json
import os
import random
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import grpc
from google.protobuf import empty_pb2
from pulumi.runtime.proto import provider_pb2, provider_pb2_grpc

from pv import grpcsrv, values, wire
from pv.engine import Engine
from pv.wire import UNK, ArchiveT, AssetT

RULE = ("One case = a generated program with 4 dynamic providers (closures, globals, inheritance, nested state, sets), run twice by the language host under different hash seeds; the "
        "registrations of both runs are compared, then 8-10 lifecycle requests per provider are sent concurrently to a provider process, and what its methods saw and each response are "
        "compared with a reference model; distinct by provider features and request kinds, non-trivial if the provider has state beyond constants.")
ASSUMPTIONS = ["the order of a dict's items isn't part of the provider's behaviour", "sets hold items of one sortable type", "the program is the same in both runs (within one run, Python's own caches on a class may show up when it is serialized again)"]
CASE_TIMEOUT = 180
REPO = os.environ.get("PV_REPO", "/repo")
EXEC = os.path.join(REPO, "sdk/python/cmd/pulumi-language-python-exec")


def plan(tier, seed):
    return [{"i": i} for i in range(96 if tier == "quick" else 900)]


def minimum(tier):
    return {"programs": 30, "providers": 110, "registrations": 200, "requests": 900, "check": 150, "diff": 130, "create": 90, "update": 80, "read": 70, "delete": 70,
            "unknown_props": 60, "unknown_provider": 40, "failures": 60, "failed_requests": 60, "stateful": 90, "sets": 20, "default_methods": 60, "missing_results": 60, "assets": 60, "large": 1,
            "unsupported": 20}


HEAD = '''
import dataclasses, datetime, functools, http, json, os, sys
import pickle
pickler = pickle.Pickler
pickler_methods = dict(vars(pickle._Pickler))
import pulumi
from pulumi.dynamic import CheckFailure, CheckResult, CreateResult, DiffResult, ReadResult, Resource, ResourceProvider, UpdateResult

def canon(v):
    import pulumi  # a module outside of site-packages can't be a global of what's pickled
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, pulumi.output.Unknown):
        return {"?": 1}
    for cls, f in ((pulumi.FileAsset, "path"), (pulumi.StringAsset, "text"), (pulumi.RemoteAsset, "uri"), (pulumi.FileArchive, "path"), (pulumi.RemoteArchive, "uri"), (pulumi.AssetArchive, "assets")):
        if isinstance(v, cls):
            return {"!": cls.__name__, "v": canon(getattr(v, f))}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    return {"!!": repr(v)}

class Scripted(ResourceProvider):
    def note(self, method, bag, /, **args):
        rec = {"tag": self.tag(), "method": method, **{k: canon(v) for k, v in args.items()}}
        path = os.path.join(bag["dir"], bag["rid"])
        with open(path + ".tmp", "w") as f:
            json.dump(rec, f)
        os.rename(path + ".tmp", path)
        s = self.script[method]
        if s.get("raise"):
            raise Exception("boom-" + bag["rid"])
        return s
    def pick(self, s, props):
        return props if s["outs"] == "props" else None if s["outs"] == "none" else s["lit"]
'''

METHODS = {
    "check": '''
        s = self.note("check", news, olds=olds, news=news)
        return CheckResult(self.pick(s, news), [CheckFailure(p, w) for p, w in s["failures"]])''',
    "diff": '''
        s = self.note("diff", news, id=_id, olds=_olds, news=news)
        return DiffResult(**s["diff"])''',
    "create": '''
        s = self.note("create", props, props=props)
        return CreateResult(s["id"], self.pick(s, props)) if s["outs"] != "missing" else CreateResult(s["id"])''',
    "read": '''
        s = self.note("read", props, id=_id, props=props)
        return ReadResult(s["id"], self.pick(s, props)) if s["outs"] != "missing" else ReadResult(s["id"]) if s["id"] else ReadResult()''',
    "update": '''
        s = self.note("update", news, id=_id, olds=_olds, news=news)
        return UpdateResult(self.pick(s, news)) if s["outs"] != "missing" else UpdateResult()''',
    "delete": '''
        self.note("delete", props, id=_id, props=props)''',
}
SIGS = {"check": "olds, news", "diff": "_id, _olds, news", "create": "props", "read": "_id, props", "update": "_id, _olds, news", "delete": "_id, props"}


def lit(r):
    """A result given in the script: plain JSON."""
    return {k: values.value(r, 2, False) for k in r.sample(["a", "b", "fooBar", "rid", "é", "id", "urn"], r.choice([0, 1, 2, 3]))}


def script(r):
    def outs(kinds):
        return {"outs": r.choice(kinds), "lit": lit(r)}

    s = {
        "check": {**outs(["props", "props", "lit", "none"]), "failures": [[r.choice(["a", "fooBar", "", "é"]), "why %d" % j] for j in range(r.choice([0, 0, 1, 2]))]},
        "diff": {"diff": {k: v for k, v in {
            "changes": r.choice([None, True, False]), "replaces": r.choice([None, [], ["a"], ["a", "fooBar"]]), "stables": r.choice([None, [], ["b"], ["a", "b", "c"]]),
            "delete_before_replace": r.choice([None, True, False])}.items() if r.random() < 0.8}},
        "create": {**outs(["props", "lit", "none", "missing"]), "id": "id-%d" % r.randrange(10 ** 6)},
        "read": {**outs(["props", "lit", "none", "missing"]), "id": r.choice(["id-read", "ü", None])},
        "update": outs(["props", "lit", "none", "missing"]),
        "delete": {},
    }
    if r.random() < 0.4:
        s[r.choice(list(s))]["raise"] = True
    return s


class Gen:
    """One provider of a program: its source, and what's known about it."""

    def __init__(self, r, i, big):
        self.i, self.script = i, script(r)
        self.overrides = [m for m in METHODS if r.random() < 0.85]
        words = r.sample(["alpha", "beta", "gamma", "delta", "eps", "zeta", "x-1", "ü"], r.choice([3, 4, 6]))
        self.features = r.sample(["state", "table", "mixed", "helper", "closure", "lambda", "enum", "data", "set", "const", "frozen", "attr", "partial", "date", "shared", "nested", "bytes"],
                                 r.choice([3, 4, 5, 6]))
        F = self.features
        top, init, tag, attrs = [], ["super().__init__()", f"self.script = json.loads({json.dumps(json.dumps(self.script))})"], [], []
        st = values.value(r, 3, True)
        W = "{" + ", ".join(map(repr, words)) + "}"
        if "state" in F:
            init.append(f"self.state = {st!r}")
            tag.append("json.dumps(self.state, sort_keys=True)")
        if "table" in F:  # in an order that differs from run to run
            top.append(f"TABLE{i} = {{k: [len(k), k[::-1]] for k in {W}}}")
            init.append(f"self.table = {{k: {{j: k + j for j in {W}}} for k in {W}}}")
            tag.append(f"json.dumps([self.table, TABLE{i}], sort_keys=True)")
        if "mixed" in F:
            init.append("self.mixed = {1: 'one', 'two': (2, None), None: [], 2.5: b'x', (1, 'a'): {}}")
            tag.append("repr(list(self.mixed.items()))")
        if "helper" in F:
            top.append(f"FACTOR{i} = {r.randrange(1000)}")
            top.append(f"def inner{i}(x, y=[{r.randrange(9)}]):\n    return f'{{x}}-{{FACTOR{i}}}-{{y}}'")
            top.append(f"def helper{i}(x, *, pad={r.choice(words)!r}):\n    return inner{i}(x + pad)")
            tag.append(f"helper{i}('h')")
        if "lambda" in F:
            init.append(f"n = {r.randrange(100)}")
            init.append("self.fn = lambda y: [y, n, (lambda: n + 1)()]")
            tag.append("repr(self.fn('q'))")
        if "enum" in F:
            init.append(f"self.kind = http.HTTPStatus({r.choice([200, 404, 503])})")
            tag.append("repr((self.kind.name, self.kind is http.HTTPStatus(self.kind.value)))")
        if "data" in F:
            top.append(f"@dataclasses.dataclass\nclass Data{i}:\n    a: int\n    b: list = dataclasses.field(default_factory=list)\n    def total(self):\n        return self.a + sum(self.b)")
            init.append(f"self.data = Data{i}({r.randrange(9)}, [{r.randrange(9)}, 2])")
            tag.append("repr((self.data.total(), self.data.a))")
        if "set" in F:
            init.append(f"self.words = {W}")
            init.append(f"self.deep = [{{w + 'x' for w in {W}}}, frozenset({W}), ({r.randrange(9)}, set())]")
            tag.append("repr((sorted(self.words), [sorted(x) for x in self.deep[:2]], self.deep[2]))")
        if "const" in F:
            top.append(f"def known{i}(w):\n    return w in {W} or w in ('t', {r.randrange(9)})")
            tag.append(f"repr([known{i}(w) for w in ({words[0]!r}, 'no', 't')])")
        if "frozen" in F:
            top.append(f"ALL{i} = frozenset({W})")
            tag.append(f"repr(sorted(ALL{i} - {{{words[1]!r}}}))")
        if "attr" in F:
            attrs.append(f"    limit = {r.randrange(99)}\n    names = {words!r}\n    @staticmethod\n    def double(x):\n        return x * 2\n    @property\n    def size(self):\n        return len(self.names)\n"
                         "    @classmethod\n    def make(cls, x):\n        return cls.limit + x")
            tag.append("repr((self.limit, self.double('d'), self.size, self.make(1)))")
        if "partial" in F:
            top.append(f"def add{i}(a, b, c={r.randrange(9)}):\n    return [a, b, c]")
            init.append(f"self.part = functools.partial(add{i}, {r.randrange(9)})")
            tag.append("repr(self.part(2))")
        if "date" in F:
            init.append(f"self.when = datetime.date(2020, {r.randrange(1, 12)}, 3)")
            tag.append("self.when.isoformat()")
        if "shared" in F:  # the identity of shared parts is kept
            init.append("shared = [1]; self.left = {'s': shared, 'me': self}; self.right = shared; shared.append(2)")
            tag.append("repr((self.left['s'] is self.right, self.left['me'] is self, self.right))")
        if "nested" in F:
            init.append(f"self.items = [{{'k{r.randrange(9)}': ({r.randrange(9)}, [None, {{'x': True}}])}}, 10 ** 20, -0.5, {r.choice(words)!r} * 3]")
            tag.append("repr(self.items)")
        if "bytes" in F:
            init.append(f"self.raw = bytes(range({r.randrange(1, 200)})) + b'\\xff'")
            tag.append("self.raw.hex()")
        self.big = big
        if big:
            init.append("self.big = 'x' * 5_000_000")
            tag.append("str(len(self.big))")
        if "closure" in F:
            tag.append("repr((z, [counter(), counter()][:1]))")
        body = "\n".join(attrs) + "\n    def __init__(self):\n" + "".join(f"        {x}\n" for x in init)
        body += "    def tag(self):\n        return '|'.join([" + ", ".join(tag) + "])\n"
        for m in self.overrides:
            body += f"    def {m}(self, {SIGS[m]}):{METHODS[m]}\n"
        cls = f"class Prov{i}(%s):\n{body}"
        base = "Scripted"
        if r.random() < 0.4:
            top.append(f"class Base{i}(Scripted):\n    extra = {r.randrange(99)}\n    def note(self, method, bag, /, **args):\n        return super().note(method, bag, **args)")
            base = f"Base{i}"
        cls %= base
        if "closure" in F:
            ind = "".join("    " + ln + "\n" for ln in cls.splitlines())
            cls = (f"def make{i}(z):\n    start = [{r.randrange(9)}]\n    def counter():\n        return start[0] + len(z)\n" + ind + f"    return Prov{i}\n\nProv{i} = make{i}({r.choice(words)!r})")
        self.source = "\n\n".join(top + [cls]) + f"\n\nprov{i} = Prov{i}()\ntags['{i}'] = prov{i}.tag()\n"
        mod, name = r.choice([(None, None), ("", "Bucket"), ("mod/sub", "Thing"), ("m", None), ("Net/VPC", "subNet")])
        kw = "".join(f", {k}={v!r}" for k, v in (("module", mod), ("name", name)) if v is not None)
        direct = mod is None and r.random() < 0.5
        self.type = "pulumi-python:dynamic" + (f"/{mod}" if mod else "") + ":" + (name or "Resource")
        if not direct:
            self.source += f"class Res{i}(Resource{kw}):\n    out: pulumi.Output[str]\n    def __init__(self, name, props):\n        super().__init__(prov{i}, name, props)\n"
        else:
            self.source += f"def Res{i}(name, props):\n    return Resource(prov{i}, name, props)\n"
        self.props = {k: values.value(r, 2, False) for k in r.sample(["a", "b", "fooBar", "é", "rid"], r.choice([0, 1, 2, 3]))}
        self.count = r.choice([1, 2, 3])
        self.source += f"props{i} = {self.props!r}\nbefore{i} = repr(props{i})\n"
        for j in range(self.count):
            self.source += f"Res{i}('r{i}-{j}', props{i})\n"
        self.source += f"same['{i}'] = repr(props{i}) == before{i}\n"
        if "state" in F and r.random() < 0.5:  # what happens to the provider afterwards doesn't matter any more
            self.source += f"prov{i}.state = 'changed'\n"
        if r.random() < 0.3:
            self.source += f"try:\n    Res{i}('bad{i}', {{'a': 1, '__provider': {r.choice(['x', '', None])!r}}})\n    same['reserved{i}'] = False\nexcept Exception:\n    same['reserved{i}'] = True\n"


class Host:
    def __init__(self):
        env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "sdk/python/lib"))
        self.proc = subprocess.Popen([sys.executable, "-u", "-m", "pulumi.dynamic", "127.0.0.1:1"], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        port = self.proc.stdout.readline().decode().strip()
        threading.Thread(target=self.proc.stdout.read, daemon=True).start()
        self.chan = grpc.insecure_channel(f"127.0.0.1:{port}", options=[("grpc.max_receive_message_length", -1), ("grpc.max_send_message_length", -1)])
        self.stub = provider_pb2_grpc.ResourceProviderStub(self.chan)

    def stop(self):
        self.proc.kill()
        self.proc.wait()
        self.chan.close()


host = None


def canon(t):
    """What the provider's `canon` gives for a term of the engine."""
    if t is UNK:
        return {"?": 1}
    if isinstance(t, AssetT):
        return {"!": {"path": "FileAsset", "text": "StringAsset", "uri": "RemoteAsset"}[t.kind], "v": t.v}
    if isinstance(t, ArchiveT):
        return {"!": {"path": "FileArchive", "uri": "RemoteArchive", "assets": "AssetArchive"}[t.kind], "v": canon(t.v)}
    if isinstance(t, bool) or t is None or isinstance(t, str):
        return t
    if isinstance(t, (int, float)):
        return float(t)
    if isinstance(t, list):
        return [canon(x) for x in t]
    return {k: canon(x) for k, x in t.items()}


def bag(r, unk):
    d = {k: values.value(r, 2, False, unk) for k in r.sample(["a", "b", "fooBar", "foo_bar", "é", "items", "id", "urn", "name"], r.choice([0, 1, 2, 3]))}
    if r.random() < 0.2:
        d["asset"] = r.choice([AssetT("path", "/x"), AssetT("text", "ü"), AssetT("uri", "https://x/y"), ArchiveT("path", "./d"), ArchiveT("assets", {"f": AssetT("text", "")})])
    return d


class Rq:
    def __init__(self, r, g, text, tag, rid, tmp, kind):
        self.g, self.text, self.tag, self.rid, self.kind = g, text, tag, rid, kind
        base = {"rid": rid, "dir": tmp}
        unk = 0.15 if kind in ("check", "diff") else 0
        self.provider = text
        self.olds = {**bag(r, 0), "__provider": text}
        self.news = {**bag(r, unk), **base, "__provider": text}
        if unk and r.random() < 0.3:
            self.news["__provider"] = UNK
        elif kind == "check" and r.random() < 0.4:
            self.olds = {}
        elif r.random() < 0.2:  # a previous provider
            self.olds["__provider"] = "bm90IGEgcHJvdmlkZXI="
        self.id = r.choice(["id-1", "ü/x", "a b"])
        self.urn = f"urn:pulumi:stk::proj::{g.type}::r{g.i}"
        self.resp = self.error = None

    def send(self, h):
        k, news, s = self.kind, wire.struct(self.news), h.stub
        try:
            if k == "check":
                self.resp = s.Check(provider_pb2.CheckRequest(urn=self.urn, olds=wire.struct(self.olds), news=news), timeout=60)
            elif k == "diff":
                self.resp = s.Diff(provider_pb2.DiffRequest(urn=self.urn, id=self.id, olds=wire.struct(self.olds), news=news), timeout=60)
            elif k == "create":
                self.resp = s.Create(provider_pb2.CreateRequest(urn=self.urn, properties=news), timeout=60)
            elif k == "read":
                self.resp = s.Read(provider_pb2.ReadRequest(urn=self.urn, id=self.id, properties=news), timeout=60)
            elif k == "update":
                self.resp = s.Update(provider_pb2.UpdateRequest(urn=self.urn, id=self.id, olds=wire.struct(self.olds), news=news), timeout=60)
            else:
                self.resp = s.Delete(provider_pb2.DeleteRequest(urn=self.urn, id=self.id, properties=news), timeout=60)
        except grpc.RpcError as e:
            self.error = e

    def show(self):
        def brief(d):
            return {k: v for k, v in d.items() if k != "__provider"}

        return f"{self.kind} {self.g.script[self.kind]} overrides={self.g.overrides} features={self.g.features} news={brief(self.news)} olds={brief(self.olds)}"[:1800]

    def verify(self, ctx, tmp):
        ctx.evaluated()
        ctx.count("requests")
        ctx.count(self.kind)
        ctx.count("unknown_props", any(values.has(v, type(UNK)) or v is UNK for k, v in self.news.items() if k != "__provider"))
        ctx.count("unknown_provider", self.news["__provider"] is UNK)
        ctx.count("assets", "asset" in self.news)
        own = self.kind in self.g.overrides
        s = self.g.script[self.kind]
        path = os.path.join(tmp, self.rid)
        if own:
            if ctx.check(os.path.exists(path), "not-served", lambda: f"the provider's method wasn't called; {self.error}; {self.show()}"):
                with open(path) as f:
                    seen = json.load(f)
                ctx.check(seen.pop("method") == self.kind, "method", lambda: f"{seen} for {self.show()}")
                got = seen.pop("tag")
                ctx.check(got == self.tag, "behaviour", lambda: f"in the provider's process: {got[:700]}; in the program: {self.tag[:700]}; {self.show()}")
                want = {"olds": canon(self.olds), "news": canon(self.news)} if self.kind in ("check", "diff", "update") else {"props": canon(self.news)}
                if self.kind in ("diff", "read", "update", "delete"):
                    want["id"] = self.id
                ctx.check(wire.eq(seen, want), "arguments", lambda: f"method got {brief(seen)} instead of {brief(want)}; {self.show()}")
        else:
            ctx.count("default_methods")
        if own and s.get("raise") or self.kind == "create" and not own:
            ctx.count("failed_requests")
            what = "boom-" + self.rid if own else "create"
            ctx.check(self.error is not None and what in self.error.details(), "failure-lost", lambda: f"{self.error!r} {str(self.resp)[:300]} {self.show()}")
            return
        if not ctx.check(self.error is None, "failed", lambda: f"{self.error!r} for {self.show()}"):
            return
        if self.kind == "delete":
            return
        if self.kind == "diff":
            d = s["diff"] if own else {}
            changes = {None: 0, False: 1, True: 2}[d.get("changes")]
            got = (self.resp.changes, list(self.resp.replaces), list(self.resp.stables), self.resp.deleteBeforeReplace)
            want = (changes, d.get("replaces") or [], d.get("stables") or [], bool(d.get("delete_before_replace")))
            ctx.check(got == want, "diff", lambda: f"{got} instead of {want}; {self.show()}")
            ctx.count("missing_results", len(d) < 4)
            return
        outs = self.news
        if own:
            ctx.count("missing_results", s["outs"] in ("none", "missing"))
            outs = {"props": self.news, "lit": s["lit"]}.get(s["outs"], {})
        elif self.kind == "update":
            outs = {}
        want = {**outs, "__provider": self.news["__provider"]}
        got = wire.dec(self.resp.inputs if self.kind == "check" else self.resp.properties)
        ctx.check(wire.eq(got, want), "result", lambda: f"response has {brief(got)} instead of {brief(want)} (provider kept: {got.get('__provider') == want['__provider']}); {self.show()}")
        if self.kind == "check":
            fs = [tuple(f) for f in s["failures"]] if own else []
            ctx.count("failures", bool(fs))
            ctx.check([(f.property, f.reason) for f in self.resp.failures] == fs, "check-failures", lambda: f"{self.resp.failures} {self.show()}")
        elif self.kind != "update":
            want = s["id"] or "" if own else self.id
            ctx.check(self.resp.id == want, "id", lambda: f"{self.resp.id!r} instead of {want!r}; {self.show()}")


def brief(d):
    return {k: ({a: b for a, b in v.items() if a != "__provider"} if isinstance(v, dict) else v) for k, v in d.items() if k != "__provider"}


def execute(prog, out, hashseed, ctx):
    """The program, run by the language host; (registrations by name, what the program saw) or None."""
    eng = Engine()
    server, addr = grpcsrv.serve(eng, 8)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=os.path.join(REPO, "sdk/python/lib"), PULUMI_CONFIG="{}")
    try:
        p = subprocess.run([sys.executable, "-u", EXEC, "--monitor", addr, "--engine", addr, "--project", "proj", "--stack", "stk", "--parallel", "4", "--dry_run", "false", prog, out],
                           env=env, capture_output=True, timeout=120, text=True, errors="replace")
    finally:
        server.stop(0)
    if not ctx.check(p.returncode == 0, "program-failed", lambda: f"exit code {p.returncode}: {[m.message[-300:] for _, m in eng.logs if m.severity == 3]} {p.stderr[-500:]}"):
        return None
    with open(out) as f:
        seen = json.load(f)
    return {e.req.name: e.req for e in eng.registers()}, seen


def run(case, ctx):
    global host
    r = ctx.rng()
    gens = [Gen(r, i, case["i"] == 3 and i == 0) for i in range(4)]
    src = HEAD + "\ntags, same = {}, {}\n" + "\n".join(g.source for g in gens)
    # Pickling by the program itself isn't affected.
    src += "\nimport dill, pickle\nother = dill.loads(dill.dumps({'b': 1, 'a': {3, 1}}))\nsame['pickle'] = dict(vars(pickle._Pickler)) == pickler_methods and list(other) == ['b', 'a'] and list(pickle.loads(pickle._dumps({'b': 1, 'a': 2}))) == ['b', 'a'] and pickle.Pickler is pickler\n"
    src += "\nwith open(sys.argv[1], 'w') as f:\n    json.dump({'tags': tags, 'same': same}, f)\n"
    prog = os.path.join(ctx.tmp, f"prog{case['i']}.py")
    with open(prog, "w") as f:
        f.write(src)
    out = os.path.join(ctx.tmp, f"out{case['i']}")
    with ThreadPoolExecutor(2) as ex:
        first, second = ex.map(lambda s: execute(prog, f"{out}-{s}", s, ctx), (r.randrange(1, 1000), r.randrange(1000, 2000)))
    if first is None or second is None:
        return
    ctx.count("programs")
    for k, ok in first[1]["same"].items():
        ctx.check(ok, "reserved" if k.startswith("reserved") else "props-changed", lambda: f"{k}: {gens}")
    reqs = []
    for g in gens:
        ctx.count("providers")
        ctx.count("stateful", set(g.features) - {"const", "attr"} != set())
        ctx.count("sets", bool(set(g.features) & {"set", "const", "frozen"}))
        ctx.count("large", g.big)
        ctx.sig(" ".join(sorted(g.features)))
        texts = []
        for j in range(g.count):
            a, b = (x[0].get(f"r{g.i}-{j}") for x in (first, second))
            if not ctx.check(a is not None and b is not None, "not-registered", lambda: f"r{g.i}-{j} of {sorted(first[0])}"):
                continue
            ctx.count("registrations")
            pa, pb = (wire.dec(x.object) for x in (a, b))
            ta, tb = pa.pop("__provider", None), pb.pop("__provider", None)
            ctx.check(isinstance(ta, str) and ta != "", "no-provider", lambda: f"r{g.i}-{j}: {ta!r}")
            ctx.check(ta == tb, "not-deterministic", lambda: f"the provider of r{g.i}-{j} (features {g.features}) was serialized differently in another run of the program")
            want = values.strip_none(g.props)
            ctx.check(wire.eq(pa, want) and wire.eq(pb, want), "props", lambda: f"{pa} instead of {want}")
            ctx.check(a.type == g.type and a.custom and a.type == b.type, "type", lambda: f"{a.type} instead of {g.type}")
            texts.append(ta)
        if not texts:
            continue
        kinds = ["check", "check", "diff", "diff", "create", "read", "update", "delete"] + r.choices(list(METHODS), k=2)
        if g.big:
            kinds = ["check", "diff", "create"]
        for n, kind in enumerate(kinds):
            reqs.append(Rq(r, g, r.choice(texts), first[1]["tags"][str(g.i)], f"q{case['i']}-{g.i}-{n}", ctx.tmp, kind))
    if host is None:
        host = Host()
    r.shuffle(reqs)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda q: q.send(host), reqs))
    hung = [q for q in reqs if q.error is not None and q.error.code() == grpc.StatusCode.DEADLINE_EXCEEDED]
    dead = host.proc.poll() is not None
    ctx.check(not dead and not hung, "provider-died", lambda: f"provider's exit code {host.proc.poll()}; unanswered: {[q.show() for q in hung[:2]]}")
    if not dead and not hung:
        for q in reqs:
            q.verify(ctx, ctx.tmp)
        unsupported(ctx)
    else:
        host.stop()
        host = None
    for f in os.listdir(ctx.tmp):
        os.remove(os.path.join(ctx.tmp, f))


def unsupported(ctx):
    s = host.stub
    calls = [("Invoke", provider_pb2.InvokeRequest(tok="a:b:c")), ("CheckConfig", provider_pb2.CheckRequest()), ("DiffConfig", provider_pb2.DiffRequest()), ("GetSchema", provider_pb2.GetSchemaRequest()),
             ("Construct", provider_pb2.ConstructRequest()), ("Call", provider_pb2.CallRequest(tok="a:b:c/d"))]
    for name, req in calls:
        try:
            resp = getattr(s, name)(req, timeout=60)
            ctx.check(False, "unsupported", lambda: f"{name} answered {resp}")
        except grpc.RpcError as e:
            ctx.check(e.code() == grpc.StatusCode.UNIMPLEMENTED, "unsupported", lambda: f"{name} failed with {e!r}")
    ctx.count("unsupported")
    ctx.check(not s.Configure(provider_pb2.ConfigureRequest(), timeout=60).acceptSecrets, "configure", lambda: "accepts secrets")
    ctx.check(s.GetPluginInfo(empty_pb2.Empty(), timeout=60).version != "", "plugin-info", lambda: "no version")
    s.Cancel(empty_pb2.Empty(), timeout=60)
