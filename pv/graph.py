"""Random programs as statement trees: resources, components, reads, invokes, calls, apply callbacks and asyncio tasks that declare
further resources. Every statement knows which events (requests to the engine) must have been answered before its own is sent."""
import asyncio

import pulumi

from . import wire
from .engine import Engine, RpcFault, run_program


class Custom(pulumi.CustomResource):
    p: pulumi.Output

    def __init__(self, name, props=None, opts=None):
        super().__init__("test:index:Custom", name, {"p": None, **(props or {})}, opts)


class Remote(pulumi.ComponentResource):
    p: pulumi.Output

    def __init__(self, name, props=None, opts=None):
        super().__init__("test:index:Remote", name, {"p": None, **(props or {})}, opts, True)


class Prov(pulumi.ProviderResource):
    def __init__(self, name, props=None, opts=None):
        super().__init__("test", name, props, opts)


class Comp(pulumi.ComponentResource):
    def __init__(self, name, body, opts=None):
        super().__init__("test:index:Comp", name, None, opts)
        body(self)


GET = "pulumi:pulumi:getResource"


class Var:
    """Something that later statements can use. after: events that have ended once its value is available."""

    def __init__(self, name, kind, after, known, deep=False, res=()):
        self.name, self.kind, self.after, self.known = name, kind, frozenset(after), known
        self.res = frozenset(res)  # the resources that its Output carries
        self.deep = deep  # its value may depend on synchronous waiting in callbacks


class St:
    """One statement."""

    def __init__(self, kind, name, **kw):
        self.kind, self.name = kind, name
        self.ins, self.deps, self.parent, self.prov, self.body, self.src, self.outs, self.inner = [], [], None, None, [], None, [], None
        self.after, self.res, self.executed, self.form = frozenset(), set(), True, None
        self.__dict__.update(kw)

    def __repr__(self):
        extra = {k: v for k, v in self.__dict__.items() if k not in ("kind", "name", "after", "res", "key") and v not in (None, [], True)}
        return f"{self.kind}:{self.name}{extra or ''}"


EVENT = {"custom": "res", "remote": "res", "read": "res", "get": "res", "prov": "res", "comp": "res", "invoke": "invoke", "call": "call"}


class Gen:
    def __init__(self, rng, preview, *, invokes=True, size=10, depth=3, unknown=0.3, calls=True, tasks=True, tail=0.0):
        self.r, self.preview, self.invokes, self.calls, self.tasks, self.unknown = rng, preview, invokes, calls, tasks, unknown
        self.n = 0
        self.budget = size
        self.vars = {}
        self.unknown_props = set()
        self.children = {}  # component -> names of its direct children
        self.all = []
        root = frozenset([("res", "proj-stk")])
        self.root = self.block([], frozenset(), None, depth, True, root)
        if rng.random() < tail:  # a function at the very end: it makes the requests of what was declared before start while the program still runs
            self.one("invoke", [], frozenset().union(*[s.after | {s.key} for s in self.root if s.kind == "invoke"]), None, 0, True, root, True, self.root)

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def source(self, scope, plain=False):
        vs = [v for v in scope if not (plain and v.deep)]
        if not vs:
            return None
        v = self.r.choice(vs)
        how = self.r.choice(["direct", "direct", "apply", "all", "nest", "secret", "future", "urn", "id"])
        if how == "urn" and v.kind == "ret" or how == "id" and v.kind not in ("custom", "read", "get", "prov"):
            how = "direct"
        return (v.name, how)

    def known(self, src):
        v = self.vars[src[0]]
        if src[1] == "id":
            return v.kind in ("read", "get") or not self.preview
        return True if src[1] == "urn" or not self.preview else v.known

    def add(self, st):
        self.all.append(st)
        return st

    def descendants(self, name):
        out = set()
        for c in self.children.get(name, []):
            out.add(("res", c))
            out |= self.descendants(c)
        return out

    def may(self, st):
        """Everything that the request of a statement may have to wait for."""
        out = set(st.after)
        for n in st.res:
            if self.vars[n].kind == "comp":  # a component stands for its descendants, as far as they exist
                out |= self.descendants(n)
        return out - {st.key}

    def is_cyclic(self):
        """Whether some statements may end up waiting for each other. That takes a resource that depends on a component which it is
        itself below, and another resource of that component that depends on it: a component stands for all that is below it."""
        edges = {s.key: self.may(s) for s in self.all if s.key}
        state = {}
        for k in edges:
            if k in state:
                continue
            stack = [(k, iter(edges[k]))]
            state[k] = 1
            while stack:
                x, it = stack[-1]
                for y in it:
                    if state.get(y) == 1:
                        return True
                    if y not in state and y in edges:
                        state[y] = 1
                        stack.append((y, iter(edges[y])))
                        break
                else:
                    state[x] = 2
                    stack.pop()
        return False

    def block(self, scope, ctx, parent, depth, top, root, ex=True):
        """scope: usable Vars (extended in place for the block only)."""
        r = self.r
        scope = list(scope)
        out = []
        kinds = ["custom"] * 4 + ["remote", "read", "get", "prov", "comp", "comp", "export"]
        if self.calls:
            kinds += ["call"]
        if depth > 0:
            kinds += ["apply"] * 3
            if self.tasks:
                kinds += ["task"] * 2
        if self.invokes:
            kinds += ["invoke"] * 2
        for _ in range(r.choice([1, 2, 3]) if not top else self.budget):
            if self.budget <= 0:
                break
            self.budget -= 1
            k = r.choice(kinds)
            ctx = self.one(k, scope, ctx, parent, depth, top, root, ex, out)
        return out

    def use(self, scope, p=0.5, n=(1, 1, 2), plain=False):
        out = []
        for _ in range(self.r.choice(n) if self.r.random() < p else 0):
            s = self.source(scope, plain)
            if s:
                out.append(s)
        return out

    def after_of(self, srcs):
        return frozenset().union(*[self.vars[s[0]].after for s in srcs]) if srcs else frozenset()

    def one(self, k, scope, ctx, parent, depth, top, root, ex, out):
        r = self.r
        if k in ("custom", "remote", "read", "get", "prov", "comp"):
            name = self.fresh({"custom": "c", "remote": "m", "read": "g", "get": "q", "prov": "v", "comp": "K"}[k])
            st = St(k, name, key=("res", name), executed=ex)
            st.ins = self.use(scope, 0.6) if k not in ("comp",) else []
            ress = [v for v in scope if v.kind in ("custom", "remote", "read", "get", "prov", "comp")]
            st.deps = [r.choice(ress).name for _ in range(r.choice([1, 2]))] if ress and k != "get" and r.random() < 0.3 else []
            st.form = r.choice(["list", "out", "coro", "nested"])
            par = [v for v in ress if v.kind in ("comp", "comp", "custom", "remote")]
            st.parent = r.choice(par).name if par and r.random() < 0.25 else parent
            provs = [v for v in scope if v.kind == "prov"]
            st.prov = r.choice(provs).name if provs and k in ("custom", "read", "remote") and r.random() < 0.5 else None
            after = set(ctx) | set(self.after_of(st.ins)) | set(root)
            st.res = {x for i in st.ins for x in self.vars[i[0]].res} | set(st.deps)
            for d in st.deps:
                if self.vars[d].kind != "comp":
                    after |= self.vars[d].after
            if st.parent:
                after |= {("res", st.parent)} if k != "get" else set()  # what exists already doesn't need its parent
                self.children.setdefault(st.parent, []).append(name)
            if st.prov:
                after |= self.vars[st.prov].after
            st.after = frozenset(after)
            known = k in ("read", "get", "prov") or not self.preview or r.random() > self.unknown
            if not known:
                self.unknown_props.add(name)
            v = Var(name, k, after | {st.key}, known, deep=any(self.vars[s[0]].deep for s in st.ins), res={name})
            self.vars[name] = v
            out.append(self.add(st))
            if k == "comp":
                # children see the enclosing scope; what they declare is usable afterwards, too
                self.vars[name].known = True
                inner = list(scope) + [v]
                cx = ctx
                for _ in range(r.choice([0, 1, 2, 3])):
                    if self.budget <= 0:
                        break
                    self.budget -= 1
                    kk = r.choice(["custom", "custom", "remote", "comp", "apply", "read", "get"])
                    if kk == "apply" and depth <= 0:
                        kk = "custom"
                    cx = self.one(kk, inner, cx, name, depth - 1, False, root, ex, st.body)
                scope[:] = inner
                st.outs = self.use(inner, 0.6) if r.random() < 0.8 else None
                if st.outs is not None:
                    o = St("outputs", name, key=("outs", name), executed=ex)
                    o.after = frozenset(cx | {st.key} | self.after_of(st.outs))
                    self.add(o)
                return cx
            scope.append(v)
            return ctx
        if k == "invoke":
            name = self.fresh("i")
            st = St(k, name, key=("invoke", name), executed=ex)
            st.ins = self.use(scope, 0.5, plain=True) if top else []
            st.ins = [s for s in st.ins if not self.vars[s[0]].deep]
            st.after = frozenset(ctx | self.after_of(st.ins))
            out.append(self.add(st))
            return frozenset(ctx | {st.key} | st.after)
        if k == "call":
            name = self.fresh("f")
            st = St(k, name, key=("call", name), executed=ex)
            # The arguments of a call wait for all the children of the local components they derive from: none of those may be using
            # the result of the call.
            st.ins = self.use([v for v in scope if not any(self.vars[x].kind == "comp" for x in v.res)], 0.6)
            st.after = frozenset(ctx | self.after_of(st.ins))
            v = Var(name, "ret", st.after | {st.key}, not self.preview or r.random() > self.unknown,
                    deep=any(self.vars[s[0]].deep for s in st.ins))
            if not v.known:
                self.unknown_props.add(name)
            self.vars[name] = v
            scope.append(v)
            out.append(self.add(st))
            return ctx
        if k == "export":
            s = self.source(scope)
            if s and r.random() < 0.8:
                name = self.fresh("e")
                out.append(self.add(St("export", name, src=s, executed=ex, key=None)))
            return ctx
        s = self.source(scope)
        if s is None:
            return ctx
        if k == "apply":
            name = self.fresh("a")
            st = St("apply", name, src=s, executed=ex, key=None)
            kn = self.known(s)
            a = self.vars[s[0]].after
            st.body = self.block(scope, ctx | a, parent, depth - 1, False, root, ex and kn)
            inner = [x for x in st.body if x.kind in ("custom", "remote", "read", "get")]
            out.append(self.add(st))
            if r.random() < 0.7:
                after, known = set(a), kn
                if inner and r.random() < 0.7:
                    st.inner = r.choice(inner).name
                    known = kn and self.vars[st.inner].known
                    if kn:
                        after |= self.vars[st.inner].after
                res = set(self.vars[s[0]].res) | ({st.inner} if st.inner and kn else set())
                v = Var(name, "ret", after, known, deep=True, res=res)
                self.vars[name] = v
                scope.append(v)
            return ctx
        if k == "task":
            name = self.fresh("t")
            st = St("task", name, executed=ex, key=None, form=r.choice(["now", "sleep", "spin", "await"]))
            st.src = s
            a = self.vars[s[0]].after if st.form == "await" else frozenset()
            st.body = self.block(scope, ctx | a, parent, depth - 1, False, root, ex)
            out.append(self.add(st))
            return ctx
        raise AssertionError(k)


def generate(rng, preview, **kw):
    while True:
        g = Gen(rng, preview, **kw)
        if not g.is_cyclic():
            return g


class Run:
    """Runs a generated program against a fake engine, and relates its trace to the statements."""

    def __init__(self, gen, *, preview, schedule=None, seed=0, faults=None, hooks=None, after=None, on_quiet=None, workers=64,
                 on_feature=None, slow=0.0, **kw):
        self.gen = gen
        self.faults = faults or {}  # event key -> exception factory, or for callbacks: statement name -> exception
        self.env = {}
        self.declared = []
        self.finished_tasks = []
        self.started_tasks = []
        self.order = []
        self.invoked = []
        self.settled = 0
        self.caught = []
        self.exports = {}
        self.hooks = hooks or {}
        self.preview = preview
        eng = self.engine = Engine(preview=preview, schedule=schedule, seed=seed, on_register=self.on_register, on_read=self.on_read,
                                   on_invoke=self.on_invoke, on_call=self.on_call, on_outputs=self.on_outputs, on_feature=on_feature)
        if on_quiet is not None:
            eng.on_quiet = lambda: on_quiet(self)

        def program():
            if slow:  # something that the program does which takes longer than the rest
                asyncio.ensure_future(asyncio.sleep(slow))
            self.exec_block(gen.root, None)

        self.result = run_program(program, eng, preview=preview, workers=workers, after=after and (lambda: after(self)), **kw)
        self.trace()

    # -- engine side
    def fault(self, key):
        f = self.faults.get(key)
        if f is not None:
            return f()

    def obj(self, name):
        return {"p": wire.UNK if name in self.gen.unknown_props else "v-" + name}

    def on_register(self, req, urn):
        self.fault(("res", req.name))
        d = {"object": self.obj(req.name)}
        if ("answer", req.name) in self.faults:
            d["object"] = self.faults[("answer", req.name)]()
        d.update(self.hooks.get(("register", req.name), lambda: {})())
        return d

    def on_read(self, req, urn):
        self.fault(("res", req.name))
        if ("answer", req.name) in self.faults:
            return {"object": self.faults[("answer", req.name)]()}
        return {"object": self.obj(req.name)}

    def on_invoke(self, req):
        if req.tok == GET:
            urn = req.args["urn"]
            name = urn.split("::")[-1]
            f = self.fault(("res", name))
            if f:
                return f
            state = self.faults[("answer", name)]() if ("answer", name) in self.faults else self.obj(name)
            return "return", {"urn": urn, "id": "id-" + name, "state": state}
        name = req.tok.split(":")[-1]
        f = self.fault(("invoke", name))
        if f:
            return f
        return "return", {"r": "v-" + name}

    def on_call(self, req):
        name = req.tok.split(":")[-1]
        f = self.fault(("call", name))
        if f:
            return f
        return "return", {"p": wire.UNK if name in self.gen.unknown_props else "v-" + name}, {}

    def on_outputs(self, req):
        self.fault(("outs", req.urn.split("::")[-1]))

    # -- program side
    def value(self, src):
        name, how = src
        x = self.env[name]
        O = pulumi.Output
        if how == "urn":
            return x.urn
        if how == "id":
            return x.id
        if isinstance(x, Comp):
            o = x.urn
        elif isinstance(x, (Custom, Remote)):
            o = x.p
        elif isinstance(x, Prov):
            o = x.urn
        else:
            o = x
        if how == "apply":
            return o.apply(lambda v: v)
        if how == "all":
            return O.all(o, a=1) if False else O.all(o, "x")
        if how == "nest":
            return {"a": [o, 1]}
        if how == "secret":
            return O.secret(o)
        if how == "future":
            async def later():
                await asyncio.sleep(0)
                return "later"

            return [later(), o]
        return o

    def out(self, src):
        v = self.value(src)
        return v if isinstance(v, pulumi.Output) else pulumi.Output.from_input(v)

    def options(self, st, parent):
        kw = {}
        p = st.parent
        if p:
            kw["parent"] = self.env[p]
        if st.prov:
            kw["provider"] = self.env[st.prov]
        if st.deps:
            ds = [self.env[d] for d in st.deps]

            async def later():
                return ds

            kw["depends_on"] = {"list": lambda: ds if len(ds) > 1 else ds[0], "out": lambda: pulumi.Output.from_input(ds),
                                "coro": later, "nested": lambda: [pulumi.Output.from_input(d) for d in ds]}[st.form]()
        if st.kind == "get":
            kw["urn"] = self.engine.urn("test:index:Custom", st.name)
        if st.kind == "read":
            kw["id"] = "id-" + st.name
        return pulumi.ResourceOptions(**kw)

    def exec_block(self, body, parent):
        for st in body:
            self.exec(st, parent)

    def boom(self, key):
        f = self.faults.get(key)
        if f is not None:
            f()

    def exec(self, st, parent):
        k = st.kind
        self.boom(("before", st.name))
        if k in ("custom", "remote", "read", "get", "prov"):
            self.declared.append(st.name)
            props = {f"i{n}": self.value(s) for n, s in enumerate(st.ins)}
            bad = self.faults.get(("input", st.name))
            if bad is not None:
                props["bad"] = bad()
            cls = {"custom": Custom, "read": Custom, "get": Custom, "remote": Remote, "prov": Prov}[k]
            self.env[st.name] = cls(st.name, props, self.options(st, parent))
        elif k == "comp":
            self.declared.append(st.name)

            def body(comp):
                self.env[st.name] = comp
                self.exec_block(st.body, st.name)
                if st.outs is not None:
                    comp.register_outputs({f"o{n}": self.value(s) for n, s in enumerate(st.outs)})

            Comp(st.name, body, self.options(st, parent))
        elif k == "invoke":
            args = {f"i{n}": self.value(s) for n, s in enumerate(st.ins)}
            self.declared.append(st.name)
            if self.faults.get(("catch", st.name)):
                try:
                    r = pulumi.runtime.invoke("test:index:" + st.name, args)
                except Exception as exn:  # pylint: disable=broad-except
                    self.caught.append((st.name, str(exn)))
                    return
            else:
                r = pulumi.runtime.invoke("test:index:" + st.name, args)
            self.invoked.append((st.name, r.value))
        elif k == "call":
            self.declared.append(st.name)
            self.env[st.name] = pulumi.runtime.call("test:index:" + st.name, {f"i{n}": self.value(s) for n, s in enumerate(st.ins)})
        elif k == "export":
            self.exports[st.name] = st.src
            pulumi.export(st.name, self.value(st.src))
        elif k == "apply":
            def cb(v):
                self.order.append(st.name)
                self.exec_block(st.body, parent)
                self.boom(("callback", st.name))
                if ("result", st.name) in self.faults:
                    return self.faults["result", st.name]()
                if st.inner:
                    x = self.env[st.inner]
                    return x.p
                return "ret-" + st.name

            self.env[st.name] = self.out(st.src).apply(cb)
        elif k == "task":
            self.started_tasks.append(st.name)
            fut = self.out(st.src).future() if st.form == "await" else None

            async def task():
                if st.form == "sleep":
                    await asyncio.sleep(0.002)
                elif st.form == "spin":
                    for _ in range(7):
                        await asyncio.sleep(0)
                elif st.form == "await":
                    await fut
                self.exec_block(st.body, parent)
                self.boom(("callback", st.name))
                self.finished_tasks.append(st.name)

            asyncio.ensure_future(task())
        else:
            raise AssertionError(k)

    # -- trace
    def key_of(self, e):
        if e.method in ("RegisterResource", "ReadResource"):
            return ("res", e.req.name)
        if e.method == "Invoke":
            if e.req.tok == GET:
                return ("res", e.req.args["urn"].split("::")[-1])
            return ("invoke", e.req.tok.split(":")[-1])
        if e.method == "Call":
            return ("call", e.req.tok.split(":")[-1])
        if e.method == "RegisterResourceOutputs":
            return ("outs", e.req.urn.split("::")[-1])
        return None

    def trace(self):
        self.events = {}
        for e in self.engine.events:
            k = self.key_of(e)
            if k is not None:
                self.events.setdefault(k, []).append(e)

    def snapshot(self):
        """(keys requested, keys answered) right now."""
        req, done = set(), set()
        for e in list(self.engine.events):
            k = self.key_of(e)
            if k is not None:
                req.add(k)
                if e.end is not None:
                    done.add(k)
        return req, done


def program_sig(gen):
    def s(b):
        return "".join(x.kind[0:2] + str(len(x.ins)) + ("(" + s(x.body) + ")" if x.body else "") for x in b)
    return s(gen.root)
