"""C14: transformations run once each in order, on what the previous ones made of the arguments, and their result is what's registered."""
import pulumi

from pv import wire
from pv.engine import Engine, run_program

RULE = ("One case = one program with a random tree of 4-9 components, custom, remote, typed and read resources and providers, each with up to 3 random "
        "transformations (observing, replacing the properties, the options or both; some misbehave), and stack transformations registered along the way; "
        "every call of a transformation and every request is compared with a fold over the chain of ancestors; distinct by tree and effects, non-trivial if at least two "
        "transformations changed the same resource.")
ASSUMPTIONS = ["transformations don't change the objects that they are given, and are not given in the options that a transformation returns",
               "a stack transformation is registered before the parent of what it should affect (a component keeps those that it was created with)"]


def plan(tier, seed):
    n = 2000 if tier == "quick" else 8000
    return [{"i": i, "preview": i % 3 == 0, "schedule": [None, "shuffle", None][i // 3 % 3]} for i in range(n)]


def minimum(tier):
    return {"calls": 3000, "changes": 1500, "requests": 900, "inherited_calls": 1000, "stack_calls": 500, "reads": 50, "reparented": 15,
            "inherited_protect": 40, "stopped": 15}


class Boom(Exception):
    pass


@pulumi.input_type
class Args:
    def __init__(__self__, *, trail=None, my_prop=None):
        pulumi.set(__self__, "trail", trail)
        if my_prop is not None:
            pulumi.set(__self__, "my_prop", my_prop)

    @property
    @pulumi.getter
    def trail(self):
        return pulumi.get(self, "trail")

    @property
    @pulumi.getter(name="myProp")
    def my_prop(self):
        return pulumi.get(self, "my_prop")


class Node:
    def __repr__(self):
        return f"{self.kind}:{self.name}<{self.parent and self.parent.name} {self.transformations}"


class T:
    """One transformation: what it does."""

    def __init__(self, name, effect):
        self.name, self.effect = name, effect

    def __repr__(self):
        return f"{self.name}={self.effect}"


def run(case, ctx):
    r = ctx.rng()
    eng = Engine(preview=case["preview"], schedule=case["schedule"], seed=case["i"])
    nodes, script = [], []
    stack_ts = []
    k = 0

    def make(owner):
        nonlocal k
        k += 1
        eff = r.choice(["observe", "props", "props", "opts", "opts", "both", "protect", "version", "same", "drop"])
        return T(f"{owner}t{k}", eff)

    bad = r.choice([None, None, None, None, "reparent", "unparent", "raise"])
    for i in range(r.choice([4, 6, 9])):
        if r.random() < (0.4 if i == 0 else 0.2):
            t = make("S")
            stack_ts = stack_ts + [t]
            script.append(("stack", t))
        n = Node()
        n.name = f"n{i}"
        n.kind = r.choice(["comp", "comp", "custom", "remote", "typed", "read", "prov"])
        ok = [m for m in nodes if m.stack_ts == stack_ts]
        n.parent = r.choice(ok) if ok and r.random() < 0.7 else None
        n.stack_ts = stack_ts
        n.transformations = [make(n.name) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        if n.transformations and r.random() < 0.15:  # one function, given twice
            n.transformations.append(n.transformations[0])
        inherited = n.parent.chain if n.parent else stack_ts
        if inherited and r.random() < 0.2:  # one that it inherits, too
            n.transformations.insert(r.choice([0, len(n.transformations)]), r.choice(inherited))
        n.chain = n.transformations + (n.parent.chain if n.parent else stack_ts)
        n.protect = r.choice([None, None, None, True, False])
        n.ignore = r.choice([None, None, ["a"], []])
        nodes.append(n)
        script.append(("new", n))
    if bad:
        n = r.choice([n for n in nodes if n.chain] or [None])
        if n is None:
            bad = None
        else:
            r.choice(n.chain).effect = bad
    calls = []
    created = {}
    fns = {}

    def function(t):
        if t in fns:
            return fns[t]

        def f(args):
            calls.append((t, args.resource, args.type_, args.name, list((args.props or {}).get("trail") or []),
                          args.opts.protect, list(args.opts.ignore_changes or []), args.opts.version, args.opts.parent))
            props, opts = args.props, args.opts
            if t.effect == "raise":
                raise Boom(t.name)
            if t.effect == "observe":
                return None
            if t.effect in ("reparent", "unparent"):
                # not the parent that it has
                other = None if opts.parent is not None else next(iter(created.values()), None)
                if other is opts.parent:
                    return None
                new = pulumi.ResourceOptions.merge(opts, None)
                new.parent = other
                return pulumi.ResourceTransformationResult(props, new)
            if t.effect in ("props", "both"):
                props = {**(props or {}), "trail": list((props or {}).get("trail") or []) + [t.name]}
            if t.effect in ("opts", "both"):
                opts = pulumi.ResourceOptions.merge(opts, pulumi.ResourceOptions(ignore_changes=[t.name]))
            if t.effect == "protect":
                opts = pulumi.ResourceOptions.merge(opts, pulumi.ResourceOptions(protect=True))
            if t.effect == "version":
                opts = pulumi.ResourceOptions.merge(opts, pulumi.ResourceOptions(version=t.name))
            if t.effect == "drop":
                props = {}
            return pulumi.ResourceTransformationResult(props=props, opts=opts)

        fns[t] = f
        return f

    stopped = {}

    def prog():
        for what, x in script:
            if what == "stack":
                pulumi.runtime.register_stack_transformation(function(x))
                continue
            n = x
            kw = {"read": {"id": "rid"}}.get(n.kind, {})
            if n.protect is not None:
                kw["protect"] = n.protect
            if n.ignore is not None:
                kw["ignore_changes"] = list(n.ignore)
            if n.parent:
                kw["parent"] = created.get(n.parent)
                if kw["parent"] is None:
                    continue
            if n.transformations:
                kw["transformations"] = [function(t) for t in n.transformations]
            opts = pulumi.ResourceOptions(**kw) if kw or r.random() < 0.5 else None
            given = dict(vars(opts)) if opts else None
            props = {"trail": [], "my_prop": 1}
            try:
                if n.kind == "comp":
                    res = pulumi.ComponentResource("test:index:Comp", n.name, dict(props), opts)
                elif n.kind == "remote":
                    res = pulumi.ComponentResource("test:index:Remote", n.name, dict(props), opts, True)
                elif n.kind == "typed":
                    res = pulumi.CustomResource("test:index:Typed", n.name, Args(trail=[], my_prop=1), opts)
                elif n.kind == "prov":
                    res = pulumi.ProviderResource("test", n.name, dict(props), opts)
                else:
                    res = pulumi.CustomResource("test:index:Custom", n.name, props, opts)
            except Exception as e:  # pylint: disable=broad-except
                stopped[n] = e
                continue
            created[n] = res
            if opts:
                now = dict(vars(opts))
                for a, b in given.items():
                    ctx.check(now[a] is b or now[a] == b, "options-changed", lambda: f"{n.name}: option {a} was {b!r}, is {now[a]!r}")

    res = run_program(prog, eng, preview=case["preview"])
    show = lambda: f"bad={bad} {script}"[:1500]
    if not ctx.check(res.ok, "program-failed", lambda: f"{res!r} {show()}"):
        return
    # The model
    want = []
    state = {}
    fail = {}
    for what, n in script:
        if what == "stack":
            continue
        if n.parent and n.parent in fail:
            fail[n] = "parent"
            continue
        trail, mine, prot, ign, ver = [], 1, n.protect, list(n.ignore or []), None
        for t in n.chain:
            want.append((t, n, trail, prot, ign, ver))
            if t.effect == "raise":
                fail[n] = "raise"
                break
            if t.effect == "unparent" or t.effect == "reparent":
                if n.parent is not None or any(m not in fail for m in nodes[:nodes.index(n)]):
                    fail[n] = "reparent"
                    break
                continue
            if t.effect in ("props", "both"):
                trail = trail + [t.name]
            if t.effect in ("opts", "both"):
                ign = ign + [t.name]
            if t.effect == "protect":
                prot = True
            if t.effect == "version":
                ver = t.name
            if t.effect == "drop":
                trail, mine = [], None
        if n in fail:
            continue
        if prot is None and n.parent:
            prot = state[n.parent][2]
            if prot:
                ctx.count("inherited_protect")
        state[n] = (trail, mine, prot, ign, ver)
    for n in nodes:
        why = fail.get(n)
        e = stopped.get(n)
        if why in ("raise", "reparent"):
            ctx.count("stopped")
            ctx.count("reparented", why == "reparent")
            ctx.check(isinstance(e, Boom) if why == "raise" else type(e) is Exception and "parent" in str(e), "not-rejected",
                      lambda: f"{n}: {why} by a transformation leads to {e!r}; {show()}")
        elif why is None:
            ctx.check(e is None, "rejected", lambda: f"{n}: {e!r}; {show()}")
    names = {n.name: n for n in nodes}
    ctx.evaluated(len(want))
    types = {"comp": "test:index:Comp", "remote": "test:index:Remote", "typed": "test:index:Typed", "prov": "pulumi:providers:test"}
    ctx.check([(c[0].name, c[3]) for c in calls] == [(w[0].name, w[1].name) for w in want], "calls",
              lambda: f"transformations called: {[(c[0].name, c[3]) for c in calls]} instead of {[(w[0].name, w[1].name) for w in want]}; {show()}")
    for c, w in zip(calls, want):
        t, n, trail, prot, ign, ver = w
        ctx.count("calls")
        ctx.count("inherited_calls", t not in n.transformations)
        ctx.count("stack_calls", t.name[0] == "S")
        ctx.count("changes", t.effect not in ("observe", "same", "raise"))
        seen = (c[0].name, c[2], c[3], c[4], c[5], c[6], c[7])
        should = (t.name, types.get(n.kind, "test:index:Custom"), n.name, trail, prot, ign, ver)
        ctx.check(seen == should, "arguments", lambda: f"{t.name} of {n.name} saw {seen} instead of {should}; {show()}")
        ctx.check((c[1] is created[n] if n in created else c[1] is not None) and c[8] is (created[n.parent] if n.parent else None), "arguments-resource",
                  lambda: f"{t.name} of {n.name} got {c[1]!r} below {c[8]!r}; {show()}")
    reqs = {e.req.name: e.req for e in eng.registers() + eng.by("ReadResource")}
    ctx.check(set(reqs) == {n.name for n in state}, "requested", lambda: f"{sorted(reqs)} instead of {sorted(n.name for n in state)}; {show()}")
    for n, (trail, mine, prot, ign, ver) in state.items():
        req = reqs.get(n.name)
        if req is None:
            continue
        ctx.count("requests")
        obj = req.properties if n.kind == "read" else req.object
        got = {k: wire.dec(v) for k, v in obj.fields.items()}
        key = "myProp" if n.kind == "typed" else "my_prop"
        exp = {key: mine, "trail": trail}
        if mine is None:
            del exp[key]
            if not trail:
                exp.pop("trail")
        ctx.check(got == exp, "props", lambda: f"{n.name} is requested with {got} instead of {exp}; {show()}")
        ctx.check(req.version == (ver or ""), "version", lambda: f"{n.name} is requested with version {req.version!r} instead of {ver!r}; {show()}")
        if n.kind == "read":
            ctx.count("reads")
            continue
        ctx.check(list(req.ignoreChanges) == ign, "options",
                  lambda: f"{n.name} is requested with {list(req.ignoreChanges)} instead of {ign}; {show()}")
        ctx.check(req.protect == bool(prot), "protect", lambda: f"{n.name} is requested with protect={req.protect} instead of {prot}; {show()}")
    if any(len(s[0]) + len(s[3]) > 1 for s in state.values()):
        ctx.sig(show())
        ctx.sample(show()[:600])
