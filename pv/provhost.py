"""A provider plugin that does what the script in the configuration of each request says, and records what it sees.

Run as the engine runs one: `python provhost.py <engine address>`; served by pulumi.provider.main."""
import asyncio
import json
import os
import sys
import threading

import pulumi
import pulumi.provider as provider


class Mod:
    """A registered module: references to its resources become resources."""

    def version(self):
        return None

    def construct(self, name, typ, urn):
        if typ.endswith(":Comp"):
            return Comp(typ, name, None, pulumi.ResourceOptions(urn=urn))
        return pulumi.CustomResource(typ, name, None, pulumi.ResourceOptions(urn=urn))


class Boom(Exception):
    pass


class Child(pulumi.CustomResource):
    def __init__(self, typ, name, props, opts):
        super().__init__(typ, name, {"out": None, **props}, opts)


class Comp(pulumi.ComponentResource):
    pass


def plain(v):
    if isinstance(v, pulumi.output.Unknown):
        return {"$unknown": True}
    if isinstance(v, pulumi.Resource):
        return {"$resource": True}
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


async def look(v):
    if isinstance(v, pulumi.Resource):
        rid = getattr(v, "id", None)
        return {"resource": await v.urn.future(), "id": await rid.future() if rid is not None else None}
    o = pulumi.Output.from_input(v)
    try:
        known, secret, val = await o.is_known(), await o.is_secret(), await o.future(with_unknowns=True)
        return {"known": known, "secret": secret, "value": plain(val), "deps": sorted([await r.urn.future() for r in await o.resources()]),
                "output": isinstance(v, pulumi.Output)}
    except Exception as e:  # pylint: disable=broad-except
        return {"error": repr(e)}


async def record(script, inputs, extra):
    out = {"inputs": {k: await look(v) for k, v in inputs.items()}, **extra}
    if "providers" in out:
        out["providers"] = {p.package: await look(pulumi.Output.all(p.urn, p.id).apply(list)) for p in out["providers"]}
    tmp = script["obs"] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.rename(tmp, script["obs"])


def environment():
    cfg = pulumi.Config("t")
    return {"project": pulumi.get_project(), "stack": pulumi.get_stack(), "preview": pulumi.runtime.is_dry_run(),
            "config": {k: cfg.get(k) for k in ("a", "b", "c")}, "secret_keys": [k for k in ("a", "b", "c") if pulumi.runtime.is_config_secret("t:" + k)]}


class Scripted(provider.Provider):
    def __init__(self):
        super().__init__("1.2.3-pv", json.dumps({"name": "pv"}) if "--schema" in sys.argv else None)

    def value(self, e, inputs, children):
        k = e[0]
        if k == "input":
            return inputs.get(e[1])
        if k == "lit":
            return e[1]
        if k == "secret":
            return pulumi.Output.secret(e[1])
        if k == "child":
            return getattr(children[e[1]], e[2])
        if k == "resource":
            return children[e[1]]
        if k == "list":
            return [self.value(x, inputs, children) for x in e[1]]
        if k == "boom":
            def boom(_):
                raise Boom("boom in state")
            return pulumi.Output.from_input(1).apply(boom)
        raise AssertionError(e)

    def make(self, s, inputs, opts, parent=None):
        children = {}
        for c in s["children"]:
            def one(c=c, _=None):
                children[c["name"]] = Child(c["type"], c["name"], {k: self.value(e, inputs, children) for k, e in c["props"].items()},
                                            pulumi.ResourceOptions(parent=parent, depends_on=[children[d] for d in c.get("depends", [])]))
            if c.get("after"):  # created within a callback on an output of another child
                def cb(_, c=c, one=one):
                    one(c)
                children[c["after"]].urn.apply(cb)
            else:
                one()
        return children

    def construct(self, name, resource_type, inputs, options=None):
        s = json.loads(pulumi.Config("t").require("script"))
        asyncio.ensure_future(record(s, inputs, {"name": name, "type": resource_type, "env": environment(),
                                                "providers": list((options.providers or {}).values()) if isinstance(options.providers, dict) else list(options.providers or [])}))
        if s["fail"] == "raise":
            raise Boom("boom in construct")
        if s["fail"] == "base":
            return super().construct(name, resource_type, inputs, options)
        comp = Comp(resource_type, name, None, options)
        children = self.make(s, inputs, options, comp)
        if s["outputs"]:
            comp.register_outputs({k: self.value(e, inputs, children) for k, e in s["state"].items()})
        return provider.ConstructResult(comp.urn if s["urn"] == "output" else "urn:given", {k: self.value(e, inputs, children) for k, e in s["state"].items()})

    def call(self, token, args):
        s = json.loads(pulumi.Config("t").require("script"))
        asyncio.ensure_future(record(s, args, {"name": token, "env": environment()}))
        if s["fail"] == "raise":
            raise Boom("boom in call")
        if s["fail"] == "base":
            return super().call(token, args)
        children = self.make(s, args, None)
        failures = [provider.CheckFailure(p, r) for p, r in s["failures"]] if s["failures"] is not None else None
        return provider.CallResult({k: self.value(e, args, children) for k, e in s["state"].items()}, failures)


def watch():
    sys.stdin.buffer.read()
    os._exit(0)


if __name__ == "__main__":
    threading.Thread(target=watch, daemon=True).start()
    pulumi.runtime.register_resource_module("test", "index", Mod())
    asyncio.set_event_loop(asyncio.new_event_loop())
    provider.main(Scripted(), sys.argv[1:])
