"""C21: configuration is read under the right key, from the right source, with the right type and secretness."""
import json
import os

import pulumi
import pulumi.runtime
from pulumi import Config, ConfigMissingError, ConfigTypeError

from pv import values, wire
from pv.engine import Engine, observe, run_program

RULE = ("One case = one program with a random configuration (set by the host, by single environment variables and by the environment as a whole, partly overlapping) for several "
        "bags, which reads 20 values by random accessors with and without defaults; each result or error is compared with a reference model; distinct by accessor, source "
        "and kind of value; non-trivial if the key was set.")
ASSUMPTIONS = ["values are strings; JSON null and numbers with spaces or underscores aren't tested"]
BAGS = ["proj", "aws", "my-ns", "a_b", "é"]
KEYS = ["region", "fooBar", "foo_bar", "x", "nested:key", "a.b", "0", "REGION"]
TEXTS = ["", "a", "ü☃\n", "12", "-3", "007", "0", "1.5", "-0.25", "1e3", "abc", "true", "True", "false", "False", "TRUE", "fALSE", "yes", "[]", "{}", '""', '"q"', "[1, {\"a\": null}]", "{bad",
         '{"a": {"b": [1.5, "☃", true, false]}}', "1", "00x"]


def plan(tier, seed):
    n = 5000 if tier == "quick" else 8000
    return [{"i": i} for i in range(n)]


def minimum(tier):
    return {"set": 1500, "unset": 800, "defaults": 300, "unused_defaults": 300, "type_errors": 500, "missing_errors": 250, "secrets": 1000, "from_env": 200, "from_env_map": 200,
            "overridden": 80, "falsy_defaults": 100, "falsy_values": 150, "other_bag": 300}


def parse(kind, s):
    """The value of s, or Bad."""
    if kind == "":
        return s
    if kind == "bool":
        return {"true": True, "True": True, "false": False, "False": False}.get(s, Bad)
    if kind == "int":
        d = s[1:] if s[:1] == "-" else s
        return int(s) if d.isdigit() else Bad
    if kind == "float":
        try:
            return float(s)
        except ValueError:
            return Bad
    try:
        return json.loads(s)
    except ValueError:
        return Bad


class Bad:
    pass


def env_name(k):
    return "PULUMI_CONFIG_" + "".join(c.upper() if c.isascii() and (c.isalnum() or c == "_") else "_" for c in k)


def run(case, ctx):
    r = ctx.rng()
    host, single, whole = {}, {}, {}
    full = [f"{b}:{k}" for b in BAGS for k in KEYS]
    for k in full:
        for d, p in ((host, 0.35), (single, 0.1), (whole, 0.12)):
            if r.random() < p:
                d[k] = r.choice(TEXTS) if r.random() < 0.8 else json.dumps(values.value(r, 2, False))
    secret_keys = [k for k in full if r.random() < 0.2] if r.random() < 0.85 else []
    stale = r.sample(full, r.choice([0, 0, 3, 10]))
    env = {env_name(k): v for k, v in single.items()}
    if whole or r.random() < 0.5:
        env["PULUMI_CONFIG"] = json.dumps(whole)
    late = {}
    for k in r.sample(full, 3):
        late[k] = r.choice(TEXTS)
    host_first = dict(host)
    log = []

    def value(k):
        if k in host:
            return host[k], "host"
        if env_name(k) in env:
            return env[env_name(k)], "env"
        if k in whole:
            return whole[k], "map"
        return None, None

    outs = []

    def prog():
        if stale:  # what's set as a whole replaces all that was there
            pulumi.runtime.set_all_config({k: "stale" for k in stale}, list(stale))
        pulumi.runtime.set_all_config(dict(host_first), list(secret_keys))
        for step in range(24):
            if step == 12:  # as with set_config at any time
                for k, v in late.items():
                    pulumi.runtime.set_config(k, v)
                    host[k] = v
            bag = r.choice(BAGS + ["proj"])
            cfg = r.choice([Config, Config])(bag) if bag != "proj" or r.random() < 0.5 else r.choice([lambda: Config(), lambda: Config(None), lambda: Config("")])()
            key = r.choice(KEYS)
            fk = f"{bag}:{key}"
            req, sec, kind = r.random() < 0.4, r.random() < 0.5, r.choice(["", "bool", "int", "float", "object"])
            name = ("require" if req else "get") + ("_secret" if sec else "") + ("_" + kind if kind else "")
            kw = {}
            if not req and not (sec and not kind) and r.random() < 0.5:
                kw["default"] = r.choice({"": ["", "dflt"], "bool": [True, False], "int": [0, 42], "float": [0.0, 2.5], "object": [{}, [], {"d": 1}, 0]}[kind])
            text, src = value(fk)
            try:
                got = ("ok", getattr(cfg, name)(key, **kw))
            except Exception as e:  # pylint: disable=broad-except
                got = ("exc", e)
            show = f"Config({bag!r}).{name}({key!r}, {kw}) with {text!r} from {src}"
            want = parse(kind, text) if text is not None else None
            ctx.evaluated()
            ctx.count("set" if text is not None else "unset")
            ctx.count("other_bag", text is None and any(f"{b}:{key}" in host for b in BAGS))
            ctx.count("from_env", src == "env")
            ctx.count("from_env_map", src == "map")
            ctx.count("overridden", src is not None and sum([fk in host, env_name(fk) in env, fk in whole]) > 1)
            ctx.check(cfg.full_key(key) == fk and cfg.name == bag, "full-key", lambda: f"{cfg.full_key(key)} {show}")
            ctx.check(pulumi.runtime.is_config_secret(fk) == (fk in secret_keys), "is-secret", lambda: show)
            if src:
                ctx.sig((name, src, text, bool(kw)))
            if want is Bad:
                ctx.count("type_errors")
                e = got[1]
                typ = {"bool": "bool", "int": "int", "float": "float", "object": "JSON object"}[kind]
                ctx.check(got[0] == "exc" and isinstance(e, ConfigTypeError) and isinstance(e, pulumi.RunError) and (e.key, e.value, e.expect_type) == (fk, text, typ) and fk in str(e),
                          "type-error", lambda: f"{show}: {got!r}")
                continue
            if text is None and req:
                ctx.count("missing_errors")
                e = got[1]
                ctx.check(got[0] == "exc" and isinstance(e, ConfigMissingError) and isinstance(e, pulumi.RunError) and e.key == fk and fk in str(e), "missing-error", lambda: f"{show}: {got!r}")
                continue
            if text is None:
                want = kw.get("default")
                ctx.count("defaults", bool(kw))
                ctx.count("falsy_defaults", bool(kw) and not want)
            else:
                ctx.count("unused_defaults", bool(kw))
                ctx.count("falsy_values", not want)
            if not ctx.check(got[0] == "ok", "failed", lambda: f"{show}: {got[1]!r}"):
                continue
            if sec and want is not None:
                ctx.count("secrets")
                if ctx.check(isinstance(got[1], pulumi.Output), "not-secret", lambda: f"{show}: {got[1]!r}"):
                    outs.append((show, want, got[1]))
            else:
                ctx.check(type(got[1]) is type(want) and got[1] == want, "value", lambda: f"{show}: {got[1]!r} instead of {want!r}")
                ctx.sample({"access": show, "value": repr(got[1])})
        ctx.check((pulumi.get_project(), pulumi.get_stack(), pulumi.get_organization()) == ("proj", "stk", "org"), "metadata", "project, stack or organization")

    async def after():
        for show, want, o in outs:
            x = await observe(o)
            ctx.check(x[0] == "ok" and x[2] is True and x[3] is True and x[4] == set() and type(x[1]) is type(want) and x[1] == want, "secret-value",
                      lambda: f"{show}: {x!r} instead of secret {want!r}")

    saved = dict(os.environ)
    os.environ.update(env)
    try:
        res = run_program(prog, Engine(seed=case["i"]), organization="org", after=after)
    finally:
        os.environ.clear()
        os.environ.update(saved)
    ctx.check(res.ok, "program-failed", lambda: repr(res))
