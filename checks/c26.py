"""C26: every logged message reaches the engine once, unchanged, before the program is done."""
import asyncio
import contextlib
import io

import pulumi
from pulumi import ComponentResource, CustomResource, Output, ResourceOptions

from pv.engine import Engine, run_program

RULE = ("One case = a random program that logs 3-15 messages of all severities (some about resources that aren't registered yet, with streams, ephemeral) at top level, in callbacks, coroutines and component bodies, "
        "under adversarial answer orders, also if the program raises afterwards, or without an engine; the engine's log is compared with a model; distinct by places and severities, non-trivial if a message "
        "is about a resource.")
ASSUMPTIONS = ["messages of the SDK itself are told apart by a tag in the program's ones", "debug messages are dropped without an engine"]
CASE_TIMEOUT = 60
SEV = {"debug": 0, "info": 1, "warn": 2, "error": 3}
TEXTS = ["", "plain", "ünï 😀", "line\nbreak\r\n", "{} %s %d {0}", "\x00\x1b[31m", "x" * 20000, "a::b", "</>"]


def plan(tier, seed):
    return [{"i": i, "preview": i % 4 == 1, "schedule": ["shuffle", "lifo", "sleep", None][i % 4], "fail": i % 7 == 3, "no_engine": i % 11 == 4} for i in range(7500 if tier == "quick" else 9000)]


def minimum(tier):
    return {"messages": 6000, "resource": 2400, "late": 1800, "callback": 300, "coroutine": 300, "component": 700, "ephemeral": 2500, "streams": 3000, "failing": 150, "stderr": 250, "big": 500, **{s: 1300 for s in SEV}}


def run(case, ctx):
    r = ctx.rng()
    eng = Engine(preview=case["preview"], schedule=case["schedule"], seed=case["i"])
    want, order, err_want = [], [], []
    n = [0]

    def emit(res=None, ordered=False):
        sev = r.choice(list(SEV))
        n[0] += 1
        msg = f"[pv{n[0]}]" + r.choice(TEXTS)
        kw, urn = {}, ""
        if res is not None:
            kw["resource"] = res[0]
            urn = res[1]
            ctx.count("resource")
            ctx.count("late", not res[0].urn.future().done())
        sid = r.choice([None, None, 0, 1, 2147483647])
        eph = r.choice([None, None, True, False])
        if sid is not None:
            kw["stream_id"] = sid
            ctx.count("streams")
        if eph is not None:
            kw["ephemeral"] = eph
            ctx.count("ephemeral")
        rec = (SEV[sev], msg, urn, sid or 0, bool(eph))
        want.append(rec)
        if res is None and ordered:
            order.append(msg)
        if sev != "debug":
            err_want.append({"info": "info: ", "warn": "warning: ", "error": "error: "}[sev] + msg)
        ctx.count(sev)
        ctx.count("messages")
        ctx.count("big", len(msg) > 10000)
        getattr(pulumi.log, sev)(msg, **kw)

    class Comp(ComponentResource):
        def __init__(self, name, k, opts=None):
            super().__init__("my:c:Comp", name, {}, opts)
            for _ in range(k):
                ctx.count("component")
                emit(r.choice([None, (self, urn_of("my:c:Comp", name))]), True)
            if r.random() < 0.5:
                self.register_outputs({})

    def urn_of(typ, name):
        return f"urn:pulumi:stk::proj::{typ}::{name}"

    places = []

    def prog():
        made = []
        for i in range(r.choice([1, 3, 5])):
            name = f"r{i}"
            place = r.choice(["top", "top", "callback", "coroutine", "component", "resource"])
            places.append(place)
            if place == "component":
                c = Comp(name, r.choice([1, 2, 3]))
                made.append((c, urn_of("my:c:Comp", name)))
            elif place == "callback":
                src = made[-1][0].urn if made else Output.from_input(1)

                def cb(v, res=r.choice(made) if made and r.random() < 0.5 else None):
                    ctx.count("callback")
                    emit(res)
                    return v

                Output.from_input({"a": src}).apply(cb)
            elif place == "coroutine":
                async def co(res=r.choice(made) if made and r.random() < 0.5 else None):
                    await asyncio.sleep(r.choice([0, 0, 0.002]))
                    ctx.count("coroutine")
                    emit(res)

                Output.from_input(co())
            else:
                # (A resource that depends on the component that it's below would wait for itself.)
                before = [m for m in made if isinstance(m[0], CustomResource)]
                ins = {"a": before[-1][0].urn} if before and r.random() < 0.6 else {}
                made.append((CustomResource("t:m:R", name, ins, ResourceOptions(parent=r.choice([None, *[m[0] for m in made]]))), urn_of("t:m:R", name)))
                for _ in range(r.choice([0, 1, 2])):
                    emit(r.choice(made) if r.random() < 0.5 else None, True)
            if r.random() < 0.5:
                emit(r.choice(made) if made and r.random() < 0.5 else None, True)
            if r.random() < 0.15:
                emit((pulumi.runtime.get_root_resource(), "urn:pulumi:stk::proj::pulumi:pulumi:Stack::proj-stk"), True)
        if case["fail"]:
            raise pulumi.RunError("stop")

    err = io.StringIO()
    with contextlib.redirect_stderr(err) if case["no_engine"] else contextlib.nullcontext():
        res = run_program(prog, eng, preview=case["preview"], no_engine=case["no_engine"])
        with eng.lock:
            got = [(m.severity, m.message, m.urn, m.streamId, m.ephemeral) for _, m in eng.logs if m.message.startswith("[pv")]
    ctx.evaluated()
    ctx.count("failing", case["fail"])
    ctx.sig(",".join(places) + str(sorted({w[0] for w in want})))
    what = f"{places} fail={case['fail']} preview={case['preview']}"
    if not ctx.check(res.stuck is None, "hang", lambda: f"{what}: {res}"):
        return
    ctx.check((res.exc is None) == (not case["fail"]), "outcome", lambda: f"{what}: {res}")
    short = lambda xs: [(s, m[:40], u, i, e) for s, m, u, i, e in xs]  # noqa: E731
    if case["no_engine"]:
        ctx.count("stderr", len(err_want))
        text = err.getvalue()
        for w in err_want:
            ctx.check(text.count(w + "\n") == 1, "stderr", lambda: f"{w[:60]!r} is {text.count(w)} times in {text[:500]!r}")
        ctx.check(not got, "engine", lambda: f"{got}")
        return
    # The URNs of resources have the types of their parents within.
    fix = lambda u: u if "Stack::" in u else "::".join(u.split("::")[:2] + [u.split("::")[2].split("$")[-1]] + u.split("::")[3:]) if u else u  # noqa: E731
    got = [(s, m, fix(u), i, e) for s, m, u, i, e in got]
    missing = [x for x in want if x not in got]
    extra = [x for x in got if x not in want]
    ctx.check(not missing and not extra, "messages", lambda: f"{what}: missing {short(missing)}, unexpected {short(extra)}")
    ctx.check(len(got) == len(set(m[1] for m in got)), "repeated", lambda: f"{what}: {short(got)}")
    seen = [m for _, m, _, _, _ in got if m in order]
    ctx.check(seen == [m for m in order if m in seen], "order", lambda: f"{what}: {[m[:40] for m in seen]} instead of {[m[:40] for m in order]}")

