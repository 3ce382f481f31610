"""C31: engine events are delivered exactly once, in order, complete, while the operation runs."""
import json
import os
import shutil
import tempfile
import threading
import time

from pulumi import automation as auto

from pv import clisim

RULE = ("One case = 1-3 operations, one after the other or on several stacks at once, whose simulated CLI writes 1-40 random events of all kinds to the event log in random fragments with pauses; every event "
        "delivered is compared field by field with what was written; distinct by the kinds of events and fragments, non-trivial if an event is written in parts.")
ASSUMPTIONS = ["events end with a cancel event (unless the CLI dies, which is sampled less often as the API then waits for 5 s)", "events of unknown kinds are delivered without payload", "callbacks don't raise"]
CASE_TIMEOUT = 120
TEXT = ["", "plain", "ünï 😀", "line\nbreak", "\u2028 \r", "{\"x\": 1}", "<{%reset%}>", "z" * 9000]
OPS = ["same", "create", "update", "delete", "replace", "create-replacement", "delete-replaced", "read", "read-replacement", "refresh", "discard", "discard-replaced", "remove-pending-replace", "import",
       "import-replacement"]


def plan(tier, seed):
    return [{"i": i, "dies": i % 60 == 7} for i in range(220 if tier == "quick" else 4000)]


def minimum(tier):
    return {"operations": 140, "events": 1800, "fragments": 900, "split": 600, "concurrent": 40, "previews": 25, "live": 8, "slow_listeners": 6, "dies": 1, "unknown": 100, "large": 30, **{k: 120 for k in KINDS if k != "unknown"}}


def text(r):
    return r.choice(TEXT)


def maybe(r, d, *pairs, p=0.6):
    for k, v in pairs:
        if r.random() < p:
            d[k] = v() if callable(v) else v
    return d


def jval(r, depth=2):
    k = r.choice("snblo" if depth else "snb")
    return {"s": text(r), "n": r.choice([0, 1.5]), "b": True, "l": [1, None], "o": {"a": jval(r, depth - 1) if depth else 1, "camelCase": 2}}[k]


def state(r):
    s = {"type": text(r), "urn": "urn:" + text(r), "id": text(r), "parent": text(r), "provider": text(r)}
    return maybe(r, s, ("custom", True), ("delete", True), ("protect", True), ("inputs", lambda: {"a": jval(r), "fooBar": jval(r)}), ("outputs", lambda: {"x": jval(r)}), ("initErrors", ["e1", text(r)]))


def metadata(r):
    m = {"op": r.choice(OPS), "urn": "urn:" + text(r), "type": text(r), "old": state(r) if r.random() < 0.5 else None, "new": state(r) if r.random() < 0.6 else None, "provider": text(r)}
    return maybe(r, m, ("keys", ["k"]), ("diffs", ["d", "e.f"]), ("logical", True), p=0.5) if r.random() < 0.6 else maybe(
        r, m, ("detailedDiff", lambda: {p: maybe(r, {"diffKind": r.choice(["add", "add-replace", "delete", "delete-replace", "update", "update-replace"])}, ("inputDiff", True)) for p in ("a.b", "c[0]", "é")}))


def res(r):
    return maybe(r, {"metadata": metadata(r)}, ("planning", True))


KINDS = {
    "stdoutEvent": lambda r: {"message": text(r), "color": "never"},
    "diagnosticEvent": lambda r: maybe(r, {"message": text(r), "color": "raw", "severity": r.choice(["info", "info#err", "warning", "error"])}, ("streamID", lambda: r.choice([1, 77])), ("ephemeral", True),
                                       ("urn", lambda: text(r)), ("prefix", lambda: text(r))),
    "preludeEvent": lambda r: {"config": {"p:a": text(r), "é": ""} if r.random() < 0.7 else {}},
    "summaryEvent": lambda r: {"maybeCorrupt": r.random() < 0.3, "durationSeconds": r.choice([0, 7]), "resourceChanges": {o: r.choice([0, 1, 9]) for o in r.sample(OPS, 2)},
                               "PolicyPacks": {"pack": "v1"} if r.random() < 0.5 else {}},
    "resourcePreEvent": res, "resOutputsEvent": res,
    "resOpFailedEvent": lambda r: {"metadata": metadata(r), "status": r.choice([0, 3]), "steps": r.choice([0, 12])},
    "policyEvent": lambda r: maybe(r, {"message": text(r), "color": "x", "policyName": text(r), "policyPackName": "pp", "policyPackVersion": "1", "policyPackVersionTag": "1.0", "enforcementLevel": "mandatory"},
                                   ("resourceUrn", lambda: text(r))),
    "unknown": lambda r: {"x": 1},
}
SNAKE = {"streamID": "stream_id", "PolicyPacks": "policy_packs", "resourceChanges": "resource_changes", "maybeCorrupt": "maybe_corrupt", "durationSeconds": "duration_seconds", "policyName": "policy_name",
         "policyPackName": "policy_pack_name", "policyPackVersion": "policy_pack_version", "policyPackVersionTag": "policy_pack_version_tag", "enforcementLevel": "enforcement_level",
         "resourceUrn": "resource_urn", "initErrors": "init_errors", "detailedDiff": "detailed_diff", "diffKind": "diff_kind", "inputDiff": "input_diff", "stdoutEvent": "stdout_event",
         "diagnosticEvent": "diagnostic_event", "preludeEvent": "prelude_event", "summaryEvent": "summary_event", "resourcePreEvent": "resource_pre_event", "resOutputsEvent": "res_outputs_event",
         "resOpFailedEvent": "res_op_failed_event", "policyEvent": "policy_event", "cancelEvent": "cancel_event"}
OPTIONAL = {"stdout_event": (), "diagnostic_event": ("stream_id", "ephemeral", "urn", "prefix"), "policy_event": ("resource_urn",), "res": ("planning",),
            "metadata": ("keys", "diffs", "detailed_diff", "logical", "old", "new"), "state": ("custom", "delete", "protect", "inputs", "outputs", "init_errors")}


def cls_name(kind):
    from pulumi.automation import events as e  # pylint: disable=import-outside-toplevel

    return {"stdout_event": e.StdoutEngineEvent, "diagnostic_event": e.DiagnosticEvent, "prelude_event": e.PreludeEvent, "summary_event": e.SummaryEvent, "resource_pre_event": e.ResourcePreEvent,
            "res_outputs_event": e.ResOutputsEvent, "res_op_failed_event": e.ResOpFailedEvent, "policy_event": e.PolicyEvent, "cancel_event": e.CancelEvent, "metadata": e.StepEventMetadata,
            "old": e.StepEventStateMetadata, "new": e.StepEventStateMetadata}[kind]


def differs(obj, data, kind, path):
    """The first difference between a parsed part of an event and its JSON form, or None."""
    if data is None:
        return None if obj is None else f"{path} is {obj!r} instead of None"
    if type(obj) is not cls_name(kind):  # pylint: disable=unidiomatic-typecheck
        return f"{path} is a {type(obj)}"
    data = {SNAKE.get(k, k): v for k, v in data.items()}
    keys = set(data) | set({"resource_pre_event": OPTIONAL["res"], "res_outputs_event": OPTIONAL["res"], "old": OPTIONAL["state"], "new": OPTIONAL["state"]}.get(kind, OPTIONAL.get(kind, ())))
    for k in sorted(keys):
        v, got = data.get(k), getattr(obj, k, "missing attribute")
        if k in ("metadata", "old", "new"):
            d = differs(got, v, k, f"{path}.{k}")
            if d:
                return d
        elif k == "detailed_diff":
            got = None if got is None else {p: (x.diff_kind.value, x.input_diff) for p, x in got.items()}
            want = None if v is None else {p: (x["diffKind"], x.get("inputDiff", False)) for p, x in v.items()}
            if got != want:
                return f"{path}.{k} is {got} instead of {want}"
        elif k == "op":
            if not isinstance(got, auto.OpType) or got.value != v:
                return f"{path}.{k} is {got!r} instead of {v}"
        elif got != v or (isinstance(v, bool) and got is not v):
            return f"{path}.{k} is {got!r} instead of {v!r}"
    return None


class Op:
    def __init__(self, r, ctx, case, tag):
        self.r, self.tag, self.dies = r, tag, case["dies"]
        self.kind = r.choice(["up", "preview", "refresh", "destroy"])
        self.events, self.got, self.after = [], [], None
        self.error = self.res = None
        n = r.choice([0, 1, 5, 12, 40])
        seq = 0
        for _ in range(n):
            k = r.choice(list(KINDS))
            self.events.append((k, KINDS[k](r)))
        self.summary = True
        if self.kind == "preview":
            if not self.dies and r.random() < 0.15:
                self.summary = False
                self.events = [e for e in self.events if e[0] != "summaryEvent"]
                ctx.count("no_summary")
            else:
                self.events.append(("summaryEvent", KINDS["summaryEvent"](r)))
        if not self.dies:
            self.events.append(("cancelEvent", {}))
        self.raw = []
        data = b""
        for i, (k, p) in enumerate(self.events):
            seq += r.choice([1, 1, 5])
            e = {"sequence": seq, "timestamp": r.choice([0, 1660000000 + i]), k: p}
            self.raw.append(e)
            data += json.dumps(e, ensure_ascii=r.random() < 0.3).encode() + b"\n"
            ctx.count(k)
        ctx.count("large", len(data) > 30000)
        ctx.count("events", len(self.raw))
        # Fragments of it.
        cuts = sorted({r.randrange(1, len(data)) for _ in range(r.choice([0, 1, 2, 6, 25]))}) if len(data) > 1 else []
        self.acts, last, ends = [], 0, [i + 1 for i, b in enumerate(data) if b == 10]
        ctx.count("fragments", len(cuts))
        ctx.count("split", sum(c not in ends for c in cuts))
        slow = 0.25 / (1 + len(cuts))
        for c in cuts + [len(data)]:
            self.acts.append(["event", data[last:c].decode("latin-1")])
            last = c
            self.acts.append(["sleep", r.choice([0, 0, slow, slow * 2])])
        self.live = len(self.raw) > 2 and r.random() < 0.35
        if self.live:
            # The CLI goes on only once the events so far have been delivered.
            i = r.randrange(1, len(cuts) + 1) * 2 if cuts else 0
            written = sum(len(a[1]) for a in self.acts[:i] if a[0] == "event")
            n = sum(e <= written for e in ends)
            if n and n < len(self.raw):
                self.live = n
                self.acts.insert(i, ["await", f"{tag}-{n}"])
            else:
                self.live = False
        ctx.count("live", bool(self.live))
        # The listener takes its time; what's left once the command ended is still delivered.
        self.pause = 1.5 / len(self.raw) if not self.live and r.random() < 0.12 else 0
        ctx.count("slow_listeners", bool(self.pause))
        ctx.count("operations")
        ctx.count("previews", self.kind == "preview")
        ctx.count("dies", self.dies)
        ctx.sig(self.kind + ",".join(sorted({k for k, _ in self.events})) + str(len(cuts)))

    def start(self, d, stack):
        clisim.change(d, lambda s: s["ops"].append({"stack": stack.name, "actions": self.acts + ([["exit", 1]] if self.dies else []), "history": {
            "kind": "update", "startTime": "2022-01-01T00:00:00.000Z", "message": "", "environment": {}, "config": {}, "result": "succeeded"}}))

        def on_event(e):
            time.sleep(self.pause)
            self.got.append(e)
            with open(os.path.join(d, f"{self.tag}-{len(self.got)}"), "w", encoding="utf-8"):
                pass

        try:
            self.res = getattr(stack, self.kind)(on_event=on_event)
        except Exception as exn:  # pylint: disable=broad-except
            self.error = exn
        self.after = len(self.got)

    def verify(self, ctx):
        what = f"{self.kind} {[(e['sequence'], k) for e, (k, _) in zip(self.raw, self.events)]}"[:900]
        ctx.evaluated()
        if not self.summary:
            ctx.check(self.error is not None and self.res is None, "no-summary", lambda: f"{what}: {self.res}")
        elif not self.dies:
            ctx.check(self.error is None, "failed", lambda: f"{what}: {self.error!r}"[:1500])
        else:
            ctx.check(isinstance(self.error, auto.CommandError), "failed", lambda: f"{what}: {self.error!r}"[:1500])
        got = [e.sequence for e in self.got]
        ctx.check(got == [e["sequence"] for e in self.raw] and self.after == len(self.got), "delivery", lambda: f"{what}: delivered {got}, {self.after} of them before the operation returned")
        for obj, raw, (k, p) in zip(self.got, self.raw, self.events):
            name = SNAKE.get(k)
            bad = None if (obj.sequence, obj.timestamp) == (raw["sequence"], raw["timestamp"]) else f"{obj.sequence} {obj.timestamp}"
            for other in ("cancel_event", "stdout_event", "diagnostic_event", "prelude_event", "summary_event", "resource_pre_event", "res_outputs_event", "res_op_failed_event", "policy_event"):
                v = getattr(obj, other)
                bad = bad or differs(v, p if other == name else None, other, other)
            ctx.check(bad is None, "content", lambda: f"{raw}: {bad}"[:2500])
        if self.kind == "preview" and self.res is not None:
            first = next(p for k, p in self.events if k == "summaryEvent")
            ctx.check(self.res.change_summary == first["resourceChanges"], "change-summary", lambda: f"{self.res.change_summary} instead of {first}")


def run(case, ctx):
    r = ctx.rng()
    base = os.path.join(ctx.tmp, "c31")
    shutil.rmtree(base, ignore_errors=True)
    d = os.path.join(base, "cli")
    clisim.install(os.path.join(ctx.tmp, "bin"))
    clisim.write(d, clisim.initial())
    os.makedirs(os.path.join(base, "work"))
    os.makedirs(os.path.join(base, "tmp"))
    saved, tempfile.tempdir = tempfile.tempdir, os.path.join(base, "tmp")
    os.environ["PV_CLI"] = d
    try:
        n = 1 if case["dies"] else r.choice([1, 1, 2, 3])
        at_once = n > 1 and r.random() < 0.6
        ops = [Op(r, ctx, case, f"op{i}") for i in range(n)]
        ws = auto.LocalWorkspace(work_dir=os.path.join(base, "work"))
        stacks = [auto.Stack.create(f"s{i if at_once else 0}", ws) if i == 0 or at_once else None for i in range(n)]
        if at_once:
            ctx.count("concurrent", n)
            ths = [threading.Thread(target=o.start, args=(d, s), daemon=True) for o, s in zip(ops, stacks)]
            for t in ths:
                t.start()
            for t in ths:
                t.join(60)
                ctx.check(not t.is_alive(), "hang", "an operation doesn't end")
        else:
            for o in ops:
                o.start(d, stacks[0])
        for o in ops:
            o.verify(ctx)
        ctx.check(not os.path.exists(os.path.join(d, "timeouts")), "not-live", lambda: f"events were not delivered while the operation ran; {[o.kind for o in ops]}")
    finally:
        tempfile.tempdir = saved
        del os.environ["PV_CLI"]
