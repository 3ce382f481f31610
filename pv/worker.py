"""Runs one shard of a check's cases and appends one JSON line per case."""
import faulthandler
import json
import os
import random
import sys
import threading
import time
import traceback
import warnings


class Ctx:
    """What a case records: counters, signatures of distinct behaviours, samples, violations."""

    def __init__(self, tier, seed, tmp):
        self.tier, self.seed, self.tmp = tier, seed, tmp
        self.case = None
        self.reset()

    def reset(self):
        self.counters, self.sigs, self.samples, self.violations, self.errors = {}, set(), [], [], []
        self.evals = 0

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def evaluated(self, n=1):
        self.evals += n

    def sig(self, s):
        import hashlib

        self.sigs.add(hashlib.sha1(str(s).encode()).hexdigest()[:12])

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s)

    def violation(self, kind, msg, **detail):
        if len(self.violations) < 20:
            self.violations.append({"kind": kind, "msg": str(msg)[:3000], "case": self.case, "detail": detail})

    def check(self, cond, kind, msg, **detail):
        """One oracle evaluation."""
        self.count("oracle_evaluations")
        if not cond:
            self.violation(kind, msg() if callable(msg) else msg, **detail)
        return bool(cond)

    def error(self, msg):
        self.errors.append(str(msg))

    def rng(self, *extra):
        return random.Random("/".join(str(x) for x in (self.seed, json.dumps(self.case, sort_keys=True, default=str)) + extra))


def main():
    prop, tier, seed, shard, nshards, out, tmp = sys.argv[1:8]
    replay = sys.argv[8] if len(sys.argv) > 8 else None
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    faulthandler.enable()
    warnings.simplefilter("ignore")
    import logging

    logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)
    from pv.core import load_check, SDK

    mod = load_check(prop)
    import pulumi

    assert os.path.realpath(pulumi.__file__).startswith(os.path.realpath(SDK)), pulumi.__file__
    cases = mod.plan(tier, seed)
    if replay:
        with open(replay) as f:
            r = json.load(f)
        seed = r["seed"]
        cases = [r["case"]]
    ctx = Ctx(tier, seed, os.path.join(tmp, f"w{shard}"))
    os.makedirs(ctx.tmp, exist_ok=True)
    case_timeout = getattr(mod, "CASE_TIMEOUT", 120)
    with open(out, "w") as f:
        f.write(json.dumps({"t": "meta", "planned": len(cases), "rule": mod.RULE,
                            "minimum": mod.minimum(tier) if hasattr(mod, "minimum") else {},
                            "assumptions": getattr(mod, "ASSUMPTIONS", [])}) + "\n")
        for i, case in enumerate(cases):
            if i % nshards != shard:
                continue
            ctx.reset()
            ctx.case = case
            faulthandler.dump_traceback_later(case_timeout, exit=True)
            try:
                mod.run(case, ctx)
            except Exception as exn:
                tb = exn.__traceback__
                while tb.tb_next is not None:
                    tb = tb.tb_next
                if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(SDK) + os.sep):
                    # The SDK itself raised, for an input that the property says it must handle.
                    ctx.violation("unexpected-exception", traceback.format_exc()[-2500:])
                elif isinstance(exn, AttributeError) and not str(exn.name).startswith("_") and str(type(exn.obj).__module__).split(".")[0] == "pulumi":
                    # An object of the SDK lacks a documented attribute.
                    ctx.violation("missing-attribute", traceback.format_exc()[-2500:])
                else:
                    ctx.error(f"case {json.dumps(case, default=str)[:500]}: {traceback.format_exc()}")
            finally:
                faulthandler.cancel_dump_traceback_later()
            f.write(json.dumps({"t": "case", "evals": ctx.evals or 1, "counters": ctx.counters,
                                "sigs": sorted(ctx.sigs), "samples": ctx.samples,
                                "violations": ctx.violations, "errors": ctx.errors}, default=str) + "\n")
            f.flush()
        f.write(json.dumps({"t": "done"}) + "\n")
    os._exit(0)


if __name__ == "__main__":
    main()
