"""C34: programs that run in one process, one after the other or at once, don't affect each other."""
import random
import threading

from pulumi.automation._server import LanguageServer
from pulumi.runtime.proto import language_pb2

from pv.inline import Prog

RULE = ("One case = 2-6 random inline programs (resources, components, dynamic providers, functions, callbacks, transformations, logs, exports; some failing) with own settings, configuration and engine, run by "
        "language servers in one process, at once with barriers between their steps, or one after the other on few threads; each engine's trace, what each program saw and its outcome are compared with a model; "
        "distinct by programs and concurrency, non-trivial if programs overlap.")
ASSUMPTIONS = ["each program runs within LanguageServer.Run, as the Automation API does", "programs use no process-wide state of their own"]
CASE_TIMEOUT = 120


def plan(tier, seed):
    return [{"i": i, "mode": ["concurrent", "sequential", "concurrent", "threads"][i % 4]} for i in range(288 if tier == "quick" else 5000)]


def minimum(tier):
    return {"programs": 250, "concurrent": 120, "sequential": 50, "threads": 50, "resources": 1000, "dynamic": 50, "how_ok": 80, "how_top": 12, "how_callback": 12, "how_rejected": 12, "after_failure": 40,
            "without_config": 60}


def serve(p):
    req = language_pb2.RunRequest(project=p.project, stack=p.stack, pwd="", program=".", args=[p.addr], config=p.config, dryRun=p.preview, parallel=4, monitor_address=p.addr,
                                  configSecretKeys=p.secret_keys, organization=p.org)
    srv = LanguageServer(p.program)
    try:
        return srv.Run(req, None).error
    finally:
        srv.on_pulumi_exit()


def run(case, ctx):
    r = ctx.rng()
    n = r.choice([2, 3, 4, 6])
    mode = case["mode"]
    barrier = threading.Barrier(n) if mode == "concurrent" and r.random() < 0.7 else None
    progs = [Prog(random.Random(r.random()), t, barrier=barrier, dynamic=0.7 if case["i"] % 3 == 0 else 0.2) for t in "abcdef"[:n]]
    results = {}

    def one(p):
        try:
            results[p.tag] = serve(p)
        except BaseException as exn:  # pylint: disable=broad-except
            results[p.tag] = exn

    for p in progs:
        p.serve()
    try:
        if mode == "concurrent":
            groups = [[p] for p in progs]
        elif mode == "threads":
            groups = [progs[::2], progs[1::2]]
        else:
            groups = [progs]

        def several(ps):
            for p in ps:
                one(p)

        ths = [threading.Thread(target=several, args=(g,), daemon=True) for g in groups]
        for t in ths:
            t.start()
        for t in ths:
            t.join(40)
            if not ctx.check(not t.is_alive(), "hang", lambda: f"{mode}: {[p.show() for p in progs]}; finished: {results}"):
                return
    finally:
        for p in progs:
            p.stop()
    ctx.count(mode, n)
    ctx.sig(mode + ",".join(p.how + str(p.count) + str(p.dynamic) for p in progs))
    for i, p in enumerate(progs):
        ctx.count("after_failure", any(q.how != "ok" for q in progs[:i]) and mode != "concurrent")
        ctx.count("without_config", not p.config)
        res = results[p.tag]
        if isinstance(res, BaseException):
            ctx.violation("raised", f"{p.show()}: {res!r}")
            continue
        p.verify(ctx, res, [q for q in progs if q is not p])
