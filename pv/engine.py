"""In-process fake resource monitor / engine that records every call, an adversarial response scheduler,
and a program runner with logical hang detection.

The runner drives the SDK only through the entry points the real language host uses
(`pulumi.runtime.configure`, `Settings`, `run_in_stack`)."""
import asyncio
import concurrent.futures
import random
import selectors
import threading
import time
import traceback
from typing import Any, Callable, Dict, List, Optional

import grpc
import pulumi
import pulumi.runtime
from pulumi.runtime.proto import engine_pb2, provider_pb2, resource_pb2
from google.protobuf import empty_pb2

from . import wire

ALL_FEATURES = frozenset({"secrets", "resourceReferences", "outputValues"})


class RpcFault(grpc.RpcError):
    def __init__(self, code, details):
        super().__init__(details)
        self._code, self._details = code, details

    def code(self):
        return self._code

    def details(self):
        return self._details


class Event:
    __slots__ = ("seq", "kind", "method", "req", "resp", "fault", "end", "thread")

    def __init__(self, seq, method, req):
        self.seq, self.method, self.req = seq, method, req
        self.resp = self.fault = self.end = None

    def __repr__(self):
        return f"<{self.seq}-{self.end} {self.method}>"


class Engine:
    """Fake ResourceMonitor + Engine service.

    behaviour hooks (callables, all optional):
      on_register(req) -> dict(urn=, id=, object=term dict, deps={prop:[urn]}) or raises RpcFault
      on_read(req), on_invoke(req) -> ("return", term dict) | ("failures", [(prop, reason)]), on_call(req)
    """

    def __init__(self, *, project="proj", stack="stk", features=ALL_FEATURES, preview=False, schedule=None, seed=0,
                 on_register=None, on_read=None, on_invoke=None, on_call=None, on_outputs=None, on_log=None,
                 on_feature=None, supports_unimplemented=False):
        self.project, self.stack, self.features, self.preview = project, stack, set(features), preview
        self.lock = threading.Lock()
        self.events: List[Event] = []
        self.logs: List[Any] = []
        self.clock = 0
        self.inflight = 0
        self.on_register, self.on_read, self.on_invoke, self.on_call = on_register, on_read, on_invoke, on_call
        self.on_outputs, self.on_log, self.on_feature = on_outputs, on_log, on_feature
        self.supports_unimplemented = supports_unimplemented
        self.registered: Dict[str, Any] = {}
        self.schedule = schedule  # None | "shuffle" | "lifo" | "sleep"
        self.rng = random.Random(f"engine{seed}")
        self.pending: List[threading.Event] = []
        self.cv = threading.Condition(self.lock)
        self.closed = False
        self.reordered = 0
        self._ctl = None
        self.runner_idle: Callable[[], bool] = lambda: True
        self.runner_quiet: Callable[[int], bool] = lambda n: False
        self.on_quiet: Optional[Callable[[], None]] = None
        if schedule in ("shuffle", "lifo"):
            self._ctl = threading.Thread(target=self._control, daemon=True)
            self._ctl.start()

    # -- scheduler: hold every request, release one at a time in an order drawn from the seed once
    #    the program has gone quiet (so orders that a fast engine never shows do occur).
    def _control(self):
        while True:
            with self.cv:
                while not self.pending and not self.closed:
                    self.cv.wait(0.5)
                if self.closed and not self.pending:
                    return
            last = -1
            for _ in range(60):
                time.sleep(0.0008)
                with self.lock:
                    n = len(self.pending)
                if n == last and self.runner_idle():
                    break
                last = n
            if self.on_quiet is not None and self.runner_quiet(n):
                with self.lock:
                    same = n == len(self.pending)
                if same and self.runner_quiet(n):
                    self.on_quiet()
            with self.lock:
                if not self.pending:
                    continue
                i = self.rng.randrange(len(self.pending)) if self.schedule == "shuffle" else len(self.pending) - 1
                if i != 0:
                    self.reordered += 1
                ev, done = self.pending.pop(i)
            ev.set()
            done.wait(5)

    def close(self):
        with self.cv:
            self.closed = True
            for ev, _ in self.pending:
                ev.set()
            self.cv.notify_all()

    def _call(self, method, req, fn, gate=True):
        copy = type(req)()
        copy.CopyFrom(req)
        with self.cv:
            self.clock += 1
            e = Event(self.clock, method, copy)
            self.events.append(e)
            self.inflight += 1
            tick = done = None
            if gate and self._ctl is not None and not self.closed:
                tick, done = threading.Event(), threading.Event()
                self.pending.append((tick, done))
                self.cv.notify_all()
            delay = self.rng.random() * 0.004 if gate and self.schedule == "sleep" else 0
        try:
            if tick is not None:
                tick.wait(30)
            elif delay:
                time.sleep(delay)
            try:
                resp = fn(copy)
            except Exception as exn:  # pylint: disable=broad-except
                e.fault = exn
                raise
            if resp is not None:
                c = type(resp)()
                c.CopyFrom(resp)
                e.resp = c
            return resp
        finally:
            with self.lock:
                self.clock += 1
                e.end = self.clock
                self.inflight -= 1
            if done is not None:
                done.set()

    # -- ResourceMonitor ----------------------------------------------------------------------
    def SupportsFeature(self, req, **_):
        def fn(r):
            if self.supports_unimplemented:
                raise RpcFault(grpc.StatusCode.UNIMPLEMENTED, "unimplemented")
            if self.on_feature:
                return self.on_feature(r)
            return resource_pb2.SupportsFeatureResponse(hasSupport=r.id in self.features)

        return self._call("SupportsFeature", req, fn, gate=False)

    def urn(self, typ, name, parent=""):
        prefix = f"urn:pulumi:{self.stack}::{self.project}::"
        if parent and "::pulumi:pulumi:Stack::" not in parent:
            prefix += parent.split("::")[2] + "$"
        return f"{prefix}{typ}::{name}"

    def RegisterResource(self, req, **_):
        def fn(r):
            urn = self.urn(r.type, r.name, r.parent)
            d = {"urn": urn, "id": None, "object": None, "deps": {}}
            if self.on_register:
                d.update(self.on_register(r, urn) or {})
            rid = d["id"]
            if rid is None:
                rid = (("" if self.preview else "id-" + r.name) if r.custom else "")
            obj = d["object"]
            o = r.object if obj is None else wire.struct(obj)
            resp = resource_pb2.RegisterResourceResponse(urn=d["urn"], id=rid, object=o)
            for k, us in d["deps"].items():
                resp.propertyDependencies[k].CopyFrom(
                    resource_pb2.RegisterResourceResponse.PropertyDependencies(urns=us))
            return resp

        return self._call("RegisterResource", req, fn)

    def ReadResource(self, req, **_):
        def fn(r):
            urn = self.urn(r.type, r.name, r.parent)
            d = {"urn": urn, "object": None}
            if self.on_read:
                d.update(self.on_read(r, urn) or {})
            o = r.properties if d["object"] is None else wire.struct(d["object"])
            return resource_pb2.ReadResourceResponse(urn=d["urn"], properties=o)

        return self._call("ReadResource", req, fn)

    def RegisterResourceOutputs(self, req, **_):
        def fn(r):
            if self.on_outputs:
                self.on_outputs(r)
            return empty_pb2.Empty()

        return self._call("RegisterResourceOutputs", req, fn)

    def Invoke(self, req, **_):
        def fn(r):
            kind, val = self.on_invoke(r) if self.on_invoke else ("return", {})
            if kind == "failures":
                return provider_pb2.InvokeResponse(
                    failures=[provider_pb2.CheckFailure(property=p, reason=x) for p, x in val])
            return provider_pb2.InvokeResponse(**{"return": wire.struct(val)})

        return self._call("Invoke", req, fn)

    def Call(self, req, **_):
        def fn(r):
            kind, val, deps = self.on_call(r) if self.on_call else ("return", {}, {})
            if kind == "failures":
                return provider_pb2.CallResponse(
                    failures=[provider_pb2.CheckFailure(property=p, reason=x) for p, x in val])
            resp = provider_pb2.CallResponse(**{"return": wire.struct(val)})
            for k, us in deps.items():
                resp.returnDependencies[k].CopyFrom(provider_pb2.CallResponse.ReturnDependencies(urns=us))
            return resp

        return self._call("Call", req, fn)

    # -- Engine ---------------------------------------------------------------------------------
    def Log(self, req, **_):
        c = engine_pb2.LogRequest()
        c.CopyFrom(req)
        with self.lock:
            self.clock += 1
            self.logs.append((self.clock, c))
        if self.on_log:
            self.on_log(c)
        return empty_pb2.Empty()

    def SetRootResource(self, req, **_):
        return engine_pb2.SetRootResourceResponse()

    def GetRootResource(self, req, **_):
        return engine_pb2.GetRootResourceResponse()

    # -- trace helpers --------------------------------------------------------------------------
    def by(self, method):
        return [e for e in self.events if e.method == method]

    def registers(self, stack=False):
        return [e for e in self.by("RegisterResource") if stack or e.req.type != "pulumi:pulumi:Stack"]

    def register(self, name):
        for e in self.registers(True):
            if e.req.name == name:
                return e
        return None

    def order_sig(self):
        return " ".join(f"{e.method[0:4]}:{getattr(e.req, 'name', '') or getattr(e.req, 'tok', '')}" for e in
                        sorted((x for x in self.events if x.end is not None), key=lambda x: x.end))


class _CountingExecutor(concurrent.futures.ThreadPoolExecutor):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.submitted = 0
        self.finished = 0
        self._cl = threading.Lock()

    def submit(self, fn, *a, **k):
        with self._cl:
            self.submitted += 1

        def wrapped():
            try:
                return fn(*a, **k)
            finally:
                with self._cl:
                    self.finished += 1

        return super().submit(wrapped)

    def busy(self):
        return self.submitted != self.finished


class _FlaggedSelector(selectors.DefaultSelector):
    waiting = False

    def select(self, timeout=None):
        self.waiting = True
        try:
            return super().select(timeout)
        finally:
            self.waiting = False


class MonitoredLoop(asyncio.SelectorEventLoop):
    """An event loop that counts its iterations (logical progress)."""

    def __init__(self):
        super().__init__(_FlaggedSelector())
        self.iterations = 0
        self.limit = 400000
        self.runaway = False

    def _run_once(self):
        self.iterations += 1
        if self.iterations > self.limit:
            self.runaway = True
            self.stop()
        super()._run_once()

    def idle(self):
        return not self._ready and not self._scheduled

    def asleep(self):
        """Nothing to run, and blocked until another thread wakes it up."""
        return self._selector.waiting and not self._ready and not self._scheduled


class Result:
    def __init__(self):
        self.exc: Optional[BaseException] = None
        self.tb = ""
        self.stuck = None
        self.leftover_tasks = 0
        self.iterations = 0
        self.root = None
        self.state: Dict[str, Any] = {}
        self.wall = 0.0

    @property
    def ok(self):
        return self.exc is None and self.stuck is None

    def __repr__(self):
        return f"<Result ok={self.ok} stuck={self.stuck} exc={self.exc!r} {self.tb[-1800:]}>"


def reset_globals():
    """Process-wide state that outlives a program; a fresh language host starts with it empty."""
    from pulumi.runtime.rpc_manager import RPC_MANAGER

    RPC_MANAGER.clear()


def run_program(fn, engine, *, preview=False, project="proj", stack="stk", organization=None, parallel=None,
                workers=None, in_stack=True, hang_s=3.0, wall_s=90.0, legacy_apply=None, no_engine=False,
                after=None, limit=400000) -> Result:
    """Run a Pulumi program the way the language host does, in its own thread, context and event loop."""
    res = Result()
    box = {}

    def body():
        loop = MonitoredLoop()
        loop.limit = limit
        ex = _CountingExecutor(max_workers=workers or 16)
        loop.set_default_executor(ex)
        asyncio.set_event_loop(loop)
        box["loop"], box["ex"] = loop, ex
        try:
            reset_globals()
            pulumi.runtime.reset_options()
            pulumi.runtime.configure(
                pulumi.runtime.Settings(project=project, stack=stack, monitor=engine, engine=None if no_engine else engine,
                                        parallel=parallel, dry_run=preview, organization=organization,
                                        legacy_apply_enabled=legacy_apply))
            pulumi.runtime.set_all_config({})

            def wrapped():
                res.root = pulumi.runtime.get_root_resource()
                res.state["ret"] = fn()

            if in_stack:
                loop.run_until_complete(pulumi.runtime.run_in_stack(wrapped))
            else:
                loop.run_until_complete(pulumi.runtime.run_pulumi_func(wrapped)
                                        if hasattr(pulumi.runtime, "run_pulumi_func") else _fallback(wrapped))
            # Observations on outputs that were still unread are made by `after`, in the same loop.
            res.leftover_tasks = len([t for t in asyncio.all_tasks(loop) if not t.done()])
            if after is not None:
                res.state["after"] = loop.run_until_complete(after())
        except BaseException as exn:  # pylint: disable=broad-except
            if loop.runaway:
                res.stuck = f"no bounded progress: {loop.iterations} event loop iterations"
            elif box.get("stopped"):
                pass
            else:
                res.exc = exn
                res.tb = "".join(traceback.format_exception(type(exn), exn, exn.__traceback__))
                res.leftover_tasks = len([t for t in asyncio.all_tasks(loop) if not t.done()])
                if after is not None:
                    try:
                        res.state["after"] = loop.run_until_complete(asyncio.wait_for(after(), 20))
                    except BaseException as exn2:  # pylint: disable=broad-except
                        res.state["after_exc"] = exn2
        finally:
            res.iterations = loop.iterations
            engine.close()
            try:
                for t in asyncio.all_tasks(loop):
                    t.cancel()
                loop.limit = 1 << 60
                loop.run_until_complete(asyncio.sleep(0))
                loop.run_until_complete(asyncio.sleep(0))
            except BaseException:  # pylint: disable=broad-except
                pass
            ex.shutdown(wait=False, cancel_futures=True)
            try:
                loop.close()
            except BaseException:  # pylint: disable=broad-except
                pass

    t = threading.Thread(target=body, daemon=True)

    def loop_idle():
        loop, ex = box.get("loop"), box.get("ex")
        return loop is None or loop.idle()

    def quiet(n):
        """The program waits for the engine, and for nothing but the n requests it holds back."""
        loop, ex = box.get("loop"), box.get("ex")
        for _ in range(3):
            if loop is None or not loop.asleep() or ex.submitted - ex.finished != n or ex.submitted - ex.finished >= ex._max_workers:
                return False
        return True

    engine.runner_idle = loop_idle
    engine.runner_quiet = quiet
    t0 = time.time()
    t.start()
    last, since = None, time.time()
    step = 0.0005
    while True:
        t.join(step)
        step = min(0.05, step * 1.5)
        if not t.is_alive():
            break
        loop, ex = box.get("loop"), box.get("ex")
        if loop is None:
            continue
        now = (loop.iterations, engine.clock)
        quiet = loop.idle() and engine.inflight == 0 and not ex.busy()
        if now != last or not quiet:
            last, since = now, time.time()
        elif time.time() - since > hang_s:
            # Nothing runnable, no timer, no outstanding request, no executor work: it can never finish.
            names = []
            try:
                for task in asyncio.all_tasks(loop):
                    names.append(repr(task)[:300])
            except RuntimeError:
                pass
            res.stuck = "quiescent but unfinished; waiting tasks: " + " | ".join(sorted(names)[:4])
        if res.stuck is None and time.time() - t0 > wall_s:
            box["stopped"] = True
            res.state["watchdog"] = True
            raise TimeoutError(f"wall-clock watchdog ({wall_s}s) fired; iterations={loop.iterations}")
        if res.stuck is not None:
            box["stopped"] = True
            loop.call_soon_threadsafe(loop.stop)
            t.join(5)
            break
    engine.close()
    res.wall = time.time() - t0
    return res


async def _fallback(fn):
    fn()


async def observe(out):
    """What a user can see of an Output: (value incl. unknown markers, known, secret, resources) or the exception."""
    try:
        known = await out.is_known()
        secret = await out.is_secret()
        val = await out.future(with_unknowns=True)
        deps = await out.resources()
        return ("ok", val, known, secret, deps)
    except Exception as exn:  # pylint: disable=broad-except
        return ("exc", exn, None, None, None)
