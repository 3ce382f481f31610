"""A minimal in-process engine for demonstrations."""
import asyncio
import os
import sys
import threading

import pulumi
import pulumi.runtime
from google.protobuf import empty_pb2, json_format, struct_pb2
from pulumi.runtime.proto import engine_pb2, provider_pb2, resource_pb2

SIG = "4dabf18193072939515e22adb298388d"
SECRET = "1b47061264138c4ac30d75fd1eb44270"
UNKNOWN = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"


def struct(d):
    s = struct_pb2.Struct()
    json_format.ParseDict(d, s)
    return s


def plain(s):
    return json_format.MessageToDict(s)


class Monitor:
    def __init__(self, preview=False, register=None, invoke=None, call=None, read=None):
        self.preview, self.register, self.invoke, self.call, self.read = preview, register, invoke, call, read
        self.reqs, self.outputs, self.invokes, self.calls, self.reads, self.logs = [], [], [], [], [], []
        self.lock = threading.Lock()

    def SupportsFeature(self, req, **_):
        return resource_pb2.SupportsFeatureResponse(hasSupport=True)

    def RegisterResource(self, req, **_):
        with self.lock:
            self.reqs.append(req)
        d = {"urn": f"urn:pulumi:stk::proj::{req.type}::{req.name}", "id": ("" if self.preview else "id-" + req.name) if req.custom else "",
             "object": plain(req.object), "deps": {}}
        if self.register:
            d.update(self.register(req) or {})
        resp = resource_pb2.RegisterResourceResponse(urn=d["urn"], id=d["id"], object=struct(d["object"]))
        for k, us in d["deps"].items():
            resp.propertyDependencies[k].CopyFrom(resource_pb2.RegisterResourceResponse.PropertyDependencies(urns=us))
        return resp

    def ReadResource(self, req, **_):
        self.reads.append(req)
        obj = self.read(req) if self.read else plain(req.properties)
        return resource_pb2.ReadResourceResponse(urn=f"urn:pulumi:stk::proj::{req.type}::{req.name}", properties=struct(obj))

    def RegisterResourceOutputs(self, req, **_):
        self.outputs.append(req)
        return empty_pb2.Empty()

    def Invoke(self, req, **_):
        self.invokes.append(req)
        return provider_pb2.InvokeResponse(**{"return": struct(self.invoke(req) if self.invoke else {})})

    def Call(self, req, **_):
        self.calls.append(req)
        return provider_pb2.CallResponse(**{"return": struct(self.call(req) if self.call else {})})

    def Log(self, req, **_):
        self.logs.append(req)
        return empty_pb2.Empty()

    def SetRootResource(self, req, **_):
        return engine_pb2.SetRootResourceResponse()

    def GetRootResource(self, req, **_):
        return engine_pb2.GetRootResourceResponse()

    def req(self, name):
        return [r for r in self.reqs if r.name == name][0]


def run(fn, monitor, after=None):
    """Runs fn as a Pulumi program, then the coroutine function after."""
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    pulumi.runtime.reset_options()
    pulumi.runtime.configure(pulumi.runtime.Settings(project="proj", stack="stk", monitor=monitor, engine=monitor, dry_run=monitor.preview))
    loop.run_until_complete(pulumi.runtime.run_in_stack(fn))
    if after:
        return loop.run_until_complete(after())


class Res(pulumi.CustomResource):
    p: pulumi.Output

    def __init__(self, name, props=None, opts=None, t="test:index:Res"):
        super().__init__(t, name, {"p": None, **(props or {})}, opts)


class Comp(pulumi.ComponentResource):
    def __init__(self, name, opts=None, t="test:index:Comp"):
        super().__init__(t, name, None, opts)


def check(cond, msg):
    if not cond:
        print("BROKEN:", msg)
        sys.stdout.flush()
        os._exit(1)


def done():
    print("fine")
    sys.stdout.flush()
    os._exit(0)
