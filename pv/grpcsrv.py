"""Serves an Engine (fake monitor + engine) over real gRPC on the loopback interface."""
from concurrent import futures

import grpc
from pulumi.runtime.proto import engine_pb2_grpc, resource_pb2_grpc

from .engine import RpcFault


class _Servicer(resource_pb2_grpc.ResourceMonitorServicer, engine_pb2_grpc.EngineServicer):
    def __init__(self, engine):
        self._engine = engine


def _forward(name):
    def method(self, req, ctx):
        fn = getattr(self._engine, name, None)
        if fn is None:
            ctx.abort(grpc.StatusCode.UNIMPLEMENTED, f"{name} unimplemented")
        try:
            return fn(req)
        except RpcFault as x:
            ctx.abort(x.code(), x.details())

    return method


for _n in ("SupportsFeature", "Invoke", "Call", "ReadResource", "RegisterResource", "RegisterResourceOutputs",
           "Log", "GetRootResource", "SetRootResource"):
    setattr(_Servicer, _n, _forward(_n))


def serve(engine, workers=32):
    server = grpc.server(futures.ThreadPoolExecutor(workers),
                         options=[("grpc.max_receive_message_length", -1), ("grpc.max_send_message_length", -1)])
    s = _Servicer(engine)
    resource_pb2_grpc.add_ResourceMonitorServicer_to_server(s, server)
    engine_pb2_grpc.add_EngineServicer_to_server(s, server)
    port = server.add_insecure_port("127.0.0.1:0")
    server.start()
    return server, f"127.0.0.1:{port}"
