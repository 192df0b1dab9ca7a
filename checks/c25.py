"""C25: spans at a stand-in collector against the requests and attempts recorded by clients and handlers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import Check, run_parallel
from inproc import preload
from freerun import free_worker
from fanout import fan_worker


def main():
    ck = Check("C25", "exploration", "free-running: concurrent clients on UDS/TCP/UDP against ordinary and buffered endpoints of an application with tracing enabled (and, before some restarts, not enabled), handlers that take time and "
               "fail by plan, stopped by signals and started again; afterwards every span a stand-in OTLP collector received is matched with the requests and answers the clients recorded and the attempts the handlers recorded; "
               "non-trivial: distinct sequence of handler events with more than a few of them",
               ["span keys are not zero; one span key is used for several requests to different endpoints, but not for several to one buffered endpoint", "the collector accepts what is exported; the application is ended by one signal (a further one may cut off the exporter)"])
    preload()
    import requests, opentelemetry.sdk.trace.export, opentelemetry.exporter.otlp.proto.http.trace_exporter, opentelemetry.proto.collector.trace.v1.trace_service_pb2  # noqa: F401
    n = ck.budget(160, 2000)
    w = free_worker("C25", ["signal"], (10, 60), (0, 2))
    run_parallel(ck, lambda case: fan_worker(case) if case[0] == "fan" else w(case), [(ck.seed, i) for i in range(n)] + [("fan", ck.seed, i) for i in range(n // 2)])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
