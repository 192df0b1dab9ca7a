"""A stand-in OTLP trace collector, and the comparison of the spans it received with what clients and handlers recorded."""
import signal, uuid
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
import gzip, threading
from common import free_port, Inconclusive


class Traces:
    def __init__(self):
        outer = self
        self.bodies, self.lock = [], threading.Lock()

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_POST(self):
                b = self.rfile.read(int(self.headers.get("content-length", "0")))
                if self.headers.get("content-encoding") == "gzip":
                    b = gzip.decompress(b)
                with outer.lock:
                    outer.bodies.append(b)
                self.send_response(200)
                self.send_header("Content-Type", "application/x-protobuf")
                self.send_header("Content-Length", "0")
                self.end_headers()

            def log_message(self, *a):
                pass
        self.port = free_port("tcp")
        self.server = ThreadingHTTPServer(("127.0.0.1", self.port), H)
        self.server.daemon_threads = True
        threading.Thread(target=self.server.serve_forever, daemon=True).start()

    def close(self):
        self.server.shutdown()
        self.server.server_close()

    def spans(self):
        from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest
        out = []
        with self.lock:
            bodies = list(self.bodies)
        for b in bodies:
            for rs in ExportTraceServiceRequest.FromString(b).resource_spans:
                service = next((a.value.string_value for a in rs.resource.attributes if a.key == "service.name"), None)
                for ss in rs.scope_spans:
                    for s in ss.spans:
                        at = {a.key: getattr(a.value, a.value.WhichOneof("value")) if a.value.WhichOneof("value") else None for a in s.attributes}
                        out.append({"service": service, "trace": s.trace_id.hex(), "span": s.span_id.hex(), "parent": s.parent_span_id.hex(), "name": s.name, "at": at, "status": s.status.code,
                                    "start": s.start_time_unix_nano, "end": s.end_time_unix_nano})
        return out

    def check(self, run, ev, cut):
        """The application is stopped in an orderly way first: that hands over what was still to be exported."""
        run.sv.stop(signal.SIGTERM)
        spans = self.spans()
        by = {}
        ids = set()
        for s in spans:
            if s["span"] in ids:
                run.bad({"C25"}, "span-twice", f"a span was exported twice: {s}")
            ids.add(s["span"])
            key = f"{s['at'].get('request.trace_id')}:{s['at'].get('request.span_id')}"
            by.setdefault(key, []).append(s)
            if s["service"] != f"{run.sv.app}-{run.sv.instance}":
                run.bad({"C25"}, "wrong-service", f"the span {s} is not said to be of {run.sv.app}-{run.sv.instance}")
            if s["end"] < s["start"]:
                run.bad({"C25"}, "wrong-times", f"the span {s} ends before it starts")
        known = {}
        traced = run.spec["tracing"]
        for q in run.reqs + run.plain:
            known[q.sk] = (q.route, q.status, traced[q.gen], q)
        for sk, (route, status) in run.sv.calls.items():
            known[sk] = (route, status, None, None)         # by the driver; during a start the generation is not known here
        attempts = {}
        for e in ev:
            if e["ev"] == "start":
                attempts.setdefault(e["sk"], []).append(None)
            elif e["ev"] == "end":
                attempts[e["sk"]][-1] = e["ok"]
        gen_of = generations(ev, traced)
        for sk, ss in by.items():
            if sk not in known:
                run.bad({"C25"}, "unknown-request", f"spans of {sk}, which nobody sent: {ss[:3]}")
            for s in ss:
                if s["trace"] != uuid.UUID(sk.split(":")[0]).hex:
                    run.bad({"C25"}, "wrong-trace", f"a span of {sk} is in the trace {s['trace']}: {s}")
        for sk, (route, status, tr, q) in known.items():
            parent = sk.split(":")[1]
            mine = by.get(sk, [])
            req = [s for s in mine if s["name"] == route]
            proc = [s for s in mine if s["name"].endswith(".process")]
            odd = [s for s in mine if s not in req and s not in proc]
            if odd:
                run.bad({"C25"}, "unexpected-span", f"spans {odd[:3]} for a request to {route}")
            if len(req) > 1 or (status == 0 and tr and len(req) != 1) or (tr is False and req):
                run.bad({"C25"}, "wrong-number-of-spans", f"{len(req)} request spans for {q or sk} to {route} (status {status}): {mine}")
            for s in req:
                if s["parent"] != parent:
                    run.bad({"C25"}, "wrong-parent", f"the span of {q or sk} to {route} is a child of {s['parent']}, the caller's span is {parent}: {s}")
                want = {"request.trace_id": sk.split(":")[0], "request.span_id": parent, "request.route_key": route}
                if any(s["at"].get(k) != v for k, v in want.items()):
                    run.bad({"C25"}, "wrong-attributes", f"the span of {q or sk} has the attributes {s['at']}, expected {want}")
                run.c("request_spans_checked")
            if q is None or route == "v.echo":
                if proc:
                    run.bad({"C25"}, "unexpected-span", f"processing spans {proc[:3]} for a request to {route}")
                continue
            # attempts in generations with tracing
            done = [(i, ok) for i, ok in enumerate(attempts.get(sk, []))]
            at = gen_of.get(sk, [])
            if sk not in cut:
                failed, want = 0, []
                for (i, ok), on in zip(done, at):
                    if on and ok is not None:
                        want.append((failed, ok))
                    failed += ok is False
                got = sorted((s["at"].get("request.retries"), s["at"].get("process.success")) for s in proc)
                if got != sorted(want):
                    run.bad({"C25"}, "wrong-attempt-spans", f"{q} to {route}: processing spans say (retries, success) {got}, the attempts were {sorted(want)}; {mine}")
                run.c("requests_whose_attempts_were_compared")
            elif len(proc) > len(done):
                run.bad({"C25"}, "wrong-attempt-spans", f"{q} to {route}: {len(proc)} processing spans for {len(done)} attempts")
            # the span it was received under; when that one was never exported (unanswered, for example) only its being none of the others is known
            for s in proc:
                if s["name"] != "ItemDto.process":
                    run.bad({"C25"}, "wrong-name", f"a processing span of {q} is called {s['name']}")
                if tr is False and s["parent"] != parent:
                    run.bad({"C25"}, "wrong-parent", f"{q} was received without tracing; its processing span is a child of {s['parent']}, not of the caller's span {parent}")
                if tr and req and s["parent"] != req[0]["span"]:
                    run.bad({"C25"}, "wrong-parent", f"{q}: its processing span is a child of {s['parent']}, it was received under {req[0]['span']}; {mine}")
                want = {"request.trace_id": sk.split(":")[0], "request.span_id": parent}
                if any(s["at"].get(k) != v for k, v in want.items()):
                    run.bad({"C25"}, "wrong-attributes", f"the processing span of {q} has the attributes {s['at']}, expected {want}")
                run.c("attempt_spans_checked")
                if tr is False:
                    run.c("attempt_spans_of_requests_received_untraced")
        if not by:
            raise Inconclusive("no span arrived")


def generations(ev, traced):
    """Per span key, for each of its attempts, whether it ran in a generation with tracing."""
    g, out = -1, {}
    for e in ev:
        if e["ev"] == "boot":
            g += 1
        elif e["ev"] == "start":
            out.setdefault(e["sk"], []).append(traced[min(g, len(traced) - 1)])
    return out
