"""C11: bad requests and failing handlers get the documented status."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import json, select, socket, time
from common import Check, Violation, Inconclusive, run_parallel, rng_for, sig
from inproc import preload
from svc import Service, new_sk, sk_dict, sk_str, Gone
from wire import Peer, WATCHDOG

JUNK = [b"", b" ", b"\t", b"{", b"}", b"[", b"{nonsense", b"{'a': 1}", b'{"route_key": "v.none"', b"\x00", b"\x00" * 50, b"\xff\xfe{}", b"\xef\xbb\xbf{}", b"tru", b"nul", b"+1", b"01", b"1.", b'"open',
        b'{"a":}', b"{}{}", b"{} x", b"GET / HTTP/1.1", b"\x80abc", b"\xc3(", b'{"a": "\xff"}', b'"tab\tin string"', b"{\"a\": 1,}", b"\x1b[0m", b"\xed\xa0\x80", b"--", b"\x01\x02\x03", b"undefined", b"'x'",
        '{"a": 1}'.encode("utf-16-le"), b"\r", b"{\r", b"[1,2", b'{"route_key": "v.none", "span_key": {"trace_id": "']
NOT_OBJECTS = [1, -1.5, 0, True, False, None, "", "text", [], [1], [{}], {}, ["route_key", "span_key", "data"], [["route_key", "v.none"]], "v.none", 10 ** 15]
FAILS = ["value", "key", "custom", "zero", "os", "connreset", "timeout", "stopiter", "assert", "unserialisable", "object", "deep", "badbytes"]
TEXTS = ["no", "", "\u00e9\u4e16", "a\nb", '"', "%s %d {x} {}", "x" * 3000]
# data that does not fit, for endpoints with a fixed shape
MISFITS = {
    "v.strict": [{}, {"n": 1}, {"s": "x"}, {"n": "x", "s": "y"}, {"n": 1.5, "s": "y"}, {"n": None, "s": ""}, {"n": 1, "s": 5}, {"n": 1, "s": "x", "flag": "perhaps"}, {"n": 1, "s": "x", "inner": {}},
                 {"n": 1, "s": "x", "many": [1, "x"]}, {"n": 1, "s": "x", "many": 5}, {"n": 1, "s": "x", "inner": {"uid": 5}}, {"n": [1], "s": "x"}, {"n": {}, "s": "x"}],
    "v.echo": [{}, {"uid": None}, {"uid": 5}, {"uid": "x", "plan": []}, {"uid": "x", "plan": None}, {"payload": 1}, {"uid": ["x"]}],
    "v.fail": [{}, {"uid": 7}],
    "b.q": [{}, {"uid": None}, {"uid": 5}, {"uid": "x", "plan": []}, {"uid": "x", "plan": "p"}],
    "eco.error_states.clear": [{}, {"error_id": 5, "count": 1}, {"error_id": "x", "count": "many"}],
    "eco.statistics.get": [{"type": 5}, {"type": None}, {"type": []}],
    "eco.buffered_handler.data": [{}, {"queue_route_key": None}, {"queue_route_key": 5}],
    "eco.buffered_handler.errors.pop_request": [{}, {"queue_route_key": "b.q"}, {"queue_route_key": "b.q", "span_key": "x"}, {"queue_route_key": "b.q", "span_key": {"trace_id": "1", "span_id": "2"}}],
}


class World:
    def __init__(self, rng, stats):
        self.rng, self.stats = rng, stats
        self.sv = Service(rng, {"middleware": [0] * rng.choice([0, 0, 1]), "buffered": [{"route": "b.q", "dto": "item", "page_size": 5, "max_retries": 2, "mode": "ok", "params": ["dto", "span_key"]}]}, tcp=True, udp=True)
        self.history, self.peers, self.udp = [], [], None
        self.n = 0
        self.rejected, self.accepted = set(), {}      # by uid or span key

    def c(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, kind, text):
        raise Violation(kind, f"{text}; last {self.history[-6:]}", {"history": self.history[-60:]})

    def alive(self):
        if self.sv.poll() is not None:
            self.bad("server-gone", f"the server ended with {self.sv.status}: {self.sv.output()}")
        try:
            for _ in range(5):
                self.sv.ok("ctl.sync", {"n": 50})
        except (Gone, OSError) as e:
            self.bad("server-stuck", f"the server no longer answers: {e}")

    # ------------------------------------------------------------------ one line, and what has to come back
    def line(self):
        rng = self.rng
        self.n += 1
        uid, sk = f"q{rng.getrandbits(64):016x}", new_sk(rng)
        good = {"route_key": "v.echo", "span_key": sk_dict(sk), "data": {"uid": uid, "payload": None, "plan": {}}}
        k = rng.choices(["good", "junk", "random", "cut", "not_object", "fields", "misfit", "not_data", "route", "fail", "appfail", "bad_sk", "mutant"], [4, 2, 2, 2, 1.5, 3, 3, 2, 2, 3, 2, 3, 2])[0]
        e = {"class": k, "uid": uid, "sk": None, "sk_optional": None, "text": None, "runs": 0, "data": None}
        if k == "good":
            if rng.random() < .3:
                good["route_key"] = "b.q"
            e.update(status=0, sk=sk, runs=1)
            b = json.dumps(good).encode()
        elif k == "junk":
            b = rng.choice(JUNK)
            e.update(status=100)
        elif k == "random":
            b = bytes(rng.choice([rng.randrange(256), rng.choice(b'{}[]":,0a \\')]) for _ in range(rng.choice([1, 2, 5, 30, 200]))).replace(b"\n", b"")
            e.update(status=100)
        elif k == "cut":
            b = json.dumps(good).encode()
            b = b[:rng.randrange(1, len(b))]
            e.update(status=100)
        elif k == "mutant":
            b = bytearray(json.dumps(good).encode())
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(b))
                how = rng.choice(["drop", "change", "insert"])
                if how == "drop":
                    del b[i]
                elif how == "change":
                    b[i] = rng.choice(b'{}[]":,0aZ \xff')
                else:
                    b.insert(i, rng.choice(b'{}[]":,0aZ \xff'))
            b = bytes(b)
            e.update(status="see", runs=None)
        elif k == "not_object":
            b = json.dumps(rng.choice(NOT_OBJECTS)).encode()
            e.update(status=300)
        elif k == "fields":
            r = dict(good)
            what = rng.choice(["missing", "route_type", "empty_sk", "null_sk"])
            if what == "missing":
                for f in rng.sample(["route_key", "span_key", "data"], rng.choice([1, 1, 2])):
                    del r[f]
            elif what == "route_type":
                r["route_key"] = rng.choice([None, 5, [], {}, ["v.echo"], True])
            elif what == "empty_sk":
                r["span_key"] = rng.choice([{}, [], "", 5, {"trace_id": sk_dict(sk)["trace_id"]}, {"span_id": "0" * 16}])
            else:
                r["span_key"] = None
            if "span_key" in r and isinstance(r["span_key"], dict) and len(r["span_key"]) == 2:
                e["sk_optional"] = sk
            b = json.dumps(r).encode()
            e.update(status=300)
        elif k == "bad_sk":
            d = sk_dict(sk)
            f, v = rng.choice([("trace_id", ""), ("trace_id", "x"), ("trace_id", d["trace_id"][:-1]), ("trace_id", d["trace_id"] + "0"), ("trace_id", None), ("trace_id", [1]), ("trace_id", "g" * 32),
                               ("span_id", ""), ("span_id", "x" * 16), ("span_id", d["span_id"][:-1]), ("span_id", d["span_id"] + "0"), ("span_id", None), ("span_id", []), ("span_id", "0x" + d["span_id"][2:]),
                               ("span_id", " " + d["span_id"][1:]), ("span_id", d["span_id"][:7] + "_" + d["span_id"][8:])])
            d[f] = v
            good["span_key"] = d
            b = json.dumps(good).encode()
            e.update(status=300)
        elif k == "misfit":
            good["route_key"] = rng.choice(list(MISFITS))
            good["data"] = rng.choice(MISFITS[good["route_key"]])
            b = json.dumps(good).encode()
            e.update(status=300, sk=sk)
        elif k == "not_data":
            good["route_key"] = rng.choice(["v.strict", "v.echo", "b.q", "v.none", "eco.error_states.clear", "v.fail", "v.opt"])
            good["data"] = rng.choice([None, [], [1], "x", 5, True, 1.5, [["uid", "x"]]])
            b = json.dumps(good).encode()
            e.update(status=300, sk=sk)
        elif k == "route":
            good["route_key"] = rng.choice(["", "nope", "v", "v.", ".v.echo", "v.echo ", " v.echo", "V.ECHO", "v.echo.x", "eco", "eco.nope", "\u00e9", "b.q\n", "*", "v.ech", "None", "b.q.errors", "x" * 2000])
            good["data"] = rng.choice([good["data"], {}, None, [], 5])
            b = json.dumps(good).encode()
            e.update(status=400, sk=sk)
        elif k == "fail":
            good["route_key"] = "v.fail"
            good["data"]["plan"] = {"kind": rng.choice(FAILS), "text": rng.choice(TEXTS)}
            if rng.random() < .3:
                good["data"]["plan"]["s"] = [-rng.randint(1, 10)]
            b = json.dumps(good).encode()
            e.update(status=999, sk=sk, runs=1)
        else:
            good["route_key"] = "v.fail"
            t = rng.choice(TEXTS)
            good["data"]["plan"] = {"kind": "app", "text": t}
            b = json.dumps(good).encode()
            e.update(status=600, sk=sk, runs=1, text=t)
        e["data"] = good["data"] if k in ("good", "fail", "appfail") else None
        if b[:1] in (b"\x05", b"\x06"):
            b = b"\x07" + b[1:]
        if b"\n" in b:
            b = b.replace(b"\n", b"")
        e["bytes"] = b
        # What is not parseable is decided by an independent reading of the line, strict about what JSON is.
        if k in ("junk", "random", "cut", "mutant"):
            c = classify(b)
            if c is None:
                return self.line()
            if c == 100:
                e["status"] = 100
            elif k == "mutant":
                e["runs"] = None
            else:
                e["status"] = 300
        if e["runs"] == 0:
            self.rejected |= {uid, sk}
        elif e["runs"] == 1:
            self.accepted[sk] = e
        else:
            e["sk_any"] = True
        return e

    def judge(self, e, raw, where):
        self.history.append(f"{where} {e['class']} {e['bytes'][:200]!r} -> {raw[:200]!r}")
        try:
            r = json.loads(raw)
            status, data, sk = r["status"], r["data"], sk_str(r["span_key"])
        except (ValueError, KeyError, TypeError):
            self.bad("damaged-response", f"{where}: {e['bytes'][:300]!r} was answered with {raw[:300]!r}")
        if e["status"] == "see":            # a good request with some bytes changed: any consistent answer
            if status not in (0, 300, 400):
                self.bad("wrong-status", f"{where}: {e['bytes'][:400]!r} was answered with {raw[:300]!r}")
            self.c("mutants_judged")
            return
        if status != e["status"]:
            self.bad("wrong-status", f"{where}: {e['bytes'][:500]!r} ({e['class']}) was answered with {raw[:500]!r}, expected status {e['status']}")
        if e["sk"] is not None and sk != e["sk"] or e["sk"] is None and sk not in (None, e["sk_optional"]):
            self.bad("wrong-span-key", f"{where}: {e['bytes'][:500]!r} was answered with {raw[:500]!r}, expected span key {e['sk']}")
        if e["text"] is not None and e["text"] not in str(data):
            self.bad("reason-lost", f"{where}: the handler's reason {e['text'][:100]!r} is not in {raw[:300]!r}")
        if e["class"] == "good" and e["sk"] and data and data.get("uid", e["uid"]) != e["uid"]:
            self.bad("wrong-response", f"{where}: {e['bytes'][:300]!r} was answered with {raw[:300]!r}")
        self.c(f"status_{status}")
        self.c("class_" + e["class"])

    # ------------------------------------------------------------------ transports
    def stream(self, p):
        rng = self.rng
        es = [self.line() for _ in range(rng.choice([1, 1, 2, 6, 20]))]
        for e in es:
            p.feed(e["bytes"] + (b"\r\n" if rng.random() < .1 and e["class"] not in ("junk", "random", "mutant", "cut") else b"\n"))
            p.expect.append(e)
            if rng.random() < .1:
                p.feed(b"\x05\n")
                p.expect.append("ack")
        if rng.random() < .4:
            for _ in range(rng.randint(1, 6)):
                p.write(rng.choice([1, 3, 50, 500]))
        done = p.finish(len(p.expect), self.alive)
        while p.lines and p.expect:
            e, l = p.expect.pop(0), p.lines.pop(0)
            if e == "ack":
                if l != b"\x06":
                    self.bad("no-ack", f"an enquiry was answered with {l[:200]!r}")
            else:
                self.judge(e, l, p.kind)
        if not done:
            e = p.expect[0]
            self.bad("missing-response", f"{p.kind}: no response to {e if e == 'ack' else e['bytes'][:500]!r}" + (", the server closed the connection" if p.eof else " although the server answers others"))
        if p.lines:
            self.bad("extra-response", f"{p.kind}: {p.lines[0][:300]!r} without a request")

    def incomplete(self):
        """A request whose line does not end before the connection does: nothing is asked for."""
        rng = self.rng
        kind = rng.choice(["tcp", "uds"])
        p = Peer(getattr(self.sv, kind), kind)
        self.peers.append(p)
        sk = new_sk(rng)
        b = json.dumps({"route_key": rng.choice(["v.echo", "b.q"]), "span_key": sk_dict(sk), "data": {"uid": f"cut{len(self.peers)}", "payload": None, "plan": {}}}).encode()
        self.rejected.add(sk)
        p.feed(b[:rng.choice([len(b), len(b), len(b) - 1, rng.randrange(1, len(b))])])
        while p.out:
            p.write()
        p.half_close() if rng.random() < .8 else p.close()
        end = time.monotonic() + WATCHDOG
        while not p.closed and not p.eof:
            select.select([p.s], [], [], .2)
            p.read()
            if time.monotonic() > end:
                self.alive()
                self.bad("not-closed", f"{p.kind}: the connection stays open after its end inside {b!r}")
        if p.lines or p.buf:
            self.bad("incomplete-answered", f"{p.kind}: {b!r} without its line end, and then the end of the connection, was answered with {(p.lines + [p.buf])[0][:300]!r}")
        self.peers.remove(p)
        p.close()
        self.c("incomplete_requests")

    def datagram(self):
        if self.udp is None:
            self.udp = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.udp.connect(self.sv.udp)
            self.udp.settimeout(WATCHDOG)
        e = self.line()
        self.udp.send(e["bytes"] + b"\n")
        try:
            raw = self.udp.recv(1 << 20)
        except socket.timeout:
            self.alive()
            self.bad("missing-response", f"udp: no response to {e['bytes'][:500]!r}")
        except OSError as x:
            self.alive()
            self.bad("missing-response", f"udp: {x} after {e['bytes'][:500]!r}")
        self.judge(e, raw, "udp")

    def run(self, steps):
        rng = self.rng
        try:
            self.sv.start()
            self.peers = [Peer(self.sv.tcp, "tcp"), Peer(self.sv.uds, "uds"), Peer(self.sv.uds, "uds")]
            for _ in range(steps):
                if rng.random() < .05:
                    self.incomplete()
                elif rng.random() < .25:
                    self.datagram()
                else:
                    self.stream(rng.choice(self.peers))
            for p in self.peers:        # all connections still work
                self.stream(p)
            q = self.sv.quiesce("b.q")
            if q is None or q["database_sizes"] != {"pending": 0, "error": 0}:
                self.bad("rejected-queued", f"the buffered endpoint reports {q} after everything was answered")
            self.sv.events.poll()
            ran = {}
            for ev in self.sv.events.all:
                if ev["ev"] in ("run", "start"):
                    ran[ev["sk"]] = ran.get(ev["sk"], 0) + 1
                    if ev["sk"] in self.rejected or (ev["data"] or {}).get("uid") in self.rejected:
                        self.bad("rejected-run", f"a handler ran for the rejected request {ev}")
            for sk, e in self.accepted.items():
                if ran.get(sk, 0) != 1:
                    self.bad("handler-runs", f"the handler ran {ran.get(sk, 0)} times for {e['bytes'][:300]!r}")
            self.c("handler_runs_checked", len(self.accepted) + len(self.rejected) // 2)
            if self.sv.poll() is not None:
                self.bad("server-gone", f"the server ended with {self.sv.status}")
        finally:
            for p in self.peers:
                p.close()
            if self.udp:
                self.udp.close()
            self.sv.close()


def classify(b):
    """100 when no reading of the bytes makes them JSON; "json" when they are; None where parsers differ (then the line is not used)."""
    try:
        t = b.decode("utf-8")
    except UnicodeDecodeError:
        return 100
    if any(x in t for x in ("NaN", "Infinity")) or any(0xD800 <= ord(c) <= 0xDFFF for c in t) or "\\u" in t:
        return None
    core = t.strip(" \t\r\n")
    if core != t.strip() or core.startswith("\ufeff"):
        try:
            json.loads(t.strip())
            return None
        except ValueError:
            return 100
    try:
        v = json.loads(core)
    except RecursionError:
        return None
    except json.JSONDecodeError:
        return 100
    except ValueError:
        return None
    if isinstance(v, (int, float)) and not isinstance(v, bool) and len(core) > 15:
        return None
    return "json"


def main():
    ck = Check("C11", "exploration",
               "seeded mixes of good requests with lines that are not JSON (fixed, random, cut, mutated bytes), JSON that is not a request (values of other types, missing and mistyped members, bad span keys), "
               "data that does not fit the endpoint, unknown route keys, and handlers that report or raise failures or return what can not be serialised, pipelined and split on TCP, UDS and UDP to a live "
               "application with ordinary, buffered and management endpoints; status, span key and reason of each response and the application's record of handler runs are compared with what the line is; "
               "non-trivial: distinct sequences of lines and answers",
               ["texts on which JSON parsers differ (NaN, lone surrogates, very long numbers, very deep nesting) are left out", "a response that did not come within 60 s while the server answers other requests never comes"])
    preload()

    def worker(case):
        rng = rng_for("c11", *case)
        stats = {}
        w = World(rng, stats)
        w.run(rng.randint(15, 50))
        return {"key": sig(w.history), "counters": stats, "sample": w.history[:5]}
    run_parallel(ck, worker, [(ck.seed, i) for i in range(ck.budget(1100, 8000))])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
