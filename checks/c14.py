"""C14: each request is handled and logged under its own span key."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import json, signal, socket, struct, time
from common import Check, Violation, Inconclusive, run_parallel, rng_for, sig
from inproc import preload
from svc import Service, Conn, Gone, new_sk
from freerun import Swarm, Req
import logfiles


class World:
    def __init__(self, rng, stats):
        self.rng, self.stats = rng, stats
        bufs = []
        for i in range(rng.choice([1, 2, 3])):
            bufs.append({"route": f"b.q{i}", "dto": "item", "page_size": rng.choice([1, 2, 10]), "max_retries": rng.choice([1, 2, 3]), "mode": "free",
                         "params": rng.choice([["dto", "span_key"], ["dto"], ["dto", "span_key"]])})
        self.size = rng.choice([0, 1, 3, 25, 100000])
        d = {"middleware": [rng.choice([0, 1, 2]) for _ in range(rng.choice([0, 1, 2]))],
             "buffered_middleware": [[rng.choice([0, 1, 2]), "full"] for _ in range(rng.choice([0, 1, 2]))],
             "buffered": bufs, "logging": True, "chatter": 400}
        env = {"ECOENV_LOG_LEVEL": "debug", "ECOENV_LOG_BUF_SIZE": str(self.size), "ECOENV_LOG_MAX_SIZE": str(rng.choice([10 ** 8, 20000])), "ECOENV_LOG_MAX_FILES": "5000"}
        self.sv = Service(rng, d, tcp=rng.random() < .5, udp=rng.random() < .5, env=env)
        # nobody listens there: everything handed to it is parked
        d["senders"] = [{"route": "t.s", "dto": "item", "page_size": 3, "max_retries": 1, "wait_period": 0.01, "client": {"type": rng.choice(["tuds", "puds"]), "path": self.sv.dir + "/nobody", "timeout": 1, "max_retries": 1, "retry_delay": 0}}]
        self.sv.spec.update(d)
        self.spec = d
        self.n, self.clock = 0, [0]
        self.sk_of = {}          # uid -> span key sent
        self.done = set()        # span keys of requests that are over
        self.sent = set()
        self.marks = []          # (marker text, span keys over by then)
        self.history = []
        self.buffered = set()

    def c(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, kind, text):
        raise Violation(kind, f"{text}; middleware {self.spec['middleware']}, buffered middleware {self.spec['buffered_middleware']}, log buffer {self.size}; {self.history[-12:]}", {"history": self.history})

    def call(self, route, data):
        sk = new_sk(self.rng)
        self.sent.add(sk)
        r = self.sv.ok(route, data, sk)
        self.done.add(sk)
        return r

    def mark(self):
        """From here on no line may carry the span key of anything that is over by now."""
        over = set(self.done)
        text = f"M|{len(self.marks)}"
        self.call("ctl.log", {"items": [[50, text, []]]})
        self.marks.append((text, over))

    def traffic(self, n):
        rng = self.rng
        sw = Swarm(self.sv, rng, self.clock)
        kinds = ["uds"] * 3 + (["tcp"] * 2 if self.sv.tcp else []) + (["udp"] if self.sv.udp else [])
        conns = [sw.open(rng.choice(kinds)) for _ in range(rng.randint(2, 8))]
        reqs = []
        for _ in range(n):
            self.n += 1
            uid = f"u{self.n}"
            plan = {"s": [rng.choice([-1, -2, -3, -9, 0, 1]) for _ in range(rng.randrange(4))]}
            x = rng.random()
            if x < .4:
                route = rng.choice(self.spec["buffered"])["route"]
                plan["o"] = [rng.choice(["true", "true", "false", "raise", "keyerror"]) for _ in range(rng.randint(1, 3))]
            elif x < .75:
                route = "v.echo"
            elif x < .87:
                route = "v.fail"
                plan["kind"] = rng.choice(["app", "value", "custom", "timeout", "connreset", "unserialisable", "none"])
            elif x < .95:
                route = "v.big"
            else:
                route = "v.nowhere"
            q = Req(route, new_sk(rng), {"uid": uid, "plan": plan}, None, 0, 0)
            self.sk_of[uid] = q.sk
            self.sent.add(q.sk)
            if route.startswith("b."):
                self.buffered.add(q.sk)
            rng.choice(conns)["todo"].append(q)
            reqs.append(q)
        self.history.append(f"{n} requests on {[c['kind'] for c in conns]}")
        return sw, reqs

    def finish(self, sw, reqs):
        for q in reqs:
            if q.status is None and q.t_send is not None:
                pass
            elif q.sk not in self.buffered:
                self.done.add(q.sk)
        for c in sw.conns:
            if c["kind"] == "tcp" and self.rng.random() < .5:       # reset instead of close
                c["s"].setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        sw.close()
        self.c("requests", len(reqs))

    def do_traffic(self):
        sw, reqs = self.traffic(self.rng.choice([5, 20, 60]))
        sw.run()
        self.finish(sw, reqs)

    def do_settle(self):
        """Everything that was accepted is handled, then the workers are started again from the outside."""
        for b in self.spec["buffered"]:
            if self.sv.quiesce(b["route"]) is None:
                raise Inconclusive("requests were not processed within the watchdog time")
        self.done |= self.buffered
        self.history.append("settled")
        self.mark()

    def do_sender(self):
        self.call("eco.buffered_sender.send_process.pause", {"queue_route_key": "t.s"})
        self.call("ctl.enqueue", {"route": "t.s", "items": [[None, {"uid": "x", "plan": {}}] for _ in range(self.rng.randint(1, 3))]})
        self.call("eco.buffered_sender.send_process.unpause", {"queue_route_key": "t.s"})
        self.mark()
        while self.call("eco.buffered_sender.data", {"queue_route_key": "t.s"})["queue_data"]["database_sizes"]["pending"]:
            time.sleep(0.005)
        self.history.append("sender")
        self.mark()

    def do_bad(self):
        """Lines that are no requests, on a connection that was used before."""
        c = Conn(self.sv.uds)
        for _ in range(3):
            uid = f"u{self.n + 1}"
            self.n += 1
            sk = self.sk_of[uid] = new_sk(self.rng)
            self.sent.add(sk)
            c.call("v.echo", {"uid": uid, "plan": {}}, sk)
            self.done.add(sk)
        self.mark()
        for l in (b"{nonsense\n", b"[]\n", b'{"route_key": 5}\n'):
            c.send(l)
            c.line()
        c.close()
        self.history.append("bad requests")
        self.mark()

    def do_pause(self):
        b = self.rng.choice(self.spec["buffered"])["route"]
        self.call("eco.buffered_handler.processing.pause", {"queue_route_key": b})
        self.do_traffic()
        self.call("eco.buffered_handler.processing.unpause", {"queue_route_key": b})
        self.history.append("paused and unpaused")
        self.mark()

    def do_level(self):
        self.call("eco.log.buffer", {"size": self.rng.choice([0, 1, 7, 1000])})

    def stop(self):
        # with requests on the way, or long after the last
        if self.rng.random() < .6:
            sw, reqs = self.traffic(30)
            self.mark()
            how = self.rng.choice([signal.SIGTERM, signal.SIGINT, "crash"])
            sw.run(stop_after=self.rng.randrange(30), on_stop=lambda: self.sv.send_signal(how) if how != "crash" else self.crash(), limit=30)
            sw.close()
            self.sv.drop()
            if self.sv.wait() is None:
                raise Inconclusive("did not stop")
        else:
            self.do_settle()
            self.sv.stop(signal.SIGTERM)
        self.history.append("stop")

    def crash(self):
        try:
            self.call("ctl.crash", {})
        except Gone:
            pass

    def compare(self):
        mark, over = 0, set()
        own = {}
        for l in logfiles.lines(logfiles.files(self.sv.dir, self.sv.app, self.sv.instance)):
            r = logfiles.parse(l)
            ids = (r.get("trace_id"), r.get("span_id"))
            if (ids[0] is None) != (ids[1] is None):
                self.bad("half-a-span-key", f"{l[:300]}")
            body = r["body"]
            if body.startswith("L|outside"):
                if ids[0] is not None:
                    self.bad("outside-line-has-ids", f"{l[:400]}")
                self.c("lines_outside")
            elif body.startswith("L|"):
                _, where, sk, uid = body.split("|")
                want = self.sk_of[uid]
                if sk not in ("None", want):
                    self.bad("wrong-span-key", f"{where} of request {uid} was given span key {sk}, sent was {want}")
                if ids[0] is None:
                    self.bad("line-without-ids", f"the line {body} carries no trace and span id")
                if not same(want, ids):
                    other = next((u for u, s in self.sk_of.items() if same(s, ids)), None)
                    self.bad("wrong-ids", f"the line {body} carries {ids}, those of {other}, sent was {want}")
                own.setdefault(uid, set()).add(where)
                self.c("lines_of_requests")
            elif mark < len(self.marks) and body == self.marks[mark][0]:
                over = {h(s) for s in self.marks[mark][1]}
                mark += 1
            elif ids[0] is not None:
                if ids in over:
                    self.bad("stale-ids", f"{l[:400]} carries the ids of a request that was over long before")
                if not any(same(s, ids) for s in self.sent):
                    self.bad("foreign-ids", f"{l[:400]} carries ids nobody sent")
                self.c("lines_of_the_framework_with_ids")
            else:
                self.c("lines_of_the_framework")
        if mark < len(self.marks):
            raise Inconclusive("markers are missing in the log")       # C17's
        self.c("places", sum(len(x) for x in own.values()))
        self.sv.events.poll()
        for e in self.sv.events.all:
            d = e.get("data")
            if e["ev"] in ("run", "start", "before", "after", "bpush", "bproc", "aproc") and isinstance(d, dict) and d.get("uid") in self.sk_of:
                if e["sk"] is not None and e["sk"] != self.sk_of[d["uid"]]:
                    self.bad("wrong-span-key", f"{e['ev']} of request {d['uid']} was given span key {e['sk']}, sent was {self.sk_of[d['uid']]}")
                self.c("span_keys_compared")

    def run(self):
        try:
            acts = {self.do_traffic: 4, self.do_settle: 1, self.do_sender: .5, self.do_bad: 1, self.do_pause: 1, self.do_level: 1}
            for _ in range(self.rng.choice([1, 1, 2])):
                self.sv.start()
                for _ in range(self.rng.randint(1, 5)):
                    self.rng.choices(list(acts), list(acts.values()))[0]()
                self.stop()
            self.compare()
        finally:
            self.sv.close()


def h(sk):
    t, s = sk.split(":")
    return t.replace("-", ""), s


def same(sk, ids):
    return h(sk) == ids


def main():
    ck = Check("C14", "exploration",
               "seeded mixes of concurrent pipelined requests over TCP, UDP and UDS (endpoints, failing endpoints, buffered endpoints with retries, unknown routes, lines that are no requests), suspended at random points in "
               "handlers, middleware and buffered middleware, with pauses, connection resets, background chatter, a buffered sender without a target, log buffers of several sizes, stops under load and restarts; every line in the "
               "log files and every span key handed to application code is compared with the one the client sent; non-trivial: distinct histories",
               ["an application's own tasks that a handler starts belong to that request"])
    preload()

    def worker(case):
        rng = rng_for("c14", *case)
        stats = {}
        w = World(rng, stats)
        w.run()
        return {"key": sig((w.spec["middleware"], w.spec["buffered_middleware"], w.size, w.history, w.n)), "counters": stats, "sample": w.history[:12]}
    run_parallel(ck, worker, [(ck.seed, i) for i in range(ck.budget(280, 4000))])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
