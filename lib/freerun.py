"""Free-running world: many concurrent clients against buffered endpoints whose handlers take time, fail and succeed by plan; the application
is stopped, interrupted or killed at random or injected points and started again; then an offline checker goes over the recorded history."""
import json, os, selectors, signal, socket, time
from common import Violation, Inconclusive, sig
from svc import Service, Gone, Conn, new_sk, sk_str, request_bytes
from world import OffTopic, PAYLOADS, norm


SOFT = {"wrong-endpoint", "rejected-processed", "overlap", "processed-twice", "data-changed", "order", "both", "refused", "wrong-attempts", "extra", "lost"}    # see world.py


class Req:
    __slots__ = ("route", "sk", "data", "t_send", "t_ack", "status", "conn", "seq", "gen", "resp")

    def __init__(self, route, sk, data, conn, seq, gen):
        self.route, self.sk, self.data, self.conn, self.seq, self.gen = route, sk, data, conn, seq, gen
        self.t_send = self.t_ack = self.status = self.resp = None

    def __repr__(self):
        return f"{self.data.get('uid')}"


class Swarm:
    """Connections that send concurrently, each with its own window of unanswered requests."""
    def __init__(self, sv, rng, clock):
        self.sv, self.rng, self.clock = sv, rng, clock
        self.sel = selectors.DefaultSelector()
        self.conns = []

    def open(self, kind):
        if kind == "udp":
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            s.connect(self.sv.udp)
        else:
            end = time.monotonic() + 20
            while True:
                s = socket.socket() if kind == "tcp" else socket.socket(socket.AF_UNIX)
                try:
                    s.connect(self.sv.tcp if kind == "tcp" else self.sv.uds)
                    break
                except OSError:                     # not listening yet, or on its way out
                    s.close()
                    if self.sv.poll() is not None:
                        raise Gone("ended before the clients had connected")
                    if time.monotonic() > end:
                        raise Inconclusive(f"no {kind} connection within the watchdog time")
                    time.sleep(0.005)
        s.setblocking(False)
        c = {"s": s, "kind": kind, "todo": [], "open": [], "buf": b"", "out": b"", "window": 1 if kind == "udp" else self.rng.choice([1, 1, 2, 5, 50]), "dead": False}
        self.conns.append(c)
        self.sel.register(s, selectors.EVENT_READ, c)
        return c

    def tick(self):
        self.clock[0] += 1
        return self.clock[0]

    def run(self, stop_after=None, on_stop=None, limit=60):
        """Until all is answered, or stop_after answers came and on_stop was called and the connections ended."""
        acks, end, stopped = 0, time.monotonic() + limit, False
        while True:
            for c in self.conns:
                while not c["dead"] and c["todo"] and len(c["open"]) < c["window"]:
                    q = c["todo"].pop(0)
                    q.t_send = self.tick()
                    c["open"].append(q)
                    b = request_bytes(q.route, q.data, q.sk)
                    if c["kind"] == "udp":
                        try:
                            c["s"].send(b)
                        except OSError:
                            c["dead"] = True
                    else:
                        c["out"] += b
                if c["out"] and not c["dead"]:
                    try:
                        k = c["s"].send(c["out"][:self.rng.choice([1, 7, 100, 4096, 1 << 20])] if self.rng.random() < .2 else c["out"])
                        c["out"] = c["out"][k:]
                    except BlockingIOError:
                        pass
                    except OSError:
                        c["dead"] = True
            if all(c["dead"] or (not c["todo"] and not c["open"] and not c["out"]) for c in self.conns):
                break
            if stop_after is not None and acks >= stop_after and not stopped:
                stopped = True
                on_stop()
            for key, _ in self.sel.select(0.002 if any(c["out"] for c in self.conns) else 0.05):
                c = key.data
                if c["dead"]:
                    continue
                try:
                    x = c["s"].recv(1 << 20)
                except BlockingIOError:
                    continue
                except OSError:
                    x = b""
                if not x:
                    c["dead"] = True
                    self.sel.unregister(c["s"])
                    continue
                if c["kind"] == "udp":
                    lines = [x]
                else:
                    c["buf"] += x
                    *lines, c["buf"] = c["buf"].split(b"\n")
                for l in lines:
                    r = json.loads(l)
                    sk = sk_str(r["span_key"])
                    q = next((o for o in c["open"] if o.sk == sk), None)
                    if q is None:
                        continue
                    c["open"].remove(q)
                    q.t_ack, q.status, q.resp = self.tick(), r["status"], r["data"]
                    acks += 1
            if self.sv.poll() is not None:
                for c in self.conns:
                    if c["kind"] == "udp":
                        c["dead"] = True
            if time.monotonic() > end:
                if self.sv.poll() is None and not stopped and any(c["kind"] != "udp" and c["open"] for c in self.conns):
                    raise Inconclusive("clients were not answered within the watchdog time")
                break
        if stop_after is not None and not stopped:
            on_stop()
        return acks

    def close(self):
        for c in self.conns:
            try:
                self.sel.unregister(c["s"])
            except (KeyError, ValueError):
                pass
            c["s"].close()
        self.sel.close()
        self.conns = []


class FreeRun:
    def __init__(self, rng, prop, spec, stats, plan):
        self.rng, self.prop, self.spec, self.stats, self.plan = rng, prop, spec, stats, plan
        self.sv = Service(rng, spec, tcp=plan.get("tcp", False), udp=plan.get("udp", False))
        self.clock = [0]
        self.reqs = []
        self.plain = []         # requests to an ordinary endpoint in between
        self.n = 0
        self.kills = 0
        self.stops = 0
        self.log = []
        self.traces = None
        if "tracing" in spec:
            from traces import Traces
            self.traces = Traces()
            self.sv.env.update(ECOENV_EXTRA_OTLP_TRACES_ENDPOINT=f"http://127.0.0.1:{self.traces.port}/v1/traces", OTEL_BSP_SCHEDULE_DELAY="50", OTEL_BSP_MAX_QUEUE_SIZE="100000")

    def bad(self, props, kind, text):
        if self.prop in props:
            raise Violation(kind, f"{text}; configuration {json.dumps(self.spec['buffered'])}; run {self.log}", {"plan": self.plan, "log": self.log})
        if kind in SOFT:
            self.c("observations_about_other_properties")
            return
        raise OffTopic(f"{sorted(props)} {kind}: {text}")

    def c(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def make_requests(self, gen, swarm):
        rng = self.rng
        kinds = ["uds"] * 3 + (["tcp"] * 2 if self.sv.tcp else []) + (["udp"] if self.sv.udp else [])
        conns = [swarm.open(rng.choice(kinds)) for _ in range(rng.randint(1, 6))]
        for _ in range(self.plan["per_gen"]):
            b = rng.choice(self.spec["buffered"])
            i = rng.randrange(len(conns))
            self.n += 1
            p = {"s": [rng.choice([-1, -2, -5, 0, 1]) for _ in range(rng.randrange(3))],
                 "o": [rng.choice(["true", "true", "false", "raise"]) for _ in range(rng.randint(1, 4))] if rng.random() < .5 else ["true"]}
            if rng.random() < .12:
                p["o"] = ["false"]
            data = {"uid": f"u{self.n}", "plan": p, "payload": rng.choice(PAYLOADS[:12])}
            q = Req(b["route"], new_sk(rng), data, (gen, i), len(conns[i]["todo"]), gen)
            conns[i]["todo"].append(q)
            self.reqs.append(q)
            if self.prop in ("C15", "C25") and rng.random() < .4:
                self.n += 1
                q = Req("v.echo", new_sk(rng), {"uid": f"e{self.n}", "plan": {"s": [rng.choice([-1, -2, -5, 0, 1]) for _ in range(rng.randrange(3))], "mw": []}, "payload": None}, (gen, i), len(conns[i]["todo"]), gen)
                conns[i]["todo"].append(q)
                self.plain.append(q)

    def generation(self, gen, last):
        rng, plan = self.rng, self.plan
        how = plan["ends"][gen] if not last else None      # ("signal", signum, times) | ("inject", {...}) | ("kill",)
        inject = how[1] if how and how[0] == "inject" else None
        fatal = how and (how[0] == "kill" or (inject and inject["signal"] == signal.SIGKILL))
        if self.traces:
            self.sv.spec["tracing"] = self.spec["tracing"][gen]
        self.sv.spawn(inject)
        self.log.append(f"start {gen}" + (f" inject {inject}" if inject else ""))
        if not self.sv.wait_ready():
            if inject and self.injected():
                self.ended(gen, fatal)
                return
            self.bad({"C02", "C03", "C01"}, "did-not-start", f"the application ended during start {gen} (status {self.sv.status}): {self.sv.output()}")
        swarm = Swarm(self.sv, rng, self.clock)
        try:
            try:
                self.make_requests(gen, swarm)
            except Gone:
                if not (inject and self.injected()):
                    self.bad({"C02", "C03", "C01"}, "did-not-start", f"the application ended during start {gen} (status {self.sv.status}): {self.sv.output()}")
                self.ended(gen, fatal)
                return
            if last:
                swarm.run()
            elif inject:
                swarm.run(limit=8)
                self.sv.drop()
                if self.sv.poll() is None and not self.injected():
                    # not reached: let it work on, then stop it the ordinary way
                    t = time.monotonic() + 1.0
                    while time.monotonic() < t and self.sv.poll() is None and not self.injected():
                        time.sleep(0.01)
                if self.sv.poll() is None and not self.injected():
                    self.log.append("not reached, killed" if fatal else "not reached, stopped")
                    self.c("injections_not_reached")
                    self.sv.send_signal(signal.SIGKILL if fatal else signal.SIGTERM)
                self.finish_stop(gen, fatal)
            else:
                after = rng.randint(0, max(1, plan["per_gen"]))

                def stop():
                    if how[0] == "kill":
                        self.sv.send_signal(signal.SIGKILL)
                    elif how[1] == "crash":
                        try:
                            self.sv.rpc("ctl.crash", {})
                        except Gone:
                            pass
                    else:
                        for _ in range(how[2]):
                            self.sv.send_signal(how[1])
                            if rng.random() < .3:
                                time.sleep(rng.choice([0, 0.001, 0.01]))
                self.log.append(f"{how} after {after} answers")
                swarm.run(stop_after=after, on_stop=stop, limit=30)
                self.finish_stop(gen, fatal)
        finally:
            swarm.close()

    def injected(self):
        self.sv.events.poll()
        return any(e["ev"] == "inject" and e["pid"] == self.sv.pid for e in self.sv.events.all)

    def finish_stop(self, gen, fatal):
        self.sv.drop()
        if self.sv.wait() is None:
            self.bad({"C02"}, "did-not-stop", f"generation {gen}: the application is still running long after it was told to stop: {self.sv.output()}")
        self.ended(gen, fatal)

    def ended(self, gen, fatal):
        self.sv.events.poll()
        if fatal:
            self.kills += 1
            self.c("kills")
        else:
            self.stops += 1
            self.c("orderly_stops")

    def run(self):
        try:
            ends = self.plan["ends"]
            for gen in range(len(ends) + 1):
                self.generation(gen, gen == len(ends))
            for b in self.spec["buffered"]:
                if self.sv.quiesce(b["route"]) is None:
                    q = self.sv.queue(b["route"])
                    self.bad({"C05", "C01", "C02", "C03"}, "stalled", f"{b['route']} does not get through its queue: {q}")
            self.sv.sync(30)
            self.errors = {}
            for q in self.reqs:
                d = self.sv.error_data(q.route, q.sk)
                if d["request_data"] is not None:
                    self.errors[q.sk] = d["request_data"]
            self.sizes = {b["route"]: self.sv.queue(b["route"]) for b in self.spec["buffered"]}
            self.sv.events.poll()
            self.check()
            self.c("histories_checked")
        finally:
            self.sv.close()
            if self.traces:
                self.traces.close()

    # ------------------------------------------------------------------ the offline checker
    def check(self):
        ev = self.sv.events.all
        by = {q.sk: q for q in self.reqs}
        page = {b["route"]: max(1, b["page_size"]) for b in self.spec["buffered"]}
        mx = {b["route"]: max(1, b["max_retries"]) for b in self.spec["buffered"]}
        stopped = {"C02"} if self.stops else set()
        killed = {"C03"} if self.kills else set()
        running, first, oks, fails, starts, cut = {}, {}, {}, {}, {}, set()
        latest = {}
        taken, moved = set(), set()       # taken from the queue, but interrupted before the handler started: back in at the end of the queue
        order = {r: [] for r in page}
        boots = 0
        for i, e in enumerate(ev):
            k = e["ev"]
            if k == "boot":
                boots += 1
                for r, sk in running.items():
                    if sk:
                        cut.add(sk)
                running = {}
                moved |= taken
                cut |= set(latest.values())         # its attempt may have been interrupted after the handler had returned
                latest = {}
                taken = set()
            elif k == "taken":
                taken.add(e["sk"])
            elif k == "start":
                sk, r = e["sk"], e["route"]
                if sk in taken:
                    taken.discard(sk)
                self.c("starts")
                q = by.get(sk)
                if q is None:
                    self.bad({"C01"}, "unknown-processed", f"handler of {r} started for {sk}, which nobody sent")
                if q.route != r:
                    self.bad({"C01", "C10"}, "wrong-endpoint", f"{q} was sent to {q.route} and is processed by {r}")
                if q.status not in (None, 0):
                    self.bad({"C01"}, "rejected-processed", f"{q} was answered with {q.status} and is processed")
                if running.get(r):
                    self.bad({"C05"}, "overlap", f"{r}: {q} started while {by[running[r]]} is being processed")
                if sk in oks:
                    self.bad({"C01"} | stopped | killed, "processed-twice", f"{q} was processed successfully in run {oks[sk]} and is processed again in run {boots}")
                if norm("item", q.data) != e["data"]:
                    self.bad({"C01"} | stopped | killed, "data-changed", f"{q}: handler was given {e['data']}, sent was {q.data}")
                running[r] = sk
                starts[sk] = starts.get(sk, 0) + 1
                if sk not in first:
                    first[sk] = i
                    if sk not in moved:
                        order[r].append(q)
            elif k == "end":
                sk = e["sk"]
                running[e["route"]] = None
                latest[e["route"]] = sk
                if e["ok"]:
                    oks[sk] = boots
                else:
                    fails[sk] = fails.get(sk, 0) + 1
            elif k == "cancelled":
                running[e["route"]] = None
                cut.add(e["sk"])
        if self.prop == "C15":
            self.check_middleware(ev, cut)
        if self.traces:
            self.traces.check(self, ev, cut)
        # order of first attempts
        for r, seq in order.items():
            best = None                     # smallest t_ack of what is still to come
            for q in reversed(seq):
                if best is not None and q.t_send is not None and best.t_ack < q.t_send:
                    self.bad({"C05"} | (killed if boots > 1 and self.kills else set()), "order", f"{r}: {q} was sent after {best} had been acknowledged, but was first attempted before it; order {seq}")
                if q.t_ack is not None and (best is None or q.t_ack < best.t_ack):
                    best = q
            last = {}
            for q in seq:
                p = last.get(q.conn)
                if p is not None and p.seq > q.seq:
                    self.bad({"C05"} | (killed if self.kills else set()), "order", f"{r}: {p} and {q} came over one connection in the other order; order {seq}")
                last[q.conn] = q
            self.c("first_attempts_ordered", len(seq))
        # every request accounted for
        lost = {r: [[], []] for r in page}
        for q in self.reqs:
            ok, err = q.sk in oks, q.sk in self.errors
            n = fails.get(q.sk, 0)
            if q.status == 0:
                self.c("acknowledged")
                if ok and err:
                    self.bad({"C01"} | stopped | killed, "both", f"{q} was processed successfully and is in the error queue as well")
                if not ok and not err:
                    lost[q.route][1 if n >= mx[q.route] else 0].append(q)
                if err and self.errors[q.sk] != norm("item", q.data):
                    self.bad({"C01", "C06"} | stopped | killed, "data-changed", f"{q}: error queue has {self.errors[q.sk]}, sent was {q.data}")
            elif q.status is None:
                self.c("unanswered")
            elif q.status == 500 and q.gen < len(self.plan["ends"]):
                self.c("refused_while_stopping")
            else:
                self.bad({"C01"}, "refused", f"{q} was answered with status {q.status}")
            if q.sk not in cut and not self.kills:
                if err and n != mx[q.route]:
                    self.bad({"C06"}, "wrong-attempts", f"{q} is in the error queue after {n} failed attempts, configured are {mx[q.route]}")
                if ok and n >= mx[q.route]:
                    self.bad({"C06"}, "wrong-attempts", f"{q} was attempted again after {n} failed attempts, configured are {mx[q.route]}")
            self.c("requests_accounted_for")
        for r, (a, b) in lost.items():
            if not self.kills:
                if a or b:
                    self.bad({"C01"} | stopped | ({"C06"} if b or any(fails.get(q.sk) for q in a) else set()), "lost", f"{r}: acknowledged, but neither processed nor in the error queue: {a + b}, failed attempts {[fails.get(q.sk, 0) for q in a + b]}")
            else:
                self.stats["max_lost_to_a_kill"] = max(self.stats.get("max_lost_to_a_kill", 0), len(a))
                if len(a) > (2 * page[r] + 1) * self.kills:
                    self.bad({"C03"}, "lost", f"{r}: {len(a)} acknowledged requests are missing after {self.kills} kill(s), page size {page[r]}: {a}")
                if len(b) > (2 * page[r] + 1) * self.kills:
                    self.bad({"C03"}, "lost", f"{r}: {len(b)} parked requests are missing after {self.kills} kill(s), page size {page[r]}: {b}")
        known = {q.sk for q in self.reqs}
        for r, q in self.sizes.items():
            n = len([1 for sk in self.errors if by[sk].route == r])
            if q["database_sizes"]["error"] != n:
                self.bad({"C01", "C08"}, "extra", f"{r}: error queue reports {q['database_sizes']['error']} entries, {n} of the requests sent are in it")

    def check_middleware(self, ev, cut):
        nm, nb = len(self.spec["middleware"]), len(self.spec["buffered_middleware"])
        got, failed = {}, {}
        by = {q.sk: q for q in self.reqs + self.plain}
        meta, last = {}, {}
        for e in ev:
            k, sk = e["ev"], e.get("sk")
            q = by.get(sk)
            if q is None:
                continue
            if k in ("before", "bpush", "after"):
                got.setdefault(sk, []).append((k, e["i"]))
                if k == "bpush":
                    meta.setdefault(sk, {}).update(e["metadata"] or {})
                want = q.data
                if k == "bpush":
                    want = norm("item", q.data)
                elif q.route == "v.echo":
                    want = {**q.data, "plan": {**q.data["plan"], "mw": [f"b{j}" for j in range(e["i"] if k == "before" else nm)]}}
                if e["data"] != want:
                    self.bad({"C15"}, "wrong-request", f"{q}: {k} of middleware {e['i']} was given {e['data']}, expected {want}")
                if k == "after" and q.route == "v.echo" and (e["response"].get("uid"), e["response"].get("trace")) != (q.data["uid"], [f"b{j}" for j in range(nm)] + [f"a{j}" for j in range(e["i"])]):
                    self.bad({"C15"}, "wrong-response", f"{q}: after_routing of middleware {e['i']} was given {e['response']}")
                self.c("middleware_calls_compared")
            elif k in ("bproc", "aproc"):
                if e["metadata"] != meta.get(sk, {}):
                    self.bad({"C15"}, "metadata-changed", f"{q}: {k} of middleware {e['i']} was given {e['metadata']}, collected when it was accepted was {meta.get(sk, {})}")
                if e["data"] != norm("item", q.data):
                    self.bad({"C15"}, "data-changed", f"{q}: {k} of middleware {e['i']} was given {e['data']}, sent was {q.data}")
                if sk not in cut:
                    if k == "bproc" and e["retries"] != failed.get(sk, 0):
                        self.bad({"C15"}, "wrong-attempt-number", f"{q}: before_process was given attempt {e['retries']}, {failed.get(sk, 0)} failed before")
                    if k == "aproc" and (sk not in last or bool(e["success"]) != last[sk]):
                        self.bad({"C15"}, "wrong-outcome", f"{q}: after_process was given {e['success']}, the handler's outcome is {last.get(sk)}")
                self.c("attempt_middleware_calls_compared")
            elif k == "end":
                last[sk] = e["ok"]
                if not e["ok"]:
                    failed[sk] = failed.get(sk, 0) + 1
        for q in self.reqs + self.plain:
            full = [("before", i) for i in range(nm)] + ([("bpush", i) for i in range(nb)] if q.route != "v.echo" else []) + [("after", i) for i in range(nm)]
            g = got.get(q.sk, [])
            if q.status == 0 and g != full:
                self.bad({"C15"}, "wrong-sequence", f"{q} to {q.route}: middleware calls {g}, expected {full}")
            if q.status is None and g != full[:len(g)]:
                self.bad({"C15"}, "wrong-sequence", f"{q} to {q.route}: middleware calls {g}, expected the beginning of {full}")
            if q.status == 0 and q.route == "v.echo" and q.resp.get("trace") != [f"b{j}" for j in range(nm)] + [f"a{j}" for j in range(nm)]:
                self.bad({"C15"}, "wrong-response", f"{q}: the client got {q.resp}")


def random_plan(rng, kinds, per_gen=(5, 60), gens=(1, 3)):
    ends = []
    for _ in range(rng.randint(*gens)):
        k = rng.choice(kinds)
        if k == "signal":
            ends.append(("signal", rng.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT, signal.SIGHUP, "crash"]), rng.choice([1, 1, 1, 2, 5])))
        elif k == "kill":
            ends.append(("kill",))
        else:
            s = signal.SIGKILL if k == "inject_kill" else rng.choice([signal.SIGTERM, signal.SIGINT, signal.SIGHUP])
            point = rng.choice(["event", "event", "before_exec", "after_exec", "before_commit", "after_commit"])
            n = rng.choice([1, 2, 3, rng.randint(1, 20), rng.randint(1, 200)]) if point in ("event", "before_exec", "after_exec") else rng.randint(1, 12)
            ends.append(("inject", {"point": point, "n": n, "signal": int(s), "times": rng.choice([1, 1, 3]) if k != "inject_kill" else 1}))
    return {"ends": ends, "per_gen": rng.randint(*per_gen), "tcp": rng.random() < .3, "udp": rng.random() < .3}


def free_worker(prop, kinds, per_gen=(5, 60), gens=(1, 3), pages=(1, 2, 2, 3, 5, 10, 100)):
    from common import rng_for

    def worker(case):
        seed, i = case
        rng = rng_for("free", prop, seed, i)
        spec = {"buffered": [{"route": r, "dto": "item", "page_size": rng.choice(pages), "max_retries": rng.choice([0, 1, 2, 3]), "mode": "free"} for r in rng.sample(["b.a", "b.a.x", "b.q"], rng.choice([1, 1, 2]))],
                "middleware": [], "buffered_middleware": [[rng.choice([0, 1, 20]), "dict"]] * rng.choice([0, 0, 1])}
        if prop == "C15":
            spec["middleware"] = [rng.choice([0, 1, 3]) for _ in range(rng.choice([1, 2, 3]))]
            spec["buffered_middleware"] = [[rng.choice([0, 1, 4]), rng.choice(["dict", "dict", "none", "empty"])] for _ in range(rng.choice([1, 2, 3]))]
        if prop == "C02" and rng.random() < .4:
            spec["resignal"] = {"at": rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8]), "signal": int(rng.choice([signal.SIGTERM, signal.SIGINT, signal.SIGHUP]))}
        plan = random_plan(rng, kinds, per_gen, gens)
        if prop == "C25":
            plan["ends"] = [(*e[:2], 1) for e in plan["ends"]]       # a second signal may cut off the export at the end
            spec["tracing"] = [rng.random() < .8 for _ in plan["ends"]] + [True]
        stats, note = {}, []
        f = FreeRun(rng, prop, spec, stats, plan)
        try:
            f.run()
        except OffTopic as e:
            stats["runs_ended_by_another_property"] = 1
            note = [f"ended early: {e}"[:500]]
        order = sig([(e["ev"], e.get("sk")) for e in f.sv.events.all if e["ev"] in ("start", "end", "cancelled", "inject", "boot")])
        return {"key": order, "counters": stats, "nontrivial": stats.get("starts", 0) > 3, "notes": note, "sample": {"configuration": spec["buffered"], "run": f.log}}
    return worker
