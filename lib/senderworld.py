"""Buffered senders of a live application against a target the driver plays: every request that arrives is checked against an exact model, and the
driver decides how it is answered (or not). The application's clock stands still unless the driver moves it, so nothing times out by accident."""
import fcntl, json, os, signal, socket, struct, time
from common import Violation, Inconclusive, sig, free_port
from svc import Service, Gone, new_sk, sk_dict, sk_str
from world import OffTopic, PAYLOADS, norm, opt_fields

T = 100000.0        # client timeout, in the application's own time
STATUSES = [100, 200, 300, 400, 600, 999, 777]


SOFT = {"wrong-state", "wrong-sizes", "wrong-data", "wrong-listing", "changed", "data-changed"}    # see world.py


class Target:
    def __init__(self, kind, directory, rng, name):
        self.kind = kind
        self.listener = None
        self.conns = []
        self.new = []
        if kind == "uds":
            self.address = f"{directory}/{name}.sock"
        else:
            self.address = ("127.0.0.1", free_port("tcp", rng))
        self.listen()

    def listen(self):
        if self.kind == "udp":
            self.listener = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.listener.bind(self.address)
        elif self.kind == "tcp":
            self.listener = socket.socket()
            self.listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.listener.bind(self.address)
            self.listener.listen(50)
        else:
            if os.path.exists(self.address):
                os.unlink(self.address)
            self.listener = socket.socket(socket.AF_UNIX)
            self.listener.bind(self.address)
            self.listener.listen(50)
        self.listener.setblocking(False)

    def refuse(self):
        self.listener.close()
        self.listener = None
        self.drop_all()

    def drop_all(self):
        for c in self.conns:
            c["s"].close()
        self.conns = []

    def close(self):
        if self.listener:
            self.listener.close()
        self.drop_all()

    def pump(self):
        """Requests that have arrived since the last call."""
        out = []
        if self.kind == "udp":
            while self.listener:
                try:
                    b, a = self.listener.recvfrom(1 << 20)
                except BlockingIOError:
                    break
                out.append((json.loads(b), {"udp": a}))
            return out
        while self.listener:
            try:
                s, _ = self.listener.accept()
            except BlockingIOError:
                break
            s.setblocking(False)
            if self.kind == "tcp":
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.conns.append({"s": s, "buf": b""})
        for c in list(self.conns):
            while True:
                try:
                    x = c["s"].recv(1 << 20)
                except BlockingIOError:
                    break
                except OSError:
                    x = b""
                if not x:
                    c["s"].close()
                    self.conns.remove(c)
                    break
                c["buf"] += x
            *lines, c["buf"] = c["buf"].split(b"\n")
            for l in lines:
                if l[:1] == b"\x05":
                    self.send(c, b"\x06\n")
                else:
                    out.append((json.loads(l), c))
        return out

    def send(self, c, b):
        try:
            if "udp" in c:
                self.listener.sendto(b.rstrip(b"\n"), c["udp"])
            else:
                c["s"].setblocking(True)
                c["s"].sendall(b)
                c["s"].setblocking(False)
                if self.kind == "tcp":      # until the other side has it
                    for _ in range(200):
                        if struct.unpack("i", fcntl.ioctl(c["s"].fileno(), 0x5411, b"\0" * 4))[0] == 0:
                            break
                        time.sleep(0.002)
        except OSError:
            pass

    def end(self, c, reset=False):
        if reset:
            c["s"].setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        c["s"].close()
        if c in self.conns:
            self.conns.remove(c)


class Msg:
    def __init__(self, uid, sk, data):
        self.uid, self.sk, self.data = uid, sk, data
        self.retries, self.tags, self.floating = {0}, set(), False

    def __repr__(self):
        return self.uid


class Snd:
    def __init__(self, spec, target):
        self.spec, self.name, self.target = spec, spec["route"], target
        self.persistent = spec["client"]["type"].startswith("p")
        self.m = max(1, spec["client"]["max_retries"])
        self.max = spec["max_retries"]
        self.pending, self.error, self.done, self.gone = [], [], {}, {}
        self.cur, self.attempt, self.req = None, 0, None
        self.paused = False
        self.taken = None           # paused while this one may have been about to be sent
        self.exact = True           # the order of the error queue is known
        self.by = {}


class SenderWorld:
    def __init__(self, rng, prop, stats):
        self.rng, self.prop, self.stats = rng, prop, stats
        self.history, self.n, self.last, self.restarts = [], 0, "", 0
        spec = {"senders": [], "vclock": True}
        self.sv = Service(rng, spec)
        self.senders = {}
        for r in rng.choice([["t.a", "t.a.b"], ["t.a", "t_a"], ["t.a", "t.A"], ["t.a", "t-a"], ["t.a", "t.c"]]) if rng.random() < .33 else [rng.choice(["t.a", "t.a.b", "t.c"])]:
            kind = rng.choice(["ttcp", "ptcp", "udp", "tuds", "puds"])
            target = Target({"t": "tcp", "p": "tcp", "u": "udp"}[kind[0]] if kind[1:] in ("tcp", "dp") else "uds", self.sv.dir, rng, f"tg{len(self.senders)}")
            client = {"type": {"tuds": "tuds", "puds": "puds"}.get(kind, kind), "timeout": T, "max_retries": rng.choice([0, 1, 2, 3]), "retry_delay": rng.choice([0, 0.25])}
            if kind[0] == "p":
                client["heartbeat_period"] = 1e9
            if target.kind == "uds":
                client["path"] = target.address
            else:
                client["host"], client["port"] = target.address
            s = {"route": r, "dto": rng.choice(["item", "item", "opt"]), "response": rng.choice(["any", "empty", "opt"]), "wait_period": rng.choice([0, 0, 0.5, 0.25]),
                 "page_size": rng.choice([1, 2, 3, 5, 100]), "max_retries": rng.choice([0, 1, 2, 3, 4]), "client": client}
            spec["senders"].append(s)
            self.senders[r] = Snd(s, target)
        self.sv.spec["senders"] = spec["senders"]
        self.twin = None
        if rng.random() < .3:       # an endpoint of the application itself, under the route key it also sends to
            self.twin = rng.choice(list(self.senders))
            self.sv.spec["buffered"] = [{"route": self.twin, "dto": "item", "page_size": rng.choice([1, 2, 5]), "max_retries": 2, "mode": "ok"}]
        self.step_dt = max([max(s["wait_period"], s["client"]["retry_delay"]) for s in spec["senders"]])

    # ------------------------------------------------------------------ verdicts
    def bad(self, props, kind, text):
        if self.prop in props:
            raise Violation(kind, f"{text}; configuration {json.dumps(self.sv.spec['senders'])}; last actions: {self.history[-30:]}", {"history": self.history})
        if kind in SOFT:
            self.c("observations_about_other_properties")
            return
        raise OffTopic(f"{sorted(props)} {kind}: {text}")

    def props(self, it):
        return {"C09"} | ({"C02"} if "restart" in it.tags else set()) | ({"C08"} if "managed" in it.tags else set()) | ({"C07"} if "paused" in it.tags else set())

    def c(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def act(self, *a):
        self.history.append(tuple(str(x) for x in a))
        self.last = " ".join(self.history[-1])

    # ------------------------------------------------------------------ what arrives at the target
    def pump(self):
        for s in self.senders.values():
            for r, c in s.target.pump():
                self.on_request(s, r, c)

    def on_request(self, s, r, c):
        self.c("requests_at_target")
        uid = (r.get("data") or {}).get("uid")
        it = s.by.get(uid)
        if it is None:
            self.bad({"C09"}, "unknown-sent", f"{s.name}: the target received {r}, which was not handed to the sender")
        if r["route_key"] != s.name or r["data"] != it.data or (it.sk and sk_str(r["span_key"]) != it.sk):
            self.bad(self.props(it), "changed", f"{s.name}: {it} with {it.data} and span key {it.sk} arrived as {r}")
        if s.req is not None:
            self.bad({"C09"}, "overlap", f"{s.name}: {it} was sent while {s.cur} is unanswered")
        if uid in s.done:
            self.bad(self.props(it), "sent-again", f"{s.name}: {it} was answered with success and is sent again")
        if uid in s.gone:
            self.bad({"C09", "C08"}, "removed-sent", f"{s.name}: {it} was removed from the error queue ({s.gone[uid]}) and is sent")
        if it in s.error:
            self.bad(self.props(it) | {"C08"}, "parked-sent", f"{s.name}: {it} is parked and is sent")
        if s.cur is None:
            if s.paused and s.taken is not it:
                self.bad({"C07"}, "sent-while-paused", f"{s.name}: {it} is sent while sending is paused")
            firm = [x for x in s.pending if not x.floating]
            if not it.floating and (not firm or firm[0] is not it):
                self.bad(self.props(it), "order", f"{s.name}: {it} is sent, waiting are {s.pending}")
            s.pending.remove(it)
            it.floating = False
            s.taken = None
            s.cur, s.attempt = it, 1
            if it.sk is None:
                it.sk = sk_str(r["span_key"])
        else:
            if it is not s.cur:
                self.bad({"C09"}, "order", f"{s.name}: {it} is sent before {s.cur} has been dealt with")
            s.attempt += 1
            if s.attempt > s.m:
                self.bad({"C09", "C13"}, "too-many-attempts", f"{s.name}: {it} is sent for the {s.attempt}. time in one go, the client's limit is {s.m}")
        s.req = (r, c)

    def satisfied(self, s):
        if s.req is not None:
            return True
        if s.cur is not None:
            return False
        return s.paused or not s.pending

    def settle(self):
        for i in range(200):
            self.pump()
            if all(self.satisfied(s) for s in self.senders.values()):
                break
            self.tick()
            if i > 15:
                time.sleep(0.01)
        else:
            for s in self.senders.values():
                if not self.satisfied(s):
                    w = [s.cur] if s.cur else s.pending
                    p = set().union(*[self.props(x) for x in w])
                    if "pause" in self.last:
                        p.add("C07")
                    if "restart" in self.last:
                        p.add("C02")
                    self.bad(p, "stalled", f"{s.name}: {w[0]} is not sent, waiting {s.pending}, reported {self.sv.queue(s.name, True)}, parked by now: {self.sv.mgmt('errors.get_first_10', s.name, sender=True)}")
        self.sv.sync(20)
        self.pump()

    def tick(self):
        if self.step_dt:
            self.sv.ok("ctl.advance", {"dt": self.step_dt, "step": self.step_dt, "n": 15})
        else:
            self.sv.sync(15)

    # ------------------------------------------------------------------ actions
    def do_enqueue(self, n=None):
        rng = self.rng
        s = rng.choice(list(self.senders.values()))
        items = []
        for _ in range(n or rng.choice([1, 1, 1, 2, 5])):
            self.n += 1
            uid = f"m{self.n}"
            data = {"uid": uid, "payload": rng.choice(PAYLOADS[:12]), **(opt_fields(rng) if s.spec["dto"] == "opt" else {})}
            sk = self.share(s, items) or (new_sk(rng) if rng.random() < .8 else None)
            it = Msg(uid, sk, norm(s.spec["dto"], data))
            s.by[uid] = it
            s.pending.append(it)
            if s.paused:
                it.tags.add("paused")
            items.append([sk, data])
        self.act("enqueue", s.name, [x[1]["uid"] for x in items])
        r = self.sv.rpc("ctl.enqueue", {"route": s.name, "items": items, "n": rng.choice([0, 0, 1, 3])})
        if r["status"] != 0:
            self.bad({"C09"}, "refused", f"{s.name}: handing over {items} failed: {r}")
        self.settle()
        self.c("messages", len(items))

    def share(self, s, items):
        """The span key of a message handed to another sender: both are sent on behalf of the same request."""
        if len(self.senders) < 2 or self.rng.random() < .75:
            return None
        o = self.rng.choice([o for o in self.senders.values() if o is not s])
        mine = {x.sk for x in s.by.values()} | {x[0] for x in items}
        pool = [x.sk for x in list(o.by.values())[-6:] if x.sk and x.sk not in mine]
        if pool:
            self.c("span_keys_shared_between_senders")
        return self.rng.choice(pool) if pool else None

    def do_waiting(self):
        """Pause (and unpause) while a message waits for the wait period to pass."""
        rng = self.rng
        c = [s for s in self.senders.values() if s.spec["wait_period"] and s.cur is None and not s.paused and not s.pending]
        if not c:
            return self.do_pause()
        s, items = rng.choice(c), []
        for _ in range(rng.choice([1, 2, 3, 6])):
            self.n += 1
            sk, data = new_sk(rng), {"uid": f"m{self.n}", "payload": rng.choice(PAYLOADS[:12]), **(opt_fields(rng) if s.spec["dto"] == "opt" else {})}
            s.by[data["uid"]] = it = Msg(data["uid"], sk, norm(s.spec["dto"], data))
            s.pending.append(it)
            items.append([sk, data])
        self.act("enqueue", s.name, [x[1]["uid"] for x in items])
        self.sv.ok("ctl.enqueue", {"route": s.name, "items": items, "n": rng.choice([0, 1, 3])})
        self.c("messages", len(items))
        for k in range(rng.choice([1, 1, 2, 3])):
            self.sv.sync(rng.choice([0, 1, 5]))
            if k:
                self.act("unpause", s.name)
                self.sv.mgmt("send_process.unpause", s.name, sender=True)
                s.paused = False
                self.sv.sync(rng.choice([0, 1, 5]))
            self.act("pause while waiting", s.name)
            s.paused, s.taken = True, s.pending[0]
            self.report(s, self.sv.mgmt("send_process.pause", s.name, sender=True), {"C07"})
        for it in s.pending:
            it.tags.add("paused")
        if rng.random() < .7:
            self.tick()
            self.pump()
        self.c("paused_while_waiting")
        self.settle()

    def again(self, s, it):
        """Sending failed in a way that is to be tried again later."""
        it.retries = {x + 1 for x in it.retries}
        s.cur = None
        if len(it.retries) > 1 and min(it.retries) < s.max <= max(it.retries):
            self.where(s, it)
        elif min(it.retries) >= s.max:
            self.parked(s, it)
        else:
            s.pending.append(it)

    def where(self, s, it):
        for _ in range(50):
            self.tick()
            if it.sk and self.sv.error_data(s.name, it.sk, True)["request_data"] is not None:
                self.parked(s, it)
                return
        it.retries = {min(it.retries)}
        s.pending.append(it)

    def parked(self, s, it):
        s.cur = None
        s.error.append(it)
        it.tags.discard("managed")
        it.retries = {0}

    def do_answer(self, how=None):
        rng = self.rng
        open_ = [s for s in self.senders.values() if s.req]
        if not open_:
            return False
        s = rng.choice(open_)
        (r, c), it = s.req, s.cur
        how = how or rng.choices(["ok", "busy", "status", "silence", "reset", "close", "partial", "garbage", "nodata", "refuse"], [7, 3, 2, 2, 1.5, 1, .7, 1, .5, .6])[0]
        if how == "reset" and s.target.kind != "tcp":
            how = "close"
        if how in ("close", "partial", "refuse") and s.target.kind == "udp":
            how = "silence"
        self.act(how, s.name, it)
        t = s.target
        self.c("answers_" + how)
        if how in ("ok", "busy", "status", "nodata"):
            status = {"ok": 0, "busy": 500, "nodata": 0}.get(how) if how != "status" else rng.choice(STATUSES)
            d = {"uid": it.uid} if how == "ok" and s.spec["response"] != "empty" else {} if how == "ok" else None if how == "nodata" else rng.choice(["no", "", None, {"x": 1}])
            b = json.dumps({"span_key": r["span_key"], "status": status, "data": d}).encode() + b"\n"
            s.req = None
            if "udp" not in c and rng.random() < .3:
                k = rng.randrange(1, len(b))
                t.send(c, b[:k])
                self.sv.sync(5)
                t.send(c, b[k:])
            else:
                t.send(c, b)
            if how == "ok":
                s.cur = None
                s.done[it.uid] = True
            elif how == "busy":
                self.again(s, it)
            else:
                self.parked(s, it)
        elif how == "garbage":
            s.req = None
            t.send(c, rng.choice([b"{nonsense\n", b"[]\n", b"\x00\x01\n", b"{}\n", b'{"status": 0}\n', b"null\n", b'"x"\n']))
            self.parked(s, it)
        elif how == "silence":
            # everything that is unanswered times out
            waiting = [x for x in self.senders.values() if x.req]
            for x in waiting:
                x.req = None
            self.sv.ok("ctl.advance", {"dt": T + 1, "step": T + 1, "n": 25})
            for x in waiting:
                self.c("timeouts")
                if x.attempt >= x.m:
                    self.again(x, x.cur)
        elif how in ("reset", "close", "partial"):
            s.req = None
            if how == "partial":
                t.send(c, b'{"span_key": {"trace_id"')
            t.end(c, how == "reset")
            if how == "reset" or s.persistent:
                if s.attempt >= s.m:
                    self.again(s, it)
            else:
                self.resolve(s, it)
        else:
            # the target goes away for a while: what is tried meanwhile is parked
            s.req = None
            t.refuse()
            n0 = len(s.error)
            todo = [it] + s.pending if not s.paused else [it]
            for i in range(300):
                self.tick()
                q = self.sv.queue(s.name, True)
                if q["database_sizes"]["error"] >= n0 + len(todo):
                    break
                if s.paused and q["database_sizes"]["pending"] + q["database_sizes"]["error"] >= n0 + len(todo) + len(s.pending):
                    break
                if i > 15:
                    time.sleep(0.005)
            t.listen()
            if s.paused:
                s.cur = None
                if not it.sk or self.sv.error_data(s.name, it.sk, True)["request_data"] is not None:
                    s.error.append(it)
                    it.retries = {0}
                else:
                    it.retries = {x + 1 for x in it.retries}
                    s.pending.append(it)
            else:
                s.cur = None
                s.error += todo
                s.pending = []
                for x in todo:
                    x.retries = {0}
                if q["database_sizes"] != {"pending": 0, "error": len(s.error)}:
                    self.bad({"C09"}, "not-parked", f"{s.name}: no connection to the target: {todo} should be parked, reported {q}")
            s.exact = False
            self.learn(s)
        self.settle()
        return True

    def resolve(self, s, it):
        """A transient client whose connection ended without a response: repeated or parked, both are fine."""
        for i in range(200):
            arrived = s.target.pump()
            if it.sk and self.sv.error_data(s.name, it.sk, True)["request_data"] is not None:
                self.parked(s, it)
            for r, c in arrived:
                self.on_request(s, r, c)
            if s.cur is not it or s.req is not None:
                return
            self.tick()
            if i > 15:
                time.sleep(0.005)
        self.bad({"C09"}, "vanished", f"{s.name}: the connection ended while {it} was unanswered; it is neither sent again nor parked")

    def learn(self, s):
        """Span keys the sender made up itself, of messages that were parked without ever being sent."""
        s.unknown = [x for x in s.error + s.pending if x.sk is None]

    def do_pause(self):
        s = self.rng.choice(list(self.senders.values()))
        undo = self.rng.random() < .55
        self.act("unpause" if undo else "pause", s.name)
        a = self.sv.mgmt("send_process." + ("unpause" if undo else "pause"), s.name, sender=True)
        s.paused = not undo
        if undo:
            s.taken = None
        if s.paused:
            for it in s.pending:
                it.tags.add("paused")
        self.report(s, a, {"C07"})
        self.settle()

    def report(self, s, a, props, request=None):
        q = a["queue_data"]
        if not q or q["route_key"] != s.name:
            self.bad(props | {"C08"}, "wrong-answer", f"{self.last} answered {a}")
        if q["send_process_paused"] != s.paused:
            self.bad({"C07"}, "wrong-state", f"{self.last}: reported {q}, expected paused {s.paused}")
        n = len(s.pending)
        ok = {n, n - 1} if s.cur is None and (not s.paused or s.taken) and n else {n}
        if q["database_sizes"]["pending"] not in ok or q["database_sizes"]["error"] != len(s.error):
            self.bad({"C08", "C09"}, "wrong-sizes", f"{self.last} on {s.name} reported {q['database_sizes']}, waiting {s.pending}, parked {s.error}")
        if request is not None and a.get("request_data") != request:
            self.bad({"C08"}, "wrong-data", f"{self.last} on {s.name} returned {a.get('request_data')}, handed over was {request}")
        self.c("answers_compared")

    def listing(self, s):
        a = self.sv.mgmt("errors.get_first_10", s.name, sender=True)["queue_data"]
        if s.exact and all(x.sk for x in s.error):
            want = [x.sk for x in s.error[:10]]
            if a != want:
                self.bad({"C08", "C09"}, "wrong-listing", f"{s.name}: first parked span keys {a}, expected {want}")
        else:
            known = {x.sk for x in s.error if x.sk}
            unknown = len([x for x in s.error if not x.sk])
            if len(set(a)) != len(a) or len(a) != min(10, len(s.error)) or len([x for x in a if x not in known]) > unknown:
                self.bad({"C08", "C09"}, "wrong-listing", f"{s.name}: first parked span keys {a}, parked are {[(x, x.sk) for x in s.error]}")
        self.c("listings_compared")

    def full(self, s):
        for it in s.error:
            if it.sk:
                d = self.sv.error_data(s.name, it.sk, True)
                if d["request_data"] != it.data:
                    self.bad({"C08"} | self.props(it), "parked-missing" if d["request_data"] is None else "data-changed", f"{s.name}: {it} should be in the error queue with {it.data}, inspecting it gives {d}")
                self.c("parked_inspected")

    def do_manage(self):
        rng = self.rng
        s = rng.choice(list(self.senders.values()))
        op = rng.choices(["data", "list", "inspect", "pop", "reprocess.one", "reprocess.all", "clear", "unknown"], [2, 3, 3, 2, 3, 1.5, .7, 1.5])[0]
        known = [x for x in s.error if x.sk]
        if op in ("inspect", "pop", "reprocess.one") and not known:
            op = "unknown"
        self.act(op, s.name)
        if op == "data":
            self.report(s, self.sv.mgmt("data", s.name, sender=True), {"C08"})
        elif op == "list":
            self.listing(s)
        elif op in ("inspect", "pop", "reprocess.one"):
            it = rng.choice(known)
            self.act(op, s.name, it)
            a = self.sv.mgmt({"inspect": "errors.inspect_request", "pop": "errors.pop_request", "reprocess.one": "errors.reprocess.one"}[op], s.name, it.sk, sender=True)
            if op == "pop":
                s.error.remove(it)
                s.gone[it.uid] = "pop"
            elif op == "reprocess.one":
                s.error.remove(it)
                it.tags.add("managed")
                s.pending.append(it)
            self.report(s, a, {"C08"}, it.data)
        elif op == "reprocess.all":
            a = self.sv.mgmt("errors.reprocess.all", s.name, sender=True)
            for it in s.error:
                it.tags.add("managed")
                if not s.exact:
                    it.floating = True
            s.pending += s.error
            s.error, s.exact = [], True
            self.report(s, a, {"C08"})
        elif op == "clear":
            a = self.sv.mgmt("errors.clear", s.name, sender=True)
            for it in s.error:
                s.gone[it.uid] = "clear"
            s.error, s.exact = [], True
            self.report(s, a, {"C08"})
        else:
            what = rng.choice(["errors.inspect_request", "errors.pop_request", "errors.reprocess.one"])
            pool = [x.sk for x in s.pending if x.sk] + [s.by[u].sk for u in list(s.done) + list(s.gone)] + [new_sk(rng)]
            sk = rng.choice([x for x in pool if x])
            name = rng.choice([s.name, s.name, "t.nope", s.name + ".z"])
            a = self.sv.mgmt(what, name, sk, sender=True)
            if a["queue_data"] is not None or a["request_data"] is not None or not a["message"]:
                self.bad({"C08"}, "unknown-accepted", f"{what} on {name} for {sk}: answered {a}")
        self.settle()

    def do_restart(self):
        rng = self.rng
        how, times = rng.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT, signal.SIGHUP, "crash"]), rng.choice([1, 1, 3])
        self.act("restart", how, times)
        try:
            self.sv.stop(how, times)
        except Violation as v:
            self.bad({"C02"}, v.kind, v.detail)
        for s in self.senders.values():
            late = s.target.pump()
            s.target.drop_all()
            for it in s.pending + s.error:
                it.tags.add("restart")
            cur, s.req = s.cur, None
            for r, c in late:           # sent between the last step and the stop
                self.on_request(s, r, c)
                cur, s.req = s.cur, None
            if s.cur is not None:
                it, s.cur = s.cur, None
                it.tags.add("restart")
                it.floating = True
                it.retries = {x for v in it.retries for x in (v, v + 1)} if s.max > 0 else it.retries
                s.pending.append(it)
            if s.taken is not None:
                s.taken.floating, s.taken = True, None
            s.paused = False
        try:
            self.sv.start()
        except Violation as v:
            self.bad({"C02"}, v.kind, v.detail)
        self.restarts += 1
        for s in self.senders.values():
            for it in [x for x in s.pending if x.floating and x.sk]:
                if self.sv.error_data(s.name, it.sk, True)["request_data"] is not None:
                    s.pending.remove(it)
                    s.error.append(it)
                    s.exact = False
        self.settle()
        for s in self.senders.values():
            self.listing(s)
        self.c("restarts")

    # ------------------------------------------------------------------ a run
    def neighbour(self):
        """Another instance with the same senders and the same buffer directory has messages waiting: they are not ours to send."""
        rng = self.rng
        app, inst = rng.choice([("svc_app", "1"), ("svc_app", "00"), ("other", "0"), ("svc", "0")])
        nb = Service(rng, {"senders": self.sv.spec["senders"], "vclock": True}, app=app, instance=inst)
        nb.env["ECOENV_BUFFER_DIR"] = self.sv.dir
        try:
            nb.start()
            for s in self.senders.values():
                nb.mgmt("send_process.pause", s.name, sender=True)
                nb.ok("ctl.enqueue", {"route": s.name, "items": [[new_sk(rng), {"uid": f"nb{i}"}] for i in range(rng.randint(1, 8))], "n": 0})
            nb.stop(signal.SIGTERM)
            self.act("neighbour", f"{app}-{inst}")
            self.c("neighbours")
        finally:
            nb.close()

    def twin_start(self):
        self.sv.mgmt("processing.pause", self.twin)
        self.twins = [f"w{i}" for i in range(self.rng.randint(3, 8))]
        self.act("requests to the endpoint", self.twin, self.twins)
        for u in self.twins:
            self.sv.ok(self.twin, {"uid": u})

    def twin_end(self):
        """The application's own endpoint has its own queue: nothing the sender did has changed it."""
        for _ in range(40):
            self.sv.sync(30)
            self.sv.events.poll()
            got = [e["data"]["uid"] for e in self.sv.events.all if e["ev"] == "start" and e["route"] == self.twin]
            q = self.sv.queue(self.twin)["database_sizes"]
            if not self.restarts or len(got) >= len(self.twins):
                break
        if q["error"] or q["pending"] + len(got) != len(self.twins) or got != (self.twins if self.restarts else []):
            self.bad({"C09", "C02"} if self.restarts else {"C09"}, "endpoint-changed", f"the endpoint {self.twin} was sent {self.twins}, {'and there were restarts' if self.restarts else 'with processing paused'}; now its queue is {q}, processed was {got}")
        self.c("endpoints_with_the_route_key_of_a_sender")

    def run(self, weights, steps):
        try:
            if self.rng.random() < .1:
                self.neighbour()
            self.sv.start()
            self.settle()
            if self.twin:
                self.twin_start()
            acts = {"enqueue": self.do_enqueue, "burst": lambda: self.do_enqueue(self.rng.randint(5, 12)), "answer": self.do_answer, "pause": self.do_pause, "waiting": self.do_waiting,
                    "manage": self.do_manage, "restart": self.do_restart}
            names = list(weights)
            if "waiting" in weights and self.rng.random() < .6:
                self.do_waiting()
            for _ in range(steps):
                acts[self.rng.choices(names, [weights[n] for n in names])[0]]()
            self.act("drain")
            for s in self.senders.values():
                self.sv.mgmt("send_process.unpause", s.name, sender=True)
                s.paused, s.taken = False, None
            self.last = "unpause"
            self.settle()
            for _ in range(5000):
                if not self.do_answer(self.rng.choice(["ok", "ok", "ok", "busy", "status"])):
                    break
            for s in self.senders.values():
                q = self.sv.queue(s.name, True)
                if q["database_sizes"] != {"pending": 0, "error": len(s.error)}:
                    self.bad({"C09", "C08"}, "wrong-sizes", f"{s.name}: {q} when everything is answered, parked {s.error}")
                self.listing(s)
                self.full(s)
                for uid in s.by:
                    if uid not in s.done and uid not in s.gone and s.by[uid] not in s.error:
                        self.bad(self.props(s.by[uid]), "lost", f"{s.name}: {uid} was handed over, and is neither delivered nor parked")
                self.c("messages_accounted_for", len(s.by))
            if self.twin:
                self.twin_end()
            self.c("drained_runs")
        finally:
            self.sv.close()
            for s in self.senders.values():
                s.target.close()


def sender_worker(prop, weights, steps):
    from common import rng_for

    def worker(case):
        seed, i = case
        rng = rng_for("sender", prop, seed, i)
        stats, note = {}, []
        w = SenderWorld(rng, prop, stats)
        try:
            w.run(weights, rng.randint(*steps))
        except OffTopic as e:
            stats["runs_ended_by_another_property"] = 1
            note = [f"ended early: {e}"[:500]]
        return {"key": sig(w.history), "counters": stats, "nontrivial": len(w.history) > 5, "notes": note,
                "sample": {"configuration": w.sv.spec["senders"], "actions": [" ".join(h) for h in w.history[:14]]}}
    return worker
