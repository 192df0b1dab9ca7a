"""C10: every complete request gets exactly one response, its own."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import json, select, socket, time
from common import Check, Violation, Inconclusive, run_parallel, rng_for, sig
from inproc import preload
from svc import Service, new_sk, sk_dict, sk_str, Gone
from wire import Peer, WATCHDOG
from world import norm, opt_fields

TEXTS = ["", "x", "\u00e9\u4e16\U0001f600", 'q"uo\\te', "line\\nbreak", "a\nb\r\n\tc", "\u2028\u0085\x1f", "\x05\n", {"a": [1, 2.5, None, True]}, [], {}, 0, -1, 1e300, 2 ** 60, False,
         [[[]]], {"route_key": "x", "span_key": None}, "\x06", "null", " pad ", {"": {"": ""}}]


class World:
    def __init__(self, rng, stats, thorough):
        self.rng, self.stats, self.thorough = rng, stats, thorough
        self.sv = Service(rng, {"middleware": [rng.choice([0, 0, 3])] * rng.choice([0, 0, 1, 2])}, tcp=True, udp=True)
        self.mw = len(self.sv.spec["middleware"])
        self.n, self.history, self.peers, self.old = 0, [], [], []
        self.held = {}
        self.runs = {}           # uid -> minimum and maximum number of handler runs
        self.data = {}
        self.udp = None

    def c(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, kind, text):
        raise Violation(kind, f"{text}; last actions {self.history[-25:]}", {"history": self.history})

    def alive(self):
        """The server is there and answers; what is missing will not come."""
        if self.sv.poll() is not None:
            self.bad("server-gone", f"the server ended with {self.sv.status}: {self.sv.output()}")
        try:
            for _ in range(5):
                self.sv.ok("ctl.sync", {"n": 50})
        except (Gone, OSError) as e:
            self.bad("server-stuck", f"the server no longer answers: {e}")

    # ------------------------------------------------------------------ requests
    def request(self, udp=False, hold=None, small=False):
        """A well-formed request and what its response has to be."""
        rng = self.rng
        self.n += 1
        uid = f"u{self.n}"
        sk = new_sk(rng)
        kind = "v.echo" if hold else rng.choices(["v.echo", "v.big", "v.sk", "v.none", "v.strict", "v.opt"], [8, 0 if small else 2, 1, 1, 1, 1])[0]
        mwl = [f"b{i}" for i in range(self.mw)]
        if kind == "v.echo":
            plan = {}
            if hold:
                plan["hold"] = hold
            if rng.random() < .5:
                plan["s"] = [rng.choice([-1, -3, -20, 1])]
            if rng.random() < .3:
                plan["s2"] = [-rng.randint(1, 5)]
            d = {"uid": uid, "payload": rng.choice(TEXTS), "plan": plan}
            w = {"uid": uid, "payload": d["payload"], "sk": sk, "data": d, "trace": [f"a{i}" for i in range(self.mw)]}
            if rng.random() < .3:
                plan["mw"] = []
                w["data"] = {**d, "plan": {**plan, "mw": mwl}}
                w["trace"] = mwl + w["trace"]
            key = uid
        elif kind == "v.big":
            top = rng.choice([5000, 64500]) if udp else rng.choice([70000, 70000, 300000, 3000000] + ([40000000] if self.thorough else []))
            n = rng.choice([0, 1, 4096, 65535, 65536, 65537, 131072]) if rng.random() < .5 and not udp else rng.randint(0, top)
            reply = rng.choice([0, 10, 65536, 65500]) if rng.random() < .5 and not udp else rng.randint(0, top)
            d = {"uid": uid, "payload": "p" * n, "plan": {"reply": reply, "char": rng.choice(["x", "\u00e9"]) if not udp else "x"}}
            w = {"uid": uid, "payload": d["plan"]["char"] * reply, "sk": None, "data": None, "trace": [f"a{i}" for i in range(self.mw)]}
            key = uid
            self.c("big_messages")
        elif kind == "v.sk":
            d, w, key = rng.choice([{}, {"ignored": 1}]), {"uid": None, "payload": None, "sk": sk, "data": None, "trace": [f"a{i}" for i in range(self.mw)]}, sk
        elif kind == "v.none":
            d, w, key = {}, {}, None
        elif kind == "v.strict":
            full = {"n": rng.randint(-2 ** 40, 2 ** 40), "s": rng.choice(["", uid, "\u4e16"]), "flag": rng.random() < .5, "inner": rng.choice([None, {"uid": uid, "payload": [uid], "plan": {}}]),
                    "many": [rng.randint(0, 9) for _ in range(rng.randint(0, 4))]}
            d = {k: v for k, v in full.items() if k in ("n", "s") or rng.random() < .7}
            eff = {"n": full["n"], "s": full["s"], "flag": d.get("flag", False), "inner": d.get("inner"), "many": d.get("many", [])}
            w, key = {"uid": None, "payload": None, "sk": sk, "data": eff, "trace": [f"a{i}" for i in range(self.mw)]}, sk
        else:
            d = {**rng.choice([{}, {"uid": uid}, {"payload": rng.choice(TEXTS)}]), **opt_fields(rng)}
            w, key = {"uid": None, "payload": None, "sk": sk, "data": norm("opt", d), "trace": [f"a{i}" for i in range(self.mw)]}, sk
        r = {"route_key": kind, "span_key": sk_dict(sk), "data": d}
        if rng.random() < .2:
            items = list(r.items())
            rng.shuffle(items)
            r = dict(items)
        if rng.random() < .1:
            r["more"] = 1
        b = json.dumps(r, ensure_ascii=rng.random() < .5, separators=rng.choice([(",", ":"), (", ", ": ")])).encode() + (b"\r\n" if rng.random() < .1 else b"\n")
        if kind == "v.none":
            key = None
        if key:
            self.runs[key] = [1, 1]
            self.data[key] = d if kind != "v.big" else {"uid": uid, "len": n}
        return {"uid": uid, "sk": sk, "want": w, "bytes": b, "route": kind, "key": key, "hold": hold}

    def compare(self, e, line, where):
        if e == "ack":
            if line != b"\x06":
                self.bad("no-ack", f"{where}: an enquiry was answered with {line[:200]!r}")
            self.c("acks_compared")
            return
        try:
            r = json.loads(line)
        except ValueError:
            self.bad("damaged-response", f"{where}: response to {e['uid']} is {line[:300]!r}")
        if sk_str(r.get("span_key")) != e["sk"]:
            self.bad("wrong-span-key", f"{where}: expected the response to {e['uid']} {e['sk']}, came {line[:300]!r}")
        if r["status"] != 0 or r["data"] != e["want"]:
            self.bad("wrong-response", f"{where}: {e['route']} {e['bytes'][:300]!r} was answered with {line[:600]!r}, expected data {str(e['want'])[:600]}")
        self.c("responses_compared")

    def check(self, p):
        p.read()
        n = 0
        while p.lines:
            if not p.expect:
                self.bad("extra-response", f"{p.kind}: {p.lines[0][:300]!r} without a request")
            self.compare(p.expect.pop(0), p.lines.pop(0), p.kind)
            n += 1
        if p.eof and p.expect:
            self.bad("missing-response", f"{p.kind}: the server closed the connection, without responses to {[x if x == 'ack' else x['uid'] for x in p.expect]}")
        return n

    # ------------------------------------------------------------------ actions
    def open(self):
        k = self.rng.choice(["tcp", "uds"])
        p = Peer(self.sv.tcp if k == "tcp" else self.sv.uds, k)
        p.id = f"{k}{len(self.peers) + len(self.old)}"
        self.peers.append(p)
        self.history.append(f"open {p.id}")
        return p

    def pick(self):
        return self.rng.choice(self.peers) if self.peers and self.rng.random() < .93 else self.open()

    def do_send(self):
        p = self.pick()
        if p.shut:
            return
        for _ in range(self.rng.choice([1, 1, 1, 2, 5, 12])):
            if self.rng.random() < .15:
                p.feed(self.rng.choice([b"\x05\n", b"\x05\n", b"\x05more\n"]))
                p.expect.append("ack")
                self.history.append(f"enq {p.id}")
            else:
                hold = None
                if self.rng.random() < .12:
                    hold = f"h{self.n}"
                    self.held[hold] = p
                e = self.request(hold=hold)
                p.feed(e["bytes"])
                p.expect.append(e)
                self.history.append(f"send {p.id} {e['uid']} {e['route']} {len(e['bytes'])}" + (" hold" if hold else ""))
        self.do_write(p)

    def do_write(self, p=None):
        p = p or self.pick()
        how = self.rng.choice(["all", "all", "bytes", "some", "some"])
        if how == "all":
            p.write()
        elif how == "bytes":
            for _ in range(self.rng.randint(1, 40)):
                p.write(1)
        else:
            for _ in range(self.rng.randint(1, 5)):
                p.write(self.rng.choice([1, 2, 7, 64, 1000, 65536]))
                if self.rng.random() < .5:
                    self.sv.sync(3)

    def blocked(self, p):
        return any(x is p for x in self.held.values()) or any(e != "ack" and e["hold"] in self.held for e in p.expect)

    def do_read(self):
        self.check(self.pick())

    def do_release(self):
        if not self.held:
            return
        h = self.rng.choice(list(self.held))
        p = self.held[h]
        if p.out and not p.closed:
            while p.out:
                if not p.write():
                    self.check(p)
                    time.sleep(0.001)
        self.release(h, p.closed)
        self.history.append(f"release {h}")

    def release(self, h, optional=False):
        """The handler may not have been reached yet; it waits for earlier ones of its connection, which are released first."""
        p = self.held[h]
        mine = [x for x in self.held if self.held[x] is p]
        for x in mine[:mine.index(h) + 1]:
            end = time.monotonic() + WATCHDOG
            while self.sv.ok("ctl.open", {"name": x})["data"] == 0:
                if optional:
                    break
                self.check(p)
                if time.monotonic() > end:
                    self.alive()
                    self.bad("missing-run", f"{p.id}: the handler for {x} was never started")
                self.sv.sync(5)
                time.sleep(0.001)
            del self.held[x]

    def do_drop(self):
        """A client that goes away at any moment: its complete requests may still be handled, at most once."""
        if len(self.peers) < 2:
            return
        p = self.pick()
        if p.shut:
            return
        partial = len(p.out) > 0
        for e in p.expect:
            if e != "ack" and e["key"]:
                self.runs[e["key"]] = [0, 1]
        p.close(self.rng.random() < .5)
        self.peers.remove(p)
        self.old.append(p)
        self.history.append(f"drop {p.id}" + (" in a line" if partial else ""))
        self.c("disconnects")
        for h in [x for x in self.held if self.held[x] is p]:
            if self.rng.random() < .7:
                self.sv.ok("ctl.open", {"name": h})
                self.held.pop(h)

    def do_half(self):
        p = self.pick()
        if self.blocked(p) or p.shut:
            return
        self.flush(p)
        e = self.request()
        p.feed(e["bytes"])
        p.expect.append(e)
        while p.out:
            if not p.write():
                p.read()
        if self.rng.random() < .3:      # an incomplete line is not a request
            x = self.request()
            self.runs[x["key"]] = [0, 0]
            p.feed(x["bytes"][:-self.rng.choice([1, 2, len(x["bytes"]) // 2])])
            while p.out:
                if not p.write():
                    p.read()
        p.half_close()
        self.history.append(f"half-close {p.id}")
        self.flush(p)
        self.peers.remove(p)
        p.close()
        self.old.append(p)
        self.c("half_closes")

    def flush(self, p):
        """Everything waiting goes out, all responses come."""
        if not p.finish(len(p.expect), self.alive) and not p.eof:
            self.check(p)
            self.bad("missing-response", f"{p.id}: no response to {[x if x == 'ack' else x['uid'] for x in p.expect][:3]} although the server answers others")
        self.check(p)
        self.c("flushes")

    def do_other(self):
        """While handlers of some connections are held, other connections get their responses."""
        free = [p for p in self.peers if not self.blocked(p) and not p.shut]
        p = self.rng.choice(free) if free and self.rng.random() < .7 else self.open()
        e = self.request()
        p.feed(e["bytes"])
        p.expect.append(e)
        self.history.append(f"call {p.id} {e['uid']} {e['route']}" + (f" while {len(self.held)} held" if self.held else ""))
        self.flush(p)
        if self.held:
            self.c("calls_while_others_are_held")

    def do_udp(self):
        if self.udp is None:
            self.udp = [socket.socket(socket.AF_INET, socket.SOCK_DGRAM) for _ in range(3)]
            for s in self.udp:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 21)
                s.connect(self.sv.udp)
        out = []
        for _ in range(self.rng.choice([1, 1, 2, 4])):
            s = self.rng.choice(self.udp)
            e = self.request(udp=True)
            s.send(e["bytes"])
            out.append((s, e))
            self.history.append(f"udp {e['uid']} {e['route']}")
            if self.rng.random() < .2:
                s.send(b"\x06\n")
                self.c("udp_acks_asked")
        pend = {s: [e for x, e in out if x is s] for s in self.udp}
        end = time.monotonic() + WATCHDOG
        while any(pend.values()):
            r, _, _ = select.select([s for s in self.udp if pend[s]], [], [], 0.5)
            for s in r:
                b = s.recv(1 << 20)
                if b == b"\x06\n":
                    continue
                k = [e for e in pend[s] if e["sk"].encode().split(b":")[0] in b]
                if not k:
                    self.bad("extra-response", f"UDP: {b[:300]!r}, outstanding {[e['uid'] for e in pend[s]]}")
                self.compare(k[0], b, "udp")
                pend[s].remove(k[0])
            if time.monotonic() > end:
                self.alive()
                self.bad("missing-response", f"UDP: no response to {[e['uid'] for v in pend.values() for e in v]}")
        self.c("udp_calls", len(out))

    def do_crowd(self):
        """Many connections at once."""
        crowd = [self.open() for _ in range(self.rng.randint(30, 80))]
        self.rng.shuffle(crowd)
        for p in crowd:
            for _ in range(self.rng.choice([1, 1, 2])):
                e = self.request(small=True)
                p.feed(e["bytes"])
                p.expect.append(e)
            p.write()
        for p in crowd:
            self.flush(p)
            self.peers.remove(p)
            p.close()
            self.old.append(p)
        self.c("crowds")

    def do_long(self):
        """One connection with very many requests: there is no last one."""
        free = [p for p in self.peers if not self.blocked(p) and not p.shut]
        p = self.rng.choice(free) if free and self.rng.random() < .5 else self.open()
        self.flush(p)
        n = self.rng.choice([300, 700, 1500, 2500])
        self.history.append(f"{n} requests on {p.id}")
        for k in range(n):
            if self.rng.random() < .1:
                p.feed(b"\x05\n")
                p.expect.append("ack")
            else:
                e = self.request(small=True)
                p.feed(e["bytes"])
                p.expect.append(e)
            if k % 50 == 49:
                self.flush(p)
        self.flush(p)
        self.c("long_conversations")

    def do_visits(self):
        """One connection after another: there is no last one either."""
        n = self.rng.choice([100, 300, 600])
        self.history.append(f"{n} connections in turn")
        for _ in range(n):
            p = self.open()
            for _ in range(self.rng.choice([1, 1, 1, 2])):
                e = self.request(small=True)
                p.feed(e["bytes"])
                p.expect.append(e)
            self.flush(p)
            self.peers.remove(p)
            p.close()
            self.old.append(p)
        self.c("visits", n)

    # ------------------------------------------------------------------ a run
    def run(self, steps):
        rng = self.rng
        try:
            self.sv.start()
            acts = {self.do_send: 8, self.do_write: 4, self.do_read: 3, self.do_release: 3, self.do_drop: 1.2, self.do_half: .7, self.do_other: 3, self.do_udp: 2, self.do_crowd: .15, self.do_long: .06, self.do_visits: .06}
            for _ in range(steps):
                rng.choices(list(acts), list(acts.values()))[0]()
                if self.sv.poll() is not None:
                    self.bad("server-gone", f"the server ended with {self.sv.status}: {self.sv.output()}")
            self.history.append("drain")
            while self.held:
                h = next(iter(self.held))
                p = self.held[h]
                while p.out and not p.closed:
                    if not p.write():
                        self.check(p)
                        time.sleep(0.001)
                self.release(h, p.closed)
            for p in self.peers:
                p.feed(b"\x05\n")
                p.expect.append("ack")
                self.flush(p)
            self.sv.sync(100)
            for p in self.peers:
                self.check(p)
            for s in self.udp or []:
                s.setblocking(False)
                try:
                    b = s.recv(1 << 20)
                    if b != b"\x06\n":
                        self.bad("extra-response", f"UDP: {b[:300]!r} without a request")
                except BlockingIOError:
                    pass
            self.sv.events.poll()
            got = {}
            for ev in self.sv.events.all:
                if ev["ev"] == "run":
                    key = ev["data"]["uid"] if ev["route"] in ("v.echo", "v.big") else ev["sk"]
                    if key:
                        got[key] = got.get(key, 0) + 1
                        if key not in self.runs:
                            self.bad("unknown-run", f"a handler ran for {ev}, which was not requested")
            for k, (lo, hi) in self.runs.items():
                if not lo <= got.get(k, 0) <= hi:
                    self.bad("handler-runs", f"the handler for {k} ran {got.get(k, 0)} times, expected {lo if lo == hi else (lo, hi)}")
            self.c("handler_runs_checked", len(self.runs))
        finally:
            for p in self.peers:
                p.close()
            for s in self.udp or []:
                s.close()
            self.sv.close()


def main():
    ck = Check("C10", "exploration",
               "seeded histories of well-formed requests (six endpoints, payloads of many shapes, 0 bytes to several MB, shuffled and extra members) on up to dozens of concurrent TCP and UDS "
               "connections and UDP sockets of a live application: pipelined, written in pieces down to single bytes, mixed with enquiries, handlers held back while others are called, "
               "connections dropped, reset and half-closed anywhere; every response byte is compared with the expected response of that position, the application's record of handler runs with what "
               "was requested; non-trivial: distinct histories",
               ["no well-formed request is dropped by the loopback network (UDP with few outstanding datagrams)", "a response that did not come within 60 s while the server answers other requests never comes"])
    preload()

    def worker(case):
        rng = rng_for("c10", *case)
        stats = {}
        w = World(rng, stats, ck.thorough)
        w.run(rng.randint(20, 90))
        return {"key": sig(w.history), "counters": stats, "sample": w.history[:12]}
    run_parallel(ck, worker, [(ck.seed, i) for i in range(ck.budget(600, 8000))])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
