"""All clients against servers that misbehave by plan, in virtual time; an offline checker goes over what servers and callers recorded."""
import asyncio, json, os, socket, struct, time, logging
from common import Violation, Inconclusive, rng_for, sig, free_port
from vloop import VLoop

EPS = 0.01
STATUS_EXC = {100: "ProtocolParsingException", 200: "ClientDeniedException", 300: "PydanticValidationException", 400: "RouteKeyUnknownException", 500: "ServerBusyException",
              600: "ProcessingException", 999: "UnhandledException"}
GARBAGE = [b"{nonsense\n", b"[]\n", b"\n", b"{}\n", b'{"status": 0}\n', b"null\n", b"5\n", b'"x"\n', b'{"status": "x", "data": {}}\n', b"\x06\n", b'{"span_key": null, "status": 0, "data": null}\n',
           b'{"span_key": null, "status": 0, "data": 5}\n']


class Server:
    """Answers each request as its plan says; records requests, answers and connection ends with their (virtual) time."""
    def __init__(self, kind, rng, path, T, mood):
        self.kind, self.rng, self.path, self.T, self.mood = kind, rng, path, T, mood
        self.events, self.conns, self.n = [], [], 0
        self.server = self.transport = None
        self.tasks = []
        if kind != "uds":
            self.port = free_port()

    def log(self, ev, **kw):
        self.events.append({"ev": ev, "t": self.loop.time(), **kw})

    async def up(self):
        self.loop = asyncio.get_running_loop()
        if self.kind == "udp":
            outer = self

            class P(asyncio.DatagramProtocol):
                def connection_made(self, t):
                    outer.transport = t

                def datagram_received(self, b, a):
                    outer.tasks.append(outer.loop.create_task(outer.serve(b, None, a)))
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            s.setblocking(False)
            s.bind(("127.0.0.1", self.port))
            await self.loop.create_datagram_endpoint(P, sock=s)
        elif self.kind == "tcp":
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM, socket.IPPROTO_TCP)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("127.0.0.1", self.port))
            self.server = await asyncio.start_server(self.conn, sock=s, limit=1 << 26)
        else:
            if os.path.exists(self.path):
                os.unlink(self.path)
            self.server = await asyncio.start_unix_server(self.conn, self.path, limit=1 << 26)
        self.log("up")

    async def down(self, cut=True):
        self.log("down")
        if self.kind == "udp":
            self.transport.close()
            return
        self.server.close()
        if cut:
            for w in list(self.conns):
                self.end(w, self.rng.random() < .5, "outage")

    def end(self, w, reset, why, owner=None):
        if w in self.conns:
            self.conns.remove(w)
            self.log("end", reset=reset, how=why, conn=w.cid, owner=owner)
        try:
            if reset and self.kind == "tcp":
                w.get_extra_info("socket").setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                w.transport.abort()
            else:
                w.close()
        except (OSError, AttributeError):
            pass

    async def conn(self, r, w):
        self.conns.append(w)
        self.ids = w.cid = getattr(self, "ids", 0) + 1
        self.tasks.append(asyncio.current_task())
        try:
            while True:
                b = await r.readline()
                if not b or b[-1:] != b"\n":
                    break
                if w not in self.conns:         # ended by us already
                    break
                self.tasks.append(self.loop.create_task(self.enquiry(w) if b[:1] == b"\x05" else self.serve(b, w, None)))
        except (OSError, ValueError):
            pass
        finally:
            if w in self.conns:
                self.conns.remove(w)
            w.close()

    def write(self, w, a, b):
        try:
            if w is None:
                self.transport.sendto(b.rstrip(b"\n") if b != b"\n" else b, a)
            elif not w.is_closing():
                w.write(b)
        except OSError:
            pass

    async def enquiry(self, w):
        k = self.rng.choices(["ack", "late", "never", "close", "reset", "garbage", "slow"], [6, 1, 1, 1, 1, 1, 1] if self.mood != "calm" else [1, 0, 0, 0, 0, 0, 0])[0]
        self.log("enq", how=k)
        if k in ("ack", "slow"):
            if k == "slow":
                await asyncio.sleep(self.T * .8)
            self.write(w, None, b"\x06\n")
        elif k == "late":
            await asyncio.sleep(self.T * self.rng.choice([1.1, 1.7]))
            self.write(w, None, b"\x06\n")
        elif k in ("close", "reset"):
            self.end(w, k == "reset", "enq")
        elif k == "garbage":
            self.write(w, None, self.rng.choice([b"x\n", b"{}\n", b'{"span_key": null, "status": 0, "data": {"uid": "enq"}}\n']))

    async def serve(self, b, w, a):
        rng, T = self.rng, self.T
        self.n += 1
        me = self.n
        try:
            r = json.loads(b)
            uid = r["data"]["uid"]
            if uid == "same":       # calls that differ in their span key only
                uid = self.names[f"{r['span_key']['trace_id']}:{r['span_key']['span_id']}"]
        except (ValueError, KeyError, TypeError):
            self.log("broken-request", raw=b[:300])
            return
        kinds = {"ok": 8, "slow": 2, "status": 3, "late": 2.5, "never": 1.5, "reset": 1.5, "eof": 1, "partial": 1, "garbage": 1, "badtext": .4}
        if self.mood == "calm":
            kinds = {"ok": 8, "slow": 2, "status": 1}
        elif self.mood == "lossy":
            kinds = {"ok": 3, "late": 4, "never": 4, "reset": 3, "slow": 1}
        elif self.mood == "late":
            kinds = {"ok": 5, "late": 6, "slow": 2}
        k = rng.choices(list(kinds), list(kinds.values()))[0]
        if w is None and k in ("reset", "eof", "partial"):
            k = "never"
        if k == "reset" and self.kind == "uds":
            k = "eof"
        delay = 0 if k in ("garbage", "reset", "eof", "partial", "badtext") and rng.random() < .5 else {
            "ok": rng.choice([0, 0, .1, .5]), "slow": rng.choice([.8, .95]), "status": rng.choice([0, 0, .5]), "late": rng.choice([1.05, 1.2, 1.5, 2.3, 4]), "never": 0}.get(k, rng.choice([.1, .7])) * T
        status = 0 if k in ("ok", "slow") or k == "late" and rng.random() < .7 else rng.choice(list(STATUS_EXC) + [777, -1, 1, 501, 599, 1000])
        data = {"uid": uid, "n": self.n, "pad": "x" * rng.choice([0, 0, 10, 70000 if w is not None else 2000])} if status == 0 else rng.choice([f"no {uid}", "", None, {"uid": uid}])
        e = {"uid": uid, "route": r["route_key"], "sk": r["span_key"], "data": r["data"], "how": k, "delay": delay, "status": status, "answer": data, "at": self.loop.time(), "conn": w.cid if w else None, "me": me, "delivered": False}
        self.log("request", e=e)
        line = json.dumps({"span_key": r["span_key"], "status": status, "data": data}).encode() + b"\n"
        if k == "never":
            return
        parts = [line]
        if w is not None and k in ("ok", "slow", "late", "status") and rng.random() < .3:
            cuts = sorted(rng.sample(range(1, len(line)), min(rng.choice([1, 2, 5]), len(line) - 1)))
            parts = [line[i:j] for i, j in zip([0] + cuts, cuts + [len(line)])]
        if k in ("ok", "slow", "late", "status"):
            for p in parts:
                await asyncio.sleep(delay / len(parts))
                self.write(w, a, p)
            e["delivered"] = True
            if w is not None and rng.random() < (.12 if self.mood != "calm" else .03):
                await asyncio.sleep(rng.choice([.01, T * .3]))
                self.end(w, False, "after", me)
            return
        if delay:
            await asyncio.sleep(delay)
        if k == "garbage":
            g = rng.choice(GARBAGE)
            self.write(w, a, g)
        elif k == "badtext":
            self.write(w, a, b'{"status": 0, "data": "\xff\xfe"}\n')
        else:
            if k == "partial":
                self.write(w, a, line[:rng.randrange(1, len(line))])
                await asyncio.sleep(.001)
            self.end(w, k == "reset", "own", me)


async def case(rng, E, directory, stats):
    kind = rng.choice(["ttcp", "ptcp", "udp", "tuds", "puds"])
    T = rng.choice([.5, 2, 5])
    m = rng.choice([0, 1, 2, 3, 5])
    mood = rng.choices(["mixed", "calm", "lossy", "late"], [5, 2, 2, 2])[0]
    path = f"{directory}/c{rng.getrandbits(40):x}.sock"
    srv = Server({"ttcp": "tcp", "ptcp": "tcp", "udp": "udp"}.get(kind, "uds"), rng_for(rng.random()), path, T, mood)
    await srv.up()
    loop = asyncio.get_running_loop()
    kw = {"timeout": T, "max_retries": m, "retry_delay": rng.choice([0, .05, .3])}
    if kind[0] == "p":
        kw["heartbeat_period"] = rng.choice([1e6, 1e6, .3, 1, 10])
    c = E["clients"]
    client = {"ttcp": lambda: c.TransientTCPClient("127.0.0.1", srv.port, **kw), "ptcp": lambda: c.PersistedTCPClient("127.0.0.1", srv.port, **kw),
              "udp": lambda: c.UDPClient("127.0.0.1", srv.port, **kw), "tuds": lambda: c.TransientUDSClient(path, **kw), "puds": lambda: c.PersistedUDSClient(path, **kw)}[kind]()
    calls = []
    Req, Res, SpanKey = E["Req"], E["Res"], E["SpanKey"]

    class Cls(E["SenderBase"]):
        def __init__(self):
            super().__init__(client, "s.cls", Req, Res)

        async def send(self, uid, span_key=None):
            return await self.send_data(Req(uid=uid), span_key)
    cls = Cls()

    @E["sender"](client, "s.deco", Res)
    async def deco(uid, **k):
        return Req(uid=uid)

    twins = rng.random() < .2
    srv.names = {}

    async def one(caller, i):
        uid = f"{caller}.{i}"
        how = rng.choice(["direct", "direct", "deco", "cls"]) if not twins else rng.choice(["deco", "cls"])
        sk = SpanKey.generate() if rng.random() < .6 or twins else None
        if twins:
            srv.names[str(sk)] = uid
        rec = {"uid": uid, "how": how, "sk": str(sk) if sk else None, "start": loop.time(), "route": {"direct": f"r.{caller}", "deco": "s.deco", "cls": "s.cls"}[how]}
        calls.append(rec)
        if how == "direct":
            co = client.send_message(rec["route"], Req(uid=uid, payload=rng.choice([None, "x", "\u00e9\n", {"a": [1]}])), Res, span_key=sk)
        elif how == "deco":
            co = deco(uid if not twins else "same", span_key=sk) if sk else deco(uid)
        else:
            co = cls.send(uid if not twins else "same", sk)
        limit = rng.choice([.3, .8, 1.3, 2.5]) * T if rng.random() < .12 else None
        rec["limit"] = limit
        try:
            if limit:
                task = loop.create_task(co)
                done, _ = await asyncio.wait([task], timeout=limit)
                if not done:
                    rec["cancelled"] = True
                    task.cancel()
                    await asyncio.wait([task])
                    if not task.cancelled() and task.exception() is None:
                        rec["cancelled"] = False
                        rec["result"] = task.result().model_dump()
                else:
                    rec["result"] = (await task).model_dump()
            else:
                rec["result"] = (await co).model_dump()
        except Exception as x:
            rec["exc"], rec["text"] = type(x).__name__, str(x)
        rec["end"] = loop.time()

    async def caller(name, n):
        for i in range(n):
            if rng.random() < .6:
                await asyncio.sleep(rng.choice([0, 0, .1, .5, 1, 3, 12]) * T * .7)
            await one(name, i)

    async def outages():
        for _ in range(rng.choice([0, 0, 1, 1, 2]) if mood != "late" else 0):
            await asyncio.sleep(rng.choice([.2, 1, 3, 6]) * T)
            await srv.down(rng.random() < .8)
            await asyncio.sleep(rng.choice([.1, .5, 2]) * T)
            await srv.up()
            if rng.random() < .3 and srv.kind != "udp":
                await asyncio.sleep(T * .4)
                for w in list(srv.conns):
                    srv.end(w, rng.random() < .5, "outage")

    tasks = [loop.create_task(caller(chr(97 + i), rng.randint(1, 6))) for i in range(rng.choice([1, 1, 2, 3, 5]))] + [loop.create_task(outages())]
    done, pending = await asyncio.wait(tasks, timeout=1e5)
    conf = f"{kind} {kw} server {mood}"
    if pending:
        stuck = [x["uid"] for x in calls if "end" not in x]
        raise Violation("never-ends", f"{conf}: calls {stuck} did not end; {history(srv, calls)}", {"props": ["C13"]})
    for t in done:
        if t.exception():
            raise t.exception()
    for t in asyncio.all_tasks():
        if t is not asyncio.current_task():
            t.cancel()
    await asyncio.sleep(0)
    if srv.server:
        srv.server.close()
    for w in list(srv.conns):
        w.close()
    if srv.transport:
        srv.transport.close()
    judge(kind, T, max(1, m), kw["retry_delay"], srv, calls, conf, stats)
    stats["cases_" + kind] = stats.get("cases_" + kind, 0) + 1
    return conf, history(srv, calls), sig([(x["ev"], (x.get("e") or {}).get("uid"), (x.get("e") or {}).get("how")) for x in srv.events] + [(x["uid"], x.get("exc")) for x in calls])


def history(srv, calls):
    h = [(e["t"], f"{e['ev']} " + (f"{e['e']['uid']} answered {e['e']['how']} after {e['e']['delay']:.2f} status {e['e']['status']}" if e["ev"] == "request" else str(e.get("how", "")))) for e in srv.events]
    h += [(c["start"], f"call {c['uid']}") for c in calls]
    h += [(c["end"], f"done {c['uid']} {c.get('exc') or ('cancelled' if c.get('cancelled') else str(c.get('result'))[:60])}") for c in calls if "end" in c]
    return [f"{t - 1000:.2f} {x}" for t, x in sorted(h, key=lambda x: x[0])]


def judge(kind, T, m, D, srv, calls, conf, stats):
    def bad(props, k, text):
        raise Violation(k, f"{conf}: {text}; history {history(srv, calls)[-60:]}", {"props": props, "history": history(srv, calls)})

    seen = {}
    for ev in srv.events:
        if ev["ev"] == "broken-request":
            bad(["C13"], "broken-request", f"the server received {ev['raw']!r}")
        if ev["ev"] == "request":
            seen.setdefault(ev["e"]["uid"], []).append(ev["e"])
    windows, since = [], None
    for ev in srv.events:
        if ev["ev"] == "down":
            since = ev["t"]
        elif ev["ev"] == "up" and since is not None:
            windows.append((since, ev["t"]))
            since = None
    if since is not None:
        windows.append((since, 1e12))
    ends = [ev["t"] for ev in srv.events if ev["ev"] == "end"]
    known = {c["uid"] for c in calls}
    for u in seen:
        if u not in known:
            bad(["C13"], "unknown-request", f"the server received a request {u} nobody made")
    stream = kind != "udp"
    persistent = kind[0] == "p"
    for c in calls:
        stats["calls"] = stats.get("calls", 0) + 1
        uid, at = c["uid"], seen.get(c["uid"], [])
        stats["requests_seen"] = stats.get("requests_seen", 0) + len(at)
        what = f"call {uid} ({c['start'] - 1000:.2f} to {c['end'] - 1000:.2f})"
        # what was sent
        for e in at:
            if e["route"] != c["route"] or (c["sk"] and f"{e['sk']['trace_id']}:{e['sk']['span_id']}" != c["sk"]) or e["sk"] != at[0]["sk"]:
                bad(["C12", "C13"], "changed-request", f"{what}: the server received {e}, called was {c}")
        if len(at) > m:
            bad(["C13"], "too-many-attempts", f"{what}: sent {len(at)} times, the limit is {m}")
        if c.get("cancelled"):
            if any(e["at"] > c["end"] + EPS for e in at):
                bad(["C13"], "sent-after-cancel", f"{what}: sent after the caller gave up")
            stats["cancelled_calls"] = stats.get("cancelled_calls", 0) + 1
            continue
        # how each attempt went: "final" (an answer in time), "retry", or "either"
        fate = []
        for e in at:
            until = e["at"] + (T if e["how"] in ("late", "never") else e["delay"]) + EPS
            cut = stream and any(ev["ev"] == "end" and ev["owner"] != e["me"] and ev["conn"] == e["conn"] and e["at"] - EPS <= ev["t"] <= until for ev in srv.events)
            if not stream and any(a - EPS <= e["at"] + e["delay"] and e["at"] <= b for a, b in windows):
                fate.append("retry?")      # the answer could not be sent
            elif cut:
                fate.append("cut")
            elif e["how"] in ("ok", "slow", "status"):
                fate.append("final")
            elif e["how"] in ("late", "never"):
                fate.append("retry")
            elif e["how"] == "reset":
                fate.append("retry")
            elif e["how"] in ("eof", "partial"):
                fate.append("retry" if persistent else "either")
            elif e["how"] == "badtext":
                fate.append("end?")
            else:
                fate.append("end")
        for e, f in list(zip(at, fate))[:-1]:
            if f in ("final", "end"):
                bad(["C13"], "sent-after-response", f"{what}: the attempt at {e['at'] - 1000:.2f} was answered in time ({e['how']}), and the request was sent again")
        for e, f, n in zip(at, fate, at[1:]):
            if f == "retry" or e["how"] in ("eof", "partial") and f == "either":
                stats["pauses_between_attempts"] = stats.get("pauses_between_attempts", 0) + 1
                if n["at"] < e["at"] + (T if e["how"] in ("late", "never") else e["delay"]) + D - EPS:
                    bad(["C13"], "repeated-early", f"{what}: the attempt at {e['at'] - 1000:.2f} ({e['how']} after {e['delay']}) was repeated at {n['at'] - 1000:.2f}, the timeout is {T}, the configured delay {D}")
        if stream and not persistent and c["end"] > c["start"] + m * (T + D) + EPS:
            bad(["C13"], "overdue", f"{what}: longer than {m} attempts with timeout {T} and delay {D} can take")
        last, fl = (at[-1], fate[-1]) if at else (None, None)
        down = any(a <= c["end"] + EPS and c["start"] <= b + EPS for a, b in windows)
        # what came out
        if "result" in c:
            stats["results"] = stats.get("results", 0) + 1
            ok = [e for e in at if e["status"] == 0 and e["how"] in ("ok", "slow", "late") and c["result"] == {"uid": uid, "n": e["answer"]["n"], "pad": e["answer"]["pad"]}]
            if not ok:
                bad(["C12"], "foreign-result", f"{what}: returned {str(c['result'])[:200]}; the answers to it were {[(e['how'], e['status'], str(e['answer'])[:60]) for e in at]}")
            if fl == "final" and ok[-1] is not last or fl == "retry":
                bad(["C12", "C13"], "stale-result", f"{what}: returned {str(c['result'])[:100]}, which is the answer to an attempt it had given up")
            continue
        x = c["exc"]
        stats["exceptions"] = stats.get("exceptions", 0) + 1
        stats["exception_" + x] = stats.get("exception_" + x, 0) + 1
        if fl == "final":
            if last["status"] == 0:
                bad(["C13", "C12"], "answer-lost", f"{what}: answered with success in time, raised {x} {c['text'][:200]}")
            want = STATUS_EXC.get(last["status"], "UnknownStatusCodeException")
            if x != want:
                bad(["C13"], "wrong-exception", f"{what}: answered with status {last['status']}, raised {x} {c['text'][:200]}, expected {want}")
            if str(last["answer"]) not in c["text"]:
                bad(["C13"], "reason-lost", f"{what}: the answer {last['answer']} is not in {c['text'][:300]}")
            continue
        if fl == "end":
            continue            # any exception
        # nobody listens during the whole call, and no connection is left over: there is nothing to repeat
        gone = [(a, b) for a, b in windows if stream and not at and a < c["start"] and c["end"] < b]
        if gone and (not persistent or any(a < o["start"] and o["end"] < c["start"] and not seen.get(o["uid"]) and "exc" in o for o in calls for a, b in gone if "end" in o)):
            stats["refused_calls"] = stats.get("refused_calls", 0) + 1
            if x != "CommunicationsNonRetryable":
                bad(["C13"], "refusal-retried", f"{what}: every connection was refused, raised {x} {c['text'][:200]}")
            continue
        if fl == "end?" and x != "CommunicationsMaxRetriesReached":
            continue
        if x == "CommunicationsMaxRetriesReached":
            unseen = m - len(at)
            if unseen:
                prev = max([e["at"] for v in seen.values() for e in v if e["at"] < c["start"]] + [0])
                broken = len([t for t in ends if prev - EPS <= t <= c["end"] + EPS])
                enq = len([1 for ev in srv.events if ev["ev"] == "enq" and prev - EPS <= ev["t"] <= c["end"] + EPS])
                if not down and unseen > broken + (enq if persistent else 0):
                    bad(["C13"], "gave-up-early", f"{what}: gave up after {len(at)} attempts, the limit is {m}")
            continue
        if x == "CommunicationsNonRetryable":
            if fl == "either" or fl == "cut":
                continue
            if down and stream:
                continue
            if fl is None and not persistent and stream and any(c["start"] - EPS <= t <= c["end"] + EPS for t in ends):
                continue
            bad(["C13"], "wrong-exception", f"{what}: raised {x} {c['text'][:300]} after attempts {[e['how'] for e in at]}")
        if fl in ("cut", "end?", "retry?") and (x == STATUS_EXC.get(last["status"], "UnknownStatusCodeException") or last["how"] in ("garbage", "badtext")):
            continue
        bad(["C13"], "wrong-exception", f"{what}: raised {x} {c['text'][:300]} after attempts {[e['how'] for e in at]}")


def run_case(seed, E, directory, stats):
    loop = VLoop()
    asyncio.set_event_loop(loop)
    real, time.time = time.time, loop.time
    try:
        return loop.run_until_complete(case(rng_for(*seed), E, directory, stats))
    finally:
        time.time = real
        for t in asyncio.all_tasks(loop):
            t.cancel()
        loop.run_until_complete(asyncio.sleep(0))
        loop.close()


def client_worker(prop, per):
    def worker(c):
        from inproc import Sandbox
        sb = Sandbox()
        logging.disable(logging.CRITICAL)
        try:
            from ekosis import clients
            from ekosis.data_transfer_objects import SpanKey
            from ekosis.sending.sender import sender
            from ekosis.sending.sender_base import SenderBase
            from pydantic import BaseModel
            from typing import Any

            class Req(BaseModel):
                uid: str
                payload: Any = None

            class Res(BaseModel):
                uid: str
                n: int
                pad: str = ""
            E = {"clients": clients, "SpanKey": SpanKey, "sender": sender, "SenderBase": SenderBase, "Req": Req, "Res": Res}
            stats, keys, sample, off = {}, set(), None, []
            for i in range(per):
                seed = ("client", prop, *c, i)
                for attempt in range(3):            # the same plan again: what only happens when the machine stalls is not a verdict
                    try:
                        conf, h, key = run_case(seed, E, sb.dir, stats)
                        keys.add(key)
                        sample = sample or {"configuration": conf, "history": h[:15]}
                        break
                    except Violation as v:
                        mine = prop in v.witness["props"]
                        if v.kind in ("foreign-result", "stale-result", "changed-request") and mine and not v.detail.startswith("udp"):
                            raise           # (a new UDP socket can by coincidence get the port of one that was given up, and with it a late response)
                        if attempt == 2:
                            if mine:
                                raise
                            off.append(str(v)[:300])
            if off:
                stats["cases_ended_by_another_property"] = len(off)
            return {"keys": keys, "n": per, "counters": stats, "sample": sample, "notes": off[:1]}
        finally:
            sb.close()
    return worker
