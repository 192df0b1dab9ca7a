"""Stepwise world: one application with gated buffered handlers, one driver that is its only client, and an exact model of what
must be waiting, running, parked and finished at every step. A mismatch names the properties it refutes; a check only reports
those of its own property, and ends the run quietly on any other (the model is no longer exact from there on)."""
import json, signal, time
from common import Violation, Inconclusive, sig
from svc import Service, Gone, new_sk, sk_dict, sk_str, request_bytes

PAYLOADS = [None, 0, -1, 1.5, "", "x", "\u00e9\u4e16\U0001f600", 'q " \\ \n \r \t \u0000', [], {}, [None, [1, {"a": []}]], {"k": {"": 0, "\u00e9": [True, False]}}, "y" * 2000, 2**53 + 1, -2**63, {"span_key": "x", "data": 1, "retries": 7}]


# About another property, and the run can go on: nothing the model says depends on it.
SOFT = {"wrong-state", "wrong-sizes", "wrong-data", "wrong-listing", "metadata-changed", "wrong-attempt-number", "data-changed", "middleware-order", "middleware-chain", "attempt-order", "wrong-outcome", "wrong-span-key"}


class OffTopic(Exception):
    pass


class Item:
    __slots__ = ("sk", "data", "meta", "r", "floating", "tags", "attempts")

    def __init__(self, sk, data, meta):
        self.sk, self.data, self.meta = sk, data, meta
        self.r = {0}
        self.floating = False
        self.tags = set()
        self.attempts = 0

    def __repr__(self):
        return f"{(self.data or {}).get('uid') or self.sk[-6:]}{'~' if self.floating else ''}"


class Route:
    def __init__(self, spec):
        self.name, self.spec = spec["route"], spec
        self.pending, self.error, self.done, self.gone = [], [], {}, {}
        self.current = None
        self.rp = self.pp = False
        self.max = max(1, spec["max_retries"])
        self.items = {}
        self.rejected = set()
        self.before = {}            # span key -> how often it was processed successfully before it was sent again


def norm(dto, data):
    if dto == "empty":
        return {}
    if dto == "opt":
        return {"uid": data.get("uid"), "payload": data.get("payload"), "level": data.get("level", 3), "amount": data.get("amount")}
    return {"uid": data["uid"], "payload": data.get("payload"), "plan": data.get("plan", {})}


def opt_fields(rng):
    """Members of the DTO whose default is not None, and of a type JSON does not have."""
    d = {}
    if rng.random() < .5:
        d["level"] = rng.choice([None, None, 0, 3, -7])
    if rng.random() < .4:
        d["amount"] = rng.choice([None, "1.10", "0", "-12345678901234567890.000000001"])
    return d


class World:
    def __init__(self, rng, prop, spec, stats, tcp=False):
        self.rng, self.prop, self.stats = rng, prop, stats
        self.spec = spec
        self.routes = {b["route"]: Route(b) for b in spec["buffered"]}
        self.history = []
        self.n = 0
        self.last = ""
        self.restarts = 0
        self.sv = Service(rng, spec, tcp=tcp)
        self.cursor = 0
        self.responses = {}
        self.sent = {}
        self.shared, self.given = set(), set()

    # ------------------------------------------------------------------ verdicts
    def bad(self, props, kind, text):
        if self.prop in props:
            raise Violation(kind, f"{text}; configuration {json.dumps(self.spec['buffered'])} middleware {self.spec.get('middleware')} {self.spec.get('buffered_middleware')}; "
                                  f"last actions: {self.history[-30:]}", {"history": self.history})
        if kind in SOFT:
            self.c("observations_about_other_properties")
            return
        raise OffTopic(f"{sorted(props)} {kind}: {text}")

    def item_props(self, it):
        p = {"C01"}
        if self.killing:
            p.add("C03")
        if "failed" in it.tags:
            p.add("C06")
        if "restart" in it.tags:
            p.add("C02")
        if "managed" in it.tags:
            p.add("C08")
        if "paused" in it.tags:
            p.add("C07")
        return p

    def c(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    # ------------------------------------------------------------------ events
    def pump(self):
        self.sv.events.poll()
        ev = self.sv.events.all
        while self.cursor < len(ev):
            e = ev[self.cursor]
            self.cursor += 1
            self.event(e)

    def event(self, e):
        k = e["ev"]
        if k == "start":
            self.on_start(self.routes[e["route"]], e)
        elif k == "bproc":
            for r in self.routes.values():
                it = r.items.get(e["sk"])
                if it is None or e["sk"] in self.shared and it.data.get("uid") != e["data"].get("uid"):
                    continue
                if it.floating and len(it.r) > 1 and e["retries"] in it.r:
                    it.r = {e["retries"]}
                    it.floating = "resolved"
                if e["retries"] not in it.r:
                    self.bad({"C15"}, "wrong-attempt-number", f"{it}: before_process was told attempt number {e['retries']}, it is {it.r}")
                if e["metadata"] != it.meta or e["data"] != it.data:
                    self.bad({"C15"} | ({"C02"} if "restart" in it.tags else set()) | ({"C06", "C08"} if "managed" in it.tags else set()), "metadata-changed", f"{it}: before_process was given {e['metadata']} and {e['data']}, collected {it.meta}, sent {it.data}")
                self.c("attempts_with_metadata_compared")
        elif k == "aproc":
            for r in self.routes.values():
                it = r.items.get(e["sk"])
                if it is not None and not (e["sk"] in self.shared and it.data.get("uid") != e["data"].get("uid")) and (e["metadata"] != it.meta or e["data"] != it.data):
                    self.bad({"C15"}, "metadata-changed", f"{it}: after_process was given {e['metadata']} and {e['data']}, collected {it.meta}, sent {it.data}")
        elif k == "cancelled" and not self.stopping:
            self.bad({"C01", "C06"}, "cancelled", f"the handler for {e['sk']} was cancelled while the application was running")

    stopping = False

    def on_start(self, r, e):
        sk = e["sk"]
        self.c("starts")
        if r.current is not None:
            self.bad({"C05"}, "overlap", f"handler of {r.name} started for {sk} while it is running for {r.current}")
        it = r.items.get(sk)
        if it is None:
            if sk in r.rejected:
                self.bad({"C01"} | ({"C07"} if "busy" in self.sent.get(sk, ("",))[0] else set()), "rejected-processed", f"{sk} was answered with a failure, but is processed")
            self.bad({"C01"} | ({"C03"} if self.killing else {"C02"} if self.restarts else set()) | ({"C06", "C08"} if any(x.tags & {"failed", "managed"} for x in r.items.values()) else set()), "unknown-processed", f"handler of {r.name} started for {sk}, which nobody sent to it")
        if sk in r.done:
            self.bad(self.item_props(it) | ({"C02"} if r.done[sk] < self.restarts else set()), "processed-twice", f"{it} was processed successfully and is processed again")
        if sk in r.gone:
            self.bad({"C01", "C08"} | ({"C03"} if self.killing else set()), "removed-processed", f"{it} was removed by an operator ({r.gone[sk]}) and is processed")
        if it in r.error:
            self.bad({"C06"} | ({"C08"} if "managed" in it.tags else set()) | ({"C03"} if self.killing else set()), "parked-attempted", f"{it} is in the error queue (after {it.attempts} attempts of {r.max}) and is attempted again")
        if it not in r.pending and self.killing:
            self.bad({"C03"}, "order", f"{r.name}: handler started for {it} after a SIGKILL, after later ones, or it was parked; waiting {r.pending}")
        if it not in r.pending:
            raise Inconclusive(f"model has {it} nowhere")
        if r.pp:
            self.bad({"C07"}, "paused-started", f"processing of {r.name} is paused, handler started for {it}")
        if self.killing and not it.floating:        # those before it are lost
            k = r.pending.index(it)
            r.pending = [x for i, x in enumerate(r.pending) if x.floating or i >= k]
        first = next((x for x in r.pending if not x.floating), None)
        if it is not first and not it.floating:
            self.bad({"C05"} | ({"C08"} if "managed" in it.tags or (first and "managed" in first.tags) else set()), "order", f"{r.name}: handler started for {it}, expected {first}; waiting: {r.pending}")
        if e["data"] != it.data and e["data"] is not None:
            self.bad(self.item_props(it), "data-changed", f"{it}: handler was given {e['data']}, sent was {it.data}")
        r.pending.remove(it)
        it.floating = False if it.floating != "resolved" else False
        r.current = it
        it.attempts += 1

    # ------------------------------------------------------------------ settling
    def settle(self):
        """Everything the last action must have led to has happened, and nothing else."""
        deadline = None
        rounds = 0
        while True:
            self.pump()
            waiting = [r for r in self.routes.values() if r.current is None and not r.pp and r.pending]
            if not waiting:
                break
            self.sv.sync(40)
            rounds += 1
            if deadline is None:
                deadline = time.monotonic() + 12
            elif time.monotonic() > deadline and rounds > 60:
                self.pump()
                if [r for r in self.routes.values() if r.current is None and not r.pp and r.pending]:
                    self.stalled(waiting[0])
            elif rounds > 20:
                time.sleep(0.02)
        self.sv.sync(40)
        self.sv.sync(40)
        self.pump()

    def stalled(self, r):
        q = self.sv.queue(r.name)
        head = [x for x in r.pending if x.floating][:1] + [x for x in r.pending if not x.floating][:1]
        for it in r.pending:
            d = self.sv.error_data(r.name, it.sk)
            if d["request_data"] is not None:
                self.bad({"C06"} | ({"C08"} if "managed" in it.tags else set()), "parked-early", f"{r.name}: {it} is in the error queue after {it.attempts} attempts of {r.max}; waiting should be {r.pending}")
        if q["database_sizes"]["pending"] < len(r.pending):
            props = set()
            for it in r.pending:
                props |= self.item_props(it)
            self.bad(props, "lost", f"{r.name}: nothing is processed, {q}, but these were accepted and are not processed: {r.pending}")
        props = {"C05", "C01"}
        if "permit" in self.last or any("failed" in x.tags for x in r.items.values()):
            props.add("C06")
        if "unpause" in self.last or "pause" in self.last or any("paused" in x.tags for x in r.pending):
            props.add("C07")
        if "reprocess" in self.last:
            props.add("C08")
        if "restart" in self.last or any("restart" in x.tags for x in r.pending):
            props |= {"C02"}
        self.bad(props, "stalled", f"{r.name}: not paused, nothing running, {q}, waiting {r.pending}, expected next {head}, and no attempt is started")

    # ------------------------------------------------------------------ actions
    def start(self):
        self.sv.start()
        self.settle()

    def act(self, name, *args):
        self.last = name
        self.history.append((name,) + tuple(str(a) for a in args))
        self.c("action." + name)

    def make(self, r, sk=None):
        self.n += 1
        rng = self.rng
        data = {}
        if r.spec["dto"] != "empty":
            data = {"uid": f"u{self.n}"}
            if rng.random() < .7:
                data["payload"] = rng.choice(PAYLOADS)
            if r.spec["dto"] == "opt":
                data.update(opt_fields(rng))
            if r.spec["dto"] == "item" and (rng.random() < .5):
                data["plan"] = {"s": [-rng.randrange(3)] * rng.randrange(3), "mw": [], "cancel_spins": rng.choice([0, 0, 3])}
        return data, sk or new_sk(rng)

    def share(self, r):
        """The span key of a request to another endpoint: whoever makes several requests on behalf of one uses it for all of them."""
        if len(self.routes) < 2 or r.spec["dto"] == "empty" or self.rng.random() < .75:
            return None
        o = self.rng.choice([o for o in self.routes.values() if o is not r])
        pool = [sk for sk in list(o.items)[-6:] if sk not in r.items and sk not in r.rejected and (r.name, sk) not in self.given] if o.spec["dto"] != "empty" else []
        if not pool:
            return None
        sk = self.rng.choice(pool)
        self.shared.add(sk)
        self.given.add((r.name, sk))
        self.c("span_keys_shared_between_endpoints")
        return sk

    def through(self, r, data):
        """What the handler must get, given what was sent and what the middleware does to it."""
        d = json.loads(json.dumps(data))
        if isinstance(d.get("plan"), dict) and isinstance(d["plan"].get("mw"), list):
            d["plan"]["mw"] = d["plan"]["mw"] + [f"b{i}" for i in range(len(self.spec.get("middleware", [])))]
        return norm(r.spec["dto"], d)

    def meta(self, sk, data):
        m = {}
        for i, (_, flavour) in enumerate(self.spec.get("buffered_middleware", [])):
            if flavour == "dict":
                m.update({f"m{i}": f"{i}:{sk}", "shared": f"{i}/{sk}", f"nested{i}": {"n": [1, None, True, "\u00e9\u4e16"], "u": data.get("uid")}})
        return m

    def accept(self, r, sk, data, resp, dup):
        """Model update and response check for one request."""
        want = 500 if r.rp else 0
        k = (sk, want)
        self.responses[k] = self.responses.get(k, 0) + 1
        if resp["status"] != want:
            props = {"C07"} if 500 in (resp["status"], want) else {"C01"}
            self.bad(props, "wrong-status", f"request to {r.name} (receiving paused: {r.rp}) was answered {resp}")
        if sk_str(resp["span_key"]) != sk:
            self.bad({"C10"}, "wrong-span-key", f"{resp} for {sk}")
        if want:
            if not dup and sk not in r.items:
                r.rejected.add(sk)
                self.sent[sk] = ("busy",)
            return
        if dup:
            return
        it = Item(sk, self.through(r, data), self.meta(sk, data))
        if r.pp:
            it.tags.add("paused")
        if sk in r.items:       # sent again after it was processed or removed: one more request
            r.before[sk] = r.before.get(sk, 0) + (sk in r.done)
            r.done.pop(sk, None)
            r.gone.pop(sk, None)
            self.c("repeated_afterwards")
        r.items[sk] = it
        r.pending.append(it)
        self.sent[sk] = ("ok", self.restarts)
        self.c("accepted")

    def do_send(self, n=1, dup=False):
        r = self.rng.choice(list(self.routes.values()))
        reqs = []
        waiting = [x for x in r.pending if not x.floating]
        keep = waiting[1 if r.current is None and not r.pp else 0:]
        dup = dup and keep
        for _ in range(n):
            d = bool(dup) and self.rng.random() < .8
            data, sk = self.make(r, self.rng.choice(keep).sk if d else self.share(r))
            reqs.append((data, sk, d))
        self.act("send", r.name, [f"{'dup ' if d else ''}{x.get('uid') or sk[-6:]}" for x, sk, d in reqs])
        self.sv.conn.send(b"".join(request_bytes(r.name, data, sk) for data, sk, _ in reqs))
        for data, sk, d in reqs:
            resp = json.loads(self.sv.conn.line())
            self.accept(r, sk, data, resp, d)
        self.settle()

    def do_again(self):
        """A span key is used again after the request it came with was processed or removed."""
        r = self.rng.choice(list(self.routes.values()))
        there = {x.sk for x in r.pending + r.error + ([r.current] if r.current else [])}
        pool = [sk for sk in list(r.done) + list(r.gone) if sk not in there]
        if not pool:
            return self.do_send()
        data, sk = self.make(r, self.rng.choice(pool[-4:]))
        self.act("again", r.name, data.get("uid"), sk[-6:])
        self.sv.conn.send(request_bytes(r.name, data, sk))
        self.accept(r, sk, data, json.loads(self.sv.conn.line()), False)
        self.settle()

    def do_invalid(self):
        r = self.rng.choice(list(self.routes.values()))
        if r.spec["dto"] != "item":
            return
        sk = new_sk(self.rng)
        self.act("invalid", r.name)
        resp = self.sv.rpc(r.name, self.rng.choice([{"payload": 1}, {"uid": 5}, {"uid": None}, {"uid": "x", "plan": 3}]), sk)
        r.rejected.add(sk)
        self.sent[sk] = ("invalid",)
        if resp["status"] != (300):
            self.bad({"C11"}, "wrong-status", f"invalid request to {r.name} was answered {resp}")
        self.settle()

    def do_permit(self, outcome=None):
        rs = [r for r in self.routes.values() if r.current is not None]
        if not rs:
            return False
        return self.permit(self.rng.choice(rs), outcome)

    def permit(self, r, outcome=None):
        it = r.current
        outcome = outcome or self.rng.choices(["true", "false", "raise", "keyerror", "app", "timeout", "none", "assert", "badstr"], [self.ok_weight, 2, 1, 1, 1, 1, 1, 1, 1])[0]
        self.act("permit " + outcome, r.name, it)
        if not self.sv.ok("ctl.permit", {"route": r.name, "outcome": outcome})["ok"]:
            for _ in range(200):
                self.sv.sync(20)
                if self.sv.ok("ctl.permit", {"route": r.name, "outcome": outcome})["ok"]:
                    break
            else:
                self.pump()
                raise Inconclusive(f"{it} was started but does not wait for its outcome")
        r.current = None
        if outcome == "true":
            r.done[it.sk] = self.restarts
            self.c("processed")
        else:
            it.tags.add("failed")
            self.c("failed_attempts")
            it.r = {x + 1 for x in it.r}
            if len(it.r) > 1 and len({x >= r.max for x in it.r}) > 1:
                self.sv.sync(30)
                parked = self.sv.error_data(r.name, it.sk)["request_data"] is not None
                it.r = {x for x in it.r if (x >= r.max) == parked}
            if min(it.r) >= r.max:
                r.error.append(it)
                it.r = {0}
                self.c("parked")
            else:
                r.pending.append(it)
        self.settle()
        return True

    ok_weight = 6

    def do_pause(self):
        r = self.rng.choice(list(self.routes.values()))
        what = self.rng.choice(["receiving", "processing", "processing", "all"])
        undo = self.rng.random() < .5
        self.act(f"{what}.{'unpause' if undo else 'pause'}", r.name)
        a = self.sv.mgmt(f"{what}.{'unpause' if undo else 'pause'}", r.name)
        if what in ("receiving", "all"):
            r.rp = not undo
        if what in ("processing", "all"):
            r.pp = not undo
        for it in r.pending:
            if r.pp:
                it.tags.add("paused")
        self.answer(r, a, {"C07"})
        self.settle()

    def answer(self, r, a, props=frozenset({"C08"}), request=None):
        q = a["queue_data"]
        if not q or q["route_key"] != r.name:
            self.bad(set(props) | {"C08"}, "wrong-answer", f"{self.last} on {r.name} answered {a}")
        if (q["receiving_paused"], q["processing_paused"]) != (r.rp, r.pp):
            self.bad({"C07"}, "wrong-state", f"{self.last}: reported {q}, expected receiving_paused {r.rp}, processing_paused {r.pp}")
        n = len(r.pending)
        ok = {n, n - 1} if r.current is None and not r.pp and n else {n}
        if q["database_sizes"]["pending"] not in ok or q["database_sizes"]["error"] != len(r.error):
            self.bad({"C08"} | set(props & {"C08"}), "wrong-sizes", f"{self.last} on {r.name} reported {q['database_sizes']}, waiting {r.pending}, parked {r.error}")
        if request is not None and a.get("request_data") != request:
            self.bad({"C08"}, "wrong-data", f"{self.last} on {r.name} returned {a.get('request_data')}, the request's data is {request}")
        self.c("answers_compared")

    def check_error_queue(self, r, full=False):
        a = self.sv.mgmt("errors.get_first_10", r.name)
        want = [x.sk for x in r.error[:10]]
        if a["queue_data"] != want:
            missing = [x for x in r.error[:10] if x.sk not in (a["queue_data"] or [])]
            props = {"C08"} | ({"C03"} if self.killing else set())
            for it in missing:
                props |= self.item_props(it) | {"C06"}
            self.bad(props, "wrong-listing", f"{r.name}: first parked span keys {a['queue_data']}, expected {want}")
        self.c("listings_compared")
        if full:
            for it in r.error:
                d = self.sv.error_data(r.name, it.sk)
                if d["request_data"] != it.data:
                    props = {"C08"} | self.item_props(it) | {"C06"}
                    self.bad(props, "parked-missing" if d["request_data"] is None else "data-changed", f"{r.name}: {it} should be in the error queue with {it.data}, inspecting it gives {d}")

    def do_manage(self):
        rng = self.rng
        r = rng.choice(list(self.routes.values()))
        op = rng.choices(["data", "list", "inspect", "pop", "reprocess.one", "reprocess.all", "clear", "unknown_sk", "unknown_route", "other_route"], [2, 3, 3, 6 if self.prop == "C03" else 2, 3, 1.5, .7, 2, 1, 1])[0]
        self.manage(r, op)

    def manage(self, r, op):
        rng = self.rng
        if op in ("inspect", "pop", "reprocess.one") and not r.error:
            op = "unknown_sk"
        if op == "data":
            self.act("data", r.name)
            self.answer(r, self.sv.mgmt("data", r.name))
        elif op == "list":
            self.act("list", r.name)
            self.check_error_queue(r)
        elif op in ("inspect", "pop", "reprocess.one"):
            it = rng.choice(r.error)
            self.act(op, r.name, it)
            a = self.sv.mgmt({"inspect": "errors.inspect_request", "pop": "errors.pop_request", "reprocess.one": "errors.reprocess.one"}[op], r.name, it.sk)
            if a["request_data"] is None and a["queue_data"] is None:
                self.bad({"C08", "C06"} | self.item_props(it), "parked-missing", f"{r.name}: {it} should be in the error queue: {a}")
            if op == "pop":
                r.error.remove(it)
                r.gone[it.sk] = "pop"
                self.follow = .5 if self.prop == "C03" else .15
            elif op == "reprocess.one":
                r.error.remove(it)
                it.tags.add("managed")
                it.r = {0}
                it.attempts = 0
                r.pending.append(it)
            self.answer(r, a, request=it.data)
        elif op == "reprocess.all":
            self.act(op, r.name)
            a = self.sv.mgmt("errors.reprocess.all", r.name)
            for it in r.error:
                it.tags.add("managed")
                it.r = {0}
                it.attempts = 0
            r.pending += r.error
            r.error = []
            self.answer(r, a)
        elif op == "clear":
            self.act(op, r.name)
            a = self.sv.mgmt("errors.clear", r.name)
            for it in r.error:
                r.gone[it.sk] = "clear"
            if r.error:
                self.follow = .4
            r.error = []
            self.answer(r, a)
        else:
            what = rng.choice(["errors.inspect_request", "errors.pop_request", "errors.reprocess.one"])
            sk = new_sk(rng)
            if op != "unknown_route" and rng.random() < .6:      # known, but not in this error queue
                pool = [x.sk for x in r.pending] + list(r.done) + list(r.gone) + ([r.current.sk] if r.current else [])
                for o in self.routes.values():
                    if o is not r:
                        pool += [x.sk for x in o.error]
                pool = [x for x in pool if x not in [y.sk for y in r.error]]
                if pool:
                    sk = rng.choice(pool)
            name = r.name
            if op == "unknown_route":
                name = rng.choice([n for n in ["b.nope", "", "v.echo", r.name + ".x", r.name.upper()] if n not in self.routes])
                what = rng.choice([what, "data", "errors.clear", "errors.reprocess.all", "errors.get_first_10", "receiving.pause", "processing.pause", "all.pause", "processing.unpause"])
            self.act(op, name, what, sk[-6:])
            a = self.sv.mgmt(what, name, sk if "_request" in what or what.endswith("one") else None)
            if a["queue_data"] is not None or a["request_data"] is not None:
                self.bad({"C08"}, "unknown-accepted", f"{what} on {name} for {sk}: answered {a}")
            if not a["message"]:
                self.bad({"C08"}, "unknown-not-reported", f"{what} on {name} for {sk}: answered {a}")
        self.settle()

    follow = 0

    def do_follow(self):
        """What an operator removed must stay away, also when the application ends right afterwards."""
        p, self.follow = self.follow, 0
        if self.rng.random() < p and self.enders:
            self.rng.choice(self.enders)()
            for r in self.routes.values():
                self.check_error_queue(r)

    enders = ()

    def do_bulk(self):
        """More than a hundred of everything."""
        rng = self.rng
        r = rng.choice(list(self.routes.values()))
        self.act("bulk", r.name)
        for what in ("processing", "receiving"):
            self.sv.mgmt(what + (".pause" if what == "processing" else ".unpause"), r.name)
        r.rp, r.pp = False, True
        n = rng.randint(101, 260)
        reqs = [self.make(r) for _ in range(n)]
        self.sv.conn.send(b"".join(request_bytes(r.name, data, sk) for data, sk in reqs))
        for data, sk in reqs:
            self.accept(r, sk, data, json.loads(self.sv.conn.line()), False)
        if rng.random() < .5:
            self.rng.choice(self.enders)() if self.enders else None
        self.sv.mgmt("processing.unpause", r.name)
        r.pp = False
        self.settle()
        fail = rng.choice([0, 5, 101, n])
        for _ in range(min(len(r.pending) + 1, 3 * n)):
            if r.current is None:
                break
            self.permit(r, "true" if len(r.error) >= fail else "false")
        self.check_error_queue(r)
        if len(r.error) > 100 and rng.random() < .6:
            self.manage(r, "reprocess.all")
            for _ in range(rng.choice([0, 3, 120])):
                if r.current is not None:
                    self.permit(r, "true")
        self.c("bulk_runs")

    def do_restart(self, how=None, times=None):
        rng = self.rng
        how = how or rng.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT, signal.SIGHUP, "crash"])
        times = times or rng.choice([1, 1, 1, 2, 4])
        self.act("restart", how, times)
        self.stopping = True
        try:
            self.sv.stop(how, times)
        except Violation as v:
            self.bad({"C02"}, v.kind, v.detail)
        self.pump_stop()
        self.stopping = False
        self.restarts += 1
        floating = []
        for r in self.routes.values():
            for it in r.pending + r.error:
                it.tags.add("restart")
            if r.current is not None:
                it, r.current = r.current, None
                it.tags.add("restart")
                it.floating = True
                it.r = {x for v in it.r for x in (v, v + 1)}
                r.pending.append(it)
                floating.append((r, it))
            r.rp = r.pp = False
        try:
            self.sv.start()
        except Violation as v:
            self.bad({"C02", "C01"}, v.kind, v.detail)
        for r, it in floating:
            d = self.sv.error_data(r.name, it.sk)
            if d["request_data"] is not None:
                r.pending.remove(it)
                r.error.append(it)
                it.floating = False
                it.r = {0}
        self.settle()
        self.c("restarts")

    killing = False

    def do_kill(self):
        """SIGKILL between two actions, a new start, and everything that is still there let through: what is missing must be no more
        than the pages in memory, what is there must be what was there, in order, and nothing that was finished or removed."""
        self.act("kill")
        self.sv.kill()
        self.pump_stop()
        self.restarts += 1
        at = {}
        for r in self.routes.values():
            at[r] = (list(r.pending), list(r.error))
            for it in r.pending + r.error:
                it.tags.add("restart")
            if r.current is not None:               # not finished: it may be lost, kept, or parked
                it, r.current = r.current, None
                it.floating = True
                r.pending.append(it)
            r.rp = r.pp = False
        try:
            self.sv.start()
        except Violation as v:
            self.bad({"C03"}, v.kind, v.detail)
        self.killing = True
        for r in self.routes.values():
            page = max(1, r.spec["page_size"])
            before, errors = at[r]
            there, got = [], []
            for it in errors:
                d = self.sv.error_data(r.name, it.sk)["request_data"]
                if d is None:
                    continue
                if d != it.data:
                    self.bad({"C03"}, "data-changed", f"{r.name}: {it} is in the error queue with {d}")
                there.append(it)
            r.error = there
            if len(errors) - len(there) > 2 * page:
                self.bad({"C03"}, "too-many-lost", f"{r.name} (page size {page}): {len(errors) - len(there)} parked requests are missing after one SIGKILL: {[x for x in errors if x not in there]}")
            q = self.sv.queue(r.name)["database_sizes"]
            if q["error"] != len(r.error):
                self.bad({"C03"}, "back-again", f"{r.name}: {q['error']} are in the error queue after a SIGKILL, of those that were there {r.error}; finished {len(r.done)}, removed {list(r.gone.items())[-10:]}")
            for sk in list(r.gone)[-8:]:
                if self.sv.error_data(r.name, sk)["request_data"] is not None:
                    self.bad({"C03"}, "back-again", f"{r.name}: {r.items[sk]} was removed ({r.gone[sk]}) and is in the error queue again")
            self.check_error_queue(r)
            # whatever is still waiting
            end = time.monotonic() + 60
            quiet = 0
            while quiet < 3:
                self.sv.sync(60)
                self.pump()
                if r.current is not None:
                    got.append(r.current)
                    quiet = 0
                    if not self.sv.ok("ctl.permit", {"route": r.name, "outcome": "true"})["ok"]:
                        if time.monotonic() > end:
                            raise Inconclusive(f"{r.current} was started but does not wait for its outcome")
                        got.pop()
                        continue
                    r.done[r.current.sk] = self.restarts
                    r.current = None
                elif self.sv.queue(r.name)["database_sizes"]["pending"] == 0:
                    quiet += 1
                elif time.monotonic() > end:
                    self.bad({"C03"}, "stalled", f"{r.name}: {self.sv.queue(r.name)} after a SIGKILL and nothing is processed")
            if len(before) - len([x for x in got if x in before]) > 2 * page:
                self.bad({"C03"}, "too-many-lost", f"{r.name} (page size {page}): of {before} only {got} were there after one SIGKILL")
            r.pending = []
            self.c("waiting_at_a_kill", len(before))
            self.c("still_there", len(got))
        self.killing = False
        self.settle()
        self.c("kills")

    def pump_stop(self):
        self.sv.events.poll()
        ev = self.sv.events.all
        while self.cursor < len(ev):
            e = ev[self.cursor]
            self.cursor += 1
            if e["ev"] == "start":        # begun between the last step and the stop: the attempt is cut off again
                self.event(e)
            elif e["ev"] in ("bproc",):
                self.event(e)

    # ------------------------------------------------------------------ end of a run
    def drain(self):
        """Everything is let go, everything must be handled; then every request is accounted for."""
        self.act("drain")
        for r in self.routes.values():
            self.sv.mgmt("all.unpause", r.name)
            r.rp = r.pp = False
        self.last = "unpause"
        self.settle()
        for r in self.routes.values():
            for _ in range(100000):
                if r.current is None and not r.pending:
                    break
                if not self.do_permit(self.rng.choice(["true", "true", "true", "false"])):
                    break
        self.settle()
        for r in self.routes.values():
            q = self.sv.queue(r.name)
            if q["database_sizes"]["pending"]:
                self.bad({"C08"}, "wrong-sizes", f"{r.name}: {q} when everything is processed")
            self.check_error_queue(r, full=True)
        self.check_accounts()
        self.c("drained_runs")

    def check_accounts(self):
        ends = {}
        for e in self.sv.events.all:
            if e["ev"] == "end" and e["ok"]:
                ends[(e["route"], e["sk"])] = ends.get((e["route"], e["sk"]), 0) + 1
        for r in self.routes.values():
            for sk, it in r.items.items():
                n = ends.get((r.name, sk), 0)
                want = r.before.get(sk, 0) + (sk in r.done)
                if n != want:
                    self.bad(self.item_props(it), "accounts", f"{it} was processed successfully {n} times, expected {want}")
                self.c("requests_accounted_for")
            for sk in r.rejected:
                if ends.get((r.name, sk)):
                    self.bad({"C01"}, "rejected-processed", f"{sk} was rejected but processed")

    # ------------------------------------------------------------------ middleware order, offline over the whole log
    def check_middleware(self):
        nm, nb = len(self.spec.get("middleware", [])), len(self.spec.get("buffered_middleware", []))
        per, open_ = {}, {}
        for e in self.sv.events.all:
            if e["ev"] in ("before", "after", "bpush"):
                per.setdefault(e["sk"], []).append(e)
        for r in self.routes.values():
            for sk in list(r.items) + list(r.rejected):
                got = [(e["ev"], e["i"]) for e in per.get(sk, [])]
                n, m = self.responses.get((sk, 0), 0), self.responses.get((sk, 500), 0) if nm else 0
                one = [("before", i) for i in range(nm)] + [("bpush", i) for i in range(nb)] + [("after", i) for i in range(nm)]
                rej = [("before", i) for i in range(nm)]
                if sk in r.items:
                    seqs = self._split(got, nm, nb)
                    if seqs is None or seqs.count(one) != n or seqs.count(rej) != m or len(seqs) != n + m:
                        self.bad({"C15"}, "middleware-order", f"{r.name} {sk}: middleware calls {got}, expected {n} times {one} and {m} times {rej}")
                elif sk in self.shared:
                    continue
                elif [g for g in got if g[0] != "after"][:nm] != rej or any(g[0] == "bpush" for g in got):
                    self.bad({"C15"}, "middleware-order", f"rejected {sk}: middleware calls {got}")
                self.c("middleware_sequences_compared")
                for e in per.get(sk, []):
                    d = e["data"]
                    if e["ev"] == "before" and isinstance(d, dict) and isinstance(d.get("plan"), dict) and isinstance(d["plan"].get("mw"), list):
                        want = [f"b{i}" for i in range(e["i"])]
                        if d["plan"]["mw"] != want:
                            self.bad({"C15"}, "middleware-chain", f"{sk}: before_routing of middleware {e['i']} was given {d['plan']['mw']}, the ones before it returned {want}")
        # attempts: bproc 0..n, start, end, aproc 0..n
        seq = {}
        for e in self.sv.events.all:
            if e["ev"] in ("bproc", "start", "end", "aproc", "cancelled"):
                seq.setdefault(e["sk"], []).append(e)
        for r in self.routes.values():
            for sk, it in r.items.items():
                if sk in self.shared:       # attempts of both may overlap
                    continue
                cur = []
                for e in seq.get(sk, []):
                    k = (e["ev"], e.get("i"))
                    full = [("bproc", i) for i in range(nb)] + [("start", None), ("end", None)] + [("aproc", i) for i in range(nb)]
                    if k[0] == "cancelled":
                        cur = []
                        continue
                    if k == full[0] and cur and len(cur) < len(full):
                        cur = []           # the previous attempt was cut off by a stop
                    pos = len(cur)
                    if pos >= len(full):
                        cur, pos = [], 0
                    if k != full[pos]:
                        self.bad({"C15"}, "attempt-order", f"{it}: {k} after {cur}, expected {full[pos]}")
                    if k[0] == "end":
                        ok = e["ok"]
                    if k[0] == "aproc" and bool(e["success"]) != ok:
                        self.bad({"C15"}, "wrong-outcome", f"{it}: after_process was told {e['success']}, the handler's outcome was {ok}")
                    cur.append(k)
                    self.c("attempt_events_compared")

    def _split(self, got, nm, nb):
        """Splits a span key's middleware calls into one sequence per request."""
        if nm == 0 and nb == 0:
            return [[] for _ in range(1)] if not got else None
        first = ("before", 0) if nm else ("bpush", 0)
        out = []
        for g in got:
            if g == first:
                out.append([])
            if not out:
                return None
            out[-1].append(g)
        return out

    # ------------------------------------------------------------------ another instance with the same endpoints and the same buffer directory
    def neighbour(self):
        rng = self.rng
        app, inst = rng.choice([("svc_app", "1"), ("svc_app", "00"), ("other", "0"), ("svc", "0"), ("svc_app", "a")])
        self.nb = Service(rng, {"buffered": self.spec["buffered"]}, app=app, instance=inst)
        self.nb.env["ECOENV_BUFFER_DIR"] = self.sv.dir
        self.nb.start()
        self.nb_sent = {}
        for r in self.routes.values():
            self.nb.mgmt("processing.pause", r.name)
            self.nb_sent[r.name] = [f"nb{i}" for i in range(rng.randint(1, 2 * min(r.spec["page_size"], 5) + 3))]
            for u in self.nb_sent[r.name]:
                self.nb.ok(r.name, {"uid": u})
        self.act("neighbour", f"{app}-{inst}", self.nb_sent)
        if rng.random() < .6:
            self.nb.stop(signal.SIGTERM)

    def neighbour_end(self):
        if self.nb.poll() is not None:
            self.nb.start()
            for _ in range(5):
                self.nb.ok("ctl.sync", {"n": 60})
        self.nb.events.poll()
        started = {}
        for e in self.nb.events.all:
            if e["ev"] == "start":
                started.setdefault(e["route"], []).append(e["data"].get("uid") if e["data"] else None)
        for name, uids in self.nb_sent.items():
            n, s = self.nb.queue(name)["database_sizes"]["pending"], started.get(name, [])
            if n + len(s) != len(uids) or [u for u in s if u is not None] not in (uids[:1], []):
                self.bad({"C01", "C02"}, "neighbour-changed", f"{name} of {self.nb.app}-{self.nb.instance}, which uses the same buffer directory, had {uids} waiting, now it has {n} and processes {s}")
            self.c("neighbours_compared")

    nb = None

    # ------------------------------------------------------------------
    def run(self, weights, steps, ok_weight=6, restarts=True):
        self.ok_weight = ok_weight
        acts = {"send": lambda: self.do_send(), "burst": lambda: self.do_send(self.rng.randint(2, 8)), "dup": lambda: self.do_send(self.rng.choice([1, 1, 3]), True),
                "invalid": self.do_invalid, "permit": self.do_permit, "pause": self.do_pause, "manage": self.do_manage, "restart": self.do_restart, "again": self.do_again, "bulk": self.do_bulk, "kill": self.do_kill}
        weights = {"again": .05 * sum(weights.values()), **weights}
        weights.setdefault("bulk", .0012 * sum(weights.values()))
        names = list(weights)
        self.enders = [x for n, x in (("restart", self.do_restart), ("kill", self.do_kill)) if weights.get(n)]
        try:
            if self.rng.random() < .1:
                self.neighbour()
            self.start()
            for _ in range(steps):
                acts[self.rng.choices(names, [weights[n] for n in names])[0]]()
                self.do_follow()
            self.drain()
            if self.rng.random() < .5:
                self.do_restart()
                self.settle()
                for r in self.routes.values():
                    self.check_error_queue(r, full=True)
                self.check_accounts()
            self.check_middleware()
            if self.nb:
                self.neighbour_end()
        except Gone as e:
            st = self.sv.wait(10)
            self.bad({"C01", "C10", "C02"} if st is not None else {"C10"}, "connection-lost", f"connection lost ({e}), application status {st}: {self.sv.output()}")
        finally:
            self.sv.close()
            if self.nb:
                self.nb.close()


def random_spec(rng, routes=None, dtos=("item", "item", "item", "opt", "empty")):
    n = routes or rng.choice([1, 1, 2])
    # deliberately similar route keys: one a prefix of the other
    names = rng.sample(["b.a", "b.a.x", "b.queue", "b.queue.two", "b.A", "b.q", "b.a_x", "b.a-x"], n)
    if n == 2 and rng.random() < .4:
        names = ["b.a.x", rng.choice(["b.A.x", "b.a_x", "b.a-x", "b.ax", "b.a", "b.a.x-pending"])]
    return {"buffered": [{"route": r, "dto": rng.choice(dtos), "page_size": rng.choice([1, 1, 2, 2, 3, 5, 100]), "max_retries": rng.choice([0, 1, 2, 3, 4]), "mode": "gated", "pos": rng.random() < .5}
                         for r in names],
            "middleware": [rng.choice([0, 0, 2]) for _ in range(rng.choice([0, 1, 2, 3]))],
            "buffered_middleware": [[rng.choice([0, 0, 2, 20]), rng.choice(["dict", "dict", "none", "empty"])] for _ in range(rng.choice([1, 2, 3]))]}


def world_worker(prop, weights, steps, ok_weight=6, spec_kw=None):
    from common import rng_for

    def worker(case):
        seed, i = case
        rng = rng_for("world", prop, seed, i)
        spec = random_spec(rng, **(spec_kw or {}))
        stats = {}
        w = World(rng, prop, spec, stats)
        note = []
        try:
            w.run(weights, rng.randint(*steps), ok_weight)
        except OffTopic as e:
            stats["runs_ended_by_another_property"] = 1
            note = [f"ended early: {e}"[:500]]
        return {"key": sig(w.history), "counters": stats, "nontrivial": len(w.history) > 5, "notes": note,
                "sample": {"configuration": spec["buffered"], "actions": [" ".join(h) for h in w.history[:14]]}}
    return worker
