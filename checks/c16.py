"""C16: statistics count what happened."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import json, time
from common import Check, Violation, Inconclusive, run_parallel, rng_for, sig
from inproc import preload
from svc import Service, Conn, new_sk, request_bytes

GET = "eco.statistics.get"
PLAIN = ["v.echo", "v.big", "v.sk", "v.none", "v.fail", "v.strict"]


def at(values, q):
    """The value at a fraction of the way through, between two of them in proportion."""
    x = q * (len(values) - 1)
    i = int(x)
    return values[i] + (values[min(i + 1, len(values) - 1)] - values[i]) * (x - i)


class World:
    def __init__(self, rng, stats):
        self.rng, self.stats = rng, stats
        self.gp, self.hl = rng.choice([1, 2, 3, 5]), rng.choice([0, 1, 2, 3, 12])
        if rng.random() < .04:
            self.gp, self.hl = rng.choice([1, 2]), rng.choice([60, 130, 260])
        self.bufs = {}
        bufs = []
        for i in range(rng.choice([1, 2])):
            route = rng.choice([f"b.q{i}", f"b.deep.er.q{i}", f"bq{i}", f"v.echo.q{i}"])
            bufs.append({"route": route, "dto": "item", "page_size": rng.choice([1, 2, 5]), "max_retries": 1, "mode": "gated"})
            self.bufs[route] = {"waiting": 0, "running": 0, "error": 0}
        self.spec = {"buffered": bufs, "vclock": True,
                     "senders": [{"route": "t.s.x", "dto": "item", "page_size": 3, "max_retries": 1, "client": {"type": "tuds", "path": "/nonexistent/x", "timeout": 1, "max_retries": 1, "retry_delay": 0}}]}
        self.sender = {"pending": 0, "error": 0}
        app, inst = rng.choice([("svc_app", "0"), ("stat_app", "north")])
        self.sv = Service(rng, self.spec, app=app, instance=inst, tcp=rng.random() < .3, udp=rng.random() < .3, env={"ECOENV_STAT_GP": str(self.gp), "ECOENV_STAT_HL": str(self.hl)})
        self.conf = f"{app}-{inst} gather period {self.gp}, history length {self.hl}, buffered {[b['route'] for b in bufs]}"
        self.history = []
        self.sure, self.maybe = {}, {}      # route -> successful calls certainly in the current period, and those at its end or after it
        self.custom = {}
        self.durs = {}                      # route -> [(at least, at most)] how long each call of the period took
        self.entries = []                   # gathered so far, newest first, as first seen
        self.seconds = 0
        self.uid = 0
        self.total, self.counted = {}, {}
        self.routes = set(PLAIN) | set(self.bufs) | {GET, "ctl.sync", "ctl.stat", "eco.log.level"}

    def c(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, kind, text):
        raise Violation(kind, f"{self.conf}: {text}; last actions {self.history[-12:]}", {"history": self.history})

    def called(self, route, low, high, maybe=False):
        d = self.maybe if maybe else self.sure
        d[route] = d.get(route, 0) + 1
        self.total[route] = self.total.get(route, 0) + 1
        self.durs.setdefault(route, []).append((low, high))
        self.c("calls")

    def call(self, route, data, low=0.0, maybe=False):
        t = time.perf_counter()
        r = self.sv.rpc(route, data)
        t = time.perf_counter() - t
        if r["status"] == 0:
            self.called(route, low, t, maybe)
        else:
            self.c("failed_calls")
        return r

    def item(self, **plan):
        self.uid += 1
        return {"uid": f"u{self.uid}", "plan": plan}

    # ------------------------------------------------------------------ actions
    def do_calls(self):
        rng = self.rng
        for _ in range(rng.choice([1, 2, 5, 30])):
            route = rng.choice(PLAIN)
            ms = rng.choice([0, 0, 0, 0, 1, 4, 12])
            if route == "v.fail":
                self.call(route, self.item(kind=rng.choice(["app", "value", "key", "none", "none"])))
            elif route == "v.strict":
                self.call(route, rng.choice([{"n": 1, "s": "x"}, {"n": "no"}, {}]))
            elif route in ("v.none", "v.sk"):
                self.call(route, {})
            else:
                self.call(route, self.item(block=ms), ms / 1000)
        if rng.random() < .3:
            self.call("v.unknown", {})
        if rng.random() < .3:
            self.call("eco.log.level", {"level": "info"})
        self.history.append("calls")

    def do_profile(self):
        """Many calls of which the slowest are known."""
        rng = self.rng
        route = rng.choice(["v.echo", "v.echo", "v.big"])
        n = rng.choice([2, 3, 11, 20, 21, 41, 60, 101])
        slow = rng.choice([1, 2, 3, max(1, n // 20), max(1, n // 10)])
        ms = [0] * max(0, n - slow) + [rng.choice([2, 5]) * (i + 1) for i in range(min(n, slow))]
        rng.shuffle(ms)
        if rng.random() < .3:               # and many more
            ms += [0] * rng.choice([200, 400, 1100])
            if rng.random() < .3:
                rng.shuffle(ms)
        for x in ms:
            self.call(route, self.item(block=x), x / 1000)
        self.history.append(f"{len(ms)} calls, {slow} slow")

    def do_buffered(self):
        rng = self.rng
        for _ in range(rng.choice([1, 3, 8])):
            route = rng.choice(list(self.bufs))
            b = self.bufs[route]
            self.call(route, self.item())
            if b["running"]:
                b["waiting"] += 1
            else:
                b["running"] = 1
        self.call("ctl.sync", {"n": 30})
        self.history.append("buffered requests")

    def do_permit(self):
        rng = self.rng
        route = rng.choice(list(self.bufs))
        b = self.bufs[route]
        if b["running"]:
            how = rng.choice(["true", "false", "raise"])
            self.call("ctl.permit", {"route": route, "outcome": how})
            b["error"] += how != "true"
            b["running"] = 0
            if b["waiting"]:
                b["waiting"] -= 1
                b["running"] = 1
            self.call("ctl.sync", {"n": 60})
            self.history.append("one processed")

    def do_paused(self):
        route = self.rng.choice(list(self.bufs))
        self.call("eco.buffered_handler.receiving.pause", {"queue_route_key": route})
        for _ in range(3):
            self.call(route, self.item())       # refused: not a successful response
        self.call("eco.buffered_handler.receiving.unpause", {"queue_route_key": route})
        self.history.append("refused")

    def do_sender(self):
        k = self.rng.randint(1, 4)
        pause = self.rng.random() < .5
        if pause:
            self.call("eco.buffered_sender.send_process.pause", {"queue_route_key": "t.s.x"})
        else:
            self.call("eco.buffered_sender.send_process.unpause", {"queue_route_key": "t.s.x"})
        self.call("ctl.enqueue", {"route": "t.s.x", "items": [[None, self.item()] for _ in range(k)]})
        self.sender["pending"] += k
        if not pause:
            while self.sv.ok("eco.buffered_sender.data", {"queue_route_key": "t.s.x"})["queue_data"]["database_sizes"]["pending"]:
                self.called("eco.buffered_sender.data", 0, 9)
            self.called("eco.buffered_sender.data", 0, 9)
            self.sender["error"] += self.sender.pop("pending")
            self.sender["pending"] = 0
        self.history.append("sender")

    def do_custom(self):
        rng = self.rng
        items = []
        for _ in range(rng.randint(1, 8)):
            key = rng.choice(["mine", "custom.a", "custom.b.c", "custom.b.d", "x.y.z.w"])
            op = rng.choice(["inc", "inc1", "dec", "dec1", "set"])
            v = rng.choice([0, 1, 2, 0.5, 7.25, 1000000, -3])
            items.append([op, key, v])
            old = self.custom.get(key, 0)
            self.custom[key] = old + v if op == "inc" else old - v if op == "dec" else old + 1 if op == "inc1" else old - 1 if op == "dec1" else v
        self.call("ctl.stat", {"items": items})
        self.c("custom_operations", len(items))
        self.history.append("custom")

    def do_burst(self):
        """Calls that end while a period ends: each of them is in the one or in the other."""
        rng = self.rng
        kinds = [self.sv.uds] * 3 + ([self.sv.tcp] if self.sv.tcp else [])
        conns = [Conn(rng.choice(kinds)) for _ in range(rng.randint(1, 4))]
        route = rng.choice(["v.echo", "v.big", "v.none"])
        n = rng.choice([10, 30, 60])
        for c in conns:
            c.send(b"".join(request_bytes(route, self.item(s=[-rng.choice([1, 1, 2, 3])]) if route != "v.none" else {}, new_sk(rng)) for _ in range(n)))
        self.advance(min(rng.choice([1, 2, 3]), self.gp * max(1, self.hl)), spins=rng.choice([3, 7, 15]), check=False)
        k = 0
        for c in conns:
            for _ in range(n):
                r = json.loads(c.line())
                if r["status"] == 0:
                    self.called(route, 0, 999, maybe=True)
                    k += 1
            c.close()
        self.c("calls_around_a_period_end", k)
        self.history.append(f"burst of {k}")
        self.look()
        self.settle()

    def settle(self):
        """What was not in a gathered period is in this one."""
        for r, m in self.maybe.items():
            self.sure[r] = self.sure.get(r, 0) + m
        self.maybe = {}

    def advance(self, dt, spins=20, check=True):
        for _ in range(dt):
            t = time.perf_counter()
            self.sv.ok("ctl.advance", {"dt": 1, "step": 1, "n": spins})
            self.seconds += 1
            self.called("ctl.advance", 0, 99, maybe=True)
            if check:
                self.look()
                self.settle()

    def do_time(self):
        dt = self.rng.choice([1, 1, 2, self.gp, 2 * self.gp + 1])
        self.history.append(f"{dt} s")
        self.advance(dt)

    def do_history(self):
        """More periods than are kept, some of them with calls."""
        left = (self.hl + self.rng.choice([-1, 0, 1, 5])) * self.gp
        self.history.append(f"{left} s")
        while left > 0:
            dt = min(left, self.rng.choice([10, 25]))
            self.advance(dt, spins=8, check=False)
            left -= dt
            self.look()
            self.settle()
            for _ in range(self.rng.choice([0, 1, 3])):
                self.call("v.none", {})
        self.c("long_histories")

    def get(self, kind, maybe=False):
        r = self.call(GET, {"type": kind}, maybe=maybe)
        if r["status"]:
            self.bad("no-statistics", f"{kind}: {r}")
        return r["data"]["statistics"]

    # ------------------------------------------------------------------ checks
    def look(self):
        """Takes in what was gathered since, oldest first."""
        full = self.get("full", maybe=True)     # this call itself comes after all of them
        new = 0
        if not isinstance(full, list):
            self.bad("full", f"not a list: {str(full)[:200]}")
        if len(full) > self.hl:
            self.bad("too-many", f"{len(full)} gathered periods are kept")
        while new < len(full) and (not self.entries or full[new] not in self.entries):
            new += 1
        keep = full[new:]
        if keep != self.entries[:len(keep)]:
            self.bad("changed", f"gathered periods changed: now {str(keep)[:300]}, were {str(self.entries)[:300]}")
        if len(full) < min(self.hl, len(self.entries) + new):
            self.bad("too-few", f"{len(full)} gathered periods are kept, {len(self.entries) + new} were gathered")
        if self.hl == 0:
            # nothing to see: what happened before some period end is gone
            if self.seconds >= self.gp:
                self.blind = True
            return
        ts = [e["timestamp"] for e in full]
        if ts != sorted(ts, reverse=True) or any(not (self.t0 - 1 <= t <= time.time() + 1) for t in ts):
            self.bad("order", f"timestamps {ts}")
        for e in reversed(full[:new]):
            self.period(e)
            self.c("periods")
        self.entries = full[:new] + self.entries
        n = self.stats_periods = getattr(self, "stats_periods", 0) + new
        if abs(n - self.seconds // self.gp) > 1:
            self.bad("wrong-length", f"{n} periods were gathered in {self.seconds} s")
        last = self.get("gathered")
        if last != (full[0] if full else {}):
            self.bad("gathered", f"the last gathered period is {str(last)[:300]}, in the history it is {str(full[0] if full else None)[:300]}")

    def leaf(self, tree, path):
        for k in path.split("."):
            if not isinstance(tree, dict) or k not in tree:
                return None
            tree = tree[k]
        return tree

    def common(self, e, what):
        if e.get("application") != {"name": self.sv.app, "instance": self.sv.instance} or e.get("gather_period") != self.gp:
            self.bad("wrong-identity", f"{what}: {e.get('application')}, {e.get('gather_period')}")
        if not (0 <= e["uptime"] <= time.time() - self.t0 + 2):
            self.bad("wrong-uptime", f"{what}: {e['uptime']}")
        for r, b in self.bufs.items():
            got = self.leaf(e, f"buffered_endpoint_sizes.{r}")
            if got is None or (got.get("pending"), got.get("error")) != (b["waiting"], b["error"]):
                self.bad("queue-size", f"{what}: {r} has {got}, waiting are {b['waiting']}, parked {b['error']}")
        got = self.leaf(e, "buffered_sender_sizes.t.s.x")
        if got is None or (got.get("pending"), got.get("error")) != (self.sender["pending"], self.sender["error"]):
            self.bad("queue-size", f"{what}: the sender has {got}, waiting are {self.sender['pending']}, parked {self.sender['error']}")
        for key, v in self.custom.items():
            g = self.leaf(e, key)
            if g != v:
                self.bad("custom", f"{what}: {key} is {g}, the application made it {v}")
            self.c("custom_values_compared")

    def percentiles(self, e, route, count, what):
        p95, p99 = (self.leaf(e, f"endpoint_data.{route}.{k}") for k in ("p95", "p99"))
        if p95 is None or p99 is None:
            self.bad("no-percentile", f"{what}: {route} has {p95}, {p99}")
        if count == 0:
            if (p95, p99) != (-1, -1):
                self.bad("percentile", f"{what}: {route} was not called, percentiles are {p95}, {p99}")
            return
        d = self.durs.get(route, [])
        if not 0 <= p95 <= p99 + 1e-12:
            self.bad("percentile", f"{what}: {route} was called {count} times, percentiles {p95}, {p99}")
        if len(d) == count:                 # otherwise some of them are in the next period
            for name, p, q in (("95th", p95, .95), ("99th", p99, .99)):
                low, high = at(sorted(x[0] for x in d), q), at(sorted(x[1] for x in d), q)
                if p < low - 1e-4 or p > high + 1e-4:
                    self.bad("percentile", f"{what}: {route} was called {count} times, the {name} percentile is {p}; from how long the calls took it is between {low} and {high}: {[(round(a, 4), round(b, 4)) for a, b in sorted(d)[-8:]]}")
                self.c("percentiles_bounded" if low > 0 else "percentiles_bounded_above")
        self.c("percentiles_compared")

    def period(self, e):
        self.common(e, "gathered period")
        for route in sorted(self.routes | set(self.sure) | set(self.maybe)):
            n = self.leaf(e, f"endpoint_data.{route}.call_count")
            if n is None:
                self.bad("missing", f"gathered period: {route} is missing")
            s, m = self.sure.get(route, 0), self.maybe.get(route, 0)
            if not (s <= n <= s + m):
                self.bad("call-count", f"gathered period: {route} has {n} calls, answered were {s}" + (f" to {s + m}" if m else ""))
            self.percentiles(e, route, n, "gathered period")
            rest = s + m - n
            self.sure[route], self.maybe[route] = 0, rest
            self.durs[route] = [(0, 999)] * rest
            self.c("counts_compared")
        self.custom = {k: 0 for k in self.custom}

    def do_current(self):
        if getattr(self, "blind", False):
            return
        e = self.get("current")
        self.common(e, "current period")
        if abs(e["timestamp"] - time.time()) > 30:
            self.bad("wrong-time", f"{e['timestamp']} is not now")
        for route in sorted(self.routes | set(self.sure)):
            n, s = self.leaf(e, f"endpoint_data.{route}.call_count"), self.sure.get(route, 0)
            if n is None:
                self.bad("missing", f"current period: {route} is missing")
            if n != s and not (route == GET and n == s - 1):
                self.bad("call-count", f"current period: {route} has {n} calls, answered were {s}")
            if route != GET:
                self.percentiles(e, route, n, "current period")
            self.c("counts_compared")
        self.history.append("current")

    def run(self):
        try:
            self.t0 = time.time()
            self.sv.start()
            first = self.get("current")             # whatever it took to get here
            for r in self.routes | {"ctl.advance"}:
                self.sure[r] = self.leaf(first, f"endpoint_data.{r}.call_count") or 0
            self.sure[GET] = 1
            self.durs = {r: [(0, 999)] * n for r, n in self.sure.items()}
            acts = {self.do_calls: 4, self.do_profile: .7, self.do_buffered: 1.5, self.do_permit: 1.5, self.do_paused: .4, self.do_sender: .5, self.do_custom: 2, self.do_burst: 2, self.do_time: 3, self.do_current: 2}
            for _ in range(self.rng.randint(10, 45)):
                self.rng.choices(list(acts), list(acts.values()))[0]()
            if self.hl > 12:
                self.do_history()
            self.do_current()
        finally:
            self.sv.run_clock(True)
            self.sv.close()


def main():
    ck = Check("C16", "exploration",
               "seeded sequences of calls (successful and failing, of known least and greatest duration), buffered requests, processing, parking, sender traffic, custom statistics and pipelined bursts across period ends against a live "
               "application whose loop clock is driven by the check, for several gather periods, history lengths and route key shapes; every current and gathered statistics response is compared with the calls and answers on the wire; "
               "non-trivial: distinct sequences of actions",
               ["responses that turn out not to be serialisable are not counted either way", "the application's own clock for response times is the processor's", "period ends are driven by the event loop's clock"])
    preload()

    def worker(case):
        rng = rng_for("c16", *case)
        stats = {}
        w = World(rng, stats)
        w.run()
        return {"key": sig(w.conf + str(w.history)), "counters": stats, "sample": [w.conf] + w.history[:12]}
    run_parallel(ck, worker, [(ck.seed, i) for i in range(ck.budget(500, 6000))])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
