"""C27: the command line tools, against recording servers and against a real application."""
import json, os, shutil, socket, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import Check, Violation, Inconclusive, run_parallel, rng_for, sig, scratch, free_port
from inproc import preload
from svc import Service, new_sk, sk_dict
import clirun

H, S = "eco.buffered_handler.", "eco.buffered_sender."
SHARED = {"-e10": ("--error_10", "errors.get_first_10", False), "-rpa": ("--reprocess_all", "errors.reprocess.all", False), "-clr": ("--clear", "errors.clear", False),
          "-rp1": ("--reprocess_one", "errors.reprocess.one", True), "-ins": ("--inspect_request", "errors.inspect_request", True), "-pop": ("--pop_request", "errors.pop_request", True)}
BEM = {"-pr": ("--pause_receiving", "receiving.pause", False), "-pp": ("--pause_processing", "processing.pause", False), "-pa": ("--pause_all", "all.pause", False),
       "-ur": ("--unpause_receiving", "receiving.unpause", False), "-up": ("--unpause_processing", "processing.unpause", False), "-ua": ("--unpause_all", "all.unpause", False), **SHARED}
BSM = {"-ps": ("--pause_sending", "send_process.pause", False), "-us": ("--unpause_sending", "send_process.unpause", False), **SHARED}
LEVELS = ["debug", "info", "warn", "error", "critical"]
NAMES = ["b.a", "b.a.x", "queue", "eco.buffered_handler.data", "x y", "\u00e9\u4e16", "a/b", "'q'", 'say "x"', "A.B", "0", "None", "q" * 300, "b\\a", "{}"]
TEXTS = ["Success.", "Route key not found.", "", "Span key not found.", "\u00e9\u4e16 text", "100% {x} \\n", "a\nb", "Success for b.a"]
VALUES = [{"uid": "u1", "payload": None}, {"a": [1, 2, {"b": None}], "\u00e9": "\u4e16"}, [1, 2, 3], ["x", {"y": []}], {"deep": {"er": {"est": -1.5e10}}}, {"k": "v" * 3000}, {"n": 2 ** 60, "t": True}]


class Recorder:
    """A server that records every byte sent to it, and answers each request line as told."""
    def __init__(self, kind, directory, name):
        self.kind, self.seen, self.contacts, self.answers, self.stop, self.past = kind, [], 0, [], False, {}
        if kind == "uds":
            self.where = f"{directory}/{name}.sock"
            self.s = socket.socket(socket.AF_UNIX)
            self.s.bind(self.where)
        else:
            t = socket.SOCK_STREAM if kind == "tcp" else socket.SOCK_DGRAM
            port = free_port(kind)
            self.s = socket.socket(socket.AF_INET, t)
            self.s.bind(("127.0.0.1", port))
            self.where = f"127.0.0.1:{port}"
        if kind != "udp":
            self.s.listen(64)
        threading.Thread(target=self.udp if kind == "udp" else self.accept, daemon=True).start()

    def reply(self, line):
        if line in self.past:           # the same request once more, span key and all: the client did not get the answer in time
            return self.past[line]
        self.seen.append(line)
        r = self.answers.pop(0) if self.answers else {"status": 0, "data": {"message": "unexpected request"}}
        try:
            sk = json.loads(line)["span_key"]
        except (ValueError, KeyError, TypeError):
            sk = None
        self.past[line] = json.dumps({"span_key": sk, **r}).encode()
        return self.past[line]

    def udp(self):
        while not self.stop:
            b, a = self.s.recvfrom(1 << 20)
            self.contacts += 1
            if b[:1] in (b"\x05", b"\x06"):
                self.s.sendto(b"\x06\n", a)
            else:
                self.s.sendto(self.reply(b), a)

    def accept(self):
        while not self.stop:
            c, _ = self.s.accept()
            self.contacts += 1
            threading.Thread(target=self.conn, args=(c,), daemon=True).start()

    def conn(self, c):
        f = c.makefile("rb")
        try:
            while True:
                l = f.readline()
                if not l:
                    return
                c.sendall(b"\x06\n" if l[:1] == b"\x05" else self.reply(l) + b"\n")
        except OSError:
            pass
        finally:
            c.close()


def json_values(text):
    """Every JSON object or array that appears in the text."""
    d, i = json.JSONDecoder(), 0
    while i < len(text):
        if text[i] in "{[":
            try:
                v, j = d.raw_decode(text, i)
                yield v
                i = j
                continue
            except ValueError:
                pass
        i += 1


class Bench:
    def __init__(self, rng, stats):
        self.rng, self.stats = rng, stats
        self.d = scratch("vc_")
        self.servers = {(k, n): Recorder(k, self.d, n) for k in ("tcp", "udp", "uds") for n in ("one", "two")}
        self.keys, self.shown = set(), []

    def c(self, n, k=1):
        self.stats[n] = self.stats.get(n, 0) + k

    def go(self, tool, args, fresh=False):
        for s in self.servers.values():
            s.seen, s.contacts = [], 0
        r = clirun.run(tool, args, self.d, fresh)
        self.c("runs_" + tool)
        self.keys.add(sig((tool, args)))
        if len(self.shown) < 4:
            self.shown.append(" ".join([tool, *args]).replace(self.d, "")[:160])
        return r

    def span_key(self):
        b = self.rng.choice([self.rng.randbytes(24), bytes(24), b"\xff" * 24, bytes(16) + self.rng.randbytes(8), self.rng.randbytes(16) + bytes(7) + b"\x01"])
        h = b.hex()
        canon = f"{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:32]}:{h[32:]}"
        return canon, self.rng.choice([canon, canon, canon.upper()])

    def opt(self, short, long, value=None):
        o = self.rng.choice([short, long])
        if value is None:
            return [o]
        return [f"{o}={value}"] if o == long and self.rng.random() < .5 else [o, str(value)]

    def mix(self, groups):
        self.rng.shuffle(groups)
        return [x for g in groups for x in g]

    # ------------------------------------------------------------------ asked for something sensible
    def queue_data(self, tool, rk):
        rng = self.rng
        sizes = {"pending": rng.randrange(10 ** rng.randrange(1, 7)), "error": rng.randrange(10 ** rng.randrange(1, 7))}
        if tool == "bem":
            return {"route_key": rk, "receiving_paused": rng.random() < .5, "processing_paused": rng.random() < .5, "database_sizes": sizes}
        return {"route_key": rk, "send_process_paused": rng.random() < .5, "database_sizes": sizes}

    def good(self):
        rng = self.rng
        tool = rng.choice(["bem", "bem", "bsm", "bsm", "log", "stat"])
        srv = self.servers[rng.choice(list(self.servers))]
        groups = [self.opt("-st", "--server_type", srv.kind), self.opt("-sd", "--server_details", srv.where.replace("127.0.0.1", rng.choice(["127.0.0.1", "localhost"])) if srv.kind == "tcp" else srv.where)]
        want, answers, show = [], [], []
        if tool in ("bem", "bsm"):
            table, base = (BEM, H) if tool == "bem" else (BSM, S)
            rk = rng.choice(NAMES)
            groups.append(self.opt("-rk", "--route_key", rk))
            a = rng.choice([None] + list(table) * 2)
            data = {"queue_route_key": rk}
            canon, given = self.span_key()
            if a is None:
                route = base + "data"
                if rng.random() < .1:
                    groups.append(self.opt("-sk", "--span_key", given))
            else:
                long, route, item = table[a]
                route = base + route
                groups.append(self.opt(a, long))
                if item or rng.random() < .1:
                    groups.append(self.opt("-sk", "--span_key", given))
                if item:
                    data["span_key"] = sk_dict(canon)
            want = [(route, data)]
            ans = {"message": rng.choice(TEXTS), "queue_data": rng.choice([self.queue_data(tool, rk), self.queue_data(tool, rk), [], [str(canon), "b"], [f"{i}:{canon}" for i in range(10)], None]), "request_data": rng.choice(VALUES + [None, None])}
            answers = [{"status": 0, "data": ans}]
            show = [ans["message"]] + [x for x in (ans["queue_data"], ans["request_data"]) if x is not None]
        elif tool == "log":
            l, b = rng.choice([(1, 0), (0, 1), (1, 1)])
            order = []
            if l:
                v = rng.choice(LEVELS)
                groups.append(self.opt("-l", "--level", v))
                order.append(("eco.log.level", {"level": v}, {"level": f"level-{rng.randrange(1000)}"}))
            if b:
                v = rng.choice([0, 1, 10, 12345, -1, 10 ** 9])
                groups.append(self.opt("-b", "--buff_size", v) if v >= 0 else ["--buff_size=-1"])
                order.append(("eco.log.buffer", {"size": v}, {"size": rng.randrange(10 ** 6, 10 ** 7)}))
            want = [o[:2] for o in order]
            answers = [{"status": 0, "data": {**{"level": "?", "size": 7}, **o[2]}} for o in order]
            show = [str(v) for o in order for v in o[2].values()]
        else:
            t = rng.choice([None, "current", "gathered", "full"])
            if t:
                groups.append(self.opt("-type", "--type", t))
            st = rng.choice(VALUES + [{"uptime": 1.5, "endpoint_data": {"a": {"b": {"call_count": 3}}}}, [], {}, [{"timestamp": 1}, {"timestamp": 2}]])
            want = [("eco.statistics.get", {"type": t or "current"})]
            answers = [{"status": 0, "data": {"statistics": st}}]
            show = [st]
        failure = rng.random() < .12
        if failure:
            token = f"reason {rng.randrange(10 ** 9)}"
            answers[0] = {"status": rng.choice([100, 200, 300, 400, 500, 600, 999, 77]), "data": rng.choice([token, {"message": token, "queue_data": None, "level": "x", "size": 1, "statistics": token}])}
            want = want[:1]
        srv.answers = list(answers)
        args = self.mix(groups)
        code, out, err = self.go(tool, args, rng.random() < .04)
        got = [(k, s.seen, s.contacts) for k, s in self.servers.items() if s.contacts]
        what = f"{tool} {args}"
        if [k for k, _, _ in got] != [k for k, s in self.servers.items() if s is srv]:
            raise Violation("wrong-server", f"{what} contacted {[k for k, _, _ in got]}, not the server at {srv.kind} {srv.where}; status {code} {err[-600:]}")
        seen = []
        for l in srv.seen:
            try:
                r = json.loads(l)
                seen.append((r["route_key"], r["data"]))
            except (ValueError, KeyError, TypeError):
                raise Violation("wrong-request", f"{what} sent {l[:300]!r}")
        if sorted(map(repr, seen)) != sorted(map(repr, want)):
            raise Violation("wrong-request", f"{what} sent the requests {seen}, expected {want}")
        self.c("requests_checked", len(seen))
        if failure:
            if code == 0:
                raise Violation("failure-not-reported", f"{what}: the server answered {answers[0]}, the exit status is 0; output {out[-600:]}")
            if token not in out + err:
                raise Violation("answer-not-shown", f"{what}: the server answered {answers[0]}, the output is {out[-500:]} {err[-800:]}")
            self.c("failures_checked")
            return
        if code != 0:
            raise Violation("exit-status", f"{what}: status {code} after the answer {answers}: {err[-800:]}")
        values = None
        for x in show:
            if isinstance(x, str):
                ok = x in out
            else:
                values = values if values is not None else list(json_values(out))
                ok = x in values
            if not ok:
                raise Violation("answer-not-shown", f"{what}: the answer {answers} is not in the output (missing {x!r}): {out[-1500:]}")
        self.c("answers_checked", len(show))

    # ------------------------------------------------------------------ asked for something that makes no sense
    def bad(self):
        rng = self.rng
        tool = rng.choice(["bem", "bsm", "log", "stat"])
        srv = self.servers[rng.choice(list(self.servers))]
        base = {"st": ["-st", srv.kind], "sd": ["-sd", srv.where]}
        table = {"bem": BEM, "bsm": BSM}.get(tool)
        if table:
            base["rk"] = ["-rk", rng.choice(NAMES)]
            a = rng.choice(list(table))
            base["a"] = [a]
            if table[a][2]:
                base["sk"] = ["-sk", self.span_key()[0]]
        elif tool == "log":
            base["a"] = rng.choice([["-l", "info"], ["-b", "5"]])
        kinds = ["no-st", "no-sd", "bad-st", "bad-sd", "extra"]
        kinds += ["no-rk", "two", "two", "no-sk", "bad-sk", "unknown", "empty-rk"] if table else ["bad-value", "bad-value", "unknown"]
        k = rng.choice(kinds)
        if k == "no-st":
            del base["st"]
        elif k == "no-sd":
            del base["sd"]
        elif k == "no-rk":
            del base["rk"]
        elif k == "empty-rk":
            base["rk"] = ["--route_key", ""]
        elif k == "bad-st":
            base["st"] = ["-st", rng.choice(["TCP", "http", "", "uds,tcp", "unix"])]
        elif k == "bad-sd":
            if srv.kind == "uds":
                base["sd"] = ["-sd", f"{self.d}/nothing_there"]
            else:
                p = srv.where.split(":")[1]
                base["sd"] = ["-sd", rng.choice(["localhost", p, ":" + p, "127.0.0.1:", "127.0.0.1:abc", "127.0.0.1:" + p + "x", "127.0.0.1:-" + p, "127.0.0.1", "127.0.0.1:" + p + ".5", "", ":", "127.0.0.1: ", "127.0.0.1:0x1f"])]
        elif k == "extra":
            base["x"] = [rng.choice(["surplus", "--nonsense", "-zz"])]
        elif k == "two":
            a, b = rng.sample(list(table), 2)
            base["a"] = [rng.choice([a, table[a][0]]), rng.choice([b, table[b][0]])]
            if table[a][2] or table[b][2] or rng.random() < .2:
                base["sk"] = ["-sk", self.span_key()[0]]
        elif k in ("no-sk", "bad-sk"):
            a = rng.choice([x for x in table if table[x][2]])
            base["a"] = [a]
            base.pop("sk", None)
            if k == "bad-sk":
                s = self.span_key()[0]
                base["sk"] = ["-sk", rng.choice(["nonsense", s[:-1], s + "0", s.replace(":", ""), s[:-2] + "zz", s.split(":")[0], ":" + s.split(":")[1], "", s + ":" + s.split(":")[1]])]
        elif k == "unknown":
            base["a"] = {"bem": ["-ps"], "bsm": ["-pr"], "log": ["-type", "current"], "stat": ["-l", "info"]}[tool]
        elif k == "bad-value":
            base["a"] = rng.choice([["-l", "INFO"], ["-l", "warning"], ["-l", ""], ["-b", "many"], ["-b", "1.5"], ["-b", ""], ["-l", "info", "-b", "x"]]) if tool == "log" else rng.choice([["-type", "all"], ["-type", ""], ["-type", "Current"]])
        args = self.mix(list(base.values()))
        srv.answers = []
        code, out, err = self.go(tool, args, rng.random() < .04)
        what = f"{tool} {args} ({k})"
        got = [(x, s.seen) for x, s in self.servers.items() if s.contacts]
        if got:
            raise Violation("refused-options-sent", f"{what} contacted a server: {got}")
        if code == 0:
            raise Violation("not-refused", f"{what} ended with status 0: {out[-500:]} {err[-500:]}")
        if not (out + err).strip():
            raise Violation("not-refused", f"{what} said nothing")
        self.c("refusals_checked")

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


# ---------------------------------------------------------------------- the tools against a real application
class Real:
    """A real application whose requests are parked; after each tool run its state, asked for over the wire, must be what the tool's options say."""
    def __init__(self, rng, stats, sender):
        self.rng, self.stats, self.sender = rng, stats, sender
        self.routes = rng.sample(["b.a", "b.a.x", "b.q"], 2)
        self.sv = Service(rng, {}, tcp=True, udp=True)
        if sender:          # nobody listens there: whatever is sent ends up in the error queue
            self.sv.spec["senders"] = [{"route": r, "dto": "item", "page_size": rng.choice([1, 2, 100]), "max_retries": 1,
                                        "client": {"type": "tuds", "path": f"{self.sv.dir}/nobody", "timeout": .2, "max_retries": 1, "retry_delay": 0.001}} for r in self.routes]
        else:
            self.sv.spec["buffered"] = [{"route": r, "dto": "item", "page_size": rng.choice([1, 2, 100]), "max_retries": 1, "mode": "fail"} for r in self.routes]
        self.model = {r: {"error": [], "pending": [], "rp": False, "pp": False} for r in self.routes}
        self.data = {}
        self.history = []

    def settle(self):
        for r, m in self.model.items():
            if not m["pp"]:
                m["error"] += m["pending"]
                m["pending"] = []
                end = time.monotonic() + 30         # every attempt takes a few milliseconds; the verdict is the comparison afterwards
                while self.sv.queue(r, self.sender)["database_sizes"] != {"pending": 0, "error": len(m["error"])} and time.monotonic() < end:
                    self.sv.sync(20)
                    time.sleep(0.002)

    def state(self, r):
        return self.sv.queue(r, self.sender)

    def want(self, r):
        m = self.model[r]
        if self.sender:
            return {"route_key": r, "send_process_paused": m["pp"], "database_sizes": {"pending": len(m["pending"]), "error": len(m["error"])}}
        return {"route_key": r, "receiving_paused": m["rp"], "processing_paused": m["pp"], "database_sizes": {"pending": len(m["pending"]), "error": len(m["error"])}}

    def run(self, steps):
        rng, sv = self.rng, self.sv
        sv.start()
        for r in self.routes:
            for i in range(rng.randrange(14)):
                sk = new_sk(rng)
                d = {"uid": f"{r}{i}", "payload": rng.choice(VALUES), "plan": {}}
                if self.sender:
                    sv.ok("ctl.enqueue", {"route": r, "items": [[sk, d]], "n": 0})
                else:
                    sv.ok(r, d, sk)
                self.data[sk] = d
                self.model[r]["pending"].append(sk)
        self.settle()
        for _ in range(steps):
            self.step()

    def step(self):
        rng, sv = self.rng, self.sv
        r = rng.choice(self.routes)
        m = self.model[r]
        a = rng.choice([None] + (["-ps", "-us"] * 3 if self.sender else ["-pr", "-pp", "-pa", "-ur", "-up", "-ua"]) + ["-e10", "-e10", "-rp1", "-rp1", "-rpa", "-ins", "-ins", "-pop", "-pop", "-clr"])
        kind = rng.choice(["uds", "tcp", "udp"])
        where = {"uds": sv.uds, "tcp": "127.0.0.1:%d" % sv.tcp[1], "udp": "127.0.0.1:%d" % sv.udp[1]}[kind]
        args = ["-st", kind, "-sd", where, "-rk", r] + ([a] if a else [])
        sk = None
        if a in ("-rp1", "-ins", "-pop"):
            pool = m["error"] + [x for o in self.model.values() for x in o["error"]][:2]
            sk = rng.choice(pool) if pool and rng.random() < .85 else new_sk(rng)
            args += ["-sk", sk]
        self.history.append(args)
        before = dict(m, error=list(m["error"]), pending=list(m["pending"]))
        code, out, err = clirun.run("bsm" if self.sender else "bem", args, sv.dir)
        self.stats["runs_on_application"] = self.stats.get("runs_on_application", 0) + 1
        show = []
        known = sk is not None and sk in m["error"]
        if a in ("-pr", "-pa"):
            m["rp"] = True
        if a in ("-pp", "-pa", "-ps"):
            m["pp"] = True
        if a in ("-ur", "-ua"):
            m["rp"] = False
        if a in ("-up", "-ua", "-us"):
            m["pp"] = False
        if a == "-e10":
            show = [m["error"][:10]]
        if a == "-rpa":
            m["pending"] += m["error"]
            m["error"] = []
        if a == "-clr":
            m["error"] = []
        if known and a in ("-rp1", "-pop"):
            m["error"].remove(sk)
            if a == "-rp1":
                m["pending"].append(sk)
        if known and a in ("-pop", "-ins"):
            show = [self.data[sk]]
        what = f"{args} in the state {before}"
        if code != 0:
            raise Violation("exit-status", f"{what}: status {code}: {out[-500:]} {err[-800:]}", {"history": self.history})
        if a is None:
            show = [self.want(r)]
        values = list(json_values(out))
        for x in show:
            if x not in values:
                raise Violation("answer-not-shown", f"{what}: the output does not show {x}: {out[-1500:]}", {"history": self.history})
        self.settle()
        for o in self.routes:
            if self.state(o) != self.want(o):
                raise Violation("wrong-effect", f"after {what} the state of {o} is {self.state(o)}, expected {self.want(o)}", {"history": self.history})


def real_worker(case):
    seed, i, steps = case
    rng = rng_for("c27real", seed, i)
    stats = {}
    r = Real(rng, stats, i % 2 == 1)
    try:
        r.run(steps)
    finally:
        r.sv.close()
    return {"key": sig(r.history), "counters": stats, "sample": {"tool": ("bsm" if r.sender else "bem") + " on an application", "runs": [" ".join(h[4:]) for h in r.history[:6]]}}


def worker(case):
    if case[0] == "real":
        return real_worker(case[1:])
    _, seed, i, n = case
    rng = rng_for("c27", seed, i)
    stats = {}
    b = Bench(rng, stats)
    try:
        for j in range(n):
            (b.good if rng.random() < .7 else b.bad)()
    finally:
        b.close()
    return {"keys": b.keys, "n": n, "counters": stats, "sample": {"tool runs": b.shown}}


def main():
    ck = Check("C27", "exploration", "runs of the real tools with generated options, against servers that record what they are sent and answer with generated "
               "answers (over TCP, UDP and UDS), and against a real application whose state is read over the wire after each run", ["server answers arrive within the client's time limit"])
    preload()
    n, per = ck.budget((96, 25), (400, 100))
    cases = [("fake", ck.seed, i, per) for i in range(n)]
    m, steps = ck.budget((32, 20), (100, 60))
    cases += [("real", ck.seed, i, steps) for i in range(m)]
    run_parallel(ck, worker, cases)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
