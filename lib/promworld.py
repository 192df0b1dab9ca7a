"""The real metrics application between services that answer, fail and disappear by plan, and a stand-in Pushgateway. Each push is compared with
what the services answered since the push before."""
import json, os, shutil, signal, socket, struct, sys, threading, time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from common import Violation, Inconclusive, VERIF, scratch, free_port, sig

WATCHDOG = 60


try:        # the machine's own name, where it is an address of the loopback interface
    HOST = [socket.gethostname()] if socket.gethostbyname(socket.gethostname()) == "127.0.0.1" else []
except OSError:
    HOST = []


class Fake:
    """One address of one service."""
    def __init__(self, svc, kind, rng, directory, host):
        self.svc, self.kind, self.rng, self.n, self.alive = svc, kind, rng, 0, None
        if kind == "uds":
            self.path = f"{directory}/{svc.n}.sock"
            self.value = self.path
        else:
            self.port = free_port(kind, rng)
            self.value = f"{host}:{self.port}"

    def up(self):
        if self.alive:
            return
        if self.kind == "uds":
            if os.path.exists(self.path):
                os.unlink(self.path)
            s = socket.socket(socket.AF_UNIX)
            s.bind(self.path)
        else:
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM if self.kind == "tcp" else socket.SOCK_DGRAM)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("127.0.0.1", self.port))
        if self.kind != "udp":
            s.listen(32)
        self.alive = s
        threading.Thread(target=self.udp if self.kind == "udp" else self.accept, args=(s,), daemon=True).start()

    def down(self):
        s, self.alive = self.alive, None
        if s:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            s.close()
            if self.kind == "udp":          # wakes up the reader
                pass
            if self.kind == "uds" and self.rng.random() < .5:
                os.unlink(self.path)

    def udp(self, s):
        s.settimeout(.2)
        while self.alive is s:
            try:
                b, a = s.recvfrom(1 << 16)
            except socket.timeout:
                continue
            except OSError:
                return
            r = self.reply(b)
            if r is not None:
                try:
                    s.sendto(r.rstrip(b"\n"), a)
                except OSError:
                    pass

    def accept(self, s):
        while True:
            try:
                c, _ = s.accept()
            except OSError:
                return
            threading.Thread(target=self.conn, args=(c,), daemon=True).start()

    def conn(self, c):
        f = c.makefile("rb")
        try:
            while True:
                l = f.readline()
                if not l:
                    return
                if l[:1] == b"\x05":
                    c.sendall(b"\x06\n")
                    continue
                r = self.reply(l)
                if r is None:
                    if self.rng.random() < .5:
                        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    return
                c.sendall(r)
        except OSError:
            pass
        finally:
            f.close()
            c.close()

    def reply(self, line):
        self.n += 1
        self.svc.asked += 1
        try:
            q = json.loads(line)
            sk, right = q["span_key"], (q["route_key"], q["data"]) == ("eco.statistics.get", {"type": "gathered"})
        except (ValueError, KeyError, TypeError):
            return b"{}\n"
        k, st = self.svc.state
        if not right:
            self.svc.wrong.append(q)
            return (json.dumps({"span_key": sk, "status": 0, "data": {"statistics": {"application": {"name": "wrong", "instance": "request"}}}}) + "\n").encode()
        if k in ("ok", "halfway", "badstats"):
            return (json.dumps({"span_key": sk, "status": 0, "data": {"statistics": st}}) + "\n").encode()
        if k == "missing":
            return (json.dumps({"span_key": sk, "status": 0, "data": st}) + "\n").encode()
        if k == "error":
            return (json.dumps({"span_key": sk, "status": st, "data": "no"}) + "\n").encode()
        if k == "garbage":
            return st
        return None


WORDS = ["a", "b", "users", "log_request", "x1", "A", "get", "router", "queue", "zz-top", "v2"]


def routes(rng, leaves):
    """Route keys, among them some that are the beginning of others."""
    out = set()
    for _ in range(rng.randrange(7)):
        d = rng.choice([1, 2, 2, 2, 3, 4, 5])
        p = [rng.choice(WORDS) for _ in range(d)]
        if rng.random() < .15:
            p[0] = "eco"
        if rng.random() < .1 and d > 1:
            p[-1] = rng.choice(["eco", "data", "statistics"])
        out.add(tuple(p))
        if rng.random() < .25:
            out.add(tuple(p + [rng.choice(WORDS)]))
    if rng.random() < .1:       # segments that are called like the numbers below them
        r = ("only", rng.choice(leaves))
        out.add(r)
    return out


def put(tree, path, value):
    for k in path[:-1]:
        tree = tree.setdefault(k, {})
    tree.setdefault(path[-1], {}).update(value)


def num(rng):
    return rng.choice([0, 0, 1, 2, 17, 10 ** 9, 0.5, 1e-06, 123.456, rng.random(), rng.randrange(10 ** 6)])


class Svc:
    def __init__(self, n, raw, rng):
        self.n, self.raw, self.rng = n, raw, rng
        self.fakes, self.asked, self.wrong = [], 0, []
        parts = raw.rsplit("_", 1)
        self.name, self.inst = parts[0].lower(), parts[1] if len(parts) == 2 else "0"
        self.own = (self.name, self.inst) if rng.random() < .8 else (f"own{n}", rng.choice(["0", "alpha", "7"]))
        self.state = ("ok", {})

    def shuffle(self):
        rng = self.rng
        k = rng.choices(["ok", "error", "garbage", "drop", "down", "badstats", "missing", "halfway"], [12, 1, 1, 1, 1, 1, 1, .5])[0]
        if k == "drop" and any(f.kind == "udp" for f in self.fakes) and rng.random() < .5:
            k = "ok"
        st = None
        if k == "ok":
            st = self.tree()
        elif k == "error":
            st = rng.choice([100, 200, 300, 400, 500, 600, 999, 5])
        elif k == "garbage":
            st = rng.choice([b"{nonsense\n", b"[]\n", b"null\n", b"5\n", b'{"status": 0}\n', b'{"span_key": null, "status": 0, "data": null}\n', b"\xff\xfe\n"])
        elif k == "badstats":
            st = rng.choice([None, [], 5, "x", [{"uptime": 1}], True])
        elif k == "missing":
            st = rng.choice([{}, {"other": 1}])
        elif k == "halfway":
            st = self.tree()
            st[rng.choice(["endpoint_data", "buffered_endpoint_sizes", "buffered_sender_sizes", "uptime", "gather_period"])] = rng.choice([[1], "x", {"x": 1} if rng.random() < .1 else [2]])
        self.state = (k, st)
        for f in self.fakes:
            f.down() if k == "down" else f.up()
        self.asked = 0

    def tree(self):
        """A statistics answer; self.expected: the samples it stands for."""
        rng = self.rng
        t, want = {}, {}
        r = rng.random()
        ident = (self.name, self.inst)
        if r < .1 and self.own == ident:
            pass                                            # nothing to go by but how it was discovered
        else:
            t["application"] = {"name": self.own[0], "instance": self.own[1]}
            ident = self.own
        if rng.random() < .08:
            self.expected = {}
            self.ident = (self.name, self.inst) if "application" not in t else self.own
            if rng.random() < .5:
                t, self.ident = {}, (self.name, self.inst)
            return t
        base = {"service": ident[0], "instance": ident[1]}

        def w(metric, value, **labels):
            want[(metric, frozenset({**base, **labels}.items()))] = float(value)

        def label(p):
            return {"group": p[0] if len(p) > 1 else "", "endpoint": ".".join(p[1:] or p)}
        for k, m in (("uptime", "ekosis_uptime_seconds"), ("gather_period", "ekosis_gather_period_seconds")):
            if rng.random() < .9:
                t[k] = num(rng)
                w(m, t[k])
        t["timestamp"] = 1.7e9
        ed = {}
        for p in routes(rng, ["call_count", "p95", "p99"]):
            leaf = {k: rng.choice([-1.0, -1, num(rng), num(rng)]) if k != "call_count" else num(rng) for k in ("call_count", "p95", "p99") if rng.random() < .93}
            put(ed, p, leaf)
            if p[0] != "eco":
                for k, m in (("call_count", "ekosis_endpoint_call_count"), ("p95", "ekosis_endpoint_p95_seconds"), ("p99", "ekosis_endpoint_p99_seconds")):
                    if k in leaf and (k == "call_count" or leaf[k] >= 0):
                        w(m, leaf[k], **label(p))
        if ed or rng.random() < .5:
            t["endpoint_data"] = ed
        for sect, m in (("buffered_endpoint_sizes", "ekosis_buffered_endpoint_queue_"), ("buffered_sender_sizes", "ekosis_buffered_sender_queue_")):
            q = {}
            for p in routes(rng, ["pending", "error"]):
                leaf = {k: rng.randrange(rng.choice([1, 10, 10 ** 6])) for k in ("pending", "error") if rng.random() < .95}
                put(q, p, leaf)
                if p[0] != "eco":
                    for k, v in leaf.items():
                        w(m + k, v, **label(p))
            if q or rng.random() < .5:
                t[sect] = q
        for _ in range(rng.randrange(4)):
            p = [f"c{rng.randrange(5)}"] + [rng.choice(["hits", "cache_size", "deep-er", "X"]) for _ in range(rng.randrange(3))]
            d = t
            for k in p[:-1]:
                d = d.setdefault(k, {}) if isinstance(d, dict) else None
                if not isinstance(d, dict):
                    break
            if isinstance(d, dict) and p[-1] not in d:
                v = rng.choice([num(rng), num(rng), -5, "text", None, [1, 2]])
                d[p[-1]] = v
                if isinstance(v, (int, float)):
                    w("ekosis_custom_" + "_".join(x.replace("-", "_") for x in p), v)
        self.expected, self.ident = want, ident
        return t


class Gateway:
    def __init__(self, rng):
        outer = self
        self.rng, self.got, self.go = rng, threading.Semaphore(0), threading.Semaphore(0)
        self.bodies, self.open = [], False

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_PUT(self):
                b = self.rfile.read(int(self.headers.get("content-length", "0")))
                outer.bodies.append((self.command, self.path, b, self.headers.get("content-type", "")))
                outer.got.release()
                if not outer.open:
                    outer.go.acquire(timeout=25)
                code = outer.rng.choice([200, 200, 200, 202, 500, 400]) if not outer.open else 200
                if outer.rng.random() < .05 and not outer.open:
                    self.close_connection = True
                    return
                self.send_response(code)
                self.send_header("Content-Length", "0")
                self.end_headers()
            do_POST = do_PUT

            def log_message(self, *a):
                pass
        self.port = free_port("tcp", rng)
        self.server = ThreadingHTTPServer(("127.0.0.1", self.port), H)
        self.server.daemon_threads = True
        threading.Thread(target=self.server.serve_forever, daemon=True).start()

    def close(self):
        self.open = True
        self.go.release()
        self.server.shutdown()
        self.server.server_close()


NAMES = ["ROUTER_0", "MAGIC_EIGHT_BALL_0", "TIME_REPORTER_1", "A_1", "A_10", "A_B_1", "TRACKER_ALPHA", "X_2", "ROUTER_1", "TCP_0", "UDS_SVC_3", "LONELY", "svc_lower_4"]


class PromWorld:
    def __init__(self, rng, stats):
        self.rng, self.stats = rng, stats
        self.dir = scratch("vp_")
        self.gw = Gateway(rng)
        self.app, self.inst = rng.choice(["prom_app", "ekosis_prometheus", "metrics"]), rng.choice(["0", "7"])
        self.env = {f"ECOENV_{k}": self.dir for k in ("LOG_DIR", "BUFFER_DIR", "LOCK_DIR", "DEFAULT_DIR")}
        self.env["ECOENV_STAT_GP"] = "1"
        self.env["ECOENV_EXTRA_PUSHGATEWAY"] = f"http://127.0.0.1:{self.gw.port}"
        self.job = f"{self.app}-{self.inst}"
        if rng.random() < .3:
            self.job = rng.choice(["jobname", "a-b", "x y"])
            self.env["ECOENV_EXTRA_JOB_NAME"] = self.job
        self.svcs, self.history, self.pid = [], [], None
        up = f"{self.app.upper()}_{self.inst}"
        self.env[f"ECOENV_UDS_{up}"] = f"{self.dir}/self.sock"      # an application needs at least one server; and so it monitors itself
        env = []
        for i, raw in enumerate(rng.sample(NAMES, rng.randrange(1, 7))):
            s = Svc(i, raw, rng)
            self.svcs.append(s)
            for kind in rng.choice([["tcp"], ["udp"], ["uds"], ["uds"], ["tcp", "uds"], ["tcp", "udp"]]):
                f = Fake(s, kind, rng, self.dir, rng.choice(["127.0.0.1", "localhost", "0.0.0.0"] + HOST) if kind != "udp" else "127.0.0.1")
                s.fakes.append(f)
                env.append((f"ECOENV_{kind.upper()}_{raw}", f.value))
        if rng.random() < .5:       # a socket file named after the instance
            d = next((f for s in self.svcs for f in s.fakes if f.kind == "uds"), None)
            if d:
                s = d.svc
                d.path = f"{self.dir}/{s.name}_{s.inst}.uds.sock"
                env = [(k, f"{self.dir}/DEFAULT" if v == d.value else v) for k, v in env]
        env += rng.sample([("ECOENV_TCP_FAR_0", "10.1.2.3:80"), ("ECOENV_UDP_FAR_1", "192.0.2.1:80"), ("ECOENV_TCP_BAD_0", "localhost"), ("ECOENV_TCP_BAD_1", "127.0.0.1:x"), ("ECOENV_TCP_BAD_2", "127.0.0.1:"), ("ECOENV_TCPX_A_9", "127.0.0.1:1"),
                           ("TCP_OTHER_0", "127.0.0.1:1"), ("ECOENV_LOG_LEVEL", "info"), ("XECOENV_UDS_Q_0", "/x")], rng.randrange(5))
        rng.shuffle(env)
        self.env.update(env)
        self.environment = [k for k, _ in env]
        self.env["PROM_SPEED"] = "10"

    def c(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def spawn(self):
        self.out = f"{self.dir}/out"
        sys.stdout.flush()
        pid = os.fork()
        if pid:
            self.pid = pid
            return
        code = 70
        try:
            import atexit
            atexit._clear()
            fd = os.open(self.out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.dup2(os.open("/dev/null", os.O_RDONLY), 0)
            os.closerange(3, 256)
            for s in (signal.SIGTERM, signal.SIGHUP):
                signal.signal(s, signal.SIG_DFL)
            sys.stdout = os.fdopen(os.dup(1), "w", 1)
            sys.stderr = os.fdopen(os.dup(2), "w", 1)
            for k in [k for k in os.environ if k.startswith("ECOENV") or k.lower().endswith("_proxy")]:
                del os.environ[k]
            os.environ.update(self.env)
            sys.argv = [f"{self.dir}/{self.app}.py", "-i", self.inst, "-lfo"]
            sys.path[:] = [p for p in sys.path if not p.startswith(VERIF)]
            os.chdir(self.dir)
            code = 0
            import types
            m = types.ModuleType("__main__")
            sys.modules["__main__"] = m
            m.__file__ = f"{VERIF}/apps/prom.py"
            exec(compile(open(m.__file__).read(), m.__file__, "exec"), m.__dict__)
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 1 if e.code else 0
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 1
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)

    def output(self):
        try:
            return open(self.out, errors="replace").read()[-1200:]
        except OSError:
            return ""

    def wait_push(self):
        end = time.monotonic() + WATCHDOG
        while not self.gw.got.acquire(timeout=.2):
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p:
                self.pid = None
                raise Violation("ended", f"the metrics application ended with status {os.waitstatus_to_exitcode(st)} after {len(self.history)} pushes; services {self.describe()}: {self.output()}")
            if time.monotonic() > end:
                raise Violation("no-push", f"no push within {WATCHDOG} s (gather period 0.1 s) after {len(self.history)} pushes; services {self.describe()}: {self.output()}")
        return self.gw.bodies[-1]

    def describe(self):
        return [(s.raw, s.state[0], [f.kind for f in s.fakes]) for s in self.svcs]

    def check(self, cmd, path, body, ctype):
        from prometheus_client.parser import text_string_to_metric_families
        from urllib.parse import unquote
        got = {}
        for fam in text_string_to_metric_families(body.decode()):
            for x in fam.samples:
                key = (x.name, frozenset(x.labels.items()))
                if key in got:
                    self.bad("twice", f"the sample {key} was pushed twice")
                got[key] = x.value
        if cmd != "PUT" and cmd != "POST" or unquote(path) not in (f"/metrics/job/{self.job}",):
            if not path.startswith("/metrics/job@base64"):
                self.bad("wrong-group", f"pushed with {cmd} {path}, the job is {self.job!r}")
        me = (self.app, self.inst)
        want = {("ekosis_service_health", frozenset({"service": me[0], "instance": me[1]}.items())): 1.0}
        skip = set()            # (service, instance): nothing is claimed
        for s in self.svcs:
            k = s.state[0]
            if s.wrong:
                self.bad("wrong-request", f"{s.raw} was asked {s.wrong[:2]}")
            if k == "halfway" or (k == "ok" and s.asked > len(s.fakes)):
                # answered, but what it says makes no sense; or answered later than the client was willing to wait
                skip |= {(s.name, s.inst), s.own}
                continue
            if k == "ok":
                if not s.asked:
                    self.bad("not-scraped", f"{s.raw} was not asked before the push; pushed: {self.show(got)}")
                want[("ekosis_service_health", frozenset({"service": s.ident[0], "instance": s.ident[1]}.items()))] = 1.0
                want.update(s.expected)
                self.c("samples_expected", len(s.expected))
            else:
                want[("ekosis_service_health", frozenset({"service": s.name, "instance": s.inst}.items()))] = 0.0
            self.c("scrapes_" + k)

        def relevant(key):
            l = dict(key[1])
            if (l.get("service"), l.get("instance")) == me:
                return key[0] == "ekosis_service_health"
            return (l.get("service"), l.get("instance")) not in skip
        g = {k: v for k, v in got.items() if relevant(k)}
        w = {k: v for k, v in want.items() if relevant(k)}
        if g != w:
            miss = [(k, v) for k, v in w.items() if k not in g]
            extra = [(k, v) for k, v in g.items() if k not in w]
            wrong = [(k, g[k], w[k]) for k in g if k in w and g[k] != w[k]]
            self.bad("wrong-metrics", f"missing {self.show(dict(miss))}, not reported by any service {self.show(dict(extra))}, different {[(k[0], sorted(k[1]), a, b) for k, a, b in wrong][:4]}; "
                     f"answers {[(s.raw, s.state) for s in self.svcs if s.state[0] != 'ok' or any(dict(k[1]).get('service') in s.ident for k, *_ in miss + extra + wrong)][:3]}")
        self.c("samples_compared", len(w))
        self.c("pushes")

    def show(self, d):
        return [(k[0], sorted(k[1]), v) for k, v in list(d.items())[:5]]

    def bad(self, kind, text):
        raise Violation(kind, f"{text}; environment {self.environment}; services {self.describe()}"[:3500], {"history": self.history})

    def run(self, pushes):
        try:
            for s in self.svcs:
                s.shuffle()
            self.spawn()
            for i in range(pushes):
                b = self.wait_push()
                # a scrape may not pass over the first states: they were in force from the start
                self.history.append(self.describe())
                self.check(*b)
                for s in self.svcs:
                    s.shuffle()
                self.gw.go.release()
        finally:
            if self.pid:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            for s in self.svcs:
                for f in s.fakes:
                    f.down()
            self.gw.close()
            shutil.rmtree(self.dir, ignore_errors=True)


def prom_worker(pushes):
    from common import rng_for

    def worker(case):
        seed, i = case
        rng = rng_for("prom", seed, i)
        stats = {}
        w = PromWorld(rng, stats)
        w.run(pushes)
        return {"key": sig((w.environment, w.history)), "counters": stats, "sample": {"environment": w.environment, "services at the first push": w.history[0]}}
    return worker
