"""The driver's side of apps/svc.py: starting, stopping and killing it, talking to it, reading its events."""
import json, os, shutil, signal, socket, sys, time, uuid, errno
from common import Inconclusive, Violation, VERIF, scratch, free_port

START_TIMEOUT = 60
STOP_TIMEOUT = 90
RPC_TIMEOUT = 90
MGMT = "eco.buffered_handler."
SMGMT = "eco.buffered_sender."


class Gone(Exception):
    """The connection ended before the response was complete."""


def new_sk(rng):
    """A span key not given out before; often one that differs only in part from another one (same trace, same span id, one bit), or with small numbers."""
    given = rng.__dict__.setdefault("given_sk", {})
    while True:
        b, p = rng.randbytes(24), rng.random()
        if p < .35 and given:
            o = rng.choice(list(given)[-30:])
            b = o[:16] + b[16:] if p < .2 else b[:16] + o[16:] if p < .28 else bytes(x ^ y for x, y in zip(o, (1 << rng.randrange(192)).to_bytes(24, "big")))
        elif p < .4:
            b = rng.randrange(1, 1 << rng.choice([4, 32, 100])).to_bytes(16, "big") + rng.randrange(1, 1 << rng.choice([4, 20, 60])).to_bytes(8, "big")
        if b not in given and any(b[:16]) and any(b[16:]):
            given[b] = True
            return f"{uuid.UUID(bytes=b[:16])}:{b[16:].hex()}"


def sk_dict(sk):
    t, s = sk.split(":")
    return {"trace_id": t, "span_id": s}


def sk_str(d):
    return None if d is None else f"{d['trace_id']}:{d['span_id']}"


def request_bytes(route, data, sk):
    return (json.dumps({"route_key": route, "span_key": sk_dict(sk), "data": data}) + "\n").encode()


class Conn:
    """One stream connection, blocking."""
    def __init__(self, address, timeout=RPC_TIMEOUT):
        self.s = socket.socket(socket.AF_UNIX if isinstance(address, str) else socket.AF_INET, socket.SOCK_STREAM)
        self.s.settimeout(timeout)
        self.s.connect(address)
        self.buf = b""

    def send(self, b):
        try:
            self.s.sendall(b)
        except OSError as e:
            raise Gone(str(e))

    def line(self):
        while b"\n" not in self.buf:
            try:
                x = self.s.recv(1 << 20)
            except socket.timeout:
                raise Inconclusive("no response within the watchdog time")
            except OSError as e:
                raise Gone(str(e))
            if not x:
                raise Gone("closed")
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def call(self, route, data, sk):
        self.send(request_bytes(route, data, sk))
        return json.loads(self.line())

    def close(self):
        self.s.close()


class Events:
    def __init__(self, path):
        self.path, self.pos, self.all = path, 0, []
        open(path, "a").close()

    def poll(self):
        with open(self.path, "rb") as f:
            f.seek(self.pos)
            b = f.read()
        end = b.rfind(b"\n") + 1
        self.pos += end
        new = [json.loads(l) for l in b[:end].splitlines()]
        self.all += new
        return new


class Service:
    """A running (or stopped) application instance with its own scratch directory."""
    def __init__(self, rng, spec, app="svc_app", instance="0", tcp=False, udp=False, env=None, directory=None):
        self.rng = rng
        self.dir = directory or scratch("vs_")
        self.own = directory is None
        self.app, self.instance = app, instance
        self.spec = dict(spec)
        self.spec.setdefault("events", f"{self.dir}/events.jsonl")
        self.events = Events(self.spec["events"])
        self.uds = f"{self.dir}/s.sock"
        up = f"{app.upper()}_{instance.upper()}"
        self.env = {f"ECOENV_{k}": self.dir for k in ("LOG_DIR", "BUFFER_DIR", "LOCK_DIR", "DEFAULT_DIR")}
        self.env[f"ECOENV_UDS_{up}"] = self.uds
        self.tcp = self.udp = None
        if tcp:
            self.tcp = ("127.0.0.1", free_port("tcp", rng))
            self.env[f"ECOENV_TCP_{up}"] = "127.0.0.1:%d" % self.tcp[1]
        if udp:
            self.udp = ("127.0.0.1", free_port("udp", rng))
            self.env[f"ECOENV_UDP_{up}"] = "127.0.0.1:%d" % self.udp[1]
        self.env.update(env or {})
        if self.spec.get("vclock"):
            self.spec["vclock"] = f"{self.dir}/clock"
            with open(self.spec["vclock"], "wb") as f:
                f.write(b"0")
        self.args = ["-lfo"]
        self.pid = None
        self.conn = None
        self.starts = 0
        self.status = None
        self.calls = {}         # span key -> [route, status] of every request made by rpc()

    # ------------------------------------------------------------------ process
    def spawn(self, inject=None):
        spec = dict(self.spec)
        if inject:
            spec["inject"] = inject
        path = f"{self.dir}/spec{self.starts}.json"
        with open(path, "w") as f:
            json.dump(spec, f)
        self.out = f"{self.dir}/out{self.starts}.txt"
        self.starts += 1
        self.status = None
        self.events.poll()
        self.generation_from = len(self.events.all)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            self._child(path)
        self.pid = pid

    def _child(self, spec_path):
        code = 70
        try:
            import atexit
            atexit._clear()
            fd = os.open(self.out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            n = os.open("/dev/null", os.O_RDONLY)
            os.dup2(n, 0)
            os.closerange(3, 256)
            for s in (signal.SIGTERM, signal.SIGHUP):
                signal.signal(s, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            sys.stdout = os.fdopen(os.dup(1), "w", 1)
            sys.stderr = os.fdopen(os.dup(2), "w", 1)
            for k in [k for k in os.environ if k.startswith("ECOENV")]:
                del os.environ[k]
            os.environ.update(self.env)
            os.environ["SVC_SPEC"] = spec_path
            sys.argv = [f"{self.dir}/{self.app}.py", "-i", self.instance] + self.args
            sys.path[:] = [p for p in sys.path if not p.startswith(VERIF)]
            os.chdir(self.dir)
            code = 0
            try:
                import types
                m = types.ModuleType("__main__")
                sys.modules["__main__"] = m
                m.__file__ = f"{VERIF}/apps/svc.py"
                exec(compile(open(m.__file__).read(), m.__file__, "exec"), m.__dict__)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 1 if e.code else 0
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            try:
                import threading
                threading._shutdown()
                atexit._run_exitfuncs()
            except BaseException:
                pass
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)

    def output(self):
        try:
            return open(self.out, errors="replace").read()[-1500:]
        except OSError:
            return ""

    def wait_ready(self, timeout=START_TIMEOUT):
        end = time.monotonic() + timeout
        while True:
            if self.poll() is not None:
                return False
            try:
                self.conn = Conn(self.uds)
                self.rpc("ctl.sync", {"n": 1})
                return True
            except (OSError, Gone):
                if self.conn:
                    self.conn.close()
                self.conn = None
                if time.monotonic() > end:
                    raise Inconclusive("application did not become ready: " + self.output())
                time.sleep(0.01)

    def start(self, inject=None):
        self.spawn(inject)
        if not self.wait_ready():
            if self.starts == 1 and "in use" in self.output():
                raise Inconclusive("a port was taken by something else")
            raise Violation("did-not-start", f"the application ended during start (status {self.status}): {self.output()}")

    def poll(self):
        if self.status is None and self.pid:
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p:
                self.status = os.waitstatus_to_exitcode(st)
        return self.status

    def wait(self, timeout=STOP_TIMEOUT):
        end = time.monotonic() + timeout
        while self.poll() is None:
            if time.monotonic() > end:
                return None
            time.sleep(0.004)
        return self.status

    def run_clock(self, on):
        if self.spec.get("vclock"):
            with open(self.spec["vclock"], "r+b") as f:
                f.write(b"1" if on else b"0")

    def send_signal(self, s):
        if self.poll() is None:
            try:
                os.kill(self.pid, s)
            except ProcessLookupError:
                pass

    def stop(self, how=signal.SIGTERM, times=1, gap=0.0):
        """Stops the application in an orderly way, and waits until it is gone."""
        self.run_clock(True)
        if how == "crash":
            try:
                self.rpc("ctl.crash", {})
            except Gone:
                pass
        else:
            for i in range(times):
                self.send_signal(how)
                if gap:
                    time.sleep(gap)
        self.drop()
        if self.wait() is None:
            raise Violation("did-not-stop", f"the application was still running {STOP_TIMEOUT} s after {how}: {self.output()}")
        self.run_clock(False)

    def kill(self):
        self.drop()
        self.send_signal(signal.SIGKILL)
        self.wait()

    def drop(self):
        if self.conn:
            self.conn.close()
            self.conn = None

    def close(self):
        self.drop()
        if self.pid and self.poll() is None:
            os.kill(self.pid, signal.SIGKILL)
            self.wait()
        if self.own:
            shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------------ talking
    def rpc(self, route, data, sk=None):
        if self.conn is None:
            self.conn = Conn(self.uds)
        sk = sk or new_sk(self.rng)
        self.calls[sk] = [route, None]
        r = self.conn.call(route, data, sk)
        self.calls[sk][1] = r["status"]
        return r

    def ok(self, route, data, sk=None):
        r = self.rpc(route, data, sk)
        if r["status"] != 0:
            raise Violation("unexpected-status", f"{route} {data}: {r}")
        return r["data"]

    def sync(self, n=30):
        return self.ok("ctl.sync", {"n": n})["data"]

    def mgmt(self, what, route, sk=None, sender=False):
        d = {"queue_route_key": route}
        if sk is not None:
            d["span_key"] = sk_dict(sk)
        return self.ok((SMGMT if sender else MGMT) + what, d)

    def queue(self, route, sender=False):
        return self.mgmt("data", route, sender=sender)["queue_data"]

    def error_data(self, route, sk, sender=False):
        return self.mgmt("errors.inspect_request", route, sk, sender)

    def quiesce(self, route, sender=False, timeout=120, stable=5):
        """Waits until nothing is waiting or running; returns the queue data. None when it does not get there. Between taking a
        request and starting the handler, and after it ended, only turns of the event loop pass, far fewer than are waited for here;
        how long a handler takes is up to it, so each one that was started must have ended."""
        end = time.monotonic() + timeout
        good = 0
        while True:
            self.sync(60)
            q = self.queue(route, sender)
            self.events.poll()
            running = 0
            for e in self.events.all[self.generation_from:]:
                if e.get("route") == route and e["ev"] in ("start", "end", "cancelled"):
                    running += 1 if e["ev"] == "start" else -1
            if q["database_sizes"]["pending"] == 0 and running <= 0:
                good += 1
                if good >= stable:
                    return q
            else:
                good = 0
                if time.monotonic() > end:
                    return None
                time.sleep(0.005)
