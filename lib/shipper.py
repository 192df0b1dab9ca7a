"""The real log shipper, built from the working tree with AddressSanitizer and UndefinedBehaviorSanitizer, watched from its collector's side.

World: files that are written, rotated and created, a shipper that is killed and started again, and a collector that refuses, fails, breaks
off, holds and accepts. The monitor goes over what the collector accepted, batch by batch, and compares it with what was written."""
import json, os, re, shutil, signal, socket, struct, subprocess, threading, time
from common import Violation, Inconclusive, VERIF, scratch, free_port, sig

REPO = "/repo"
WATCHDOG = 60
FLAGS = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS"
ENV = {"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:abort_on_error=0:exitcode=24", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=25", "LSAN_OPTIONS": "exitcode=0"}


def build(directory):
    """Configures and builds the shipper of the working tree into a scratch directory; returns the binary's path."""
    hook = f"{directory}/leakhook.o"
    r = subprocess.run(["g++", "-g", "-c", f"{VERIF}/native/leakhook.cpp", "-o", hook], capture_output=True, text=True)
    if r.returncode:
        raise Inconclusive("the leak hook does not compile: " + r.stderr[-500:])
    b = f"{directory}/build"
    for cmd in (["cmake", "-G", "Ninja", "-S", f"{REPO}/ekosis_log_shipper", "-B", b, "-DCMAKE_BUILD_TYPE=None", f"-DCMAKE_CXX_FLAGS={FLAGS}", f"-DCMAKE_EXE_LINKER_FLAGS=-fsanitize=address,undefined {hook}"],
                ["cmake", "--build", b, "--target", "ekosis_log_shipper"]):
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
        if r.returncode:
            raise Inconclusive(f"{cmd[:3]} failed: {(r.stdout + r.stderr)[-1500:]}")
    for root, _, files in os.walk(b):
        if "ekosis_log_shipper" in files and os.access(f"{root}/ekosis_log_shipper", os.X_OK):
            return f"{root}/ekosis_log_shipper"
    raise Inconclusive("no shipper binary was built")


class Collector:
    """Takes POSTs. What becomes of each is decided by `plan` when its last byte has arrived; only a 2xx answer sent in full counts as accepted."""
    def __init__(self, rng):
        self.rng, self.port = rng, free_port("tcp", rng)
        self.lock = threading.RLock()
        self.posts, self.mode, self.sock, self.held, self.anomalies = [], "good", None, [], []
        self.weights = {}
        self.up()

    def up(self):
        if self.sock:
            return
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("127.0.0.1", self.port))
        s.listen(64)
        self.sock = s
        threading.Thread(target=self.accept, args=(s,), daemon=True).start()

    def down(self):
        s, self.sock = self.sock, None
        if s:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            s.close()

    def accept(self, s):
        while True:
            try:
                c, _ = s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        buf = b""
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        try:
            while True:
                while b"\r\n\r\n" not in buf:
                    x = c.recv(1 << 16)
                    if not x:
                        return
                    buf += x
                head, buf = buf.split(b"\r\n\r\n", 1)
                lines = head.decode("latin-1").split("\r\n")
                h = {k.strip().lower(): v.strip() for k, _, v in (l.partition(":") for l in lines[1:])}
                if h.get("expect", "").lower() == "100-continue":
                    c.sendall(b"HTTP/1.1 100 Continue\r\n\r\n")
                n = int(h.get("content-length", "0"))
                if self.mode == "cutting" and self.rng.random() < .5:
                    return self.cut(c)
                while len(buf) < n:
                    x = c.recv(1 << 18)
                    if not x:
                        return
                    buf += x
                body, buf = buf[:n], buf[n:]
                if not self.answer(c, lines[0], h, body):
                    return
        except OSError:
            pass
        finally:
            c.close()

    def cut(self, c, reset=True):
        if reset:
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))

    def answer(self, c, first, h, body):
        post = {"first": first, "type": h.get("content-type"), "body": body, "t": time.monotonic(), "how": None, "accepted": False, "n": None}
        with self.lock:
            post["n"] = len(self.posts)
            self.posts.append(post)
            how = self.decide()
            post["how"] = how
            if how == "hold":
                ev = threading.Event()
                self.held.append(ev)
        if how == "hold":
            ev.wait(8)
            how = self.after_hold
        if how == "silence":
            time.sleep(150)     # longer than anyone waits for lines here
            return False
        if how == "close":
            return False
        if how == "reset":
            self.cut(c)
            return False
        if how == "short":                      # a success whose end never arrives
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 50\r\n\r\n{}")
            return False
        if how == "nonsense":
            c.sendall(b"SSH-2.0-nonsense\r\n\r\n")
            return False
        ok = how == "ok"
        code = self.rng.choice([200, 200, 202, 204]) if ok else self.rng.choice([400, 401, 404, 413, 429, 500, 502, 503, 503, 300, 301, 302, 304])
        if ok:
            with self.lock:
                post["accepted"] = True
        text = b"" if code in (204, 304) else b'{"partialSuccess":{}}' if ok else b"no " * self.rng.choice([0, 1, 3000])
        loc = b"Location: http://127.0.0.1:%d/elsewhere\r\n" % self.port if code in (301, 302) else b""
        c.sendall(b"HTTP/1.1 %d X\r\n%sContent-Type: application/json\r\n" % (code, loc) + (b"Content-Length: %d\r\n" % len(text) if code not in (204, 304) else b"") + b"\r\n" + text)
        return True

    after_hold = "ok"

    def decide(self):
        r, m = self.rng.random(), self.mode
        if m == "good":
            return "ok"
        if m == "hold":
            return "hold"
        if m == "silent":
            return "silence"
        if m == "bad":
            return "fail"
        if m == "broken":
            return self.rng.choice(["close", "reset", "short", "nonsense"])
        return self.rng.choice(["ok", "ok", "fail", "close", "reset", "short"])

    def release(self, how="ok"):
        with self.lock:
            self.after_hold = how
            for e in self.held:
                e.set()
            self.held = []


SEVERITY = [(5, "DEBUG"), (9, "INFO"), (13, "WARN"), (17, "ERROR"), (21, "FATAL"), (0, "UNSPECIFIED")]
TEXTS = ["", " ", "plain", "\u00e9\u4e16\U0001f600", 'quote " back \\ slash / end', "tab\t nl\n cr\r nul\u0000 bell\u0007 del\u007f", "%s %d %n {} {0}", "\u2028\u2029", "\ud7ff\ue000\ufffd\uffff", "null", "{\"a\": 1}", "line1\nline2\n", "0", "\u202eabc", "e\u0301"]


def stamp(rng):
    """A UTC time as datetime.isoformat() writes it, and its nanoseconds since the epoch."""
    import datetime
    d = datetime.datetime(rng.choice([1970, 1999, 2000, 2024, 2026, 2026, 2038, 2100, 2200]), rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 8, 9, 10, 23]), rng.choice([0, 8, 9, 59]), rng.choice([0, 8, 9, 59]),
                          rng.choice([0, 1, 8, 10, 99, 100, 1000, 12345, 123456, 100000, 999999, 90000, rng.randrange(10 ** 6)]), tzinfo=datetime.timezone.utc)
    if rng.random() < .1:
        d = d.replace(month=2, day=28) + datetime.timedelta(days=1)
    return d.isoformat(), int((d.replace(microsecond=0) - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)).total_seconds()) * 10 ** 9 + d.microsecond * 1000


def record(rng, uid, app, inst, rich):
    t, ns = stamp(rng)
    sev = rng.choice(SEVERITY)
    body = uid
    if rich:
        x = rng.random()
        if x < .5:
            body += "|" + "".join(rng.choice(TEXTS) for _ in range(rng.randrange(4)))
        elif x < .7:
            body += "|" + "".join(chr(rng.choice([rng.randrange(0x20), rng.randrange(0x20, 0x7f), rng.randrange(0x80, 0xd800), rng.randrange(0xe000, 0x10000), rng.randrange(0x10000, 0x110000)])) for _ in range(rng.randrange(60)))
        elif x < .8:
            body += "|" + rng.choice(["x", "\u4e16", '"', "\\", "\n"]) * rng.choice([1, 4000, 8191, 8192, 8193, 20000, 70000])
    attrs = {"application_name": app, "application_instance": inst, "filename": "f.py", "lineno": rng.choice([0, 1, 77, 10 ** 6]), "module": "f", "funcName": rng.choice(["g", "<module>", "<lambda>"])}
    if rich and rng.random() < .5:
        for _ in range(rng.randrange(4)):
            attrs[rng.choice(["k", "", "\u00e9", "a.b", "service.name", "x" * 100, "lineno2"])] = rng.choice([rng.choice(TEXTS), rng.choice([0, -1, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 31]), True, False])
    if rich:
        ks = list(attrs)
        rng.shuffle(ks)
        attrs = {k: attrs[k] for k in ks}
    rec = {"timestamp": t, "severity_number": sev[0], "severity_text": sev[1], "body": body, "attributes": attrs, "trace_id": None, "span_id": None}
    if rng.random() < .6:
        rec["trace_id"], rec["span_id"] = rng.choice([rng.randbytes(16), bytes(16), b"\xff" * 16]).hex(), rng.choice([rng.randbytes(8), bytes(7) + b"\x01"]).hex()
    return rec, ns


def decode(post):
    """The records of a payload as [(resource attributes, record)]."""
    try:
        p = json.loads(post["body"])
        out = []
        for rl in p["resourceLogs"]:
            res = {a["key"]: a["value"] for a in rl["resource"]["attributes"]}
            for sl in rl["scopeLogs"]:
                for r in sl["logRecords"]:
                    r["body"]["stringValue"]
                    out.append((res, r))
        return out
    except (ValueError, KeyError, TypeError) as e:
        raise Violation("bad-payload", f"POST {post['n']} is not an OTLP logs payload ({type(e).__name__}: {e}): {post['body'][:400]!r}")


def uid_of(rec):
    return rec["body"]["stringValue"].split("|", 1)[0]


class File:
    def __init__(self, path):
        self.path = path
        self.written = []       # uids of complete lines, in order
        self.ns = {}
        self.recs = {}
        self.partial = b""      # rest of a line of which a part is in the file already
        self.partial_uid = None
        self.accepted = []      # uids
        self.batches = []       # (start, end, post number)
        self.cut = 0            # lines up to here lie in files that were rotated away
        self.unseen = True      # the shipper (this process of it) has not shown yet that it has this file, the current one at this path, open
        self.looks = 0          # POSTs of this file since the rotation
        self.gens = 0
        self.rotated_at = 0


class World:
    def __init__(self, rng, prop, binary, stats, rich=False):
        self.rng, self.prop, self.binary, self.stats, self.rich = rng, prop, binary, stats, rich
        self.dir = scratch("vl_")
        self.watch = f"{self.dir}/logs" + rng.choice(["", "", " x", "-\u00e9"])
        os.mkdir(self.watch)
        self.db = f"{self.dir}/state.sqlite"
        self.col = Collector(rng)
        self.url = f"http://127.0.0.1:{self.col.port}" + rng.choice(["/otlp/v1/logs", "/v1/logs", "/insert?x=1&y=2"])
        self.p = None
        self.tz = rng.choice(["UTC", "UTC0", "XXX-5:30", "YYY+8", "NZS-12NZD,M9.5.0,M4.1.0/3"])      # of the machine: times in records are UTC whatever it is
        self.files, self.history, self.n, self.seen, self.starts = {}, [], 0, 0, 0
        self.may_repeat = {}        # path -> earliest index from which the next delivery may start (after a kill)

    def c(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def act(self, *a):
        self.history.append(" ".join(str(x) for x in a)[:120])

    def bad(self, props, kind, text):
        if self.prop in props:
            raise Violation(kind, f"{text}; last actions {self.history[-25:]}; shipper said: {self.said()[-400:]}", {"history": self.history})
        raise Inconclusive(f"ended by {sorted(props)} {kind}: {text}")

    # ------------------------------------------------------------------ the shipper
    def start(self):
        self.act("start")
        self.since = len(self.col.posts)
        for f in self.files.values():
            f.unseen, f.looks = True, 0
        self.out = f"{self.dir}/out{self.starts}"
        self.starts += 1
        env = {k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy")}
        with open(self.out, "wb") as o:
            self.p = subprocess.Popen([self.binary, self.watch, self.url, self.db], stdin=subprocess.DEVNULL, stdout=o, stderr=o, env={**env, **ENV, "TZ": self.tz}, cwd=self.dir)

    def said(self):
        t = ""
        for i in range(self.starts):
            try:
                t = open(f"{self.dir}/out{i}", errors="replace").read()[-6000:]
            except OSError:
                pass
        return t

    def alive(self):
        """It runs until it is told to stop; a sanitizer's report ends it."""
        if self.p is None or self.p.poll() is None:
            return True
        t = self.said()
        rc = self.p.returncode
        self.p = None
        if "Sanitizer" in t or "runtime error:" in t or rc in (23, 24, 25):
            i = max(t.find("ERROR: "), t.find("runtime error:"), 0)
            self.bad({"C19"}, "sanitizer-report", f"the shipper ended with status {rc}: {t[i:i + 1500]}")
        self.bad({"C18", "C19"}, "shipper-ended", f"the shipper ended by itself with status {rc}: {t[-600:]}")

    def kill(self, s):
        self.act("kill", s)
        self.alive()
        if self.p:
            self.p.send_signal(s)
            try:
                self.p.wait(30)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p = None
        self.col.release("ok")
        self.check_posts()
        # what was accepted last is on record only if the shipper was seen doing something afterwards
        last = max((f.batches[-1][2] for f in self.files.values() if f.batches), default=None)
        if last is not None and last == len(self.col.posts) - 1:
            for f in self.files.values():
                if f.batches and f.batches[-1][2] == last:
                    self.may_repeat[f.path] = min(self.may_repeat.get(f.path, f.batches[-1][0]), f.batches[-1][0])
        self.c("kills")

    def leak_check(self):
        """Nothing is under way: ask the sanitizer for leaked memory."""
        if self.p is None:
            return
        time.sleep(0.05)
        self.alive()
        self.p.send_signal(signal.SIGUSR2)
        try:
            rc = self.p.wait(60)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            self.p = None
            return
        self.p = None
        t = self.said()
        if rc == 23 or "detected memory leaks" in t:
            i = t.find("ERROR: LeakSanitizer")
            self.bad({"C19"}, "leak", f"leaked memory: {t[i:i + 1500]}")
        if rc == 0:
            self.c("leak_checks")

    # ------------------------------------------------------------------ what the collector got
    def check_posts(self):
        col = self.col
        while True:
            with col.lock:
                if self.seen >= len(col.posts):
                    return
                p = col.posts[self.seen]
                if p["how"] is None:
                    return
                if p["how"] == "hold" and self.p is not None and not p["accepted"] and self.seen == len(col.posts) - 1:
                    return                      # still being decided
            self.seen += 1
            self.post(p)

    def post(self, p):
        recs = decode(p)
        self.c("posts")
        self.c("posts_accepted" if p["accepted"] else "posts_not_accepted")
        uids = [uid_of(r) for _, r in recs]
        if not p["first"].startswith("POST ") or self.url.split(str(self.col.port), 1)[1] not in p["first"]:
            self.bad({"C18"}, "wrong-request", f"the request is {p['first']!r}")
        if not recs:
            return
        owners = {u.split("#")[0] for u in uids}
        by = {}
        for u in uids:
            by.setdefault(u.split("#")[0], []).append(u)
        for name, us in by.items():
            f = self.files.get(f"{self.watch}/{name}")
            if f is None:
                self.bad({"C18"}, "not-a-log-file", f"delivered {us[:5]} of a file that is not a watched log file")
            self.batch(f, us, p)
            if f.unseen and p["n"] >= self.since:
                # it has the new file if it sends a line of it, or if it looked at the path after the rotation (which it did before the second POST at the latest)
                f.looks += p["n"] >= f.rotated_at
                if f.written.index(us[-1]) >= f.cut or (f.looks >= 2 and f.gens and f.rotated_at > self.since):
                    f.unseen = False
        for res, r in recs:
            self.fidelity(res, r)

    def batch(self, f, us, p):
        low = self.may_repeat.get(f.path, len(f.accepted))
        try:
            start = f.written.index(us[0])
        except ValueError:
            self.bad({"C18"}, "unwritten-line", f"{us[0]} of {f.path} was delivered, but not (completely) written")
        if start > len(f.accepted):
            self.bad({"C18", "C19"}, "lost", f"a batch for {f.path} begins with {us[0]}, but {f.written[len(f.accepted)]} was not accepted yet")
        if start < low:
            self.bad({"C18"}, "repeated", f"a batch for {f.path} begins with {us[0]} again, after {f.accepted[-1]} was accepted")
        if us != f.written[start:start + len(us)]:
            i = next((i for i, (a, b) in enumerate(zip(us, f.written[start:])) if a != b), len(f.written) - start)
            self.bad({"C18", "C19"}, "wrong-order", f"a batch for {f.path} says {us[max(0, i - 2):i + 3]} where the file says {f.written[start + max(0, i - 2):start + i + 3]}")
        if p["accepted"]:
            if f.path in self.may_repeat and start < len(f.accepted):
                self.c("repeated_after_kill", len(f.accepted) - start)
            self.may_repeat.pop(f.path, None)
            f.accepted = f.written[:start + len(us)]
            f.batches.append((start, start + len(us), p["n"]))
            self.c("lines_accepted", len(us))
            self.c("batches_after_failure", 1 if p["n"] and not self.col.posts[p["n"] - 1]["accepted"] else 0)

    def fidelity(self, res, r):
        u = uid_of(r)
        f = self.files[f"{self.watch}/{u.split('#')[0]}"]
        rec, ns = f.recs[u]
        self.c("records_compared")

        def bad(what, got, want):
            self.bad({"C19"}, "changed", f"{what} of the line {json.dumps(rec)[:700]} arrived as {str(got)[:400]!r}, not {str(want)[:400]!r}")
        if r["body"] != {"stringValue": rec["body"]}:
            bad("the message", r["body"], rec["body"])
        if r.get("severityNumber") != rec["severity_number"] or r.get("severityText") != rec["severity_text"]:
            bad("the severity", (r.get("severityNumber"), r.get("severityText")), (rec["severity_number"], rec["severity_text"]))
        if str(r.get("timeUnixNano")) != str(ns):
            bad("the time", r.get("timeUnixNano"), ns)
        for k, o in (("trace_id", "traceId"), ("span_id", "spanId")):
            if (r.get(o) or None) != rec[k]:
                bad(k, r.get(o), rec[k])
        got = {}
        for a in r.get("attributes", []):
            if a["key"] in got:
                bad("the attributes", r["attributes"], rec["attributes"])
            got[a["key"]] = a["value"]
        if set(got) != set(rec["attributes"]):
            bad("the attributes", sorted(got), sorted(rec["attributes"]))
        for k, v in rec["attributes"].items():
            g = got[k]
            ok = g == {"boolValue": v} and g["boolValue"] is v if isinstance(v, bool) else \
                g in ({"intValue": v}, {"intValue": str(v)}) and not isinstance(g["intValue"], bool) if isinstance(v, int) else g == {"stringValue": v}
            if not ok:
                bad(f"attribute {k!r}", g, v)
        for k, v in (("service.name", rec["attributes"]["application_name"]), ("service.instance.id", rec["attributes"]["application_instance"])):
            if res.get(k) != {"stringValue": v}:
                bad(f"resource attribute {k}", res.get(k), v)

    # ------------------------------------------------------------------ writing
    def new_file(self):
        rng = self.rng
        k = len(self.files)
        name = rng.choice(["app-%d.log", "a-%d.log", "x.y-%d.log", "%d.log.log", "\u00e9-%d.log", " -%d.log"]) % k
        f = File(f"{self.watch}/{name}")
        f.name = name
        f.app, f.inst = rng.choice(["app", "my_app", "\u00e9", ""]) + str(k), str(rng.randrange(100))
        self.files[f.path] = f
        self.act("new file", name)
        open(f.path, "ab").close()
        if rng.random() < .8:
            self.write(f)
        self.c("files")

    def line(self, f):
        self.n += 1
        uid = f"{f.name}#{self.n}"
        rec, ns = record(self.rng, uid, f.app, f.inst, self.rich)
        if self.pad:
            rec["body"] += "|" + "z" * self.pad
        f.recs[uid] = (rec, ns)
        style = self.rng.random() if self.rich else 0
        text = json.dumps(rec, ensure_ascii=False, separators=(",", ":")) if style < .6 else json.dumps(rec) if style < .9 else json.dumps({k: v for k, v in rec.items() if v is not None}, ensure_ascii=False)
        return uid, text.encode() + b"\n"

    NOISE = [b"\n", b"not a record\n", b"{}\n", b"[]\n", b"null\n", b"{\"timestamp\": 5}\n", b"\xff\xfe\x00\n", b"{\"timestamp\": \"2026-01-01T00:00:00+00:00\", \"severity_number\": \"x\", \"severity_text\": \"INFO\", \"body\": \"b\"}\n",
             b"Traceback (most recent call last):\n", b"{\"timestamp\": \"2026-01-01T00:00:00+00:00\", \"severity_number\": 9, \"severity_text\": \"INFO\", \"body\": null, \"attributes\": {}}\n", b"\x00\x00\n", b"{" * 3000 + b"\n", b"[" * 20000 + b"\n", b"\"x\"\n", b"5\n", b" \t\n",
             b"{\"timestamp\": \"2026-01-01T00:00:00+00:00\", \"severity_number\": 9, \"severity_text\": \"INFO\", \"body\": \"b\n", b"{\"body\": \"\xc3\x28\"}\n"]

    def finish_line(self, f, fd):
        if f.partial:
            os.write(fd, f.partial)
            if f.partial_uid:
                f.written.append(f.partial_uid)
            f.partial, f.partial_uid = b"", None

    def write(self, f, n=None):
        rng = self.rng
        fd = os.open(f.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        try:
            if f.partial and rng.random() < .3 and len(f.partial) > 1:      # a bit more of the line
                k = rng.randrange(1, len(f.partial))
                os.write(fd, f.partial[:k])
                f.partial = f.partial[k:]
                self.act("more of a line", f.name)
                return
            self.finish_line(f, fd)
            n = n or rng.choice([1, 1, 2, 3, 10, 40])
            block = b""
            uids = []
            for _ in range(n):
                if rng.random() < .12:
                    block += rng.choice(self.NOISE)
                    self.c("lines_that_are_no_records")
                u, b = self.line(f)
                block += b
                uids.append(u)
            self.act("write", n, f.name)
            how = rng.random()
            if how < .6:
                f.written += uids       # before the write: the shipper may be faster than we are
                os.write(fd, block)
            else:
                # all of it but the end of the last line
                k = len(block) - rng.randrange(1, min(len(b), rng.choice([2, 30, 10 ** 9])) + 1)
                f.written += uids[:-1]
                pos = 0
                while pos < k:
                    m = rng.choice([1, 100, 4096, 8191, 8192, 8193, k])
                    os.write(fd, block[pos:min(k, pos + m)] if m > 1 or k < 200 else block[pos:min(k, pos + 97)])
                    pos += m if m > 1 or k < 200 else 97
                f.partial, f.partial_uid = block[k:], uids[-1]
                self.c("lines_in_pieces")
                if rng.random() < .6:
                    f.written.append(uids[-1])
                    f.partial_uid = None
                    os.write(fd, f.partial)
                    f.partial = b""
            self.c("lines_written", n)
        finally:
            os.close(fd)

    def rotate(self, f):
        """As a rotating file handler does it: the file is renamed, then a new one is opened. Not while the shipper may not have seen the last one."""
        self.check_posts()
        if f.unseen or self.p is None:
            return False
        rng = self.rng
        if len(f.partial) > 4 and rng.random() < .4:        # the writer died in the middle of it: it is not a line, and the next file begins with one
            f.partial, f.partial_uid = b"", None
            self.c("lines_cut_off")
        fd = os.open(f.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        self.finish_line(f, fd)
        os.close(fd)
        how = rng.choice(["chain", "chain", "chain", "unlink", "away"])
        self.act("rotate", f.name, how)
        f.cut = len(f.written)
        f.gens += 1
        if how == "chain":
            for i in (3, 2, 1):
                if os.path.exists(f"{f.path}.{i}"):
                    if i == 3:
                        os.unlink(f"{f.path}.3")
                    else:
                        os.rename(f"{f.path}.{i}", f"{f.path}.{i + 1}")
            if rng.random() < .2:
                time.sleep(rng.random() * .01)
            os.rename(f.path, f"{f.path}.1")
        elif how == "away":
            os.rename(f.path, f"{self.dir}/gone{self.n}_{f.gens}")
        else:
            os.unlink(f.path)
        if rng.random() < .5:
            time.sleep(rng.choice([0, .001, .01, .05]))     # the path leads nowhere for a while
        f.unseen, f.looks = True, 0
        os.close(os.open(f.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT))
        if rng.random() < .3:
            time.sleep(rng.choice([0, .005, .02]))
        f.rotated_at = len(self.col.posts)
        self.write(f)
        self.c("rotations")
        return True

    def nudge(self):
        p = f"{self.watch}/nudge.tmp"
        open(p, "wb").close()
        os.unlink(p)

    def see(self, f):
        """Waits until the shipper has shown that it has the current file open; gives up after a while."""
        end = time.monotonic() + 5
        while f.unseen and time.monotonic() < end:
            self.nudge()
            time.sleep(0.02)
            self.check_posts()
            self.alive()

    # ------------------------------------------------------------------ runs
    def drain(self, limit=WATCHDOG, why="final"):
        """Everything is well again: all that was written must arrive."""
        col = self.col
        col.mode = "good"
        col.up()
        col.release("ok")
        if self.p is None:
            self.start()
        for f in self.files.values():
            if f.partial:
                fd = os.open(f.path, os.O_WRONLY | os.O_APPEND)
                self.finish_line(f, fd)
                os.close(fd)
        self.act("drain")
        end = time.monotonic() + limit
        nudged = 0
        while True:
            self.check_posts()
            self.alive()
            if all(len(f.accepted) == len(f.written) for f in self.files.values()):
                break
            if time.monotonic() > end:
                f = next(f for f in self.files.values() if len(f.accepted) < len(f.written))
                self.bad({"C18", "C19"}, "not-delivered", f"{limit} s after the collector was well again, {len(f.written) - len(f.accepted)} lines of {f.path} are missing, the first is {f.written[len(f.accepted)]}")
            if time.monotonic() - nudged > .1:
                nudged = time.monotonic()
                self.nudge()
            time.sleep(0.003)
        self.c("drains")

    def surplus(self):
        """Nothing further may arrive."""
        for _ in range(3):
            self.nudge()
            time.sleep(0.02)
        self.check_posts()
        self.alive()

    def fds(self):
        try:
            return len(os.listdir(f"/proc/{self.p.pid}/fd"))
        except (OSError, AttributeError):
            return None

    def run(self, steps, weights):
        rng = self.rng
        try:
            for n in ("x.log.1", "y.txt", "log", "z.log~", "w.logs"):      # none of these is a *.log file
                if rng.random() < .5:
                    rec, _ = record(rng, f"{n}#0", "no", "0", False)
                    with open(f"{self.watch}/{n}", "w") as o:
                        o.write(json.dumps(rec) + "\n")
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                self.new_file()
            if rng.random() < .2:
                self.col.down()
            self.start()
            base = None
            names = list(weights)
            for _ in range(steps):
                self.step(rng.choices(names, list(weights.values()))[0])
                self.check_posts()
                self.alive()
            self.drain()
            self.surplus()
            n = self.fds()
            if n is not None and n > len(self.files) + 24:
                self.bad({"C19"}, "leak", f"{n} descriptors are open for {len(self.files)} files after {self.stats.get('rotations', 0)} rotations")
            if n is not None:
                self.c("descriptor_counts")
            self.leak_check()
        finally:
            if self.p:
                self.p.kill()
                self.p.wait()
            self.col.release()
            self.col.down()
            shutil.rmtree(self.dir, ignore_errors=True)

    def bulk(self, what):
        """A lot to deliver at once: many lines, or lines of a megabyte, some of it written before the start."""
        rng = self.rng
        try:
            self.new_file()
            f = next(iter(self.files.values()))
            if rng.random() < .5:
                self.start()
                self.drain()
                if rng.random() < .5:
                    self.col.down()
            if what == "lines":
                self.write(f, rng.choice([3000, 7000, 12000]))
            else:
                for n in rng.choice([[1100000], [300000, 1100000, 10], [2500000]]):
                    self.pad = n
                    self.write(f, rng.choice([1, 1, 3]))
                self.pad = 0
            if not self.p:
                self.start()
            else:
                time.sleep(rng.choice([0, .3, 1]))
                if self.col.sock is None:
                    self.col.up()
            self.write(f, 2)
            self.drain()
            self.surplus()
            self.c("bulk_deliveries")
        finally:
            if self.p:
                self.p.kill()
                self.p.wait()
            self.col.release()
            self.col.down()
            shutil.rmtree(self.dir, ignore_errors=True)

    pad = 0

    def step(self, op):
        rng, col = self.rng, self.col
        fs = list(self.files.values())
        if op == "new" and len(fs) < 6:
            self.new_file()
        elif op == "write" and fs:
            self.write(rng.choice(fs))
        elif op == "rotate" and fs:
            f = rng.choice(fs)
            self.rotate(f)
        elif op == "mode":
            m = rng.choice(["good", "good", "good", "mixed", "mixed", "bad", "broken", "hold", "hold", "cutting"])
            self.act("collector", m)
            col.release(rng.choice(["ok", "ok", "fail", "reset"]))
            col.mode = m
            if col.sock is None:
                col.up()
        elif op == "silent":
            self.act("collector silent")
            col.release("ok")
            col.mode = "silent"
            col.up()
            if fs:
                self.write(rng.choice(fs))
            time.sleep(1)
            col.mode = "good"
        elif op == "outage" and fs and self.p:
            f = rng.choice(fs)
            col.release("ok")
            col.up()
            col.mode = "good"
            self.write(f, 1)
            self.see(f)
            col.mode = rng.choice(["bad", "bad", "broken"])
            self.act("collector", col.mode, "for longer")
            for _ in range(rng.randint(2, 4)):
                if f.unseen:
                    break
                self.rotate(f)
                self.see(f)
        elif op == "down":
            self.act("collector down")
            col.release("ok")
            col.down()
            col.mode = "good"
        elif op == "release":
            self.act("release")
            col.release(rng.choice(["ok", "ok", "ok", "fail", "close"]))
        elif op == "wait":
            n = len(col.posts)
            end = time.monotonic() + rng.choice([.01, .05, .2, .4])
            self.act("wait")
            self.nudge()
            while time.monotonic() < end and len(col.posts) == n:
                time.sleep(.002)
        elif op == "kill":
            # lines in a file that was rotated away are only safe once they are delivered and on record
            if any(len(f.accepted) < f.cut for f in fs):
                self.drain()
                for f in fs:
                    self.write(f, 1)        # what follows shows that the rest is on record
                self.drain()
            elif rng.random() < .5:
                self.write(rng.choice(fs)) if fs else None
                time.sleep(rng.choice([0, .001, .005, .02]))
            # a rotation whose batch might not be on record yet
            self.check_posts()
            if any(len(f.accepted) < f.cut or (f.batches and f.batches[-1][0] < f.cut) for f in fs):
                for f in fs:
                    self.write(f, 1)
                self.drain()
                if any(f.batches and f.batches[-1][0] < f.cut for f in fs):
                    return
            self.kill(rng.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM, signal.SIGINT]))
            for _ in range(rng.choice([0, 0, 1, 3])):
                if fs:
                    self.write(rng.choice(fs))
            if rng.random() < .2 and len(fs) < 6:
                self.new_file()
            self.start()


def shipper_worker(prop, steps, weights, rich):
    from common import rng_for

    def worker(case):
        seed, i, binary, kind = case
        rng = rng_for("ship", prop, seed, i)
        stats = {}
        w = World(rng, prop, binary, stats, rich or i % 3 == 2)
        ws = dict(weights)
        if kind == "silent":
            ws["silent"] = 3
        if kind == "bulk":
            w.rich = False
            w.bulk(rng.choice(["lines", "long"]))
        else:
            w.run(rng.randint(*steps) if kind != "silent" else 10, ws)
        return {"key": sig(w.history), "counters": stats, "nontrivial": stats.get("lines_accepted", 0) > 0, "sample": {"actions": w.history[:14]}}
    return worker
