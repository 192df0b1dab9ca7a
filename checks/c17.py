"""C17: no log record is lost, repeated, reordered or damaged."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import datetime, json, signal, time
from common import Check, Violation, Inconclusive, run_parallel, rng_for, sig
from inproc import preload
from svc import Service, Conn, new_sk
import logfiles

LEVELS = {"debug": 10, "info": 20, "warn": 30, "error": 40, "critical": 50}
SEVERITY = {10: (5, "DEBUG"), 20: (9, "INFO"), 30: (13, "WARN"), 40: (17, "ERROR"), 50: (21, "FATAL")}
BODIES = ["", "plain", "two\nlines", "\r\n", "tab\tnul\x00 esc\x1b[0m", 'quote " back \\ slash /', "\u00e9\u4e16\U0001f600", "\u2028\u2029\x85", "{\"json\": 1}", "{'a': %s}", "100%", "x" * 5000, " lead and trail ", "\x7f\x80\xff",
          "\\n", "null", "</script>", "\ufeffbom", "a" * 200]
SLACK = 0.02


class World:
    def __init__(self, rng, stats):
        self.rng, self.stats = rng, stats
        self.level = rng.choice(list(LEVELS))
        self.size = rng.choice([0, 1, 2, 5, 40, 1000])
        self.max_bytes = rng.choice([0, 0, 800, 3000, 20000]) if rng.random() < .8 else 200
        self.max_files = rng.choice([1, 3, 200, 2000])
        if self.max_bytes == 0:
            self.max_bytes = 10 ** 8
        app, inst = rng.choice([("svc_app", "0"), ("svc_app", "1"), ("other", "a_b")])
        env = {"ECOENV_LOG_LEVEL": self.level, "ECOENV_LOG_BUF_SIZE": str(self.size), "ECOENV_LOG_MAX_SIZE": str(self.max_bytes), "ECOENV_LOG_MAX_FILES": str(self.max_files)}
        self.sv = Service(rng, {}, app=app, instance=inst, env=env)
        self.conf = f"{app}-{inst} level {self.level} buffer {self.size} rotation {self.max_bytes} x {self.max_files}"
        self.start_level, self.start_size = self.level, self.size
        self.n, self.history = 0, []
        self.expected = []          # (level, text, t0, t1), everything that has to be in the files, in order
        self.threads = {}           # text -> level
        self.unwritten = None

    def c(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, kind, text):
        raise Violation(kind, f"{self.conf}: {text}; last actions {self.history[-15:]}", {"history": self.history})

    def records(self, k, big=True):
        out = []
        for _ in range(k):
            self.n += 1
            body = self.rng.choice(BODIES if big else BODIES[:8])
            level = self.rng.choice([10, 20, 20, 30, 40, 50, 25, 15])
            args = []
            text = f"R|{self.sv.starts}.{self.n}|{body}"
            if self.rng.random() < .3:
                text = text.replace("%", "%%") + self.rng.choice([" %s", " %s"])
                args = [self.rng.choice(["v", 5, None, "\n", "%s", {"a": 1}, [1]])]
                if isinstance(args[0], dict):
                    args = ["d"]
            out.append([level, text, args])
        return out

    def taken(self):
        """What the application says it logged, in the order it did."""
        k = len(self.expected)
        for e in self.sv.events.poll():
            if e["ev"] == "logged" and e["level"] >= LEVELS[self.level]:
                self.expected.append((e["level"], e["text"] % tuple(e["args"]) if e["args"] else e["text"], e["t0"], e["t1"]))
            elif e["ev"] == "logged":
                self.c("records_below_the_level")
        self.c("records", len(self.expected) - k)
        return len(self.expected) - k

    def do_log(self):
        r = self.records(self.rng.choice([1, 1, 3, 10, 40]))
        spins = self.rng.choice([0, 0, 1, -1]) if len(r) < 20 else 0
        if self.rng.random() < .05:
            r, spins = self.records(3), -60
        self.history.append(f"log {len(r)}")
        self.sv.ok("ctl.log", {"items": r, "n": spins})
        if self.taken():
            self.bounded()

    def do_concurrent(self):
        cs = [Conn(self.sv.uds) for _ in range(self.rng.randint(2, 5))]
        self.history.append(f"concurrently {len(cs)}")
        for c in cs:
            c.send((json.dumps({"route_key": "ctl.log", "span_key": dict(zip(("trace_id", "span_id"), new_sk(self.rng).split(":"))), "data": {"items": self.records(self.rng.randint(2, 12)), "n": self.rng.choice([0, 1, 3])}}) + "\n").encode())
        for c in cs:
            c.line()
            c.close()
        if self.taken():
            self.bounded()

    def do_threads(self):
        k = self.rng.randint(2, 4)
        r = self.records(self.rng.randint(3, 25), False)
        self.history.append(f"{k} threads {len(r)}")
        self.sv.ok("ctl.log", {"items": r, "name": str(k)})
        self.taken()
        self.expected.append(("threads", k, [(l, (t % tuple(a) if a else t)) for l, t, a in r if l >= LEVELS[self.level]], None))
        self.c("records_from_threads", k * len(self.expected[-1][2]))

    def do_level(self):
        self.level = self.rng.choice(list(LEVELS))
        self.history.append(f"level {self.level}")
        a = self.sv.ok("eco.log.level", {"level": self.level})
        if a["level"] != self.level:
            self.bad("wrong-answer", f"setting the level to {self.level} answered {a}")

    def do_buffer(self):
        self.size = self.rng.choice([0, 1, 2, 3, 10, 100, 100000])
        self.history.append(f"buffer {self.size}")
        a = self.sv.ok("eco.log.buffer", {"size": self.size})
        if a["size"] != self.size:
            self.bad("wrong-answer", f"setting the buffer size to {self.size} answered {a}")
        if self.size > 1000 and self.rng.random() < .7:
            # flush everything once, then grow: what follows stays in memory
            self.sv.ok("eco.log.buffer", {"size": 0})
            self.sv.ok("ctl.log", {"items": [[50, f"R|{self.sv.starts}.f{self.n}|flush", []]]})
            self.sv.ok("eco.log.buffer", {"size": self.size})
            self.taken()
            k = len(self.expected)
            self.sv.ok("ctl.log", {"items": self.records(4)})
            self.taken()
            got = {self.text(l) for l in logfiles.lines(self.files())}
            late = [e[1] for e in self.expected[k:] if e[1] in got]
            if late:
                self.bad("buffer-ignored", f"{late[0][:100]!r} was written at once, the buffer holds {self.size}")
            self.c("buffer_growth_checks")

    def files(self):
        return logfiles.files(self.sv.dir, self.sv.app, self.sv.instance)

    def text(self, l):
        return logfiles.parse(l)["body"]

    def bounded(self):
        """No more than the buffer's size is held back."""
        if self.expected and self.expected[-1][0] == "threads":
            return
        got = [self.text(l) for l in logfiles.lines(self.files())]
        got = {t for t in got if t.startswith("R|")}
        if not got and len(self.files()) > self.max_files:
            return      # all were in files that are gone
        tail = []
        for l, t, _, _ in reversed(self.expected):
            if l == "threads" or t in got:
                break
            tail.append(t)
        if len(tail) >= max(1, self.size):
            self.bad("buffer-ignored", f"{len(tail)} records are not in the file yet, the buffer holds {self.size}: {tail[-1][:100]!r}")
        self.c("buffer_bound_checks")

    def stop(self):
        how = self.rng.choice([signal.SIGTERM, signal.SIGINT, signal.SIGHUP, "crash"])
        self.history.append(f"stop {how}")
        self.sv.stop(how)
        self.sv.events.poll()
        self.compare()

    def compare(self):
        paths = self.files()
        got = []
        for l in logfiles.lines(paths):
            r = logfiles.parse(l)
            a = r.get("attributes", {})
            if (a.get("application_name"), a.get("application_instance")) != (self.sv.app, self.sv.instance):
                self.bad("wrong-identity", f"a line of {self.sv.app}-{self.sv.instance} says {a}")
            if r["body"].startswith(("R|", "T")) and "|" in r["body"]:
                got.append(r)
            self.c("lines_read")
        want, groups = [], []
        for e in self.expected:
            if e[0] == "threads":
                groups.append((len(want), e))
            else:
                want.append(e)
        mine = [r for r in got if r["body"].startswith("R|")]
        whole = len(paths) <= self.max_files
        if len(paths) > self.max_files + 1:
            self.bad("too-many-files", f"{len(paths)} files, configured are {self.max_files} besides the current one")
        if not whole:
            self.c("runs_with_dropped_files")
            if len(mine) > len(want):
                self.bad("repeated", f"{len(mine)} records in the files, logged were {len(want)}")
            want = want[len(want) - len(mine):]
        for i, (w, r) in enumerate(zip(want, mine)):
            if w[1] != r["body"]:
                texts = [x["body"] for x in mine]
                kind = "damaged" if w[1][:12] == r["body"][:12] else "repeated" if texts.count(r["body"]) > 1 else "below-the-level" if r["body"] not in [x[1] for x in want] else "lost" if w[1] not in texts else "reordered"
                self.bad(kind, f"record {i} in the files is {r['body'][:150]!r}, logged was {w[1][:150]!r}")
            if w[0] in SEVERITY and (r["severity_number"], r["severity_text"]) != SEVERITY[w[0]]:
                self.bad("wrong-severity", f"logged at {w[0]}, the line says {r}")
            try:
                t = datetime.datetime.fromisoformat(r["timestamp"])
                ts = t.timestamp()
                ok = t.utcoffset() is not None and w[2] - SLACK <= ts <= w[3] + SLACK
            except ValueError:
                ok = False
            if not ok:
                self.bad("wrong-time", f"logged between {w[2]} and {w[3]}, the line says {r['timestamp']}")
            self.c("records_compared")
        if len(mine) != len(want):
            x = mine[len(want)]["body"] if len(mine) > len(want) else want[len(mine)][1]
            self.bad("lost" if len(mine) < len(want) else "repeated" if x in [w[1] for w in want] else "below-the-level", f"{len(mine)} records in the files, logged were {len(want)}; first difference {x[:150]!r}")
        if whole:
            th = [r["body"] for r in got if r["body"].startswith("T")]
            for _, (_, k, items, _) in groups:
                for j in range(k):
                    w = [f"T{j}|{t}" for _, t in items]
                    s = set(w)
                    g = [b for b in th if b in s]
                    if g != w:
                        self.bad("threads", f"thread {j} logged {len(w)} records, in the files are {len(g)}, first difference {next((a for a, b in zip(w + [None], g + [None]) if a != b), None)!r}")
            if len(th) != sum(k * len(i) for _, (_, k, i, _) in groups):
                self.bad("threads", f"{len(th)} records of threads in the files, logged were {sum(k * len(i) for _, (_, k, i, _) in groups)}")
        self.c("files_read", len(paths))
        self.c("full_comparisons")

    def run(self, steps):
        try:
            acts = {self.do_log: 8, self.do_concurrent: 2, self.do_threads: .7, self.do_level: 2, self.do_buffer: 1.5}
            for gen in range(self.rng.choice([1, 1, 2, 3])):
                self.level, self.size = self.start_level, self.start_size
                self.sv.start()
                for _ in range(self.rng.randint(3, steps)):
                    self.rng.choices(list(acts), list(acts.values()))[0]()
                self.stop()
        except Violation as v:
            if not v.detail.startswith(self.conf):
                self.bad(v.kind, v.detail)
            raise
        finally:
            self.sv.close()


def main():
    ck = Check("C17", "exploration",
               "seeded sequences of records (levels, texts with control characters, line ends, every kind of quoting, long, with arguments; from one task, several tasks and threads), level and buffer size changes "
               "through the management endpoints, rotation sizes and counts, orderly stops by signal and by a failing task, and restarts of a live application; its log files are read as bytes and compared record by "
               "record with what it was told to log, and while it runs with what the buffer may hold back; non-trivial: distinct sequences of actions",
               ["texts are valid Unicode without lone surrogates", "the system clock does not jump by more than 20 ms"])
    preload()

    def worker(case):
        rng = rng_for("c17", *case)
        stats = {}
        w = World(rng, stats)
        w.run(rng.randint(5, 25))
        return {"key": sig(w.conf + str(w.history)), "counters": stats, "sample": [w.conf] + w.history[:12]}
    run_parallel(ck, worker, [(ck.seed, i) for i in range(ck.budget(420, 5000))])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
