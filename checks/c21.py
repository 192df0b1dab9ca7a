"""C21: at most one process runs per application instance."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import json, shutil, signal, time
from common import Check, Violation, Inconclusive, run_parallel, rng_for, sig, scratch
from inproc import preload
from svc import Service, Gone, Conn, new_sk

# Run in each process before the application object is made: everyone waits for the signal to go, and whatever an
# application may use to look at and take a lock is slowed down at random, which widens every window there is.
BARRIER = """
import builtins, random, time as _t
_rng = random.Random(%(seed)d)
def _slow(f):
    def g(*a, **k):
        if _rng.random() < %(p)f: _t.sleep(_rng.random() * %(d)f)
        r = f(*a, **k)
        if _rng.random() < %(p)f: _t.sleep(_rng.random() * %(d)f)
        return r
    return g
if %(p)f:
    import fcntl as _f
    for _n in ("kill", "open", "link", "rename", "replace", "unlink", "remove", "fsync", "stat"):
        setattr(os, _n, _slow(getattr(os, _n)))
    _f.flock = _slow(_f.flock)
    _f.lockf = _slow(_f.lockf)
    builtins.open = _slow(builtins.open)
while not os.path.exists(%(go)r): _t.sleep(0)
"""
GARBAGE = [b"", b"\n", b"abc\n", b"-1\n", b"0\n", b"99999999999999999999999\n", b"4194304000\n", b"\xff\xfe\x00\x01", b"12 34\n", b"1e3\n", b"\x00" * 64, b"3.5\n", b"\n\n\n", b"+\n", "\u0661x\n".encode()]


class World:
    def __init__(self, rng, stats):
        self.rng, self.stats = rng, stats
        self.dir = scratch("vl_")
        self.events = f"{self.dir}/events.jsonl"
        self.names = rng.sample([("svc_app", "0"), ("svc_app", "1"), ("svc_app", "10"), ("svc", "0"), ("svc_app_1", "0"), ("other", "A"), ("other", "a"), ("other_app", "A"), ("svc-app", "0"), ("svc_app", "0-1"), ("svc_app", "0.1")], rng.choice([1, 1, 2, 3]))
        self.running = {}           # name -> Service
        self.n = self.k = 0
        self.history = []
        self.items = {}             # name -> uids accepted and not processed

    def c(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, kind, text):
        raise Violation(kind, f"{text}; instances {self.names}; {self.history[-12:]}", {"history": self.history})

    def lock(self, name):
        return f"{self.dir}/{name[0]}-{name[1]}.lock"

    def make(self, name, seed, go, p, d):
        self.n += 1
        spec = {"events": f"{self.dir}/events-{name[0]}-{name[1]}.jsonl", "setup": [BARRIER % {"seed": seed, "p": p, "d": d, "go": go}],
                "buffered": [{"route": "b.q", "dto": "item", "page_size": 2, "max_retries": 1, "mode": "gated"}]}
        sv = Service(self.rng, spec, app=name[0], instance=name[1], directory=self.dir)
        sv.uds = f"{self.dir}/{name[0]}_{name[1]}.sock"
        sv.env[f"ECOENV_UDS_{name[0].upper()}_{name[1].upper()}"] = sv.uds
        sv.starts = self.n * 1000
        return sv

    def ups(self, name):
        path = f"{self.dir}/events-{name[0]}-{name[1]}.jsonl"
        if not os.path.exists(path):
            return []
        return [e for e in (json.loads(l) for l in open(path) if l.endswith("\n")) if e["ev"] in ("up", "stopped")]

    def up(self, name, pid):
        return any(e["ev"] == "up" and e["pid"] == pid for e in self.ups(name))

    def race(self, wanted, kill=False):
        """Starts all of `wanted` (names, possibly the same several times) at once; exactly one per name ends up running."""
        rng = self.rng
        self.k += 1
        go = f"{self.dir}/go{self.k}"
        p, d = rng.choice([(0, 0), (.3, .002), (.5, .01), (.2, .03)])
        svs = [(n, self.make(n, rng.randrange(1 << 30), go, p, d)) for n in wanted]
        for _, sv in svs:
            sv.spawn()
        time.sleep(rng.choice([0, .15, .3]) if len(svs) > 1 else 0)
        open(go, "w").close()
        self.history.append(f"start {[f'{a}-{b}' for a, b in wanted]}")
        self.c("starts", len(svs))
        killed = set()
        if kill:
            time.sleep(rng.random() * .15)
            for n, sv in svs:
                if rng.random() < .6:
                    sv.send_signal(signal.SIGKILL)
                    sv.wait()
                    killed.add(sv.pid)
                    self.items[n] = None        # what it had taken into memory by then may be gone
            self.history.append(f"killed {len(killed)} while they started")
            self.c("kills_while_starting", len(killed))
        end = time.monotonic() + 90
        while True:
            time.sleep(.01)
            if all(sv.poll() is not None or self.up(n, sv.pid) for n, sv in svs):
                break
            if time.monotonic() > end:
                raise Inconclusive("not decided within the watchdog time: " + str([sv.output() for _, sv in svs if sv.poll() is None])[:500])
        for name in set(wanted):
            mine = [sv for n, sv in svs if n == name]
            alive = [sv for sv in mine if sv.pid not in killed and self.up(name, sv.pid)]
            old = self.running.get(name)
            if old is not None:
                if alive:
                    self.bad("two-running", f"{name}: process {alive[0].pid} came up while {old.pid} was running")
                if old.poll() is not None:
                    self.bad("running-one-ended", f"{name}: the running process ended (status {old.status}) when another was started: {old.output()}")
                self.c("starts_refused", len(mine))
            else:
                if len(alive) > 1:
                    self.bad("two-running", f"{name}: processes {[sv.pid for sv in alive]} are running at the same time")
                if not alive and not killed:
                    self.bad("nobody-runs", f"{name}: none of {len(mine)} started processes runs, lock file {self.lock_content(name)}: {mine[0].output()[-600:]}")
                if alive:
                    sv = alive[0]
                    if not sv.wait_ready():
                        self.bad("running-one-ended", f"{name}: the running process ended: {sv.output()}")
                    self.running[name] = sv
                    self.c("starts_refused", len([s for s in mine if s.pid not in killed]) - 1)
            self.c("decisions")
        for n, sv in svs:
            if self.running.get(n) is not sv:
                sv.wait()

    def lock_content(self, name):
        try:
            return open(self.lock(name), "rb").read()[:60]
        except OSError as e:
            return str(e)

    # ------------------------------------------------------------------ actions
    def do_race(self):
        name = self.rng.choice(self.names)
        self.race([name] * self.rng.choice([1, 2, 3, 5, 8]))

    def do_mixed(self):
        self.race([self.rng.choice(self.names) for _ in range(self.rng.choice([2, 4, 6]))])

    def do_killed_race(self):
        idle = [n for n in self.names if n not in self.running]
        if idle:
            n = self.rng.choice(idle)
            self.race([n] * self.rng.choice([1, 1, 3]), kill=True)

    def do_end(self):
        if not self.running:
            return
        name = self.rng.choice(list(self.running))
        sv = self.running.pop(name)
        how = self.rng.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM, signal.SIGINT, "crash"])
        self.history.append(f"{name} ends by {how}")
        others = self.rng.random() < .3
        if how == signal.SIGKILL:
            sv.kill()
            self.items[name] = None
        else:
            sv.stop(how)
        self.c("ends")

    def do_overlap(self):
        """Another one is started while the running one is on its way out."""
        if not self.running:
            return
        name = self.rng.choice(list(self.running))
        old = self.running.pop(name)
        go = f"{self.dir}/go_o{self.n}"
        svs = [self.make(name, self.rng.randrange(1 << 30), go, self.rng.choice([0, .3]), .003) for _ in range(self.rng.choice([1, 3]))]
        for s in svs:
            s.spawn()
        time.sleep(.12)
        old.drop()
        how = self.rng.choice([signal.SIGTERM, signal.SIGKILL, signal.SIGINT])
        first = self.rng.random() < .5
        if first:
            open(go, "w").close()
            time.sleep(self.rng.random() * .004)
        old.send_signal(how)
        if not first:
            time.sleep(self.rng.random() * .03)
            open(go, "w").close()
        old.wait()
        end = time.monotonic() + 90
        while not all(s.poll() is not None or self.up(name, s.pid) for s in svs):
            time.sleep(.01)
            if time.monotonic() > end:
                raise Inconclusive("not decided within the watchdog time")
        up = [s for s in svs if self.up(name, s.pid)]
        if len(up) > 1:
            self.bad("two-running", f"{name}: processes {[s.pid for s in up]} came up at the same time")
        ev = self.ups(name)
        if up and how != signal.SIGKILL:
            a = next((i for i, e in enumerate(ev) if e["ev"] == "stopped" and e["pid"] == old.pid), None)
            b = next(i for i, e in enumerate(ev) if e["ev"] == "up" and e["pid"] == up[0].pid)
            if a is None or b < a:
                self.bad("two-running", f"{name}: process {up[0].pid} came up before {old.pid} had stopped")
        for s in svs:
            if s in up:
                if not s.wait_ready():
                    self.bad("running-one-ended", s.output())
                self.running[name] = s
            else:
                s.wait()
        self.items[name] = None
        self.history.append(f"{name} replaced ({how}), {len(up)} up")
        self.c("overlapping_starts")

    def do_garbage(self):
        idle = [n for n in self.names if n not in self.running]
        if not idle:
            return
        name = self.rng.choice(idle)
        x = self.rng.choice(GARBAGE + [None, f"{self.dead_pid()}\n".encode(), f"{self.dead_pid()}".encode()])
        if x is None:
            if os.path.exists(self.lock(name)):
                os.unlink(self.lock(name))
        else:
            with open(self.lock(name), "wb") as f:
                f.write(x)
        self.history.append(f"lock file of {name} is {x!r}")
        self.race([name] * self.rng.choice([1, 1, 4]))
        self.c("damaged_lock_files")

    def dead_pid(self):
        p = os.fork()
        if p == 0:
            os._exit(0)
        os.waitpid(p, 0)
        return p

    def do_use(self):
        """The running one answers, and has what it was given, whatever was started next to it."""
        for name, sv in self.running.items():
            sv.drop()
            sv.events.poll()
            sv.sync(30)
            uid = f"u{self.n}.{self.rng.random()}"
            sk = new_sk(self.rng)
            try:
                r = sv.rpc("v.echo", {"uid": uid, "plan": {}}, sk)
                q = sv.queue("b.q")
                sv.ok("b.q", {"uid": uid})
                q2 = sv.queue("b.q")
            except (OSError, Gone) as e:
                self.bad("running-one-unreachable", f"{name}: {e}")
            pid = next((e["pid"] for e in sv.events.poll() if e["ev"] == "run" and e["data"].get("uid") == uid), None)
            if r["status"] or pid != sv.pid:
                self.bad("running-one-unreachable", f"{name}: {sv.pid} is running, {pid} answered {r}")
            have = q["database_sizes"]["pending"]
            want = self.items.get(name)
            if want is not None and have != want:
                self.bad("running-one-changed", f"{name}: {have} requests are waiting, {want} were")
            self.items[name] = q2["database_sizes"]["pending"]
            self.c("uses")
        self.history.append("used")

    def run(self):
        try:
            acts = {self.do_race: 4, self.do_mixed: 1, self.do_killed_race: 1.5, self.do_end: 3, self.do_garbage: 2, self.do_use: 2, self.do_overlap: 1.5}
            self.do_race()
            self.do_use()
            for _ in range(self.rng.randint(4, 9)):
                self.rng.choices(list(acts), list(acts.values()))[0]()
            self.do_use()
        finally:
            for sv in self.running.values():
                sv.close()
            shutil.rmtree(self.dir, ignore_errors=True)


def main():
    ck = Check("C21", "exploration",
               "seeded sequences of simultaneous starts (1 to 8 processes released together, with random delays injected around every file, lock and process id call), further starts next to a running one, ends by signal, failing task and "
               "SIGKILL, kills while starting, replacement while stopping, and damaged, empty, stale and missing lock files, for one to three instances of one and of different applications; each process reports when it is running; "
               "non-trivial: distinct histories",
               ["process ids are not reused", "application and instance are identified by the text name-instance: pairs for which it is the same are the same instance", "whoever started a process collects its exit status"])
    preload()

    def worker(case):
        rng = rng_for("c21", *case)
        stats = {}
        w = World(rng, stats)
        w.run()
        return {"key": sig((w.names, w.history)), "counters": stats, "sample": w.history[:12]}
    run_parallel(ck, worker, [(ck.seed, i) for i in range(ck.budget(140, 1500))], jobs=6)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
