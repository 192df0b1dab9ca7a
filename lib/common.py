"""Shared runner of all checks: tiers, seeds, budgets, evidence, violations, known findings."""
import fcntl, json, os, random, shutil, signal, socket, sys, tempfile, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO  = os.environ.get("VERIF_REPO", "/repo")
PY    = os.environ.get("VERIF_PY", "/opt/venv/bin/python")


class Violation(Exception):
    """The oracle observed something that refutes the property."""
    def __init__(self, kind, detail, witness=None):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail, self.witness = kind, detail, witness


class Inconclusive(Exception):
    """The harness could not get far enough to decide (never reported as held, nor as violated)."""


def scratch(prefix="v_"):
    return tempfile.mkdtemp(prefix=prefix, dir="/tmp")


def rng_for(*parts):
    return random.Random(hashlib.sha256(repr(parts).encode()).digest())


HELD_PORTS = []
CODE_IN_PROCESS = False     # the worker itself runs the code under test: what that raises is an observation, not a failure of the harness


def reserve(port):
    """Ports are handed out once: the lock is held until this process (and what it forked) is gone."""
    d = "/tmp/verif_ports"
    os.makedirs(d, exist_ok=True)
    fd = os.open(f"{d}/{port}", os.O_RDWR | os.O_CREAT, 0o600)
    try:
        fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
    except OSError:
        os.close(fd)
        return False
    HELD_PORTS.append(fd)
    return True


def free_port(kind="tcp", rng=random.Random()):
    """A port below the ephemeral range, so that no outgoing connection takes it in between."""
    for _ in range(500):
        port = random.SystemRandom().randrange(15000, 32000)
        if not reserve(port):
            continue
        try:
            for t in (socket.SOCK_STREAM, socket.SOCK_DGRAM):
                s = socket.socket(socket.AF_INET, t)
                try:
                    s.bind(("127.0.0.1", port))
                finally:
                    s.close()
            return port
        except OSError:
            continue
    raise Inconclusive("no free port")


class Check:
    def __init__(self, prop, level, rule, assumptions=()):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.monotonic()
        signal.signal(signal.SIGINT, signal.default_int_handler)     # whoever started us may have them ignored, and what we start would inherit that
        for x in (signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT):
            signal.signal(x, signal.SIG_DFL)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.notes = []
        self.inconclusive = []
        self.min_evaluations = 1

    def budget(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.monotonic() - self.t0

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def merge(self, counters):
        for k, v in counters.items():
            self.count(k, v)

    def case(self, key, sample=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(key if isinstance(key, (str, int)) else hashlib.sha1(repr(key).encode()).hexdigest())
        if sample is not None and len(self.samples) < 5:
            self.samples.append(sample)

    def violation(self, kind, detail, witness=None):
        self.violations.append({"kind": kind, "detail": str(detail)[:4000], "witness": witness})

    def known_findings(self):
        out = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                if line.startswith("known:") and f"property={self.prop} " in line:
                    out.append(line.strip())
        return out

    def evidence(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples or ["(none)"], "observed": self.counters}
        if self.notes:
            cov["notes"] = self.notes[:20]
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2), "violations": len(self.violations)}
        tmp = os.path.join(d, f".{self.prop}.{os.getpid()}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, f"{self.prop}.json"))

    def finish(self):
        self.evidence()
        for line in self.known_findings():
            print("KNOWN-FINDING: " + line[len("known:"):].strip())
        for k in sorted(self.counters):
            print(f"  observed {k}: {self.counters[k]}")
        print(f"{self.prop} {self.tier} seed={self.seed}: {self.evaluations} executions, {len(self.distinct)} distinct non-trivial, "
              f"{len(self.violations)} violations, {len(self.inconclusive)} inconclusive, {self.elapsed():.1f} s")
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}-{self.tier}-{self.seed}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "replay": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} checks/run {self.prop}",
                           "violations": self.violations[:20]}, f, indent=1, default=str)
            for v in self.violations[:5]:
                print(f"  {v['kind']}: {v['detail'][:1500]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            sys.stdout.flush()
            return 1
        if self.evaluations < self.min_evaluations or (self.inconclusive and len(self.inconclusive) > max(2, self.evaluations // 2)):
            print(f"INCONCLUSIVE property={self.prop}: {self.inconclusive[:3]}")
            sys.stdout.flush()
            return 3
        sys.stdout.flush()
        return 0


def sig(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def kill_group(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run_parallel(check, worker, cases, jobs=8, case_timeout=240):
    """Runs worker(case) -> dict in forked processes, `jobs` at a time.

    A worker result: {"key":..., "sample":..., "counters": {...}, "violations": [[kind, detail, witness]], "nontrivial": bool}
    Stops early on the first violation. A worker that dies or overruns is inconclusive. A worker that cannot make sense
    of what it was answered (a KeyError in a response, say) is run again: the same exception at the same place twice is
    an observation about the code, once is inconclusive.
    """
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    pending = list(enumerate(cases))[::-1]
    running = {}
    again = {}
    stop = False
    while (pending and not stop) or running:
        while pending and len(running) < jobs and not stop:
            i, c = pending.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_worker_main, args=(worker, c, w), daemon=False)
            p.start()
            w.close()
            running[i] = (p, r, c, time.monotonic())
        from multiprocessing.connection import wait
        wait([x[1] for x in running.values()], timeout=0.5)
        for i in list(running):
            p, r, c, t = running[i]
            res = None
            if r.poll():
                try:
                    res = r.recv()
                except EOFError:
                    res = {"inconclusive": f"worker for case {c!r} died"}
            elif time.monotonic() - t > case_timeout:
                res = {"inconclusive": f"case {c!r} overran {case_timeout} s"}
                _kill_tree(p.pid)
            elif not p.is_alive():
                res = {"inconclusive": f"worker for case {c!r} died"}
            if res is None:
                continue
            if p.is_alive():
                p.join(5)
                if p.is_alive():
                    _kill_tree(p.pid)
                    p.join()
            del running[i]
            r.close()
            if res.get("misfit"):
                if i not in again:
                    again[i] = res["misfit"]
                    pending.append((i, c))
                    continue
                if again[i] == res["misfit"]:
                    check.violation("unexpected-answer", f"twice the same: {str(res['inconclusive'])[-900:]}", {"case": repr(c)})
                    stop = not os.environ.get("VERIF_GO_ON")
                    continue
            check.merge(res.get("counters", {}))
            if "inconclusive" in res:
                check.inconclusive.append(str(res["inconclusive"])[-900:])
                continue
            if "keys" in res:           # one worker ran many cases: "n" executions with these distinct signatures
                check.evaluations += res["n"]
                check.distinct.update(res["keys"])
                if res.get("sample") is not None and len(check.samples) < 5:
                    check.samples.append(res["sample"])
            else:
                check.case(res.get("key", i), res.get("sample"), res.get("nontrivial", True))
            for n in res.get("notes", []):
                check.notes.append(n)
            for v in res.get("violations", []):
                check.violation(v[0], v[1], {"case": repr(c), "witness": v[2] if len(v) > 2 else None})
            if check.violations and not os.environ.get("VERIF_GO_ON"):
                stop = True


def _kill_tree(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass


def _worker_main(worker, case, conn):
    os.setpgid(0, 0)
    try:
        res = worker(case)
    except Violation as v:
        res = {"violations": [[v.kind, v.detail, v.witness]]}
    except Inconclusive as e:
        res = {"inconclusive": f"{case!r}: {e}"}
    except BaseException as e:
        frames = traceback.extract_tb(e.__traceback__)
        if CODE_IN_PROCESS and isinstance(e, Exception) and not isinstance(e, (OSError, MemoryError)) and any(f.filename.startswith(REPO + "/") for f in frames):
            res = {"violations": [["raised", f"{case!r}: the code under test raised {type(e).__name__}: {e}; {[f'{f.filename}:{f.lineno}' for f in frames[-6:]]}", None]]}
        else:
            res = {"inconclusive": f"{case!r}: {type(e).__name__}: {e}\n{traceback.format_exc()}"}
            if isinstance(e, (KeyError, IndexError, TypeError, ValueError, AssertionError)):
                res["misfit"] = [type(e).__name__] + [f"{f.filename}:{f.lineno}" for f in frames[-2:]]
    try:
        conn.send(res)
        conn.close()
    finally:
        sys.stdout.flush()
        # Everything the worker started is in its process group: take it along, quietly.
        signal.signal(signal.SIGTERM, signal.SIG_IGN)
        try:
            os.killpg(0, signal.SIGTERM)
        except OSError:
            pass
        os._exit(0)
