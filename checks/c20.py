"""C20: settings are resolved from the most specific source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import json, shutil, signal, socket, time
from common import Check, Violation, Inconclusive, run_parallel, rng_for, sig, scratch, free_port
from inproc import preload
from svc import Service, Conn

SCRIPTS = [("my.py", "my"), ("my_app.py", "my_app"), ("MyApp.py", "my_app"), ("my_app_two.py", "my_app_two"), ("app.py", "app"), ("log.py", "log"), ("MyCoolApplication.py", "my_cool_application"), ("x1.py", "x1"), ("tool", "tool"), ("XYTool.py", "x_y_tool")]
INSTANCES = ["0", "1", "10", "01", "feeds_cats", "feeds", "Feeds_Dogs", "A", "north-1"]
# setting -> (path in the configuration, type, default)
DIRS = {"LOG_DIR": "logging.file_logging.directory", "LOCK_DIR": "lock_directory", "BUFFER_DIR": "buffer_directory"}
NUMS = {"STAT_GP": ("stats_keeper.gather_period", 300), "STAT_HL": ("stats_keeper.history_length", 12), "LOG_BUF_SIZE": ("logging.file_logging.buffer_size", 0),
        "LOG_MAX_SIZE": ("logging.file_logging.max_size_in_bytes", 10485760), "LOG_MAX_FILES": ("logging.file_logging.max_files", 10)}
LEVELS = ["debug", "info", "warn", "error", "critical"]
EXTRA = ["KEY", "DATABASE_NAME", "URL", "Q_B", "ZED"]


def put(d, path, v):
    *a, b = path.split(".")
    for k in a:
        d = d.setdefault(k, {})
    d[b] = v


def at(d, path):
    for k in path.split("."):
        d = d[k]
    return d


class World:
    def __init__(self, rng, stats, live):
        self.rng, self.stats, self.live = rng, stats, live
        self.dir = scratch("vc_")
        self.script, self.app = rng.choice(SCRIPTS)
        self.inst = rng.choice(INSTANCES if not live else INSTANCES)
        A, I = self.app.upper(), self.inst.upper()
        self.tail = ["", f"_{A}", f"_{A}_{I}"]
        self.env, self.expect, self.extra, self.file = {}, {}, {}, {}
        self.k = 0
        self.dirs = {}
        self.noise = {}
        mine = set()

        def directory(name):
            p = f"{self.dir}/{name}"
            os.makedirs(p, exist_ok=True)
            self.dirs[p] = name
            return p

        def levels(must=False):
            while True:
                s = [l for l in (0, 1, 2) if rng.random() < .45]
                if s or not must:
                    return s

        def resolve(setting, value, default, must=False):
            """Gives the setting at some levels; what should come out."""
            best = default
            for l in levels(must):
                v = value(l)
                self.env[f"ECOENV_{setting}{self.tail[l]}"] = str(v)
                if v != "":
                    best = v
            return best

        base = resolve("DEFAULT_DIR", lambda l: directory(f"default{l}"), "/tmp", live)
        for s, path in DIRS.items():
            d = None if s == "BUFFER_DIR" else base
            self.expect[path] = resolve(s, lambda l: directory(f"{s}{l}") if live or rng.random() < .9 else "", d, live and s == "BUFFER_DIR")
        for s, (path, d) in NUMS.items():
            self.expect[path] = resolve(s, lambda l: rng.choice([0, rng.randrange(1, 9999), rng.randrange(1, 9999), rng.randrange(1, 9999)]) if not live and s not in ("STAT_GP", "STAT_HL") else rng.randrange(1, 9999) if s in ("STAT_GP", "STAT_HL") or not live else rng.choice([0, 3]) if s == "LOG_BUF_SIZE" else rng.randrange(10 ** 6, 10 ** 7) if s == "LOG_MAX_SIZE" else 5, d)
        self.expect["logging.level"] = resolve("LOG_LEVEL", lambda l: rng.choice(LEVELS) if rng.random() < .9 else "", "info")
        # names that begin with, or contain, the name of the application or the instance, but are not theirs
        self.names = EXTRA + [f"{A}LE_URL", f"{I}S", f"{I}S_{A}", f"THE_{A}_{I}_KEY", f"{A}", f"ECOENV_EXTRA_{A}_X", f"OF_ECOENV_EXTRA_{A}_{I}_X"]
        for x in self.names:
            for l in levels():
                self.k += 1
                self.env[f"ECOENV_EXTRA{self.tail[l]}_{x}"] = self.extra[x] = rng.choice([f"v{self.k}", f"with space {self.k}", f"{self.k}", f"a:b/c=d{self.k}", "\u00e9"])
        # servers: at the instance level only, everything else is ignored
        self.addr = {}
        for t in ("TCP", "UDP", "UDS"):
            for l in levels():
                if t == "UDS":
                    name = rng.choice(["DEFAULT", "my.sock", "x"])
                    d = directory(f"uds{l}")
                    v = f"{d}/{name}"
                    a = {"directory": d, "socket_file_name": name}
                else:
                    h, p = rng.choice(["127.0.0.1", "127.0.0.1", "localhost"] if live else ["127.0.0.1", "0.0.0.0", "some.host.example", "Some.Host.Example", "10.0.0.7"]), free_port() if live else rng.randrange(1, 65536)
                    v, a = f"{h}:{p}", {"host": h, "port": p}
                self.env[f"ECOENV_{t}{self.tail[l]}"] = v
                if l == 2:
                    self.addr[t.lower()] = a
        mine = set(self.env)
        # other applications and instances
        own = {f"ECOENV_{s}{t}" for s in list(DIRS) + list(NUMS) + ["DEFAULT_DIR", "LOG_LEVEL", "TCP", "UDP", "UDS"] for t in self.tail} | {f"ECOENV_EXTRA{t}_{x}" for t in self.tail for x in self.names}
        for _ in range(rng.choice([0, 5, 40])):
            a, i = rng.choice(SCRIPTS)[1].upper(), rng.choice(INSTANCES).upper()
            t = rng.choice([f"_{a}", f"_{a}_{i}", f"_{a}_{i}_{i}", f"{a}", f"_{a}__{i}", f"_{a.lower()}_{i.lower()}"])
            s = rng.choice(list(DIRS) + list(NUMS) + ["DEFAULT_DIR", "LOG_LEVEL", "TCP", "UDP", "UDS", "EXTRA"])
            name = f"ECOENV_{s}{t}"
            if s == "EXTRA":
                name += "_" + rng.choice(self.names)
            if name in own or name in mine:
                continue
            self.env[name] = "77" if s in NUMS else "1.2.3.4:5" if s in ("TCP", "UDP") else directory("foreign") + ("/f.sock" if s == "UDS" else "") if s != "LOG_LEVEL" else "critical"
        # the configuration file
        if rng.random() < .5:
            f = {}
            for path in list(DIRS.values()) + [p for p, _ in NUMS.values()] + ["logging.level"]:
                if rng.random() < .35:
                    v = directory("file_" + path) if path in DIRS.values() else rng.choice(LEVELS) if path == "logging.level" else rng.randrange(1, 9999) if path.startswith("stats") else 4 if path.endswith(("files", "size")) else 4000000
                    put(f, path, v)
                    self.expect[path] = v
            for t in ("tcp", "udp", "uds"):
                if rng.random() < .35:
                    a = {"directory": directory("file_uds"), "socket_file_name": rng.choice(["DEFAULT", "file.sock"])} if t == "uds" else {"host": "127.0.0.1", "port": free_port() if live else rng.randrange(1, 65536)}
                    f[t] = self.addr[t] = a
            if rng.random() < .3 and not self.extra:
                f["extra"] = self.extra = {"KEY": "from file"}
            other = {"lock_directory": directory("foreign"), "stats_keeper": {"gather_period": 77, "history_length": 77}, "tcp": {"host": "9.9.9.9", "port": 9}, "logging": {"level": "critical", "file_logging": {"directory": directory("foreign"), "max_files": 77}}}
            self.file = {"instances": {self.inst: f, **{i: other for i in rng.sample([i for i in INSTANCES if i != self.inst], 2)}}}
            if rng.random() < .5:
                self.file["instances"] = dict(reversed(list(self.file["instances"].items())))
        if live and "uds" not in self.addr:
            d = directory("uds2")
            self.env[f"ECOENV_UDS{self.tail[2]}"] = f"{d}/DEFAULT"
            self.addr["uds"] = {"directory": d, "socket_file_name": "DEFAULT"}

    def c(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, kind, text):
        raise Violation(kind, f"{self.script} -i {self.inst}: {text}; environment {self.env}; configuration file {json.dumps(self.file)}", {"env": self.env, "file": self.file})

    def args(self):
        a = ["-i", self.inst] if self.rng.random() < .5 else ["--instance", self.inst]
        if self.file:
            p = f"{self.dir}/conf.json"
            json.dump(self.file, open(p, "w"))
            a += [self.rng.choice(["-c", "--config_file"]), p]
        return a

    def dump(self):
        """The configuration as application code sees it, in a process of its own."""
        args = self.args() + ["-lco"]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for k in [k for k in os.environ if k.startswith("ECOENV")]:
                    del os.environ[k]
                os.environ.update(self.env)
                sys.argv = [f"/some/where/{self.script}"] + args
                n = os.open("/dev/null", os.O_WRONLY)
                os.dup2(n, 1)
                from ekosis.configuration.config_models import AppConfiguration
                os.write(w, json.dumps(AppConfiguration().dict()).encode())
            except BaseException as e:
                os.write(w, json.dumps({"failed": f"{type(e).__name__} {e}"}).encode())
            finally:
                os._exit(0)
        os.close(w)
        b = b""
        while x := os.read(r, 1 << 16):
            b += x
        os.close(r)
        os.waitpid(pid, 0)
        return json.loads(b)

    def check_dump(self):
        got = self.dump()
        if "failed" in got:
            self.bad("failed", f"could not load the configuration: {got['failed']}")
        if (got["name"], got["instance"]) != (self.app, self.inst):
            self.bad("wrong-identity", f"{got['name']}, {got['instance']}")
        for path, v in self.expect.items():
            if at(got, path) != v:
                self.bad("wrong-value", f"{path} is {at(got, path)!r}, the most specific source says {v!r}")
            self.c("settings_compared")
        for t in ("tcp", "udp", "uds"):
            want = self.addr.get(t)
            g = got[t]
            if want and t == "uds" and want["socket_file_name"] == "DEFAULT":
                if g and g.get("socket_file_name") == f"{self.app}_{self.inst}.uds.sock":
                    g = {**g, "socket_file_name": "DEFAULT"}
            if g != want:
                self.bad("wrong-address", f"{t} is {g}, the most specific source says {want}")
            self.c("addresses_compared")
        for x in self.names:
            if (got["extra"] or {}).get(x) != self.extra.get(x):
                self.bad("wrong-extra", f"{x} is {(got['extra'] or {}).get(x)!r}, the most specific source says {self.extra.get(x)!r}")
            self.c("extra_values_compared")

    def check_live(self):
        """What a started application does with it."""
        sv = Service(self.rng, {"buffered": [{"route": "b.q", "dto": "item", "page_size": 2, "max_retries": 1, "mode": "gated"}]}, directory=self.dir)
        sv.app, sv.instance, sv.env = self.script[:-3] if self.script.endswith(".py") else self.script, self.inst, self.env
        sv.args = self.args()[2:] + ["-lfo"]
        u = self.addr["uds"]
        sv.uds = f"{u['directory']}/" + (f"{self.app}_{self.inst}.uds.sock" if u["socket_file_name"] == "DEFAULT" else u["socket_file_name"])
        try:
            sv.start()
            for i in range(7):
                sv.ok("b.q", {"uid": f"u{i}"})
            for t in ("tcp", "udp"):
                if t in self.addr:
                    a = ("127.0.0.1" if self.addr[t]["host"] == "0.0.0.0" else self.addr[t]["host"], self.addr[t]["port"])
                    end = time.monotonic() + 30         # it may come up later than the one used so far
                    while True:
                        try:
                            if t == "tcp":
                                c = Conn(a)
                                c.call("ctl.sync", {}, "00000000-0000-0000-0000-000000000001:0000000000000001")
                                c.close()
                            else:
                                s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
                                s.settimeout(10)
                                s.connect(a)
                                s.send(b"\x06\n")
                                s.recv(100)
                                s.close()
                            break
                        except OSError as e:
                            if time.monotonic() > end:
                                self.bad("not-listening", f"nobody listens on the configured {t} address {a}: {e}")
                            time.sleep(.02)
                    self.c("addresses_used")
            st = sv.ok("eco.statistics.get", {"type": "current"})["statistics"]
            if st["gather_period"] != self.expect["stats_keeper.gather_period"]:
                self.bad("wrong-value", f"the application gathers every {st['gather_period']} s, the most specific source says {self.expect['stats_keeper.gather_period']}")
            used = {}
            for d, name in self.dirs.items():
                for f in os.listdir(d):
                    used.setdefault(d, []).append(f)
            locks = self.expect["lock_directory"]
            logs, buffers = self.expect["logging.file_logging.directory"], self.expect["buffer_directory"]
            if f"{self.app}-{self.inst}.log" not in used.get(logs, []):
                self.bad("wrong-place", f"the log file is not in {logs}, files are in {used}")
            if not any(self.app in f and not f.endswith(".log") and not f.endswith(".sock") and "b.q" not in f for f in used.get(locks, [])):
                self.bad("wrong-place", f"the lock file is not in {locks}, files are in {used}")
            if not any("b.q" in f for f in used.get(buffers, [])):
                self.bad("wrong-place", f"the buffer files are not in {buffers}, files are in {used}")
            stray = set(used) - {locks, logs, buffers, u["directory"]}
            if stray:
                self.bad("wrong-place", f"files in {[(d, used[d]) for d in stray]}, none are expected there")
            self.c("started_applications")
            sv.stop(signal.SIGTERM)
        finally:
            sv.close()

    def run(self):
        try:
            if self.live:
                self.check_live()
            else:
                self.check_dump()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def main():
    ck = Check("C20", "exploration",
               "seeded environments and configuration files: each setting, server address and extra value given at a random subset of the levels (machine, application, instance, file) with different values, under application names and "
               "instance ids that are prefixes of each other, with settings of other applications and instances in between; the configuration is read back as application code sees it in a process started that way, and for some by starting "
               "the application and looking at where it listens and what it writes where; non-trivial: distinct environments and files",
               ["an empty variable is the same as none", "names do not collide when application, instance and extra name are joined with underscores", "an address is given completely or not at all", "extra values come from the environment or the file, not both"])
    preload()

    def worker(case):
        seed, i, n = case
        stats, keys, sample = {}, set(), None
        for j in range(n):
            rng = rng_for("c20", seed, i, j)
            live = n < 10
            w = World(rng, stats, live)
            w.run()
            keys.add(sig((sorted(w.env.items()), json.dumps(w.file), w.script, w.inst)))
            sample = sample or {"script": w.script, "instance": w.inst, "env": dict(list(w.env.items())[:15]), "file": w.file}
        return {"keys": keys, "n": n, "counters": stats, "sample": sample}
    run_parallel(ck, worker, [(ck.seed, i, 2 if i % 2 else 20) for i in range(ck.budget(400, 4000))])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
