"""Runs a command line tool of the package in a forked child (or a fresh interpreter) and returns (exit status, output, error output)."""
import os, signal, subprocess, sys, time
from common import Inconclusive, VERIF

WATCHDOG = 60


def run(tool, args, directory, fresh=False):
    env = {f"ECOENV_{k}": directory for k in ("LOG_DIR", "BUFFER_DIR", "LOCK_DIR", "DEFAULT_DIR")}
    out, err = f"{directory}/cli.out", f"{directory}/cli.err"
    if fresh:
        e = {k: v for k, v in os.environ.items() if not k.startswith("ECOENV")}
        e.update(env, PYTHONIOENCODING="utf-8", PYTHONDONTWRITEBYTECODE="1")
        with open(out, "wb") as o, open(err, "wb") as r:
            try:
                code = subprocess.run([sys.executable, "-m", f"ekosis.cli.{tool}", *args], stdin=subprocess.DEVNULL, stdout=o, stderr=r, cwd=directory, env=e, timeout=WATCHDOG).returncode
            except subprocess.TimeoutExpired:
                raise Inconclusive(f"{tool} {args} did not end")
    else:
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            _child(tool, args, directory, env, out, err)
        end = time.monotonic() + WATCHDOG
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.monotonic() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise Inconclusive(f"{tool} {args} did not end")
            time.sleep(0.002)
        code = os.waitstatus_to_exitcode(st)
    return code, open(out, encoding="utf-8", errors="replace").read(), open(err, encoding="utf-8", errors="replace").read()


def _child(tool, args, directory, env, out, err):
    code = 70
    try:
        import atexit
        atexit._clear()
        for path, fd in ((out, 1), (err, 2)):
            f = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(f, fd)
        n = os.open("/dev/null", os.O_RDONLY)
        os.dup2(n, 0)
        os.closerange(3, 256)
        sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
        sys.stderr = open(2, "w", encoding="utf-8", closefd=False)
        for k in [k for k in os.environ if k.startswith("ECOENV")]:
            del os.environ[k]
        os.environ.update(env)
        sys.path[:] = [p for p in sys.path if not p.startswith(VERIF)]
        os.chdir(directory)
        code = 0
        try:
            import runpy
            sys.argv = ["-m", *args]
            runpy.run_module(f"ekosis.cli.{tool}", run_name="__main__", alter_sys=True)
        except SystemExit as e:
            if isinstance(e.code, str):
                print(e.code, file=sys.stderr)
            code = e.code if isinstance(e.code, int) else 1 if e.code else 0
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 1
        try:
            import threading
            threading._shutdown()
            atexit._run_exitfuncs()
        except BaseException:
            pass
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code)
