"""Reading an application's log files."""
import glob, json, os, re
from common import Violation


def files(directory, app, instance):
    """Oldest first."""
    base = f"{directory}/{app}-{instance}.log"
    old = []
    for f in glob.glob(base + ".*"):
        m = re.fullmatch(re.escape(base) + r"\.(\d+)", f)
        if m:
            old.append((int(m.group(1)), f))
    return [f for _, f in sorted(old, reverse=True)] + ([base] if os.path.exists(base) else [])


def lines(paths):
    """All lines, split at line feeds only."""
    out = []
    for p in paths:
        b = open(p, "rb").read()
        if b and not b.endswith(b"\n"):
            raise Violation("damaged-line", f"{os.path.basename(p)} ends in {b[-200:]!r}")
        out += b.split(b"\n")[:-1] if b else []
    return out


def parse(l):
    try:
        r = json.loads(l.decode("utf-8"))
        assert isinstance(r, dict) and isinstance(r["body"], str)
        return r
    except (ValueError, KeyError, AssertionError):
        raise Violation("damaged-line", f"not a log record: {l[:400]!r}")
