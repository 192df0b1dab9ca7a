"""C18: what the collector of the real log shipper accepts, against what was written to the log files."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import Check, Inconclusive, run_parallel, scratch
import shipper


def main():
    ck = Check("C18", "exploration", "runs of the real shipper (sanitized build of the working tree) over files that are written in pieces, rotated and created, with a collector that refuses, fails, breaks off, holds and accepts, "
               "and with kills and restarts; every batch the collector received is compared with what was written",
               ["at most one rotation of a file between two looks of the shipper at it, none while it is down or its lines are not delivered yet when it is killed", "an answer whose end does not arrive counts as not accepted"])
    d = scratch("vb_")
    try:
        try:
            binary = shipper.build(d)
        except Inconclusive as e:
            ck.inconclusive.append(str(e))
            return ck.finish()
        n, steps, silent = ck.budget((80, (10, 60), 2), (800, (10, 150), 24))
        w = shipper.shipper_worker("C18", steps, {"write": 10, "wait": 8, "rotate": 4, "outage": .5, "mode": 2.5, "down": .5, "release": 2, "new": 1, "kill": 1.2}, False)
        run_parallel(ck, w, [(ck.seed, 10000 + i, binary, "bulk") for i in range(ck.budget(8, 60))] + [(ck.seed, -1 - i, binary, "silent") for i in range(silent)] + [(ck.seed, i, binary, "") for i in range(n)], case_timeout=400)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
