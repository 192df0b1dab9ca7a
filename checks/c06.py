"""C06: retries, then the error queue."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from bufchecks import run

ASSUME = ["handlers do not swallow cancellation or mutate the DTO they are given", "the operating system delivers signals and keeps written files", "at most one application per instance"]

if __name__ == "__main__":
    sys.exit(run(
        "C06", ASSUME,
        stepwise=(250, 4000, {"send": 6, "burst": 2, "permit": 14, "pause": .5, "manage": 2, "restart": .8}, (20, 60), 1.5),
        free=(100, 2000, ["signal", "inject"], (5, 60), (0, 2))
    ))
