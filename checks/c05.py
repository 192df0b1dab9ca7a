"""C05: one at a time, in order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from bufchecks import run

ASSUME = ["handlers do not swallow cancellation or mutate the DTO they are given", "the operating system delivers signals and keeps written files", "at most one application per instance"]

if __name__ == "__main__":
    sys.exit(run(
        "C05", ASSUME,
        stepwise=(220, 4000, {"send": 6, "burst": 3, "dup": .5, "permit": 10, "pause": 1, "manage": 1.5, "restart": .8}, (20, 60), 4),
        free=(120, 2500, ["signal"], (5, 80), (0, 2))
    ))
