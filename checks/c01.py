"""C01: conservation of acknowledged buffered requests."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from bufchecks import run

ASSUME = ["handlers do not swallow cancellation or mutate the DTO they are given", "the operating system delivers signals and keeps written files", "at most one application per instance"]

if __name__ == "__main__":
    sys.exit(run(
        "C01", ASSUME,
        stepwise=(240, 4000, {"send": 6, "burst": 2, "dup": 2, "invalid": .7, "permit": 10, "pause": 1, "manage": 2.5, "restart": .5}, (20, 60)),
        free=(130, 2500, ["signal"], (5, 80), (0, 1)), how="stopped at most once"
    ))
