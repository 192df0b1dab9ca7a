"""C15: middleware order, coverage and metadata."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from bufchecks import run

ASSUME = ["handlers do not swallow cancellation or mutate the DTO they are given", "the operating system delivers signals and keeps written files", "at most one application per instance"]

if __name__ == "__main__":
    sys.exit(run(
        "C15", ASSUME,
        stepwise=(300, 5000, {"send": 6, "burst": 2, "dup": 1, "invalid": 1, "permit": 10, "pause": 1, "manage": 3, "restart": .7}, (15, 50), 3),
        free=(100, 2000, ["signal"], (10, 60), (0, 2))
    ))
