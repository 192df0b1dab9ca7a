"""C08: management of the error queue."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from bufchecks import run

ASSUME = ["handlers do not swallow cancellation or mutate the DTO they are given", "the operating system delivers signals and keeps written files", "at most one application per instance"]

if __name__ == "__main__":
    sys.exit(run(
        "C08", ASSUME,
        stepwise=(230, 5000, {"send": 6, "burst": 3, "permit": 14, "pause": 1, "manage": 9, "restart": .6, "bulk": .05}, (25, 80), .7),
        sender=(110, 2500, {"enqueue": 6, "burst": 1, "answer": 9, "pause": 1, "manage": 9, "restart": .5}, (20, 60))
    ))
