"""C07: pause and unpause."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from bufchecks import run

ASSUME = ["handlers do not swallow cancellation or mutate the DTO they are given", "the operating system delivers signals and keeps written files", "at most one application per instance"]

if __name__ == "__main__":
    sys.exit(run(
        "C07", ASSUME,
        stepwise=(340, 5000, {"send": 6, "burst": 2, "permit": 8, "pause": 6, "manage": 3, "restart": .4}, (20, 60), 3),
        sender=(170, 2500, {"enqueue": 6, "burst": 1, "answer": 9, "pause": 6, "waiting": 2, "manage": 2, "restart": .4}, (15, 45))
    ))
