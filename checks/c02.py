"""C02: orderly shutdown keeps every accepted message."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from bufchecks import run

ASSUME = ["handlers do not swallow cancellation or mutate the DTO they are given", "the operating system delivers signals and keeps written files", "at most one application per instance"]

if __name__ == "__main__":
    sys.exit(run(
        "C02", ASSUME,
        stepwise=(80, 2000, {"send": 6, "burst": 2, "dup": .5, "permit": 8, "pause": 1, "manage": 1, "restart": 3}, (15, 40)),
        free=(180, 4000, ["signal", "inject"]),
        sender=(60, 1500, {"enqueue": 6, "burst": 2, "answer": 9, "pause": 1, "waiting": 1, "manage": 1, "restart": 3}, (10, 35))
    ))
