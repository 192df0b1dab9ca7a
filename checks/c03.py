"""C03: loss bound after SIGKILL."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from bufchecks import run

ASSUME = ["handlers do not swallow cancellation or mutate the DTO they are given", "the operating system delivers signals and keeps written files", "at most one application per instance"]

if __name__ == "__main__":
    sys.exit(run(
        "C03", ASSUME + ["SIGKILL of the process, not a power failure: what was handed to the operating system stays"],
        stepwise=(90, 2500, {"send": 6, "burst": 3, "permit": 8, "pause": 1.5, "manage": 6, "restart": .2, "kill": 1}, (25, 70), .5),
        free=(270, 6000, ["kill", "inject_kill"]), how="killed with SIGKILL at random points or at chosen database statements, commits and events"
    ))
