"""C09: buffered senders."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from bufchecks import run

ASSUME = ["the target does not answer a request it did not get", "the operating system delivers signals and keeps written files", "at most one application per instance"]

if __name__ == "__main__":
    sys.exit(run(
        "C09", ASSUME,
        sender=(380, 8000, {"enqueue": 6, "burst": 1, "answer": 12, "pause": .7, "waiting": 1.5, "manage": 1.5, "restart": .6}, (15, 60))
    ))
