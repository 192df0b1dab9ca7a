"""C19: records at the collector of the real log shipper, field by field, and the sanitizers it runs under."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import Check, Inconclusive, run_parallel, scratch
import shipper


def main():
    ck = Check("C19", "exploration", "generated records (any Unicode text, control characters, all severities, times with and without fractions, integer, truth value and text attributes, lines around and far beyond the read size) "
               "through the real shipper, each delivered record compared field by field with its line; built with AddressSanitizer and UndefinedBehaviorSanitizer, a leak check and a count of open descriptors at the end of each run",
               ["attribute values are texts, truth values and 64-bit integers, which is what the logging side writes"])
    d = scratch("vb_")
    try:
        try:
            binary = shipper.build(d)
        except Inconclusive as e:
            ck.inconclusive.append(str(e))
            return ck.finish()
        n, steps, silent = ck.budget((90, (10, 50), 0), (600, (10, 150), 8))
        w = shipper.shipper_worker("C19", steps, {"write": 10, "wait": 8, "rotate": 2, "mode": 1, "down": .2, "release": 1, "new": 1.5, "kill": .4}, True)
        run_parallel(ck, w, [(ck.seed, -1 - i, binary, "silent") for i in range(silent)] + [(ck.seed, i, binary, "") for i in range(n)], case_timeout=400)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
