"""C24: what reaches the Pushgateway against what the services answered."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import Check, run_parallel
from inproc import preload
from promworld import prom_worker


def main():
    ck = Check("C24", "exploration", "runs of the real metrics application (event loop clock sped up) with generated environments, services on TCP, UDP and UDS that answer generated statistics trees, fail in several ways or are not there, "
               "changing between scrapes, and a Pushgateway that sometimes fails; every push is parsed and compared with exactly the samples the answers stand for",
               ["custom statistics have names of letters, digits, '_' and '-' that stay distinct when '-' and '.' become '_'", "all addresses of one service answer alike"])
    preload()
    import prometheus_client, prometheus_client.parser  # noqa: F401
    n, pushes = ck.budget((52, 14), (600, 60))
    run_parallel(ck, prom_worker(pushes), [(ck.seed, i) for i in range(n)], case_timeout=400)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
