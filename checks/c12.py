"""C12: a client only ever returns the response to its own request."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import Check, run_parallel
from inproc import preload
from clientworld import client_worker

if __name__ == "__main__":
    ck = Check("C12", "exploration",
               "seeded plans for all five clients in an event loop with virtual time and real sockets: one to five concurrent callers (directly, through @sender and sender classes, some giving up early) "
               "on one client, a server that answers each request promptly, slowly, just before or long after the timeout, in fragments, with every status, not at all, with garbage, partially, or by "
               "closing or resetting the connection, that treats heartbeats the same way, and goes down and comes back; an offline checker compares the calls' results with what the server received and sent; "
               "non-trivial: distinct sequences of requests, treatments and results",
               ["the server sends at most one response per request and UDP does not duplicate or delay datagrams beyond the server's own delay",
                "a violation that depends on timing is only reported when the same plan shows it three times"])
    preload()
    run_parallel(ck, client_worker("C12", 100), [(ck.seed, i) for i in range(ck.budget(65, 1500))])
    sys.exit(ck.finish())
