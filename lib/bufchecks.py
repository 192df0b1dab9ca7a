"""Runs the stepwise world and the free-running world for one property."""
import time
from common import Check, run_parallel
from inproc import preload
from world import world_worker
from freerun import free_worker
from senderworld import sender_worker

STEPWISE = ("stepwise: seeded histories of client requests (single, bursts, duplicates, invalid), handler outcomes given one at a time, pauses, operator actions on the "
            "error queue and orderly restarts against a live application (1-3 buffered endpoints, random page sizes, retry limits, DTOs, middleware); every event and every answer "
            "is compared online with an exact model of the queues")
FREE = ("free-running: concurrent clients on UDS/TCP/UDP with random windows and write sizes, handlers that take time and fail by plan, the application {how} and started again up to "
        "three times; afterwards an offline checker goes over the recorded history of requests, answers, handler invocations and final queue contents")
SENDER = ("sender: seeded histories of messages handed to the buffered senders of a live application (all five clients, random page sizes and limits) whose clock only the driver moves, "
          "against a target the driver plays (success, busy, every status, garbage, silence until the timeout, reset, close, partial response, refused connections), with pauses, operator "
          "actions and restarts; every request that arrives and every answer is compared online with an exact model")
NT = "non-trivial: distinct sequence of actions (stepwise) or of handler events (free-running) with more than a few of them"


def run(prop, assumptions, stepwise=None, free=None, how="stopped by signals at random or injected points", sender=None):
    """stepwise: (cases quick, cases thorough, worker args); free: likewise."""
    parts = ([STEPWISE] if stepwise else []) + ([FREE.format(how=how)] if free else []) + ([SENDER] if sender else []) + [NT]
    ck = Check(prop, "exploration", "; ".join(parts), assumptions)
    preload()
    workers, cases = {}, []
    if stepwise:
        workers["w"] = world_worker(prop, *stepwise[2:])
        cases += [("w", ck.seed, i) for i in range(ck.budget(*stepwise[:2]))]
    if free:
        workers["f"] = free_worker(prop, *free[2:])
        cases += [("f", ck.seed, i) for i in range(ck.budget(*free[:2]))]
    if sender:
        workers["s"] = sender_worker(prop, *sender[2:])
        cases += [("s", ck.seed, i) for i in range(ck.budget(*sender[:2]))]
    cases = [c for _, c in sorted(enumerate(cases), key=lambda x: (x[1][2], x[0]))]

    def worker(case):
        return workers[case[0]](case[1:])
    run_parallel(ck, worker, cases)
    ended = ck.counters.get("runs_ended_by_another_property", 0)
    if ended > len(cases) // 2 and not ck.violations:
        ck.notes.append("most runs were cut short by a violation of another property")
    return ck.finish()
