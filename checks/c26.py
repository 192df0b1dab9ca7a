"""C26: error states against a counter model, through the application's API and the management endpoints."""
import asyncio, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import Check, Violation, run_parallel, rng_for, sig
from inproc import Sandbox, preload


def rnd_case(rng, s):
    return "".join(rng.choice([c.lower(), c.upper()]) for c in s)


async def history(rng, tag, E, stats):
    lst = E["List"]()
    base = [f"{tag}.{x}" for x in rng.sample(["a", "ab", "a.b", "disk full", "NET-1", "x_y", "0", "err", "ERR2", "a:b", "err ", " err", "a\t", ".a", ""], rng.randint(1, 5))]
    model, first, done = {}, {}, []

    def check(how, got):
        want = sorted((i, first[i], n) for i, n in model.items() if n > 0)
        stats["reports_compared"] = stats.get("reports_compared", 0) + 1
        mine = sorted((e["error_id"].lower(), e["description"], e["count"]) for e in got if e["error_id"].lower().startswith(tag + "."))
        if mine != want:
            raise Violation("wrong-report", f"{how} after {done}: {mine}, raised and not cleared: {want}")

    for step in range(rng.randint(1, 40)):
        i = rng.choice(base)
        name, low = rnd_case(rng, i), i.lower()
        op = rng.choices(["raise", "clear_some", "clear_all", "ep_clear", "ep_clear_all", "ep_get", "has"], [8, 2, 1, 2, 1, 3, 1])[0]
        n = rng.choice([0, 1, 1, 2, 3, 5, 10**6, -1, -3])
        done.append((op, name, n))
        stats[op] = stats.get(op, 0) + 1
        try:
            if op == "raise":
                d = rng.choice(["", "d", f"d{step}", "\u00e9\u4e16 \"x\"\n"])
                done[-1] = (op, name, d)
                lst.increment(name, d)
                model[low] = model.get(low, 0) + 1
                first.setdefault(low, d)
            elif op == "clear_some":
                lst.clear_some(name, n)
                model[low] = max(0, model.get(low, 0) - max(n, 0))
            elif op == "clear_all":
                lst.clear_all(name)
                model[low] = 0
            elif op == "ep_clear":
                r = await E["clear"](E["Dto"](error_id=name, count=n))
                model[low] = 0 if n == 0 else max(0, model.get(low, 0) - max(n, 0))
                check("answer to eco.error_states.clear", json.loads(r.model_dump_json())["errors"])
            elif op == "ep_clear_all":
                r = await E["clear"](E["Dto"](error_id=name, count=0))
                model[low] = 0
                check("answer to eco.error_states.clear", json.loads(r.model_dump_json())["errors"])
            elif op == "ep_get":
                r = await E["get"](E["Empty"]())
                check("eco.error_states.get", json.loads(r.model_dump_json())["errors"])
            else:
                if model.get(low, 0) > 0 and not lst.has_error_id(name):
                    raise Violation("wrong-report", f"has_error_id({name!r}) after {done} is false")
            check("to_json", json.loads(lst.to_json()))
            check("get_error_states", [x.to_dict() for x in lst.get_error_states()])
            for x in lst.get_error_states():
                if x.get_id().lower() in model and (x.get_error_count() != model[x.get_id().lower()] or x.get_description() != first[x.get_id().lower()] or not x.is_set()):
                    raise Violation("wrong-report", f"{x} after {done}, expected count {model[x.get_id().lower()]}")
        except Violation:
            raise
        except Exception as e:
            raise Violation("operation-raised", f"after {done}: {type(e).__name__}: {e}")
    return done


def worker(case):
    seed, n = case
    sb = Sandbox()
    try:
        from ekosis.state_keepers.error_state_list import ErrorStateList
        from ekosis.standard_endpoints.errors import eco_error_states_clear, eco_error_states_get
        from ekosis.data_transfer_objects import ErrorCleanerRequestDto, EmptyDto
        E = {"List": ErrorStateList, "clear": eco_error_states_clear, "get": eco_error_states_get, "Dto": ErrorCleanerRequestDto, "Empty": EmptyDto}
        rng, stats, keys = rng_for("c26", seed), {}, set()
        for i in range(n):
            done = asyncio.run(history(rng, f"t{i}", E, stats))
            if len(done) > 2:
                keys.add(sig([(a, b.lower(), c) for a, b, c in done]))
            for s in list(ErrorStateList().get_error_states()):
                ErrorStateList().clear_all(s.get_id())
        return {"keys": keys, "n": n, "counters": stats, "sample": repr(done[:10])}
    finally:
        sb.close()


def main():
    ck = Check("C26", "exploration", "seeded histories of raising and clearing (by the application and through the two endpoints' handlers, mixed letter case, counts from "
               "-3 to 10^6) over 1-5 similar identifiers; after every step all ways of reading the error states are compared with a counter per identifier; "
               "non-trivial: distinct history of more than two steps", ["identifiers are ASCII"])
    preload()
    run_parallel(ck, worker, [((ck.seed, i), ck.budget(900, 3000)) for i in range(8)])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
