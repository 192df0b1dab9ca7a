"""C04: a paginated queue against one ordered list, over operations, page sizes and re-openings."""
import asyncio, json, os, sys, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import Check, Violation, run_parallel, rng_for, sig
from inproc import Sandbox, preload

TEXTS = ["", "x", "\u00e9\u4e16\U0001f600", 'quote " and \\ back', "new\nline\r\n\ttab", "nul\u0000byte", "'; drop table queued_objects; --", "null", "0", "{}", "a" * 3000, "\u2028\u2029"]


def rnd_json(rng, depth=0):
    k = rng.randrange(9 if depth < 3 else 6)
    if k == 0:
        return rng.choice([None, True, False])
    if k in (1, 2):
        return rng.choice([0, -1, 1, 2**31, -2**63, 2**53 + 1, rng.randrange(10**6)])
    if k == 3:
        return rng.choice([0.0, 1.5, -2.25, 1e-9, 1e300])
    if k in (4, 5):
        return rng.choice(TEXTS)
    if k in (6, 7):
        return {rng.choice(TEXTS[:8]) + str(i): rnd_json(rng, depth + 1) for i in range(rng.randrange(4))}
    return [rnd_json(rng, depth + 1) for _ in range(rng.randrange(4))]


class World:
    def __init__(self, rng, E, path, stats, tag):
        self.rng, self.E, self.path, self.stats, self.tag = rng, E, path, stats, tag
        self.page = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 25, 100])
        self.model, self.done, self.pool = [], [], []
        self.n = 0
        self.q = self.open()

    def open(self):
        self.done.append(("open", self.page))
        return self.E["Queue"](self.path, self.E["Item"], self.page)

    def fail(self, kind, text):
        raise Violation(kind, f"page size {self.page}, {self.tag}: {text}; model size {len(self.model)}; last operations {self.done[-25:]}")

    def find(self, k):
        for i, (a, _) in enumerate(self.model):
            if a == k:
                return i
        return None

    def same(self, what, got, want):
        self.stats["results_compared"] = self.stats.get("results_compared", 0) + 1
        if want is None:
            if got is not None:
                self.fail("wrong-entry", f"{what} gave {got!r}, expected nothing")
            return
        if not isinstance(got, self.E["Item"]) or json.dumps(got.model_dump(), sort_keys=True) != json.dumps(want, sort_keys=True):
            self.fail("wrong-entry", f"{what} gave {str(got)[:300]!r}, expected {str(want)[:300]!r}")

    async def listing(self, n):
        got = await self.q.get_first_x_span_keys(n)
        want = [str(k) for k, _ in self.model[:n]]
        if [str(x) for x in got] != want:
            self.fail("wrong-listing", f"first {n} span keys {got}, expected {want}")

    def sizes(self):
        s, e = self.q.size(), self.q.is_empty()
        if s != len(self.model) or bool(e) != (not self.model):
            self.fail("wrong-size", f"size {s}, is_empty {e}, expected {len(self.model)}")

    def key(self, op):
        rng, K = self.rng, self.E["SpanKey"]
        r = rng.random()
        if op == "push":
            if r < .12 and self.model:
                return rng.choice(self.model)[0]           # duplicate of a present one
            if r < .2 and self.pool:
                return rng.choice(self.pool)               # maybe one that left earlier
            if r < .3 and self.model:                      # same trace id, or same span id
                o = rng.choice(self.model)[0].bytes
                return K.from_bytes(o[:16] + rng.randbytes(8)) if rng.random() < .5 else K.from_bytes(rng.randbytes(16) + o[16:])
            return K.from_bytes(rng.randbytes(24))
        if r < .25 and self.model:
            return self.model[rng.choice([0, -1, len(self.model) // 2])][0]
        if r < .75 and self.model:
            return rng.choice(self.model)[0]
        if r < .9 and self.pool:
            return rng.choice(self.pool)
        return K.from_bytes(rng.randbytes(24))

    async def step(self, op):
        rng = self.rng
        self.stats[op] = self.stats.get(op, 0) + 1
        if op == "push":
            k = self.key(op)
            self.n += 1
            data = {"n": self.n, "data": rnd_json(rng)}
            self.done.append((op, str(k)))
            r = await self.q.push(self.E["Item"](**data), self.E["SpanKey"].from_bytes(k.bytes))
            if self.find(k) is None:
                self.model.append((k, data))
            else:
                self.stats["push_of_present"] = self.stats.get("push_of_present", 0) + 1
            if r is not None and r != k:
                self.fail("wrong-result", f"push returned {r!r}")
            self.pool = (self.pool + [k])[-30:]
        elif op == "pop":
            self.done.append((op,))
            got = await self.q.pop()
            self.same("pop", got, self.model.pop(0)[1] if self.model else None)
        elif op in ("inspect", "pop_key"):
            k = self.key(op)
            i = self.find(k)
            self.done.append((op, str(k), i))
            f = self.q.inspect_span_key if op == "inspect" else self.q.pop_span_key
            got = await f(self.E["SpanKey"].from_bytes(k.bytes))
            self.same(op, got, None if i is None else self.model[i][1])
            if op == "pop_key" and i is not None:
                self.model.pop(i)
        elif op == "list":
            n = rng.choice([0, 1, 2, 3, 10, 10, self.page, self.page + 1, 2 * self.page + 1, len(self.model), len(self.model) + 3])
            self.done.append((op, n))
            await self.listing(n)
        elif op == "size":
            self.done.append((op,))
            self.sizes()
        elif op == "clear":
            self.done.append((op,))
            await self.q.clear()
            self.model = []
        elif op == "reopen":
            self.q.shut_down()
            if rng.random() < .3:
                self.page = rng.choice([1, 2, 3, 5, 10, 100])
            self.q = self.open()

    async def run(self, length):
        rng = self.rng
        names = ["push", "pop", "inspect", "pop_key", "list", "size", "clear", "reopen"]
        phase = None
        for j in range(length):
            if j % 15 == 0:
                phase = rng.choice([[20, 1, 1, 1, 1, 1, .1, .5], [2, 12, 1, 1, 1, 1, 0, .5], [5, 5, 2, 2, 2, 1, .3, 1], [6, 2, 2, 6, 2, 1, 0, 2], [3, 3, 1, 1, 1, 1, .1, 6], [30, 0, 0, 0, 0, 0, 0, .2], [0, 30, 0, 0, 0, 0, 0, .2]])
            op = rng.choices(names, phase)[0]
            for _ in range(self.page if op in ("push", "pop") and rng.random() < .15 else 1):
                await self.step(op)
            if rng.random() < .4:
                self.sizes()
            if rng.random() < .3:
                await self.listing(len(self.model) + 2)
        if rng.random() < .5:
            await self.step("reopen")
        self.sizes()
        await self.listing(len(self.model) + 2)
        while self.model:
            await self.step("pop")
        await self.step("pop")
        self.sizes()
        self.q.shut_down()


async def two(rng, E, d, stats, length):
    """Two queues side by side: what happens to one must not show in the other."""
    ws = [World(rng, E, f"{d}/a.sqlite", stats, "first of two queues"), World(rng, E, f"{d}/b.sqlite", stats, "second of two queues")]
    for w in ws:
        for _ in range(5):
            await w.step("push")
    for j in range(length):
        w = rng.choice(ws)
        await w.step(rng.choices(["push", "pop", "inspect", "pop_key", "list", "size", "clear", "reopen"], [9, 5, 2, 2, 2, 1, .3, 1])[0])
        for x in ws:
            x.sizes()
    for w in ws:
        await w.listing(len(w.model) + 1)
        w.q.shut_down()
    return ws[0]


def worker(case):
    seed, n = case
    sb = Sandbox()
    try:
        from typing import Any
        from pydantic import BaseModel
        from ekosis.queues.paginated_queue import PaginatedQueue
        from ekosis.data_transfer_objects import SpanKey

        class Item(BaseModel):
            n: int
            data: Any

        E = {"Queue": PaginatedQueue, "Item": Item, "SpanKey": SpanKey}
        stats, keys = {}, set()
        for i in range(n):
            rng = rng_for("c04", seed, i)
            d = f"{sb.dir}/q{i}"
            os.mkdir(d)
            w = None
            try:
                if rng.random() < .15:
                    w = asyncio.run(two(rng, E, d, stats, rng.randint(10, 40)))
                else:
                    w = World(rng, E, f"{d}/q.sqlite", stats, "one queue")
                    asyncio.run(w.run(rng.choice([10, 30, 60, 120])))
            except Violation:
                raise
            except Exception as e:
                import traceback
                raise Violation("operation-raised", f"{type(e).__name__}: {e}; {traceback.format_exc()[-600:]} last operations {w.done[-25:] if w else None}")
            shutil.rmtree(d, ignore_errors=True)
            keys.add(sig(w.done))
        return {"keys": keys, "n": n, "counters": stats, "sample": {"page_size": w.page, "operations": repr(w.done[:12])}}
    finally:
        sb.close()


def main():
    ck = Check("C04", "exploration", "seeded operation histories (push incl. duplicates, pop, inspect/pop/list by span key, size, clear, close and re-open, also with another "
               "page size) on real queue files with page sizes 0-100, one queue or two side by side; every result, size and listing is compared with one ordered "
               "list; non-trivial: distinct operation history", ["JSON content without NaN and lone surrogates"])
    preload()
    run_parallel(ck, worker, [((ck.seed, i), ck.budget(44, 500)) for i in range(16)])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
