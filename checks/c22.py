"""C22: the LRU cache against an ordered-list model, after every operation."""
import itertools, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import Check, Violation, run_parallel, rng_for, sig
from inproc import Sandbox, preload

MISSING = object()


class Model:
    def __init__(self, n):
        self.n, self.d = n, []          # most recent first: [key, value]

    def find(self, k):
        for i, (a, _) in enumerate(self.d):
            if a == k and hash(a) == hash(k):
                return i
        return None

    def touch(self, i):
        self.d.insert(0, self.d.pop(i))

    def apply(self, op, k, v):
        i = self.find(k)
        if op == "set":
            if i is None:
                self.d.insert(0, [k, v])
                del self.d[self.n:]
            else:
                self.d[i][1] = v
                self.touch(i)
            return None
        if op == "get":
            if i is None:
                return v
            self.touch(i)
            return self.d[0][1]
        if op == "getitem":
            if i is None:
                return KeyError
            self.touch(i)
            return self.d[0][1]
        if op == "peek":
            return v if i is None else self.d[i][1]
        if op == "in":
            return i is not None
        if op == "del":
            if i is not None:
                self.d.pop(i)
            return None
        if op == "pop_item":
            return v if i is None else self.d.pop(i)[1]
        if op == "pop":
            return tuple(self.d.pop(0)) if self.d else None
        if op == "clear":
            self.d = []
            return None


OPS = ["set", "get", "getitem", "peek", "in", "del", "pop_item", "pop", "clear"]


def real(c, op, k, v):
    if op == "set":
        c[k] = v
        return None
    if op == "get":
        return c.get(k, v)
    if op == "getitem":
        try:
            return c[k]
        except KeyError:
            return KeyError
    if op == "peek":
        return c.peek(k, v)
    if op == "in":
        return k in c
    if op == "del":
        try:
            del c[k]
        except KeyError:
            pass
        return None
    if op == "pop_item":
        return c.pop_item(k, v)
    if op == "pop":
        return c.pop()
    if op == "clear":
        return c.clear() and None


def run_sequence(LRUCache, size, seq, stats):
    c, m, done = LRUCache(size), Model(size), []
    for op, k, v in seq:
        done.append((op, k, v))
        try:
            got = real(c, op, k, v)
        except Exception as e:
            raise Violation("operation-raised", f"max_size={size} history={done}: {type(e).__name__}: {e}")
        want = m.apply(op, k, v)
        stats["operations"] = stats.get("operations", 0) + 1
        if not (got is want or got == want):
            raise Violation("wrong-result", f"max_size={size} history={done}: got {got!r}, the most recently used entries say {want!r}")
        try:
            state = (len(c), list(c), list(c.keys()), list(c.values()), list(c.items()))
        except Exception as e:
            raise Violation("operation-raised", f"max_size={size} history={done}, then reading it: {type(e).__name__}: {e}")
        ks = [x for x, _ in m.d]
        model = (len(m.d), ks, ks, [x for _, x in m.d], [tuple(x) for x in m.d])
        if state != model:
            raise Violation("wrong-content", f"max_size={size} history={done}: cache {state}, expected {model}")
        stats["states_compared"] = stats.get("states_compared", 0) + 1
    return tuple(map(tuple, m.d))


def worker(case):
    kind, arg, seed, n = case
    sb = Sandbox()
    try:
        from ekosis.cacheing import LRUCache
        stats, keys = {}, set()
        if kind == "exhaustive":
            size, length, first = arg
            alphabet = [(op, k, f"v{i}{k}") for i, op in enumerate(OPS) for k in ("a", "b", "c") if op not in ("pop", "clear") or k == "a"]
            for rest in itertools.product(alphabet, repeat=length - 1):
                run_sequence(LRUCache, size, (alphabet[first],) + rest, stats)
                stats["histories"] = stats.get("histories", 0) + 1
                keys.add(sig((size, first, rest)))
            return {"keys": keys, "n": len(keys), "counters": stats, "sample": f"all histories of {length} operations starting with {alphabet[first]}, max_size {size}"}
        rng = rng_for("c22", seed)
        sample = None
        for i in range(n):
            size = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 16, 64])
            pool = rng.choice([["a", "b", "c"], [1, 2, "1", None, (), 0, ""], list(range(size + 2)), list(range(size * 2 + 1)), [None, 0, ""]])
            w = [rng.choice([0, 1, 3]) for _ in OPS]
            w[0] = rng.choice([3, 6, 9])
            length = rng.randint(1, 20 + size * 5)
            seq = []
            for j in range(length):
                op = rng.choices(OPS, w)[0]
                seq.append((op, rng.choice(pool), rng.choice([None, 0, "", j, f"x{j}", [j]])))
            run_sequence(LRUCache, size, seq, stats)
            if len(seq) > 3:
                keys.add(sig((size, seq)))
            stats["histories"] = stats.get("histories", 0) + 1
            sample = {"max_size": size, "history": repr(seq[:12])}
        return {"keys": keys, "n": n, "counters": stats, "sample": sample}
    finally:
        sb.close()


def main():
    ck = Check("C22", "exploration",
               "random operation histories over small key pools (seeded) plus every history of a bounded length over 3 keys; after each operation the "
               "result and the full content and order are compared with an ordered-list model; non-trivial: a history of its own, random ones of more than 3 operations",
               ["max_size >= 1"])
    preload()
    n = ck.budget(1200, 6000)
    cases = [("random", None, (ck.seed, i), n) for i in range(16)]
    for size in (1, 2):
        for first in range(23):
            cases.append(("exhaustive", (size, ck.budget(3, 4), first), 0, 0))
    run_parallel(ck, worker, cases)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
