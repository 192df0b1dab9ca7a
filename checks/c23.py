"""C23: span keys through every representation, against plain 24-byte strings."""
import json, os, sys, uuid
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import Check, Violation, run_parallel, rng_for, sig
from inproc import Sandbox, preload


def raw_values(rng, n):
    special = [bytes(24), b"\xff" * 24, bytes(23) + b"\x01", b"\x01" + bytes(23), bytes(16) + b"\xff" * 8, b"\xff" * 16 + bytes(8),
               bytes(range(24)), bytes(8) + b"\x0a" * 8 + bytes(8), b"0123456789abcdef01234567", b":" * 24, bytes(15) + b"\x80" + b"\x80" + bytes(7)]
    for s in special:
        yield s
    for _ in range(n):
        k = rng.randrange(4)
        if k == 0:
            yield rng.randbytes(24)
        elif k == 1:
            yield bytes(rng.choice([0, 0, 0, 1, 0xff, 0x0a, 0x30]) for _ in range(24))
        elif k == 2:
            b = bytearray(bytes(24)); b[rng.randrange(24)] = rng.randrange(256); yield bytes(b)
        else:
            yield bytes(16) + rng.randbytes(8) if rng.random() < .5 else rng.randbytes(16) + bytes(8)


def hexes(raw):
    t, s = raw[:16].hex(), raw[16:].hex()
    return f"{t[:8]}-{t[8:12]}-{t[12:16]}-{t[16:20]}-{t[20:]}", s


class Probe:
    """One way to make a span key out of something that may or may not be one."""
    def __init__(self, SpanKey, SpanId, RequestDTO, ResponseDTO):
        self.K, self.I, self.Req, self.Res = SpanKey, SpanId, RequestDTO, ResponseDTO

    def good(self, raw, stats):
        t, s = hexes(raw)
        K, I = self.K, self.I
        ref = K(trace_id=uuid.UUID(bytes=raw[:16]), span_id=I(bytes_=raw[16:]))
        made = {
            "from_bytes": lambda: K.from_bytes(raw),
            "from_bytes(.bytes)": lambda: K.from_bytes(ref.bytes),
            "from_bytes(.key())": lambda: K.from_bytes(ref.key()),
            "from_hex(str)": lambda: K.from_hex(str(ref)),
            "from_hex(upper)": lambda: K.from_hex(str(ref).upper()),
            "from_hex(no dashes)": lambda: K.from_hex(raw[:16].hex() + ":" + raw[16:].hex()),
            "json": lambda: K.model_validate_json(ref.model_dump_json()),
            "json dict": lambda: K(**json.loads(ref.model_dump_json())),
            "dump": lambda: K(**ref.model_dump()),
            "dump json mode": lambda: K.model_validate(ref.model_dump(mode="json")),
            "request": lambda: self.Req.model_validate_json(self.Req(route_key="x", span_key=ref, data={}).model_dump_json()).span_key,
            "request dict": lambda: self.Req(**json.loads(self.Req(route_key="x", span_key=ref, data={}).model_dump_json())).span_key,
            "response": lambda: self.Res(**json.loads(self.Res(span_key=ref, status=0, data={}).model_dump_json())).span_key,
            "text parts": lambda: K(trace_id=t, span_id=s),
            "int span id": lambda: K(trace_id=t, span_id=I(int_=int.from_bytes(raw[16:], "big"))),
            "hex span id": lambda: K(trace_id=t, span_id=I(hex_=s)),
            "span id value": lambda: K(trace_id=ref.trace_id, span_id=I(int_=ref.span_id.value)),
            "span id bytes": lambda: K(trace_id=ref.trace_id, span_id=I(bytes_=ref.span_id.bytes)),
        }
        for how, f in made.items():
            try:
                k = f()
            except Exception as e:
                raise Violation("conversion-raised", f"{how} of {raw.hex()}: {type(e).__name__}: {e}")
            stats["conversions"] = stats.get("conversions", 0) + 1
            seen = (k.bytes, k.trace_id.bytes, k.span_id.bytes, str(k), k.span_id.hex, k.key(), json.loads(k.model_dump_json()))
            want = (raw, raw[:16], raw[16:], f"{t}:{s}", s, raw, {"trace_id": t, "span_id": s})
            if seen != want:
                raise Violation("changed", f"{how} of {raw.hex()} is {seen}, expected {want}")
            if not (k == ref) or k != ref or hash(k) != hash(ref) or hash(k.span_id) != hash(ref.span_id) or k.span_id != ref.span_id:
                raise Violation("not-equal", f"{how} of {raw.hex()} is not equal to, or does not hash like, the original")
            if not all(k == x for x in (str(ref), str(ref).upper(), raw[:16].hex() + ":" + raw[16:].hex())):
                raise Violation("not-equal", f"{how} of {raw.hex()} is not equal to its own text")
        return ref

    def different(self, a, b, stats):
        stats["pairs"] = stats.get("pairs", 0) + 1
        same = a.bytes == b.bytes
        if (a == b) != same or (a != b) == same or (same and hash(a) != hash(b)):
            raise Violation("equality", f"{a!r} and {b!r}: == gives {a == b}, != gives {a != b}, equal parts: {same}")
        if (len({a, b}) == 1) != same or ({a: 1}.get(b) == 1) != same:
            raise Violation("equality", f"{a!r} and {b!r} as dictionary keys")
        for x, y in ((a.trace_id, b.trace_id), (a.span_id, b.span_id)):
            if (x == y) != (x.bytes == y.bytes) or (x != y) != (x.bytes != y.bytes):
                raise Violation("equality", f"{x!r} and {y!r}: == gives {x == y}, equal bytes: {x.bytes == y.bytes}")
        if (a == str(b)) != same or (a == str(b).upper()) != same:
            raise Violation("equality", f"{a!r} and the text {str(b)!r}: equal is {a == str(b)}, equal parts: {same}")

    def bad(self, how, f, accept, stats):
        """accept: None, or the 24 bytes that a lenient but right reading gives."""
        stats["malformed"] = stats.get("malformed", 0) + 1
        try:
            k = f()
        except Exception:
            stats["malformed_rejected"] = stats.get("malformed_rejected", 0) + 1
            return
        if accept is not None and getattr(k, "bytes", None) == accept:
            return
        raise Violation("malformed-accepted", f"{how} gave {k!r}")


def malformed(p, rng, raw, stats):
    K, I = p.K, p.I
    t, s = hexes(raw)
    k = rng.randrange(10)
    if k == 0:
        n = rng.choice([x for x in range(0, 40) if x != 24])
        b = (raw + raw)[:n]
        p.bad(f"from_bytes({b!r})", lambda: K.from_bytes(b), None, stats)
    elif k == 1:
        n = rng.choice([x for x in range(0, 24) if x != 16])
        h = (s + s)[:n]
        p.bad(f"from_hex of span id {h!r}", lambda: K.from_hex(f"{t}:{h}"), None, stats)
        p.bad(f"SpanId(hex_={h!r})", lambda: K(trace_id=t, span_id=I(hex_=h)), None, stats)
        p.bad(f"SpanKey(span_id={h!r})", lambda: K(trace_id=t, span_id=h), None, stats)
    elif k == 2:
        i, c = rng.randrange(16), rng.choice("gz_+- xX.\u0661\uff11\n\t")
        h = s[:i] + c + s[i + 1:]
        p.bad(f"from_hex of span id {h!r}", lambda: K.from_hex(f"{t}:{h}"), None, stats)
        p.bad(f"SpanId(hex_={h!r})", lambda: K(trace_id=t, span_id=I(hex_=h)), None, stats)
        p.bad(f"json span id {h!r}", lambda: K.model_validate_json(json.dumps({"trace_id": t, "span_id": h})), None, stats)
        p.bad(f"request span id {h!r}", lambda: p.Req(route_key="x", data={}, span_key={"trace_id": t, "span_id": h}).span_key, None, stats)
    elif k == 3:
        pre = rng.choice(["0x", "+", "-", "_", " ", "0b", "0o"])
        h = (pre + s)[:16]
        p.bad(f"SpanId(hex_={h!r})", lambda: K(trace_id=t, span_id=I(hex_=h)), bytes.fromhex(t.replace('-', '')) + bytes.fromhex(h) if all(c in "0123456789abcdef" for c in h) else None, stats)
        h2 = s[:15] + rng.choice([" ", "_", "\n"])
        p.bad(f"SpanId(hex_={h2!r})", lambda: K(trace_id=t, span_id=I(hex_=h2)), None, stats)
    elif k == 4:
        v = rng.choice([-1, 1 << 64, (1 << 64) + 5, -(1 << 63), 1 << 80])
        p.bad(f"SpanId(int_={v})", lambda: K(trace_id=t, span_id=I(int_=v)), None, stats)
        p.bad(f"span_id={v}", lambda: K(trace_id=t, span_id=v), None, stats)
    elif k == 5:
        n = rng.choice([0, 1, 7, 9, 16, 24])
        b = (raw + raw)[:n]
        p.bad(f"SpanId(bytes_={b!r})", lambda: K(trace_id=t, span_id=I(bytes_=b)), None, stats)
    elif k == 6:
        v = rng.choice([None, 1.5, [], {}, [s], {"hex": s}, float(3), object()])
        p.bad(f"span_id={v!r}", lambda: K(trace_id=t, span_id=v), None, stats)
    elif k == 7:
        i = rng.randrange(len(t))
        tt = t[:i] + rng.choice("gz") + t[i + 1:]
        p.bad(f"from_hex trace id {tt!r}", lambda: K.from_hex(f"{tt}:{s}"), None, stats)
        tt = rng.choice([t[:-1], t + "0", "", t[:8], t * 2])
        p.bad(f"from_hex trace id {tt!r}", lambda: K.from_hex(f"{tt}:{s}"), None, stats)
        p.bad(f"trace id {tt!r}", lambda: K(trace_id=tt, span_id=s), None, stats)
    elif k == 8:
        x = rng.choice([t + s, t, s, "", ":", f"{s}:{t}", f"{t}:{s}:{s}", f"{t}::{s}", f"{t}:{s}0", f"0{t}:{s}", f"{t}:", f":{s}", f"{t} {s}", f"{t};{s}"])
        p.bad(f"from_hex({x!r})", lambda: K.from_hex(x), None, stats)
    else:
        d = rng.choice([{}, {"trace_id": t}, {"span_id": s}, {"trace_id": None, "span_id": s}, {"trace_id": t, "span_id": None}, {"trace_id": "", "span_id": ""}, {"trace_id": 5, "span_id": s}])
        p.bad(f"json {d}", lambda: K.model_validate_json(json.dumps(d)), None, stats)
        p.bad(f"fields {d}", lambda: K(**d), None, stats)
        if rng.random() < .3:
            a = rng.choice([{}, {"int_": 1, "hex_": s}, {"bytes_": raw[16:], "hex_": s}, {"int_": 0, "bytes_": raw[16:]}])
            p.bad(f"SpanId({a})", lambda: K(trace_id=t, span_id=I(**a)), None, stats)


def worker(case):
    seed, n = case
    sb = Sandbox()
    try:
        from ekosis.data_transfer_objects import SpanKey, RequestDTO, ResponseDTO
        from ekosis.data_transfer_objects.span_id import SpanId
        p, rng, stats, keys, last = Probe(SpanKey, SpanId, RequestDTO, ResponseDTO), rng_for("c23", seed), {}, set(), []
        for raw in raw_values(rng, n):
            k = p.good(raw, stats)
            keys.add(raw.hex())
            for o in last:
                p.different(k, o, stats)
            b = bytearray(raw)
            b[rng.randrange(24)] ^= 1 << rng.randrange(8)
            p.different(k, SpanKey.from_bytes(bytes(b)), stats)
            p.different(k, SpanKey.from_bytes(raw), stats)
            swapped = raw[16:] + raw[8:16] + raw[:8]
            p.different(k, SpanKey.from_bytes(swapped), stats)
            v = (int.from_bytes(raw[16:], "big") + rng.choice([1, 2, 3, 7]) * ((1 << 61) - 1)) % (1 << 64)     # the number hashes alike unless it wrapped
            p.different(k, SpanKey.from_bytes(raw[:16] + v.to_bytes(8, "big")), stats)
            if (k == 5) or (k == None) or (k == raw) or (k.span_id == k.span_id.value) or (k.span_id == "x"):  # noqa
                raise Violation("equality", f"{k!r} is equal to something that is not a span key")
            malformed(p, rng, raw, stats)
            last = (last + [k])[-3:]
        seen = set()
        parts = (set(), set())
        for i in range(n * 5):
            g = SpanKey.generate()
            if g.bytes in seen or g.span_id.bytes in parts[1] or g.trace_id.bytes in parts[0]:
                raise Violation("generated-twice", f"{g!r} after {i} generated span keys")
            seen.add(g.bytes); parts[0].add(g.trace_id.bytes); parts[1].add(g.span_id.bytes)
        # also in a forked child, and after seeding the random module
        r, w = os.pipe()
        import random
        random.seed(1)
        pid = os.fork()
        random.seed(1)
        mine = [SpanKey.generate().bytes for _ in range(50)]
        if pid == 0:
            os.write(w, b"".join(mine)); os._exit(0)
        os.close(w)
        buf = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            buf += x
        os.waitpid(pid, 0)
        theirs = {buf[i:i + 24] for i in range(0, len(buf), 24)}
        if theirs & set(mine) or set(mine) & seen:
            raise Violation("generated-twice", "two processes generated the same span key")
        stats["generated"] = len(seen) + 100
        return {"keys": keys, "n": len(keys), "counters": stats, "sample": str(k)}
    finally:
        sb.close()


def main():
    ck = Check("C23", "exploration", "24-byte values (random, sparse, extreme) through every supported conversion and back, compared with the bytes; "
               "one-bit neighbours and swapped halves for equality and hashing; malformed representations of ten kinds must raise; non-trivial: distinct 24-byte value",
               ["spellings of the trace id that Python itself reads as that UUID (braces, urn:, 0x, underscores) are not judged"])
    preload()
    run_parallel(ck, worker, [((ck.seed, i), ck.budget(2500, 12000)) for i in range(8)])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
