"""One span key for several requests at a time: a handler that makes requests to several endpoints on behalf of one request passes its
span key on to all of them. Every one of them is a request of its own, with spans of its own."""
import json, signal
from common import Inconclusive, Violation, rng_for, sig
from svc import Service, Conn, new_sk, request_bytes
from traces import Traces


def fan_worker(case):
    _, seed, i = case
    rng = rng_for("fanout", seed, i)
    routes = rng.sample(["b.a", "b.a.x", "b.q", "b.r"], rng.choice([2, 3]))
    spec = {"buffered": [{"route": r, "dto": "item", "page_size": rng.choice([1, 2, 5, 100]), "max_retries": rng.choice([0, 1, 2, 3]), "mode": "free"} for r in routes],
            "middleware": [rng.choice([0, 2]) for _ in range(rng.choice([0, 0, 1]))], "buffered_middleware": [[rng.choice([0, 1, 20]), "dict"]] * rng.choice([0, 0, 1]), "tracing": True}
    tr = Traces()
    sv = Service(rng, spec, env=dict(ECOENV_EXTRA_OTLP_TRACES_ENDPOINT=f"http://127.0.0.1:{tr.port}/v1/traces", OTEL_BSP_SCHEDULE_DELAY="50", OTEL_BSP_MAX_QUEUE_SIZE="100000"))
    stats, sent, log = {}, [], []

    def c(name, n=1):
        stats[name] = stats.get(name, 0) + n

    def bad(kind, text):
        raise Violation(kind, f"{text}; configuration {json.dumps(spec['buffered'])}; requests {log[-20:]}", {"requests": log})
    try:
        for g in range(rng.choice([1, 1, 2])):
            sv.start()
            n, conns = rng.randint(3, 12), [[Conn(sv.uds), []] for _ in range(rng.randint(2, 6))]
            for _ in range(n):
                sk = new_sk(rng)
                to = rng.sample(routes, rng.randint(1, len(routes))) + ["v.echo"] * rng.choice([0, 0, 1, 2, 3])
                rng.shuffle(to)
                for r in to:
                    plan = {"s": [rng.choice([-1, -3, -20, 0, 1, 3]) for _ in range(rng.randrange(4))], "mw": []}
                    if r != "v.echo":
                        plan["o"] = [rng.choice(["true", "true", "false", "raise"]) for _ in range(3)] + ["true"]
                    cn = rng.choice(conns)
                    cn[1].append((r, {"uid": f"{r}{len(sent)}", "plan": plan}, sk))
                    sent.append((sk, r))
                    log.append((sk[-6:], r))
            for cn, q in conns:
                cn.send(b"".join(request_bytes(r, d, sk) for r, d, sk in q))
            for cn, q in conns:
                for r, d, sk in q:
                    a = json.loads(cn.line())
                    if a["status"] != 0:
                        raise Inconclusive(f"{r} was answered with {a}")
                cn.close()
            for r in routes:
                if sv.quiesce(r) is None:
                    raise Inconclusive(f"{r} did not come to rest")
            sv.stop(signal.SIGTERM)
        sv.events.poll()
        attempts, failed, running = {}, {}, {}
        for e in sv.events.all:
            if e["ev"] == "start":
                running[e["route"]] = e["sk"]
                if list(running.values()).count(e["sk"]) > 1:
                    c("attempts_overlapping_with_one_of_the_same_span_key")
            elif e["ev"] == "end":
                running.pop(e["route"], None)
                k = (e["sk"], e["route"])
                attempts.setdefault(k, []).append((failed.get(k, 0), e["ok"]))
                failed[k] = failed.get(k, 0) + (not e["ok"])
        by = {}
        for s in tr.spans():
            by.setdefault(f"{s['at'].get('request.trace_id')}:{s['at'].get('request.span_id')}", []).append(s)
        for sk in {x[0] for x in sent}:
            want = {r: sent.count((sk, r)) for r in [x[1] for x in sent if x[0] == sk]}
            mine = by.get(sk, [])
            req = {r: [s for s in mine if s["name"] == r] for r in want}
            proc = [s for s in mine if s["name"] == "ItemDto.process"]
            if {r: len(x) for r, x in req.items()} != want or len(mine) != len(proc) + sum(want.values()):
                bad("wrong-number-of-spans", f"{sk} was used for the requests {want}, all answered with success; spans: {sorted(s['name'] for s in mine)}")
            for r, ss in req.items():
                for s in ss:
                    if s["parent"] != sk.split(":")[1] or s["at"].get("request.route_key") != r:
                        bad("wrong-parent", f"the span of the request to {r} with {sk}: {s}")
                    c("request_spans_checked")
                if r != "v.echo":
                    got = sorted((s["at"].get("request.retries"), s["at"].get("process.success")) for s in proc if s["parent"] == ss[0]["span"])
                    if got != sorted(attempts.get((sk, r), [])):
                        bad("wrong-attempt-spans", f"{sk} to {r}, received under {ss[0]['span']}: processing spans under it say (retries, success) {got}, the attempts were {sorted(attempts.get((sk, r), []))}; all: {proc}")
                    c("requests_whose_attempts_were_compared")
            if len(proc) != sum(len(attempts.get((sk, r), [])) for r in want):
                bad("wrong-attempt-spans", f"{sk}: {len(proc)} processing spans, attempts {[attempts.get((sk, r)) for r in want]}: {proc}")
            c("attempt_spans_checked", len(proc))
            c("span_keys_of_several_requests", sum(want.values()) > 1)
    finally:
        sv.close()
        tr.close()
    order = sig([(e["ev"], e.get("sk")) for e in sv.events.all if e["ev"] in ("start", "end", "boot")])
    return {"key": order, "counters": stats, "nontrivial": stats.get("span_keys_of_several_requests", 0) > 0, "sample": {"configuration": spec["buffered"], "requests": log[:10]}}
