"""The application under observation: an ekosis application whose handlers, senders and middleware report what happens to them.

Configured by the JSON file named in SVC_SPEC. Events are JSON lines appended to spec["events"] with single write() calls.
Uses nothing but the public interface of the ekosis package.
"""
import asyncio, json, mmap, os, selectors, signal, sys, time, logging
from collections import deque
from decimal import Decimal
from typing import Any, Dict, List, Optional

SPEC = json.load(open(os.environ["SVC_SPEC"]))
FD = os.open(SPEC["events"], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
COUNT = {"event": 0, "exec": 0, "commit": 0}
INJECT = SPEC.get("inject")          # {"point": "event|before_exec|after_exec|before_commit|after_commit", "n": int, "signal": int}


def inject(point, kind):
    if INJECT and INJECT["point"] == point and COUNT[kind] == INJECT["n"]:
        raw("inject", point=point, n=COUNT[kind], sig=INJECT["signal"])
        for _ in range(INJECT.get("times", 1)):
            os.kill(os.getpid(), INJECT["signal"])


def raw(ev, **kw):
    os.write(FD, (json.dumps({"ev": ev, "pid": os.getpid(), **kw}) + "\n").encode())


def emit(ev, **kw):
    raw(ev, **kw)
    COUNT["event"] += 1
    inject("event", "event")


# ---------------------------------------------------------------------------------------------- virtual clock
class VSelector(selectors.DefaultSelector):
    def select(self, timeout=None):
        if timeout is not None and timeout > 0.05 and not CLOCK.running():
            timeout = 0.05
        return super().select(timeout)


class Clock:
    """The loop's clock stands still unless told to move, or told by the driver (first byte of the mapped file) to run."""
    def __init__(self, path):
        f = open(path, "r+b")
        self.mm = mmap.mmap(f.fileno(), 1)
        self.now, self.since = 1000.0, None

    def running(self):
        return self.mm[0] == 49

    def time(self):
        if self.running():
            if self.since is None:
                self.since = time.monotonic() - self.now
            return time.monotonic() - self.since
        return self.now


CLOCK = None
if SPEC.get("vclock"):
    CLOCK = Clock(SPEC["vclock"])

    class VLoop(asyncio.SelectorEventLoop):
        def __init__(self):
            super().__init__(VSelector())
            self._clock_resolution = 1e-9

        def time(self):
            return CLOCK.time()

    class VPolicy(asyncio.DefaultEventLoopPolicy):
        def new_event_loop(self):
            return VLoop()

    asyncio.set_event_loop_policy(VPolicy())

# ---------------------------------------------------------------------------------------------- the package
from pydantic import BaseModel, Field                                             # noqa: E402
from ekosis.application_base import ApplicationBase                               # noqa: E402
from ekosis.requests.endpoint import endpoint                                     # noqa: E402
from ekosis.requests.buffered_endpoint import buffered_endpoint                   # noqa: E402
from ekosis.sending.buffered_sender import buffered_sender                        # noqa: E402
from ekosis.middleware import *                                                   # noqa: E402,F403
from ekosis.middleware.manager import MiddlewareManager                           # noqa: E402
from ekosis.middleware.middleware_base import MiddlewareBase                      # noqa: E402
from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager  # noqa: E402
from ekosis.middleware.buffered_middleware_base import BufferedMiddlewareBase     # noqa: E402
from ekosis.data_transfer_objects import EmptyDto, SpanKey                        # noqa: E402
from ekosis.exceptions import ApplicationProcessingException                      # noqa: E402
from ekosis.state_keepers.statistics_keeper import StatisticsKeeper               # noqa: E402
from ekosis.state_keepers.error_state_list import ErrorStateList                  # noqa: E402
from ekosis import clients                                                        # noqa: E402

log = logging.getLogger()

if INJECT and INJECT["point"].endswith(("exec", "commit")):
    import sqlalchemy
    from sqlalchemy import event as sa_event

    @sa_event.listens_for(sqlalchemy.engine.Engine, "before_cursor_execute")
    def _be(*a):
        COUNT["exec"] += 1
        inject("before_exec", "exec")

    @sa_event.listens_for(sqlalchemy.engine.Engine, "after_cursor_execute")
    def _ae(*a):
        inject("after_exec", "exec")

    @sa_event.listens_for(sqlalchemy.engine.Engine, "commit")
    def _bc(*a):
        COUNT["commit"] += 1
        inject("before_commit", "commit")

    import sqlalchemy.engine.default as _d
    _orig = _d.DefaultDialect.do_commit

    def do_commit(self, conn):
        r = _orig(self, conn)
        inject("after_commit", "commit")
        return r
    _d.DefaultDialect.do_commit = do_commit


class ItemDto(BaseModel):
    uid: str
    payload: Any = None
    plan: Dict[str, Any] = {}


class OptDto(BaseModel):
    uid: Optional[str] = None
    payload: Any = None
    level: Optional[int] = 3
    amount: Optional[Decimal] = None


class StrictDto(BaseModel):
    n: int
    s: str
    flag: bool = False
    inner: Optional[ItemDto] = None
    many: List[int] = []


class AnyDto(BaseModel):
    model_config = {"extra": "allow"}


DTOS = {"item": ItemDto, "opt": OptDto, "empty": EmptyDto, "any": AnyDto, "strict": StrictDto}


async def spin(n):
    for _ in range(n):
        await asyncio.sleep(0)


async def pauses(plan, key="s"):
    if plan.get("block"):
        time.sleep(plan["block"] / 1000)
    for x in plan.get(key, ()):
        if x < 0:
            await spin(-x)
        else:
            await asyncio.sleep(x / 1000)


# ---------------------------------------------------------------------------------------------- middleware
LOGGING = SPEC.get("logging", False)


def say(where, sk, extra=""):
    if LOGGING:
        log.info(f"L|{where}|{sk}|{extra}")


class Mw(MiddlewareBase):
    def __init__(self, i, spins):
        self.i, self.spins = i, spins

    async def before_routing(self, **kw):
        p = kw["protocol_dto"]
        if not p.route_key.startswith(("v.", "b.", "t.")):
            return p
        u = p.data.get("uid", "") if isinstance(p.data, dict) else ""
        say(f"mw{self.i}.before", kw["span_key"], u)
        await spin(self.spins)
        emit("before", i=self.i, sk=str(kw["span_key"]), route=p.route_key, data=p.data)
        say(f"mw{self.i}.before2", kw["span_key"], u)
        if isinstance(p.data, dict) and isinstance(p.data.get("plan"), dict) and isinstance(p.data["plan"].get("mw"), list):
            d = dict(p.data)
            d["plan"] = {**d["plan"], "mw": d["plan"]["mw"] + [f"b{self.i}"]}
            p = p.model_copy(update={"data": d})
        return p

    async def after_routing(self, **kw):
        r, p = kw["response_dto"], kw["protocol_dto"]
        if not p.route_key.startswith(("v.", "b.", "t.")):
            return r
        u = p.data.get("uid", "") if isinstance(p.data, dict) else ""
        say(f"mw{self.i}.after", kw["span_key"], u)
        await spin(self.spins)
        emit("after", i=self.i, sk=str(kw["span_key"]), route=p.route_key, data=p.data,
             response=json.loads(r.model_dump_json()) if isinstance(r, BaseModel) else repr(r))
        say(f"mw{self.i}.after2", kw["span_key"], u)
        if isinstance(r, EchoDto):
            r = r.model_copy(update={"trace": r.trace + [f"a{self.i}"]})
        return r


class BMw(BufferedMiddlewareBase):
    def __init__(self, i, spins, flavour):
        self.i, self.spins, self.flavour = i, spins, flavour

    async def before_push(self, span_key, dto):
        say(f"bmw{self.i}.push", span_key, getattr(dto, "uid", ""))
        await spin(self.spins * (span_key.span_id.value // 7 % 8))        # takes longer for some than for others
        say(f"bmw{self.i}.push2", span_key, getattr(dto, "uid", ""))
        if self.flavour == "none":
            m = None
        elif self.flavour == "empty":
            m = {}
        else:
            m = {f"m{self.i}": f"{self.i}:{span_key}", "shared": f"{self.i}/{span_key}", f"nested{self.i}": {"n": [1, None, True, "\u00e9\u4e16"], "u": getattr(dto, "uid", None)}}
        emit("bpush", i=self.i, sk=str(span_key), data=json.loads(dto.model_dump_json()), metadata=m)
        return m

    async def before_process(self, span_key, dto, metadata, retries):
        if self.i == 0 and any(s for s, _ in SPEC["buffered_middleware"]):
            raw("taken", sk=str(span_key))
        say(f"bmw{self.i}.bproc", span_key, getattr(dto, "uid", ""))
        await spin(self.spins)
        say(f"bmw{self.i}.bproc2", span_key, getattr(dto, "uid", ""))
        emit("bproc", i=self.i, sk=str(span_key), data=json.loads(dto.model_dump_json()), metadata=metadata, retries=retries)

    async def after_process(self, span_key, dto, metadata, success):
        say(f"bmw{self.i}.aproc", span_key, getattr(dto, "uid", ""))
        await spin(self.spins)
        say(f"bmw{self.i}.aproc2", span_key, getattr(dto, "uid", ""))
        emit("aproc", i=self.i, sk=str(span_key), data=json.loads(dto.model_dump_json()), metadata=metadata, success=success)


if SPEC.get("tracing"):
    from ekosis_otlp_traces.setup import initiate_otlp_tracing
    initiate_otlp_tracing()


class Bare(MiddlewareBase):
    """Relies on what the base class does."""


class BareB(BufferedMiddlewareBase):
    """Relies on what the base class does."""


for _i, _s in enumerate(SPEC.get("middleware", [])):
    MiddlewareManager().add(Mw(_i, _s))
    if _i % 2 == 0:
        MiddlewareManager().add(Bare())
for _i, (_s, _f) in enumerate(SPEC.get("buffered_middleware", [])):
    BufferedMiddlewareManager().add(BMw(_i, _s, _f))
    if _i % 2 == 0:
        BufferedMiddlewareManager().add(BareB())

# ---------------------------------------------------------------------------------------------- buffered endpoints
GATES = {}         # route -> deque of futures of handlers waiting for their outcome
MODE = {}          # route -> "gated" | "free" | "ok" | "fail"
ATTEMPT = {}
LAST_END = {}


class Boom(Exception):
    pass


def boom(kind):
    if kind == "raise":
        raise Boom("boom")
    if kind == "keyerror":
        raise KeyError("k")
    if kind == "app":
        raise ApplicationProcessingException("app says no")
    if kind == "timeout":
        raise asyncio.TimeoutError()
    if kind == "assert":
        assert False, "boom"
    if kind == "badstr":
        class BadStr(Exception):
            def __str__(self):
                return "\u00e9\u4e16 %s %d {x}"
        raise BadStr()
    raise Boom(kind)


def make_buffered(b):
    route, params = b["route"], b.get("params", ["dto", "span_key"])
    MODE[route] = b.get("mode", "gated")
    GATES[route] = deque()

    async def process(dto, sk):
        data = None if dto is None else json.loads(dto.model_dump_json())
        plan = (data or {}).get("plan") or {}
        uid = str(sk) if sk is not None else (data or {}).get("uid", "?")
        emit("start", route=route, sk=str(sk) if sk is not None else None, data=data)
        say("buffered.start", sk, (data or {}).get("uid", ""))
        outcome, cancelled = None, False
        try:
            await pauses(plan)
            say("buffered.mid", sk, (data or {}).get("uid", ""))
            mode = MODE[route]
            if mode == "gated":
                fut = asyncio.get_running_loop().create_future()
                GATES[route].append(fut)
                try:
                    outcome = await fut
                finally:
                    if fut in GATES[route]:
                        GATES[route].remove(fut)
            elif mode == "ok":
                outcome = "true"
            elif mode == "fail":
                outcome = "false"
            else:
                n = ATTEMPT[uid] = ATTEMPT.get(uid, 0) + 1
                seq = plan.get("o", ["true"])
                outcome = seq[min(n, len(seq)) - 1]
        except asyncio.CancelledError:
            for _ in range(plan.get("cancel_spins", 0)):
                await asyncio.sleep(0)
            emit("cancelled", route=route, sk=str(sk) if sk is not None else None)
            raise
        say("buffered.end", sk, (data or {}).get("uid", ""))
        if outcome in ("true", "truthy"):
            emit("end", route=route, sk=str(sk) if sk is not None else None, ok=True)
            return True
        emit("end", route=route, sk=str(sk) if sk is not None else None, ok=False, how=outcome)
        if outcome == "false":
            return False
        if outcome == "none":
            return None
        boom(outcome)

    if set(params) == {"dto", "span_key"}:
        async def handler(dto, span_key):
            return await process(dto, span_key)
    elif params == ["dto"]:
        async def handler(dto):
            return await process(dto, None)
    elif params == ["span_key"]:
        async def handler(span_key):
            return await process(None, span_key)
    else:
        async def handler():
            return await process(None, None)
    if b.get("pos"):
        buffered_endpoint(route, DTOS[b["dto"]], b["page_size"], b["max_retries"])(handler)
    else:
        buffered_endpoint(route, request_dto_type=DTOS[b["dto"]], page_size=b["page_size"], max_retries=b["max_retries"])(handler)


for _b in SPEC.get("buffered", []):
    make_buffered(_b)

# ---------------------------------------------------------------------------------------------- senders
SENDERS = {}


def make_client(c):
    kw = {k: c[k] for k in ("timeout", "max_retries", "retry_delay", "heartbeat_period") if k in c}
    t = c["type"]
    if t == "ttcp":
        return clients.TransientTCPClient(c["host"], c["port"], **kw)
    if t == "ptcp":
        return clients.PersistedTCPClient(c["host"], c["port"], **kw)
    if t == "udp":
        return clients.UDPClient(c["host"], c["port"], **kw)
    if t == "tuds":
        return clients.TransientUDSClient(c["path"], **kw)
    return clients.PersistedUDSClient(c["path"], **kw)


def make_sender(s):
    @buffered_sender(make_client(s["client"]), s["route"], DTOS[s["dto"]], DTOS[s.get("response", "any")],
                     s.get("wait_period", 0), s["page_size"], s["max_retries"])
    async def send(data, **kw):
        return DTOS[s["dto"]](**data)
    SENDERS[s["route"]] = send


for _s in SPEC.get("senders", []):
    make_sender(_s)


# ---------------------------------------------------------------------------------------------- ordinary endpoints
class EchoDto(BaseModel):
    uid: Optional[str] = None
    payload: Any = None
    sk: Optional[str] = None
    data: Any = None
    trace: List[str] = []


HOLD = {}


@endpoint("v.echo", ItemDto)
async def v_echo(dto, span_key):
    emit("run", route="v.echo", sk=str(span_key), data=json.loads(dto.model_dump_json()))
    say("echo.start", span_key, dto.uid)
    await pauses(dto.plan)
    say("echo.mid", span_key, dto.uid)
    name = dto.plan.get("hold")
    if name:
        fut = asyncio.get_running_loop().create_future()
        HOLD.setdefault(name, []).append(fut)
        await fut
    await pauses(dto.plan, "s2")
    say("echo.end", span_key, dto.uid)
    return EchoDto(uid=dto.uid, payload=dto.payload, sk=str(span_key), data=json.loads(dto.model_dump_json()), trace=list(dto.plan.get("mw", [])))


@endpoint("v.big", ItemDto)
async def v_big(dto):
    emit("run", route="v.big", sk=None, data={"uid": dto.uid, "len": len(dto.payload or "")})
    say("big.start", None, dto.uid)
    await pauses(dto.plan)
    say("big.end", None, dto.uid)
    n = dto.plan.get("reply", 0)
    return EchoDto(uid=dto.uid, payload=(dto.plan.get("char", "x") * n))


@endpoint("v.sk")
async def v_sk(span_key):
    emit("run", route="v.sk", sk=str(span_key), data=None)
    return EchoDto(sk=str(span_key))


@endpoint("v.none")
async def v_none():
    emit("run", route="v.none", sk=None, data=None)
    return EmptyDto()


@endpoint("v.strict", StrictDto)
async def v_strict(dto, span_key):
    emit("run", route="v.strict", sk=str(span_key), data=json.loads(dto.model_dump_json()))
    return EchoDto(sk=str(span_key), data=json.loads(dto.model_dump_json()))


@endpoint("v.opt", OptDto)
async def v_opt(dto, span_key):
    emit("run", route="v.opt", sk=str(span_key), data=json.loads(dto.model_dump_json()))
    return EchoDto(sk=str(span_key), data=json.loads(dto.model_dump_json()))


class Unserialisable(BaseModel):
    model_config = {"arbitrary_types_allowed": True}
    x: Any = None


@endpoint("v.fail", ItemDto)
async def v_fail(dto, span_key):
    emit("run", route="v.fail", sk=str(span_key), data=json.loads(dto.model_dump_json()))
    say("fail.start", span_key, dto.uid)
    await pauses(dto.plan)
    say("fail.end", span_key, dto.uid)
    k = dto.plan.get("kind")
    text = dto.plan.get("text", "no")
    if k == "app":
        raise ApplicationProcessingException(text)
    if k == "value":
        raise ValueError(text)
    if k == "key":
        raise KeyError(text)
    if k == "custom":
        raise Boom(text)
    if k == "zero":
        return 1 / 0
    if k == "os":
        raise OSError(5, text)
    if k == "connreset":
        raise ConnectionResetError(text)
    if k == "timeout":
        raise asyncio.TimeoutError(text)
    if k == "stopiter":
        raise StopAsyncIteration(text)
    if k == "assert":
        assert False, text
    if k == "unserialisable":
        return Unserialisable(x=object())
    if k == "object":
        return object()
    if k == "deep":
        r = []
        for _ in range(3000):
            r = [r]
        return Unserialisable(x=r)
    if k == "badbytes":
        return Unserialisable(x=b"\xff\xfe")
    return EchoDto(uid=dto.uid)


# ---------------------------------------------------------------------------------------------- control
class CtlDto(BaseModel):
    model_config = {"extra": "allow"}
    n: int = 0
    route: str = ""
    outcome: str = ""
    mode: str = ""
    name: str = ""
    dt: float = 0
    step: float = 1
    items: List[Any] = []
    text: str = ""


class CtlResponse(BaseModel):
    ok: bool = True
    data: Any = None


@endpoint("ctl.sync", CtlDto)
async def ctl_sync(dto):
    await spin(dto.n)
    return CtlResponse(data={r: len(g) for r, g in GATES.items()})


@endpoint("ctl.permit", CtlDto)
async def ctl_permit(dto):
    for fut in list(GATES[dto.route]):
        if not fut.done():
            fut.set_result(dto.outcome)
            return CtlResponse()
    return CtlResponse(ok=False)


@endpoint("ctl.mode", CtlDto)
async def ctl_mode(dto):
    MODE[dto.route] = dto.mode
    if dto.mode != "gated":
        for fut in list(GATES[dto.route]):
            if not fut.done():
                fut.set_result("false" if dto.mode == "fail" else "true")
    return CtlResponse()


@endpoint("ctl.open", CtlDto)
async def ctl_open(dto):
    n = 0
    for fut in HOLD.pop(dto.name, []):
        if not fut.done():
            fut.set_result(True)
            n += 1
    return CtlResponse(data=n)


@endpoint("ctl.enqueue", CtlDto)
async def ctl_enqueue(dto):
    """items: [span key text or null, data]; spins between them so that enqueueing overlaps with sending."""
    for sk, data in dto.items:
        await spin(dto.n)
        if sk is None:
            await SENDERS[dto.route](data)
        else:
            await SENDERS[dto.route](data, span_key=SpanKey.from_hex(sk))
        emit("accepted", route=dto.route, sk=sk, data=data)
    return CtlResponse()


@endpoint("ctl.advance", CtlDto)
async def ctl_advance(dto):
    left = dto.dt
    while left > 1e-12:
        d = min(dto.step, left)
        left -= d
        CLOCK.now += d
        await spin(dto.n or 20)
    return CtlResponse(data=CLOCK.now)


@endpoint("ctl.crash", CtlDto)
async def ctl_crash(dto):
    CRASH["how"] = dto.name or "raise"
    CRASH["event"].set()
    return CtlResponse()


@endpoint("ctl.log", CtlDto)
async def ctl_log(dto):
    """items: [level, text, args]. With name: that many threads log the items, each under its own prefix."""
    if dto.name:
        def work(k):
            for level, text, args in dto.items:
                log.log(level, f"T{k}|" + text, *args)
        import threading
        threads = [threading.Thread(target=work, args=(k,)) for k in range(int(dto.name))]
        for th in threads:
            th.start()
        while any(th.is_alive() for th in threads):
            await asyncio.sleep(0.001)
        return CtlResponse()
    for level, text, args in dto.items:
        t0 = time.time()
        log.log(level, text, *args)
        raw("logged", level=level, text=text, args=args, t0=t0, t1=time.time())
        if dto.n > 0:
            await spin(dto.n)
        elif dto.n < 0:
            await asyncio.sleep(-dto.n / 1000)
    return CtlResponse()


@endpoint("ctl.stat", CtlDto)
async def ctl_stat(dto):
    s = StatisticsKeeper()
    for op, key, value in dto.items:
        if op == "inc":
            s.increment(key, value)
        elif op == "inc1":
            s.increment(key)
        elif op == "dec":
            s.decrement(key, value)
        elif op == "dec1":
            s.decrement(key)
        else:
            s.set_statistic_value(key, value)
    return CtlResponse()


@endpoint("ctl.err", CtlDto)
async def ctl_err(dto):
    for error_id, description in dto.items:
        ErrorStateList().increment(error_id, description)
    return CtlResponse()


CRASH = {}


UP = False
if SPEC.get("resignal"):              # a further signal arrives right when the application is about to change how it reacts to signals
    _signal, _calls = signal.signal, [0]

    def _set_handler(num, handler):
        if UP:
            _calls[0] += 1
            if _calls[0] == SPEC["resignal"]["at"]:
                raw("resignal", at=_calls[0], sig=SPEC["resignal"]["signal"])
                os.kill(os.getpid(), SPEC["resignal"]["signal"])
        return _signal(num, handler)
    signal.signal = _set_handler


class App(ApplicationBase):
    async def setup_tasks(self, tasks):
        global UP
        CRASH["event"] = asyncio.Event()
        raw("up")
        UP = True

        async def watch():
            await CRASH["event"].wait()
            if CRASH["how"] == "system_exit":
                raise SystemExit(3)
            raise Boom("task of the application")
        tasks.append(asyncio.create_task(watch()))
        if LOGGING:
            async def chatter():
                for k in range(SPEC.get("chatter", 0)):
                    log.info(f"L|outside|None|{k}")
                    await spin(7)
            tasks.append(asyncio.create_task(chatter()))


def main():
    emit("boot")
    for _f in SPEC.get("setup", []):
        exec(_f, globals())
    with App() as app:
        app.start()
    raw("stopped")


main()
