"""The real metrics application. Its event loop's clock runs faster than the wall clock (PROM_SPEED), so that a gather period takes a fraction of a second."""
import asyncio, os, selectors, time

SPEED = float(os.environ.get("PROM_SPEED", "10"))


class FastSelector(selectors.DefaultSelector):
    def select(self, timeout=None):
        return super().select(timeout / SPEED if timeout else timeout)


class FastLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        super().__init__(FastSelector())
        self.t0 = time.monotonic()

    def time(self):
        return (time.monotonic() - self.t0) * SPEED


class Policy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        return FastLoop()


asyncio.set_event_loop_policy(Policy())

from ekosis_prometheus.application import main      # noqa: E402
main()
