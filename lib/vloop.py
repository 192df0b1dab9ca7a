"""An event loop with its own time: whenever nothing can run, time moves to the next timer."""
import asyncio, selectors, time


class VSelector(selectors.DefaultSelector):
    patience = 0.001
    loop = None

    def select(self, timeout=None):
        ev = super().select(0)
        if ev or timeout == 0:
            return ev
        ev = super().select(self.patience)      # real time for the kernel to deliver what is on its way
        if ev:
            return ev
        if timeout is None:
            return super().select(0.5)
        self.loop.now += timeout
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        s = VSelector()
        s.loop = self
        self.now = 1000.0
        super().__init__(s)
        self._clock_resolution = 1e-9
        self.set_exception_handler(lambda loop, ctx: None)

    def time(self):
        return self.now
