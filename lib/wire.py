"""Raw peers of a server: non-blocking sockets whose bytes go out in pieces the driver chooses."""
import errno, json, select, socket, struct, time
from common import Violation, Inconclusive

WATCHDOG = 60


class Peer:
    """A stream connection. `expect` holds, in order, what has to come back."""
    def __init__(self, address, kind):
        self.kind, self.address = kind, address
        self.s = socket.socket(socket.AF_UNIX if isinstance(address, str) else socket.AF_INET, socket.SOCK_STREAM)
        self.s.settimeout(WATCHDOG)
        self.s.connect(address)
        self.s.setblocking(False)
        if kind == "tcp":
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.out, self.buf, self.lines = b"", b"", []
        self.expect, self.sent = [], []
        self.eof = self.closed = self.shut = False

    def feed(self, b):
        self.out += b

    def write(self, n=None):
        """Writes up to n of the waiting bytes; whether anything went out."""
        if not self.out or self.closed:
            return False
        try:
            k = self.s.send(self.out[:n] if n else self.out)
        except BlockingIOError:
            return False
        except OSError:
            self.out = b""
            return False
        self.out = self.out[k:]
        return True

    def read(self):
        got = False
        while not self.eof and not self.closed:
            try:
                x = self.s.recv(1 << 20)
            except BlockingIOError:
                break
            except OSError:
                self.eof = True
                break
            if not x:
                self.eof = True
                break
            got = True
            self.buf += x
            if b"\n" in x:
                *l, self.buf = self.buf.split(b"\n")
                self.lines += l
        return got

    def half_close(self):
        self.shut = True
        self.s.shutdown(socket.SHUT_WR)

    def close(self, reset=False):
        if not self.closed:
            if reset and self.kind == "tcp":
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.s.close()
            self.closed = True

    def finish(self, want, alive, more=()):
        """Writes everything and reads until `want` lines are there in total."""
        end = time.monotonic() + WATCHDOG
        while (self.out or len(self.lines) < want) and not self.eof:
            r, w, _ = select.select([self.s], [self.s] if self.out else [], [], 0.2)
            if r and self.read() or w and self.write():
                end = time.monotonic() + WATCHDOG
            for p in more:
                p.read()
                p.write()
            if time.monotonic() > end:
                alive()
                return False
        return len(self.lines) >= want
