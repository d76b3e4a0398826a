"""Simulated output devices for the printing side of the library."""
import errno
import io

HARD = {
    "ENOSPC": lambda: OSError(errno.ENOSPC, "No space left on device (simulated)"),
    "EPIPE": lambda: BrokenPipeError(errno.EPIPE, "Broken pipe (simulated)"),
    "EIO": lambda: OSError(errno.EIO, "Input/output error (simulated)"),
    "EAGAIN": lambda: BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable (simulated)", 0),
    "ECONNRESET": lambda: ConnectionResetError(errno.ECONNRESET, "Connection reset by peer (simulated)"),
    "ETIMEDOUT": lambda: TimeoutError(errno.ETIMEDOUT, "Connection timed out (simulated)"),
    "EBADF": lambda: OSError(errno.EBADF, "Bad file descriptor (simulated)"),
    "closed": lambda: ValueError("I/O operation on closed file (simulated)"),
    "detached": lambda: AttributeError("'NoneType' object has no attribute 'write' (simulated)"),
    "revoked": lambda: RuntimeError("output device revoked (simulated)"),
    "record": lambda: KeyError("output record (simulated)"),
    "type": lambda: TypeError("a bytes-like object is required (simulated)"),
    "eof": lambda: EOFError("peer went away (simulated)"),
}


class SimRaw(io.RawIOBase):
    """The only stubbed layer of the output path: a device that accepts bytes, short-writes, is interrupted or fails."""

    def __init__(self, spec, count):
        super().__init__()
        self.data = bytearray()
        self.capacity = spec.get("capacity")            # bytes after which the hard error starts
        self.error = spec.get("error")                  # hard error name
        self.short = spec.get("short", [])              # cyclic list of maximum sizes per call (0 = no limit)
        self.eintr = set(spec.get("eintr", []))         # call numbers answered with EINTR first
        self.calls = 0
        self.failed = 0
        self.heal_after = spec.get("heal", None)        # the error goes away after that many failures
        self.count = count

    def writable(self):
        return True

    def write(self, b):
        n = len(b)
        k = self.calls
        self.calls += 1
        if k in self.eintr:
            self.eintr.discard(k)
            self.count("stream:EINTR")
            raise InterruptedError(errno.EINTR, "Interrupted system call (simulated)")
        if self.short:
            m = self.short[k % len(self.short)]
            if m and n > m:
                n = m
                self.count("stream:short-write")
        if self.error is not None and self.capacity is not None and len(self.data) + n > self.capacity \
                and (self.heal_after is None or self.failed < self.heal_after):
            room = self.capacity - len(self.data)
            if room > 0:
                self.data += bytes(b[:room])
                self.count("stream:short-write")
                return room
            self.failed += 1
            self.count("stream:" + self.error)
            raise HARD[self.error]()
        self.data += bytes(b[:n])
        return n


def build(spec, count):
    """A real TextIOWrapper / BufferedWriter stack over a simulated device."""
    raw = SimRaw(spec, count)
    buf = io.BufferedWriter(raw, buffer_size=spec.get("bufsize", 8192))
    txt = io.TextIOWrapper(buf, encoding=spec.get("encoding", "utf-8"), errors=spec.get("errors", "strict"),
                           newline="\n", line_buffering=spec.get("line", True), write_through=spec.get("through", False))
    return txt, raw


class DirectText(io.TextIOBase):
    """A text stream shared by all threads of a run: every write is a scheduling point and is tagged with its thread."""

    def __init__(self, eng, tid_of):
        super().__init__()
        self.eng, self.tid_of = eng, tid_of
        self.chunks = []
        self.calls = 0

    @property
    def encoding(self):
        return "utf-8"

    def writable(self):
        return True

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        t = self.eng.cur if self.eng is not None and self.eng.mine() else None
        self.chunks.append((t.owner if t is not None else -1, s))
        self.calls += 1
        if t is not None and not t.in_nested and t.reporting:
            self.eng.point(t)
        return len(s)

    def flush(self):
        pass

    def mark(self):
        return len(self.chunks)

    def text_of(self, tid, start=0):
        return "".join(s for w, s in self.chunks[start:] if w == tid)
