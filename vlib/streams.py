"""Instrumented streams."""
import bisect


class Stream(object):
    """A read-only, possibly sparse stream that records every access.

    segments: list of (offset, bytes), non-overlapping; size: logical size; gaps read as zero."""

    def __init__(self, segments, size=None, record=True):
        if isinstance(segments, (bytes, bytearray)):
            segments = [(0, bytes(segments))]
        self.segs = sorted((o, b) for o, b in segments if b)
        self.offs = [o for o, _ in self.segs]
        self.size = max([o + len(b) for o, b in self.segs] + [0]) if size is None else size
        self.pos = 0
        self.reads = []      # (position, bytes returned)
        self.mutations = []  # names of forbidden calls
        self.record = record
        self.closed = False

    # -- permitted
    def read(self, n=-1):
        if n is None or n < 0:
            n = max(0, self.size - self.pos)
        n = max(0, min(n, self.size - self.pos))
        out = self._at(self.pos, n)
        if self.record:
            self.reads.append((self.pos, n))
        self.pos += n
        return out

    def _at(self, pos, n):
        if n == 0:
            return b""
        i = bisect.bisect_right(self.offs, pos) - 1
        if i >= 0:
            o, b = self.segs[i]
            if o <= pos and pos + n <= o + len(b):
                return b[pos - o:pos - o + n]
        if n > 1 << 30:
            raise MemoryError("the log asked for %d bytes at once" % n)
        buf = bytearray(n)
        for o, b in self.segs[max(0, i):]:
            if o >= pos + n:
                break
            lo, hi = max(o, pos), min(o + len(b), pos + n)
            if lo < hi:
                buf[lo - pos:hi - pos] = b[lo - o:hi - o]
        return bytes(buf)

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def seek(self, off, whence=0):
        p = off if whence == 0 else (self.pos if whence == 1 else self.size) + off
        if p < 0:
            raise ValueError("negative seek position %d" % p)
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return False

    # -- forbidden
    def _forbid(self, name):
        self.mutations.append(name)

    def write(self, *a):
        self._forbid("write")
        return 0

    def writelines(self, *a):
        self._forbid("writelines")

    def truncate(self, *a):
        self._forbid("truncate")

    def close(self):
        self._forbid("close")

    def detach(self):
        self._forbid("detach")
