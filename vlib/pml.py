"""Abstract model of a Procmon log and an independent writer.

Texts are Python strings that may hold NULs and lone surrogates; text16.shown() gives what must be displayed."""
import itertools
import struct

from vlib import tables as T
from vlib.text16 import enc, shown
from vlib.streams import Stream

HEADER = 0x3a8
EVENT_FIXED = 0x34


class Mod(object):
    F = ("base_address", "size", "path", "version", "company", "description", "timestamp")

    def __init__(self, base, size, path, version, company, description, timestamp):
        self.base_address, self.size, self.path, self.version = base, size, path, version
        self.company, self.description, self.timestamp = company, description, timestamp

    def expected(self):
        return [shown(v) if isinstance(v, str) else v for v in (getattr(self, f) for f in self.F)]


class Proc(object):
    TEXTS = ("integrity", "user", "process_name", "image_path", "command_line", "company", "version", "description")
    F = ("pid", "parent_pid", "authentication_id", "session", "virtualized", "is_process_64bit") + TEXTS + \
        ("start_time", "end_time")

    def __init__(self, index, **k):
        self.index = index
        self.modules = []
        for f in self.F:
            setattr(self, f, k[f])
        self.modules = k.get("modules", [])

    def expected(self):
        out = []
        for f in self.F:
            v = getattr(self, f)
            out.append(shown(v) if f in self.TEXTS else bool(v) if f == "is_process_64bit" else v)
        return out + [[m.expected() for m in self.modules]]


class Ev(object):
    """kind: generator name; exp: dict with operation, path, category, details (a list of pairs); None = not claimed."""

    def __init__(self, cls, op, details, extra=None, exp=None, kind=""):
        self.cls, self.op, self.details, self.extra, self.exp, self.kind = cls, op, details, extra, exp or {}, kind
        self.pidx = self.tid = self.duration = self.date = self.result = 0
        self.stack = []


class Log(object):
    def __init__(self):
        self.is64 = True
        self.is64_raw = 1
        self.computer = "PC"
        self.root = "C:\\Windows"
        self.os = (10, 0)
        self.build = (18362, 2)
        self.sp = ""
        self.nproc = 4
        self.ram = 8 << 30
        self.procs = []
        self.hosts = []   # (16 bytes, text)
        self.ports = []   # (port, is_tcp, text)
        self.events = []

    def proc(self, index):
        for p in self.procs:
            if p.index == index:
                return p


class Layout(object):
    """How the facts are laid out. All defaults: compact, Procmon's own order, zero noise."""

    def __init__(self, **k):
        self.order = ["events", "offsets", "procs", "strings", "icons"]
        self.gaps = False
        self.noise = False
        self.shuffle_strings = False    # physical order of strings
        self.shuffle_procs = False
        self.shuffle_events = False
        self.dup_strings = False        # repeat equal strings
        self.string_tail = "nul"        # nul | none | junk
        self.extra_mode = "inline"      # inline | far | shared | mixed
        self.base = {}                  # section -> minimum absolute offset (sparse files)
        self.extra_base = None          # absolute offset of the far extra area
        self.hosts_at = None            # place of the host and port names among the sections (None: behind them all)
        self.trailing = 0
        self.jumps = {}                 # table -> unused bytes somewhere between its entries (sparse files)
        self.spread = 0                 # unused bytes before each event and extra block (sparse files)
        self.__dict__.update(k)

    @classmethod
    def random(cls, r, sparse=False):
        k = cls()
        secs = ["events", "offsets", "procs", "strings", "icons"]
        while True:
            r.shuffle(secs)
            if secs.index("offsets") < secs.index("procs"):
                break
        k.order = list(secs)
        k.gaps = r.chance(.6)
        k.noise = r.chance(.8)
        k.shuffle_strings = r.chance(.5)
        k.shuffle_procs = r.chance(.5)
        k.shuffle_events = r.chance(.5)
        k.dup_strings = r.chance(.3)
        k.string_tail = r.choice(["nul", "none", "junk"])
        k.extra_mode = r.choice(["inline", "far", "shared", "mixed"])
        k.trailing = r.choice([0, 0, 1, 7, 64])
        if sparse:
            k.extra_mode = r.choice(["inline", "far", "mixed"])
        return k


class Image(object):
    def __init__(self, segs, size, spans, ev_offsets, ev_spans, extra_spans, sections):
        self.segs, self.size = segs, size
        self.spans = spans              # name -> (start, end) of each section
        self.ev_offsets = ev_offsets    # absolute start of each event record, in log order
        self.ev_spans = ev_spans        # (start, end) of each record
        self.extra_spans = extra_spans  # (start, end) of each event's extra block or None
        self.sections = sections        # header pointers

    def bytes(self):
        buf = bytearray(self.size)
        for o, b in self.segs:
            buf[o:o + len(b)] = b
        return bytes(buf)

    def stream(self, record=True):
        return Stream(self.segs, self.size, record)


def pvoid(is64, v):
    return struct.pack("<Q" if is64 else "<I", v)


def wfield(text, nchars, r, noise):
    """Fixed-width text: cut by the field or NUL-terminated, followed by anything."""
    b = enc(text)
    assert len(b) <= 2 * nchars
    rest = 2 * nchars - len(b)
    if rest >= 2:
        b += b"\0\0" + (r.noise(rest - 2) if noise else b"\0" * (rest - 2))
    return b


def write(log, lay, r):
    nz = (lambda n: r.noise(n)) if lay.noise else (lambda n: b"\0" * n)
    is64 = log.is64
    pv = lambda v: pvoid(is64, v)

    # ---- strings
    strings, index = [], {}

    def sid(text):
        cand = index.get(text)
        if cand is None or (lay.dup_strings and r.chance(.4)):
            strings.append(text)
            index.setdefault(text, []).append(len(strings) - 1)
            cand = index[text]
        return r.choice(cand) if len(cand) > 1 else cand[0]

    if lay.noise and r.chance(.5):
        for _ in range(r.randint(1, 4)):
            strings.append(r.uni())     # strings nobody refers to
    if lay.shuffle_strings:
        every = [getattr(p, f) for p in log.procs for f in Proc.TEXTS] + [
            getattr(m, f) for p in log.procs for m in p.modules for f in ("path", "version", "company", "description")]
        every = list(dict.fromkeys(every))
        r.shuffle(every)
        for t in every:
            sid(t)                      # indexes in any order

    if lay.dup_strings and strings:
        for _ in range(r.randint(0, 3)):
            k = r.randrange(len(strings))
            strings.insert(k, strings[k])   # the same text twice in a row
            for t in index:
                index[t] = [j + (j >= k) for j in index[t]]
            index.setdefault(strings[k], []).append(k)

    # ---- processes
    recs = []
    for p in log.procs:
        b = struct.pack("<III", p.index, p.pid, p.parent_pid) + nz(4)
        b += struct.pack("<QI", p.authentication_id, p.session) + nz(4)
        b += struct.pack("<QQII", p.start_time, p.end_time, p.virtualized, p.is_process_64bit)
        for f in Proc.TEXTS:
            b += struct.pack("<I", sid(getattr(p, f)))
        b += nz(8) + nz(len(pv(0))) + struct.pack("<I", len(p.modules))
        parts = [b]
        for m in p.modules:
            parts.append(nz(len(pv(0))) + pv(m.base_address) + struct.pack(
                "<IIIIII", m.size, sid(m.path), sid(m.version), sid(m.company), sid(m.description), m.timestamp) + nz(0x18))
        recs.append(b"".join(parts))

    def table(blobs, shuffle, pre=b"", jump=0, share=False):
        """count, pre, relative offsets, then blobs in any physical order with gaps: chunks.
        share: equal entries may lie in one place."""
        n = len(blobs)
        head = 4 + len(pre) + 4 * n
        order = list(range(n))
        if shuffle:
            r.shuffle(order)
        offs, out, pos, placed = [0] * n, [], head, {}
        leap = r.randrange(n) if jump and n else -1
        for k, i in enumerate(order):
            if k == leap:
                out.append(("skip", jump))
                pos += jump
            if lay.gaps and r.chance(.3):
                g = nz(r.randint(1, 9))
                out.append(g)
                pos += len(g)
            if share and blobs[i] in placed and r.chance(.6):
                offs[i] = placed[blobs[i]]
                continue
            offs[i] = placed[blobs[i]] = pos
            out.append(blobs[i])
            pos += len(blobs[i])
        return join([struct.pack("<I", n) + pre + struct.pack("<%dI" % n, *offs)] + out)

    def join(chunks):
        """Neighbouring bytes joined, skips kept."""
        out = []
        for is_skip, g in itertools.groupby(chunks, lambda c: isinstance(c, tuple)):
            out += list(g) if is_skip else [b"".join(g)]
        return out

    blobs = []
    for s in strings:
        b = enc(s)
        if lay.string_tail == "nul":
            b += b"\0\0"
        elif lay.string_tail == "junk":
            b += b"\0\0" + nz(2 * r.randint(0, 5))
        blobs.append(struct.pack("<I", len(b)) + b)
    sec = {"strings": table(blobs, lay.shuffle_strings, jump=lay.jumps.get("strings", 0), share=lay.dup_strings),
           "procs": table(recs, lay.shuffle_procs,
                          struct.pack("<%dI" % len(recs), *[p.index for p in log.procs]) if not lay.noise or r.chance(.5)
                          else nz(4 * len(recs)), lay.jumps.get("procs", 0)),
           "icons": struct.pack("<I", 0) + nz(r.randint(0, 40) if lay.noise else 0)}

    # ---- events: records first, extra blocks placed after
    n = len(log.events)
    phys = list(range(n))
    if lay.shuffle_events:
        r.shuffle(phys)
    rel = [0] * n
    rec_len = [0] * n
    extra_rel = [None] * n              # relative to the events section, or absolute for far-away blocks
    chunks, pos = [], 0
    far = []
    shared = {}
    for i in phys:
        e = log.events[i]
        if lay.gaps and r.chance(.3):
            g = nz(r.randint(1, 16))
            chunks.append(g)
            pos += len(g)
        if lay.spread:
            chunks.append(("skip", lay.spread))
            pos += lay.spread
        rel[i] = pos
        ln = EVENT_FIXED + len(pv(0)) * len(e.stack) + len(e.details)
        rec_len[i] = ln
        chunks.append(i)
        pos += ln
        if e.extra is not None:
            mode = lay.extra_mode if lay.extra_mode != "mixed" else r.choice(["inline", "far", "shared"])
            if lay.extra_base is not None and mode == "shared":
                mode = "far"
            if mode == "inline":
                if lay.gaps and r.chance(.3):
                    g = nz(r.randint(1, 12))
                    chunks.append(g)
                    pos += len(g)
                extra_rel[i] = pos
                b = struct.pack("<H", len(e.extra)) + e.extra
                chunks.append(b)
                pos += len(b)
            else:
                far.append((i, mode))
    far_abs = {}
    if far and lay.extra_base is None:
        r.shuffle(far)
        for i, mode in far:
            ex = log.events[i].extra
            if mode == "shared" and ex in shared:
                extra_rel[i] = shared[ex]
                continue
            if lay.gaps and r.chance(.4):
                g = nz(r.randint(1, 30))
                chunks.append(g)
                pos += len(g)
            if lay.spread:
                chunks.append(("skip", lay.spread))
                pos += lay.spread
            extra_rel[i] = shared[ex] = pos
            b = struct.pack("<H", len(ex)) + ex
            chunks.append(b)
            pos += len(b)
    ev_len = pos
    if n == 0:
        chunks.append(nz(4))
        ev_len = 4

    # ---- place sections
    hp = [struct.pack("<I", len(log.hosts))]
    for ip, name in log.hosts:
        b = enc(name) + (b"" if lay.string_tail == "none" else b"\0\0") + (
            nz(2 * (r.randint(0, 3) if not r.chance(.004) else r.choice([2000, 33000, 70000]))) if lay.string_tail == "junk" else b"")
        hp.append(ip + struct.pack("<I", len(b)) + b)
    hp.append(struct.pack("<I", len(log.ports)))
    for port, tcp, name in log.ports:
        b = enc(name) + (b"" if lay.string_tail == "none" else b"\0\0") + (nz(2 * r.randint(0, 2)) if lay.string_tail == "junk" else b"")
        hp.append(struct.pack("<HHI", port, (r.choice([1, 1, 2, 0xffff]) if lay.noise else 1) if tcp else 0, len(b)) + b)
    hp = b"".join(hp)
    sec["hosts"] = hp
    start, spans, segs = {}, {}, []
    cur = HEADER
    order = list(lay.order)
    if lay.hosts_at is not None:
        order.insert(lay.hosts_at, "hosts")
    for s in order:
        if lay.gaps:
            cur += r.choice([0, 1, 3, 8, 40])
        cur = max(cur, lay.base.get(s, 0))
        start[s] = cur
        ln = {"events": ev_len, "offsets": 5 * n}.get(s)
        if ln is None:
            ln = len(sec[s]) if isinstance(sec[s], bytes) else sum(c[1] if isinstance(c, tuple) else len(c) for c in sec[s])
        spans[s] = (cur, cur + ln)
        cur += ln
    if lay.gaps:
        cur += r.choice([0, 1, 5, 33])
    for i, mode in (far if lay.extra_base is not None else []):
        a = max(lay.extra_base, cur)
        far_abs[i] = a
        b = struct.pack("<H", len(log.events[i].extra)) + log.events[i].extra
        segs.append((a, b))
        cur = a + len(b)
    if lay.hosts_at is None:
        cur = max(cur, lay.base.get("hosts", 0))
        start["hosts"] = cur
        spans["hosts"] = (cur, cur + len(hp))
        cur += len(hp)
    tail = nz(lay.trailing)
    cur += len(tail)

    # ---- event records
    ev_offsets = [start["events"] + o for o in rel]
    out = []
    extra_spans = [None] * n
    p, seg_at = 0, start["events"]
    for c in chunks:
        if isinstance(c, bytes):
            out.append(c)
            p += len(c)
            continue
        if isinstance(c, tuple):
            segs.append((seg_at, b"".join(out)))
            seg_at += len(segs[-1][1]) + c[1]
            out = []
            continue
        e = log.events[c]
        a = ev_offsets[c]
        xo = 0
        if e.extra is not None:
            xa = far_abs[c] if c in far_abs else start["events"] + extra_rel[c]
            xo = xa - a
            extra_spans[c] = (xa, xa + 2 + len(e.extra))
            assert 0 < xo < 1 << 32, xo
        out.append(struct.pack("<IIIH", e.pidx, e.tid, e.cls, e.op) + nz(6) + struct.pack(
            "<QQIH", e.duration, e.date, e.result, len(e.stack)) + nz(2) + struct.pack("<II", len(e.details), xo))
        out.append(struct.pack("<%d%s" % (len(e.stack), "Q" if is64 else "I"), *e.stack))
        out.append(e.details)
    sec["events"] = b"".join(out)
    assert seg_at + len(sec["events"]) == start["events"] + ev_len
    if ev_offsets:
        assert max(ev_offsets) < 1 << 32
    if lay.noise:
        sec["offsets"] = b"".join(struct.pack("<IB", o, r.getrandbits(8)) for o in ev_offsets)
    else:
        sec["offsets"] = b"".join(struct.pack("<IB", o, 0) for o in ev_offsets)

    # ---- header
    sys_bits = log.is64_raw
    h = b"PML_" + struct.pack("<II", 9, sys_bits)
    h += wfield(log.computer, 16, r, lay.noise) + wfield(log.root, 0x104, r, lay.noise)
    h += struct.pack("<I", n) + nz(8)
    h += struct.pack("<QQQQQ", start["events"], start["offsets"], start["procs"], start["strings"], start["icons"])
    h += nz(12) + struct.pack("<IIII", log.os[0], log.os[1], log.build[0], log.build[1])
    h += wfield(log.sp, 0x100 // 2, r, lay.noise) + nz(8)
    h += struct.pack("<IQQQ", log.nproc, log.ram, HEADER, start["hosts"])
    assert len(h) == HEADER, hex(len(h))
    segs.append((0, h))
    for s in lay.order:
        at = seg_at if s == "events" else start[s]
        for c in [sec[s]] if isinstance(sec[s], bytes) else sec[s]:
            if isinstance(c, tuple):
                at += c[1]
            else:
                segs.append((at, c))
                at += len(c)
    segs.append((start["hosts"], hp))
    segs.append((cur - len(tail), tail))
    if lay.gaps and not lay.base and lay.extra_base is None and lay.noise and not lay.spread and not lay.jumps:
        # unreferenced bytes between the sections
        used = sorted((o, o + len(b)) for o, b in segs)
        prev = 0
        for a, b in used:
            if a > prev:
                segs.append((prev, r.randbytes(a - prev)))
            prev = max(prev, b)
    return Image(segs, cur, spans, ev_offsets, [(a, a + l) for a, l in zip(ev_offsets, rec_len)], extra_spans, start)


# ------------------------------------------------------------------ snapshots of what the library returned
def snap_mod(m):
    return [getattr(m, f) for f in Mod.F]


def snap_proc(p):
    return [getattr(p, f) for f in Proc.F] + [[snap_mod(m) for m in p.modules]]


def snap_event(e, proc=True):
    """A deep, detached copy of everything observable of an event."""
    d = e.details
    return [snap_proc(e.process) if proc else None, e.tid, int(e.event_class), e.operation, e.duration, e.date_filetime,
            e.result, list(e.stacktrace), e.path, e.category,
            [(k, list(v) if isinstance(v, list) else v) for k, v in (d.items() if d else [])]]


SNAP = ("process", "tid", "event class", "operation", "duration", "date", "result", "stack", "path", "category", "details")
CLASS_NAMES = {v: k for k, v in T.EVENT_CLASSES.items()}


def check_common(ctx, log, ev, e, stack=True):
    """The common columns of one event against the facts."""
    eq = ctx.eq
    k = {"event": ev.kind}
    eq("process", snap_proc(e.process)[:-1], log.procmap[ev.pidx][:-1], **k)
    eq("thread id", e.tid, ev.tid, **k)
    eq("event class", int(e.event_class), ev.cls, **k)
    eq("event class name", e.event_class.name, T.EVENT_CLASSES[ev.cls], **k)
    eq("duration", e.duration, ev.duration, **k)
    eq("capture time", e.date_filetime, ev.date, **k)
    eq("result", e.result, ev.result, **k)
    if stack:
        eq("stack trace", list(e.stacktrace), ev.stack, **k)


def check_specific(ctx, ev, e, want=("operation", "path", "category", "details")):
    """Operation, path, category and details of one event against the facts; entries that are None are not claimed."""
    x = ev.exp
    for f in want:
        w = x.get(f)
        if w is None:
            continue
        if f == "details":
            got = list(e.details.items())
            if any(v is UNCLAIMED for _, v in w):
                got = [(k, UNCLAIMED if j < len(w) and w[j][1] is UNCLAIMED else v) for j, (k, v) in enumerate(got)]
            ctx.evaluations += 1
            if len(got) != len(w) or not all(a[0] == b[0] and (a[1] is b[1] is UNCLAIMED or _same(a[1], b[1]))
                                             for a, b in zip(got, w)):
                from vlib.monitor import short
                diff = next((i for i, (a, b) in enumerate(zip(got, w)) if not (a[0] == b[0] and _same(a[1], b[1]))),
                            min(len(got), len(w)))
                ctx.fail("details: entry %d: got %s, expected %s" % (
                    diff, short(got[diff:diff + 2], 800), short(w[diff:diff + 2], 800)), event=ev.kind, op=e.operation,
                    got_len=len(got), want_len=len(w))
        else:
            ctx.eq(f, getattr(e, f), w, event=ev.kind, op=e.operation)


class _Unclaimed(object):
    def __repr__(self):
        return "<unclaimed>"


UNCLAIMED = _Unclaimed()


def _same(a, b):
    from vlib.monitor import same
    return same(a, b)


import contextlib
import os
import shutil
import tempfile


@contextlib.contextmanager
def short_dir():
    """A scratch directory that is removed again."""
    d = tempfile.mkdtemp(prefix="verif-", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
