"""P01-P06, P10, P23: whole logs."""
import copy
import gc
import io
import itertools
import os
import pathlib
import struct
import zlib
from fractions import Fraction

from vlib import evgen, pml, tables as T
from vlib.monitor import check, same, REPO
from vlib.pml import Layout, check_common, check_specific, short_dir, snap_event, snap_proc, write
from vlib.streams import Stream
from vlib.text16 import shown

import procmon_parser as pp

ALL_GENS = list(evgen.GENS)


# ------------------------------------------------------------------ helpers
def cover_log(ctx, log):
    ctx.cover("64-bit" if log.is64 else "32-bit")
    for e in log.events:
        ctx.cover("class:" + T.EVENT_CLASSES[e.cls])
    ctx.distinct(log.is64, len(log.procs), [(e.kind, len(e.details), len(e.stack), e.date) for e in log.events])


def check_event(ctx, log, ev, e, stack=True):
    check_common(ctx, log, ev, e, stack)
    check_specific(ctx, ev, e)


def check_processes(ctx, log, procs):
    ctx.eq("number of processes", len(procs), len(log.procs))
    for p, x in zip(procs, log.procs):
        got, want = snap_proc(p), x.expected()
        if not same(got, want):
            for f, a, b in zip(x.F, got, want):
                ctx.eq("process " + f, a, b, index=x.index)
            ctx.eq("number of modules", len(got[-1]), len(want[-1]))
            for k, (a, b) in enumerate(zip(got[-1], want[-1])):
                for f, y, w in zip(pml.Mod.F, a, b):
                    ctx.eq("module %s" % f, y, w, module=k)
            ctx.fail("process differs", got=got, want=want)
        ctx.ok(len(got) + 7 * len(x.modules))


OS = {(6, 0): "Windows Vista", (6, 1): "Windows 7", (6, 2): "Windows 8", (6, 3): "Windows 8.1", (10, 0): "Windows 10"}


def check_system(ctx, log, d):
    sp = shown(log.sp)
    ctx.eq("computer name", d["Computer Name"], shown(log.computer))
    ctx.eq("system root", d["System Root"], shown(log.root))
    ctx.eq("operating system", d["Operating System"],
           OS[log.os] + (", " + sp if sp else "") + " (build %d.%d)" % log.build)
    ctx.eq("logical processors", d["Logical Processors"], log.nproc)
    ctx.eq("system type", d["System Type"], "64-bit" if log.is64 else "32-bit")
    ram = d["Memory (RAM)"]
    ctx.true("memory is given in GB", ram.endswith(" GB"), ram=ram)
    cut = log.ram * 100 // (1 << 30)
    try:
        ok = float(ram[:-3]) == float(Fraction(cut, 100))
    except ValueError:
        ok = False
    ctx.true("memory is the recorded amount cut to two decimals", ok, got=ram, recorded=log.ram, hundredths=cut)


def check_all(ctx, log, reader):
    ctx.eq("length", len(reader), len(log.events))
    for i, ev in enumerate(log.events):
        check_event(ctx, log, ev, reader[i])
    check_processes(ctx, log, reader.processes())
    check_system(ctx, log, reader.system_details())


def snap_reader(reader, events=True):
    return [len(reader), [snap_event(e) for e in reader] if events else [], [snap_proc(p) for p in reader.processes()],
            sorted(reader.system_details().items())]


def simple_log(r, n, is64=None):
    """n cheap events with distinct capture times."""
    log = evgen.base_log(r, nproc=2, nmod=1, is64=is64)
    t0 = r.filetime()
    for i in range(n):
        e = evgen.thread_create(r, log, {"newtid": i})
        e.pidx, e.tid, e.date, e.duration, e.result = log.procs[i % 2].index, i, t0 + i, i, 0
        log.events.append(e)
    return log


CORPORA = ["CompressedLogFileUTC32FilesystemPML", "CompressedLogFileUTC64FilesystemPML", "CompressedLogFileUTC64ProcessPML",
           "CompressedLogFileUTC64RegistryPML", "CompressedLogfileTests32bitUTCPML", "CompressedLogfileTests64bitUTCPML"]


def corpus(name):
    with open(os.path.join(REPO, "tests", "resources", name), "rb") as f:
        return zlib.decompress(f.read())


# ------------------------------------------------------------------ P01
def model_op(r, n):
    """A random access and its meaning on a list of n."""
    k = r.random()
    if k < .35:
        return ("next",)
    if r.INTS and k < .42 and r.chance(.5):
        h = r.hint(-n - 2, n + 2)
        return ("index", h) if h is not None else ("slice", slice(h, r.hint(-n - 2, n + 2), r.choice([None, -1, 2])))
    if k < .42:
        return ("len",)
    if k < .62:
        return ("index", r.choice([0, -1, n - 1, -n, n, -n - 1, n + 1, -n - 2, r.randint(-2 * n - 2, 2 * n + 2), 1 << 31, 1 << 32,
                                   -(1 << 31), -(1 << 32), 1 << 70, True, False]))
    if k < .88:
        def b():
            return r.choice([None, None, 0, -1, 1, n, -n, n + 3, -n - 3, 1 << 40, -(1 << 40), r.randint(-n - 2, n + 2)])
        st = r.choice([None, None, None, 1, 2, -1, -2, n + 1, -n - 1, 3, 0])
        return ("slice", slice(b(), b(), st))
    if k < .94:
        return ("bad", r.choice([None, "0", 1.0, 0.5, b"0", (0,), [0], {}, object(), "x"]))
    return ("iter",)


@check("P01", 2500, 12000,
       "a case applies 60 random next/len/index/slice operations to a reader of a log of 0..40 or of more than 65,536 events, and "
       "reads it whole in four ways; distinct by log and operations",
       ["next", "len", "index", "slice", "bad", "iter", "events:0", "events:1", "events:many", "events:>65536", "read path",
        "read stream", "exhausted", "zero step", "out of range", "equal events"], alarm=120)
def p01(ctx, i, r):
    if i == 0 or (ctx.thorough and i in (1, 2, 3)):
        return p01_big(ctx, i, r)
    n = r.many([0, 0, 1, 1, 2, 3, 5, 8, 20, 40], 5000)
    log = simple_log(r, n) if r.chance(.3) or n == 0 else evgen.make_log(r, n)
    ctx.cover("events:0" if n == 0 else "events:1" if n == 1 else "events:many")
    if n > 1 and r.chance(.3):
        for _ in range(r.choice([1, 1, 2, n])):     # events that are the same in everything
            k = r.randrange(n - 1)
            log.events[k + 1] = copy.copy(log.events[k])
        ctx.cover("equal events")
    img = write(log, Layout.random(r), r)
    data = img.bytes()
    want = [e.date for e in log.events]
    reader = pp.ProcmonLogsReader(io.BytesIO(data))
    cur = 0
    ops = []
    for _ in range(60):
        op = model_op(r, n)
        ops.append(op)
        ctx.cover(op[0])
        if op[0] == "next":
            if cur < n:
                ctx.eq("next event", next(reader).date_filetime, want[cur], at=cur, of=n)
                cur += 1
            else:
                ctx.cover("exhausted")
                ctx.raises("next after the last event", StopIteration, next, reader)
        elif op[0] == "len":
            ctx.eq("length", len(reader), n)
        elif op[0] == "index":
            ix = op[1]
            try:
                w = want[ix]
            except IndexError:
                ctx.cover("out of range")
                ctx.raises("index %d of %d events" % (ix, n), IndexError, lambda: reader[ix])
            else:
                ctx.eq("event at an index", reader[ix].date_filetime, w, index=ix, of=n)
        elif op[0] == "slice":
            try:
                w = want[op[1]]
            except ValueError:
                ctx.cover("zero step")
                ctx.raises("slice with step zero", ValueError, lambda: reader[op[1]])
            else:
                got = reader[op[1]]
                ctx.true("a slice gives a list", isinstance(got, list))
                ctx.eq("events of %r" % (op[1],), [e.date_filetime for e in got], w, of=n)
        elif op[0] == "bad":
            ctx.raises("index %r" % (op[1],), TypeError, lambda: reader[op[1]])
        else:
            it = iter(reader)
            if cur < n and r.chance(.5):
                ctx.eq("first event of iter()", next(it).date_filetime, want[cur] if it is reader else want[0])
                if it is reader:
                    cur += 1
    ctx.distinct(n, log.is64, ops)
    # the rest of the iteration
    ctx.eq("rest of the iteration", [e.date_filetime for e in reader], want[cur:])
    ctx.eq("iteration stays exhausted", [e.date_filetime for e in reader], [])
    ctx.cover("exhausted")
    whole(ctx, r, data, want, log)
    if i < 3:
        ctx.sample({"events": n, "operations": [str(o) for o in ops[:12]]})


def whole(ctx, r, data, want, log=None):
    with short_dir() as d:
        p = os.path.join(d, r.choice(["log.pml", "l\u00f6g {0}.PML", "x"]))
        with open(p, "wb") as f:
            f.write(data)
        for path in (p, pathlib.Path(p)):
            got = pp.read_all_events_from_pml(path) if hasattr(pp, "read_all_events_from_pml") else None
            ctx.true("reading from a path gives a list", isinstance(got, list))
            ctx.eq("events read from a path", [e.date_filetime for e in got], want)
        ctx.cover("read path")
        with open(p, "rb") as f:
            ctx.eq("events read from a file", [e.date_filetime for e in pp.read_all_events_from_pml(f)], want)
            ctx.true("the file is left open", not f.closed)
        with open(p, "rb") as f:
            ctx.eq("events iterated from a file", [e.date_filetime for e in pp.ProcmonLogsReader(f)], want)
    s = Stream(data, record=False)
    got = pp.read_all_events_from_pml(s)
    ctx.cover("read stream")
    ctx.eq("events read from a stream", [e.date_filetime for e in got], want)
    ctx.eq("stream left alone", s.mutations, [])
    if log is not None:
        ctx.eq("list of a reader", [e.date_filetime for e in list(pp.ProcmonLogsReader(io.BytesIO(data)))], want)
        for ev, e in zip(log.events, got):
            check_event(ctx, log, ev, e)


def p01_big(ctx, i, r):
    n = 65536 + r.choice([1, 2, 1000])
    log = simple_log(r, n)
    ctx.cover("events:>65536")
    data = write(log, Layout(), r).bytes()
    want = [e.date for e in log.events]
    reader = pp.ProcmonLogsReader(io.BytesIO(data))
    ctx.eq("length", len(reader), n)
    for k in (0, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, n - 1, -1, -n):
        ctx.eq("event at an index", reader[k].date_filetime, want[k], index=k)
    ctx.raises("index at the end", IndexError, lambda: reader[n])
    sl = slice(r.randrange(n), None, r.choice([997, -1009, 4099]))
    ctx.eq("events of a slice", [e.date_filetime for e in reader[sl]], want[sl])
    ctx.eq("all events", [e.date_filetime for e in reader], want)
    ctx.distinct("big", n, r.random())


# ------------------------------------------------------------------ P02
def other_end(s):
    """A text of as many UTF-16 units that differs."""
    if not s:
        return s
    a, b = ("\U0001f600", "\U0001f601") if s[-1] > "\uffff" else ("x", "y")
    return s[:-1] + (a if s[-1] != a else b)


def twins(r, n):
    """Two logs alike but for one or two facts that take the same space."""
    a = evgen.base_log(r)
    b = copy.deepcopy(a)
    for _ in range(r.choice([1, 1, 2])):
        k = r.choice(["host", "host", "port", "port", "text", "text", "module", "pid", "header", "order"])
        if k == "host" and b.hosts:
            j = r.randrange(len(b.hosts))
            b.hosts[j] = (b.hosts[j][0], other_end(b.hosts[j][1]))
        elif k == "port" and b.ports:
            j = r.randrange(len(b.ports))
            b.ports[j] = b.ports[j][:2] + (other_end(b.ports[j][2]),)
        elif k == "text":
            p, f = r.choice(b.procs), r.choice(pml.Proc.TEXTS)
            setattr(p, f, other_end(getattr(p, f)))
        elif k == "module" and any(p.modules for p in b.procs):
            m = r.choice(r.choice([p.modules for p in b.procs if p.modules]))
            m.base_address ^= 0x10000
        elif k == "header":
            b.computer, b.root = other_end(b.computer), other_end(b.root)
        elif k == "order":
            b.procs.reverse()
        else:
            r.choice(b.procs).pid ^= 4
    evgen.settle_log(b)
    state = r.mark()
    for log in (a, b):
        r.rewind(state)
        for _ in range(n):
            log.events.append(evgen.finish(r, log, r.choice(evgen.GENS["network"] if r.chance(.4) else evgen.ALL)(r, log, {})))
    if r.chance(.5):
        e = r.choice(b.events)
        e.result, e.duration = e.result ^ 1, e.duration ^ 1
    return [a, b] if r.chance(.5) else [b, a]


def in_turn(ctx, r, n, look):
    """Twins read one after another, each from a new stream when the one before is gone (and its place in memory is free again)."""
    logs = twins(r, n)
    lay, state = Layout.random(r), r.mark()
    datas = []
    for log in logs:
        r.rewind(state)
        datas.append(write(log, lay, r).bytes())
    make = r.choice([io.BytesIO, lambda b: Stream(b, record=False)])
    for k in range(8):
        s = make(datas[k % 2])
        reader = pp.ProcmonLogsReader(s)
        look(logs[k % 2], reader)
        s = reader = None
        gc.collect()
    ctx.cover("in turn")


def apart(ctx, r):
    """Processes with equal modules or equal in everything: changing one changes no other, nor what another reader gives."""
    log = evgen.make_log(r, 2, nproc=r.choice([2, 3, 5]), nmod=r.choice([1, 2, 3]))
    first = r.choice(log.procs)
    for q in log.procs:
        if r.chance(.6):
            q.modules = copy.deepcopy(first.modules)
        if q.modules and r.chance(.2):
            q.modules.append(copy.deepcopy(q.modules[0]))
        if r.chance(.2):
            for f in pml.Proc.TEXTS:
                setattr(q, f, getattr(first, f))
    data = write(log, Layout.random(r), r).bytes()
    readers = [pp.ProcmonLogsReader(Stream(data, record=False)) for _ in range(2)]
    all_of = [list(x.processes()) for x in readers]
    before = [[snap_proc(q) for q in ps] for ps in all_of]
    k = r.randrange(len(all_of[0]))
    hit = all_of[0][k]
    for m in hit.modules[:1 if r.chance(.5) else None]:
        m.base_address, m.path, m.size = -1, "junk", -1
    for f in ("pid", "user", "image_path", "command_line", "start_time"):
        if r.chance(.5):
            setattr(hit, f, None)
    r.choice([hit.modules.clear, hit.modules.reverse, lambda: hit.modules.append("junk"), lambda: None])()
    for n in range(2):
        for j, q in enumerate(all_of[n]):
            if (n, j) != (0, k):
                ctx.eq("a process after another one was changed", snap_proc(q), before[n][j])
    one = hit.modules
    if len(one) > 1 and all(hasattr(m, "path") for m in one):
        was = [m.path for m in one]
        one[0].path = "other"
        ctx.eq("modules of a process after the first was changed", [m.path for m in one[1:]], was[1:])
    ctx.cover("one of several processes changed")


def wreck(r, x):
    """Change a returned object in every way a caller may."""
    if isinstance(x, list):
        r.choice([x.clear, x.reverse, lambda: x.append("junk"), lambda: x.extend([1, 2])])()
    elif isinstance(x, dict):
        for v in list(x.values()):
            if isinstance(v, list):
                v.append("junk")
                v[:1] = []
        for k in list(x)[:2]:
            x[k] = "junk"
        r.choice([x.clear, lambda: x.update(junk=1)])()
    else:
        wreck(r, x.details)
        wreck(r, x.stacktrace)
        for f in ("tid", "operation", "duration", "date_filetime", "result", "category", "path", "details", "stacktrace",
                  "process", "event_class"):
            if r.chance(.5):
                setattr(x, f, None)


@check("P02", 3000, 12000,
       "a case runs 80 reads through several readers of two logs, some failing, with the stream moved and results changed in between; "
       "distinct by logs and history",
       ["reread", "failed read", "stream moved", "event changed", "processes changed", "system changed", "shared stream",
        "in turn", "other bitness", "twins", "equal events", "iterate", "one of several changed",
        "one of several processes changed"])
def p02(ctx, i, r):
    if i % 10 == 4:
        apart(ctx, r)
    if i % 40 == 3:
        in_turn(ctx, r, 3, lambda log, reader: check_all(ctx, log, reader))
    state, twin = None, r.chance(.3)
    if twin:
        logs = twins(r, r.choice([2, 4, 8]))
        ctx.cover("twins")
    else:
        logs = [evgen.make_log(r, max(2, r.many([2, 4, 8], 2000)), is64=b) for b in r.sample([True, False], 2)]
        ctx.cover("other bitness")
    readers = []
    for log in logs:
        cover_log(ctx, log)
        if r.chance(.2):
            log.events.append(copy.copy(r.choice(log.events)))
            ctx.cover("equal events")
        if state is None or not twin:
            lay = Layout.random(r)
            state = r.mark()
        else:
            r.rewind(state)           # the twin lies in its file as the first does
        img = write(log, lay, r)
        data = bytearray(img.bytes())
        bad = set()
        if r.chance(.6):
            # one event that cannot be read
            k = r.randrange(len(log.events))
            shared = any(s and j != k and overlap(s, img.ev_spans[k]) for j, s in enumerate(img.extra_spans))
            if not shared:
                struct.pack_into(*r.choice([("<I", data, img.ev_offsets[k] + 8, 77), ("<H", data, img.ev_offsets[k] + 12, 60000),
                                            ("<I", data, img.ev_offsets[k], unknown_index(log))]))
                bad.add(k)
        s = Stream(bytes(data), record=False)
        for j in range(r.choice([1, 2, 3])):
            s.seek(0)
            opts = (True, True) if j == 0 else (r.chance(.5), r.chance(.5))
            readers.append([pp.ProcmonLogsReader(s, *opts), log, s, bad, opts, 0])
        if j:
            ctx.cover("shared stream")
    seen = {}
    for _ in range(80):
        q = r.choice(readers)
        reader, log, s, bad, opts, cur = q
        k = r.random()
        if k < .12:
            s.seek(r.randrange(s.size + 50))
            ctx.cover("stream moved")
        elif k < .2:
            check_processes(ctx, log, reader.processes())
            wreck(r, reader.processes())
            ctx.cover("processes changed")
            check_processes(ctx, log, reader.processes())
        elif k < .22:
            n = r.randrange(len(log.events))
            if set(range(n, min(n + 4, len(log.events)))) & bad:
                continue
            es = reader[n:n + 4] if r.chance(.5) else [reader[m] for m in range(n, min(n + 4, len(log.events)))]
            snaps = [snap_event(e) for e in es]
            m = r.randrange(len(es))
            scar(es[m])
            for x in range(len(es)):
                if x != m:
                    ctx.eq("an event when another one is changed", snap_event(es[x]), snaps[x])
                    ctx.cover("one of several changed")
        elif k < .28:
            d = reader.system_details()
            check_system(ctx, log, d)
            d.clear()
            ctx.cover("system changed")
            check_system(ctx, log, reader.system_details())
        else:
            if k < .5 and cur < len(log.events):
                n = cur
                q[5] += 1
                get = lambda: next(reader)
                ctx.cover("iterate")
            else:
                n = r.randrange(len(log.events))
                get = r.choice([lambda: reader[n], lambda: reader[n - len(log.events)], lambda: reader[n:n + 1][0]])
            if n in bad:
                ctx.cover("failed read")
                ctx.raises("reading an unreadable event", Exception, get)
                continue
            e = get()
            check_common(ctx, log, log.events[n], e, opts[0])
            if opts[1]:
                check_specific(ctx, log.events[n], e)
            key = (id(reader), n)
            snap = snap_event(e)
            if key in seen:
                ctx.cover("reread")
                ctx.eq("an event read again", snap, seen[key])
            seen[key] = snap
            if r.chance(.3):
                wreck(r, e)
                ctx.cover("event changed")


def scar(e):
    """Change every part of an event that can be changed in place."""
    for v in list(e.details.values()):
        if isinstance(v, list):
            v.append("scar")
    e.details["scar"] = 1
    e.stacktrace.append("scar")


def overlap(a, b):
    return a[0] < b[1] and b[0] < a[1]


def unknown_index(log):
    v = 0xfffffff0
    while any(p.index == v for p in log.procs):
        v -= 1
    return v


# ------------------------------------------------------------------ P03
@check("P03", 6000, 40000,
       "a case reads a log of 1..12 events with boundary-biased common columns; distinct by log",
       ["64-bit", "32-bit"] + ["class:" + T.EVENT_CLASSES[c] for c in
                               (evgen.PROC, evgen.REG, evgen.FS, evgen.PROF, evgen.NET)] +
       ["stack:0", "stack:1", "stack:>255", "stack:65535", "result:>2^31", "duration:>2^32", "indexes unordered", "unsupported details"])
def p03(ctx, i, r):
    log = evgen.make_log(r)
    for e in log.events:
        k = r.random()
        n = 65535 if i % 400 == 7 else 256 + r.randrange(600) if k < .05 else 1 if k < .2 else len(e.stack)
        if n != len(e.stack):
            e.stack = [(r.u64() if log.is64 else r.u32()) for _ in range(n)]
        if r.chance(.4):
            e.tid, e.result, e.duration, e.date = r.u32(), r.u32(), r.u64(), r.u64()
        elif r.chance(.2):
            # each field's bytes distinct, so that no two can be mixed up
            b = r.sample(range(1, 256), 24)
            e.tid, e.result = struct.unpack("<II", bytes(b[:8]))
            e.duration, e.date = struct.unpack("<QQ", bytes(b[8:]))
        evgen.settle(e)
        ctx.cover("stack:0" if n == 0 else "stack:1" if n == 1 else "stack:65535" if n == 65535 else "stack:>255" if n > 255 else "stack")
        if e.result >> 31:
            ctx.cover("result:>2^31")
        if e.duration >> 32:
            ctx.cover("duration:>2^32")
        if e.exp.get("details") is None:
            ctx.cover("unsupported details")
    if [p.index for p in log.procs] != sorted(p.index for p in log.procs):
        ctx.cover("indexes unordered")
    cover_log(ctx, log)
    img = write(log, Layout.random(r), r)
    reader = pp.ProcmonLogsReader(img.stream(False))
    got = list(reader) if r.chance(.5) else [reader[k] for k in range(len(log.events))]
    for ev, e in zip(log.events, got):
        check_common(ctx, log, ev, e)
        check_specific(ctx, ev, e, ("operation",))
    ctx.eq("number of events", len(got), len(log.events))
    if i < 3:
        ctx.sample({"events": [(e.kind, e.tid, e.result, len(e.stack)) for e in log.events]})


# ------------------------------------------------------------------ P04
@check("P04", 1350, 20000,
       "a case reads the process table of a log of 0..20 processes, some cases thousands, with shared, empty and long texts; distinct by table",
       ["processes:0", "processes:1", "processes:many", "processes:>1000", "processes:>65536", "modules:0", "modules:>256", "modules:>65536", "strings:>65536", "texts:>65536 bytes", "64-bit",
        "32-bit", "in turn", "texts:shared", "texts:empty", "texts:repeated", "modules:repeated", "processes:equal", "index:sparse", "table order"], alarm=120)
def p04(ctx, i, r):
    if i % 20 == 10:
        in_turn(ctx, r, 1, lambda log, reader: check_processes(ctx, log, reader.processes()))
    if i == 0:
        log = evgen.base_log(r, nproc=1500, nmod=0)
    elif i == 1:
        log = evgen.base_log(r, nproc=2, nmod=400)
    elif i == 2:
        log = evgen.base_log(r, nproc=1, nmod=3)
        for k in range(17000):
            m = pml.Mod(k, k, "p%d" % k, "v%d" % k, "c%d" % k, "d%d" % k, k)
            log.procs[0].modules.append(m)
        evgen.settle_log(log)
        ctx.cover("strings:>65536")
    elif i == 3:
        log = evgen.base_log(r, nproc=0)
    elif i == 6:
        log = evgen.base_log(r, nproc=1, nmod=2)
        one = log.procs[0]
        for k in range(66000):          # more processes than 16 bits count
            p = pml.Proc(one.index + 1 + k * 3, **{f: getattr(one, f) for f in pml.Proc.F})
            p.pid, p.user = k * 7, "user %d" % (k % 1000)
            log.procs.append(p)
        evgen.settle_log(log)
        ctx.cover("processes:>65536")
    elif i == 9:
        log = evgen.base_log(r, nproc=2, nmod=1)
        one = log.procs[0].modules[0]
        for k in range(66000):          # more modules than 16 bits count
            log.procs[0].modules.append(pml.Mod(k << 12, k, one.path, one.version, "company %d" % (k % 50), one.description, k))
        evgen.settle_log(log)
        ctx.cover("modules:>65536")
    elif i in (7, 8) or r.chance(.004):
        log = evgen.base_log(r, nproc=2, nmod=1)
        for f in log.procs[0].TEXTS:    # texts longer than 16 bits count
            setattr(log.procs[0], f, (r.uni(1) + r.word(3)) * r.choice([8191, 8192, 16384, 16385, 17000, 33000]) + r.word())
        log.procs[1].modules[0].path = "\u4e2d" * r.choice([32767, 32768, 65535, 65536, 100000])
        evgen.settle_log(log)
        ctx.cover("texts:>65536 bytes")
    else:
        log = evgen.base_log(r, nproc=r.choice([0, 1, 2, 3, 8, 20]))
    for p in log.procs:
        t = [getattr(p, f) for f in p.TEXTS]
        if "" in t:
            ctx.cover("texts:empty")
        if len(set(t)) < len(t):
            ctx.cover("texts:shared")
        ctx.cover("modules:0" if not p.modules else "modules:>256" if len(p.modules) > 256 else "modules")
    if len(log.procs) > 1 and r.chance(.3):
        # the same program twice, differing in one attribute
        a, b = log.procs[0], log.procs[1]
        keep = r.choice(a.F)
        for f in a.F:
            if f != keep:
                setattr(b, f, getattr(a, f))
        evgen.settle_log(log)
        ctx.cover("texts:repeated")
    for p in log.procs[:20]:
        if p.modules and r.chance(.3):
            # the same module again, next to itself or elsewhere, in all or in all but one
            for _ in range(r.choice([1, 1, 2])):
                k = r.randrange(len(p.modules))
                m = copy.copy(p.modules[k])
                if r.chance(.4):
                    f = r.choice(sorted(vars(m)))
                    v = getattr(m, f)
                    setattr(m, f, v ^ 1 if isinstance(v, int) else v + "x")
                p.modules.insert(k + 1 if r.chance(.6) else r.randrange(len(p.modules) + 1), m)
            ctx.cover("modules:repeated")
        if len(log.procs) > 1 and r.chance(.1):
            p.modules = [copy.copy(m) for m in r.choice(log.procs[:20]).modules]
    evgen.settle_log(log)
    if len(log.procs) > 1 and r.chance(.1):
        k = r.randrange(len(log.procs) - 1)
        for f in pml.Proc.F:
            setattr(log.procs[k + 1], f, getattr(log.procs[k], f))
        evgen.settle_log(log)
        ctx.cover("processes:equal")
    idx = [p.index for p in log.procs]
    if idx != sorted(idx):
        ctx.cover("table order")
    if idx and max(idx) > len(idx):
        ctx.cover("index:sparse")
    n = len(log.procs)
    ctx.cover("processes:0" if n == 0 else "processes:1" if n == 1 else "processes:>1000" if n > 1000 else "processes:many")
    ctx.cover("64-bit" if log.is64 else "32-bit")
    for p in log.procs[:30]:
        log.events.append(evgen.finish(r, log, evgen.thread_create(r, log, {})))
        log.events[-1].pidx = p.index
    img = write(log, Layout.random(r), r)
    reader = pp.ProcmonLogsReader(img.stream(False), r.chance(.5), r.chance(.5))
    if r.chance(.5):
        check_processes(ctx, log, reader.processes())
    for ev, e in zip(log.events, reader):
        ctx.eq("process of an event", snap_proc(e.process), log.procmap[ev.pidx])
    procs = reader.processes()
    check_processes(ctx, log, procs)
    ctx.true("processes() gives a list", isinstance(procs, list))
    for ev, e in zip(log.events, reader[:]):
        ctx.true("events refer to the listed processes", any(e.process is p or e.process == p for p in procs))
    ctx.distinct(log.is64, [p.expected() for p in log.procs[:5]])
    if i in (4, 5):
        ctx.sample({"processes": n, "modules": sum(len(p.modules) for p in log.procs)})


# ------------------------------------------------------------------ P05
RAMS = [0, 1, (1 << 30) - 1, 1 << 30, (1 << 30) * 12 // 10, 17179869184 - 1, 17179869184, 8589934592 - 4096, (1 << 64) - 1, 1 << 63,
        4294967296 * 5 // 100, 10737418, 10737419, 10737418240, 3221225472 - 1, 16 * (1 << 30) * 99 // 100]


@check("P05", 9000, 80000, "a case opens a log with one random header; distinct by header",
       ["twin", "name:full", "name:empty", "root:full", "root:long", "service pack", "no service pack", "64-bit", "32-bit"] +
       ["os:%d.%d" % k for k in OS])
def p05(ctx, i, r):
    log = evgen.base_log(r, nproc=1, nmod=0)
    if r.chance(.5):
        k = r.randrange(1, 4000)
        # around every hundredth, where cutting and rounding part
        log.ram = max(0, -(-(k << 30) // 100) + r.choice([-1, 0, 1, 5368708, 5368709])) if r.chance(.5) else r.choice(RAMS)
    ctx.cover("name:full" if len(pml.enc(log.computer)) == 32 else "name:empty" if not log.computer else "name")
    n = len(pml.enc(log.root)) // 2
    ctx.cover("root:full" if n == 0x104 else "root:long" if n > 100 else "root")
    ctx.cover("service pack" if log.sp else "no service pack")
    ctx.cover("os:%d.%d" % log.os)
    ctx.cover("64-bit" if log.is64 else "32-bit")
    reader = pp.ProcmonLogsReader(write(log, Layout.random(r), r).stream(False))
    d = reader.system_details()
    ctx.eq("names of the facts", sorted(d), ["Computer Name", "Logical Processors", "Memory (RAM)", "Operating System", "System Root",
                                             "System Type"])
    check_system(ctx, log, d)
    ctx.distinct(log.computer, log.root, log.sp, log.os, log.build, log.nproc, log.ram)
    # a machine that differs in little, read after and next to it
    first = dict(vars(log))
    for _ in range(r.choice([0, 0, 1, 2])):
        other = evgen.base_log(r, nproc=1, nmod=0)
        keep = [f for f in ("computer", "root", "os", "build", "sp", "nproc", "ram", "is64", "is64_raw")]
        drop = r.choice(keep[:7])
        for f in keep:
            if f != drop and not (f == "sp" and drop == "os" and r.chance(.5)):
                setattr(other, f, first[f])
        other.procs, other.events = log.procs, log.events
        check_system(ctx, other, pp.ProcmonLogsReader(write(other, Layout.random(r), r).stream(False)).system_details())
        ctx.cover("twin")
        if r.chance(.3):
            check_system(ctx, log, reader.system_details())
    if i < 2:
        ctx.sample(d)


# ------------------------------------------------------------------ P06
GiB = 1 << 30


def sparse_layout(r, log):
    big = sum(100 + len(e.details) + 8 * len(e.stack) + len(e.extra or b"") for e in log.events) > 90000
    lay = Layout.random(r, sparse=True)
    lay.gaps = False
    lay.shuffle_strings = lay.shuffle_procs = False
    lay.order = r.choice([["events", "offsets", "procs", "strings", "icons"], ["events", "strings", "offsets", "procs", "icons"],
                          ["events", "icons", "strings", "offsets", "procs"]])
    lay.base = {"events": r.choice([0, 1 * GiB, 4 * GiB - 100000][:2 if big else 3])}
    top = 4 * GiB
    if r.chance(.5):
        # tables right after the events, extra details up to 4 GiB behind their events
        lay.extra_base = (lay.base["events"] or 1000) + r.choice([1 * GiB, 2 * GiB + 5, 4 * GiB - 300000][:2 if big else 3])
    else:
        for s in lay.order[1:]:
            if s != "procs":
                top += r.choice([0, 1, 5 * GiB])
                lay.base[s] = top
    lay.base["hosts"] = r.choice([0, 4 * GiB, 20 * GiB, 1 << 42])
    if lay.extra_base is None and r.chance(.5):
        lay.jumps["strings"] = r.choice([1 << 24, GiB, 2 * GiB, 4 * GiB - 2000000])
    if lay.extra_base is None and r.chance(.5):
        lay.jumps["procs"] = r.choice([1 << 24, GiB, 2 * GiB, 4 * GiB - 2000000])
    return lay


def shift_corpus(r, data, name):
    """The same capture with gaps between its sections."""
    h = list(struct.unpack_from("<QQQQQ", data, 4 + 8 + 32 + 0x208 + 4 + 8))
    pos = 4 + 8 + 32 + 0x208 + 4 + 8
    hosts_pos = 0x3a8 - 8
    hosts = struct.unpack_from("<Q", data, hosts_pos)[0]
    n = struct.unpack_from("<I", data, pos - 12)[0]
    starts = sorted(set(h + [hosts]))
    new, out, delta = {}, bytearray(data[:starts[0]]), {}
    for k, a in enumerate(starts):
        b = starts[k + 1] if k + 1 < len(starts) else len(data)
        out += r.randbytes(r.choice([0, 1, 7, 4096]))
        new[a] = len(out)
        out += data[a:b]
    d = new[h[0]] - h[0]
    for k in range(n):
        o = new[h[1]] + 5 * k
        v = struct.unpack_from("<I", out, o)[0]
        struct.pack_into("<I", out, o, v + d)
    struct.pack_into("<QQQQQ", out, pos, *[new[x] for x in h])
    struct.pack_into("<Q", out, hosts_pos, new[hosts])
    return bytes(out)


@check("P06", 4500, 20000,
       "a case reads the same facts under three random layouts, or a genuine capture with gaps inserted; distinct by log and layouts",
       ["order changed", "gaps", "noise", "shuffled", "extra:far", "extra:shared", "extra:inline", "sparse:>4GiB", "extra:>4GiB", "corpus", "hosts not last", "far entries:strings:>2GiB", "far entries:procs:>2GiB",
        "64-bit", "32-bit"], alarm=120)
def p06(ctx, i, r):
    if i < len(CORPORA):
        data = corpus(CORPORA[i])
        a = pp.ProcmonLogsReader(io.BytesIO(data))
        b = pp.ProcmonLogsReader(io.BytesIO(shift_corpus(r, data, CORPORA[i])))
        ctx.cover("corpus")
        ctx.eq("length", len(b), len(a))
        for k in r.sample(range(len(a)), min(len(a), 5000 if ctx.thorough else 600)):
            ctx.eq("event of a moved capture", snap_event(b[k], False), snap_event(a[k], False), event=k)
            ctx.true("process of a moved capture", a[k].process == b[k].process, event=k)
        ctx.true("processes", a.processes() == b.processes())
        ctx.eq("system details", b.system_details(), a.system_details())
        ctx.distinct(CORPORA[i])
        return
    log = evgen.make_log(r)
    cover_log(ctx, log)
    ref = None
    for j in range(3):
        sparse = j == 2 and r.chance(.6)
        lay = sparse_layout(r, log) if sparse else Layout.random(r)
        if not sparse and r.chance(.4):
            lay.hosts_at = r.randrange(6)
            ctx.cover("hosts not last")
        img = write(log, lay, r)
        if lay.order != Layout().order:
            ctx.cover("order changed")
        if lay.gaps:
            ctx.cover("gaps")
        if lay.noise:
            ctx.cover("noise")
        if lay.shuffle_events or lay.shuffle_procs or lay.shuffle_strings:
            ctx.cover("shuffled")
        if any(img.extra_spans):
            ctx.cover("extra:" + lay.extra_mode)
        if img.size > 4 * GiB:
            ctx.cover("sparse:>4GiB")
        for t, n in lay.jumps.items():
            ctx.cover("far entries:%s%s" % (t, ":>2GiB" if n >= 2 * GiB else ""))
        if any(s and s[0] > 4 * GiB for s in img.extra_spans):
            ctx.cover("extra:>4GiB")
        reader = pp.ProcmonLogsReader(img.stream(False))
        check_all(ctx, log, reader)
        snap = snap_reader(reader)
        if ref is None:
            ref = snap
        ctx.true("the same facts under another layout", same(snap, ref), layout=lay.__dict__)
        ctx.distinct(lay.order, lay.extra_mode, sparse, [e.date for e in log.events])


# ------------------------------------------------------------------ P10
@check("P10", 5400, 20000,
       "a case reads one log with the four combinations of the options, or a genuine capture; distinct by log",
       ["corpus", "64-bit", "32-bit"] + ["class:" + T.EVENT_CLASSES[c] for c in
                                         (evgen.PROC, evgen.REG, evgen.FS, evgen.PROF, evgen.NET)], alarm=120)
def p10(ctx, i, r):
    if i < len(CORPORA):
        data = corpus(CORPORA[i])
        make = lambda *o: pp.ProcmonLogsReader(io.BytesIO(data), *o)
        pick = None
        log = None
        ctx.cover("corpus")
        ctx.distinct(CORPORA[i])
    else:
        log = evgen.make_log(r)
        cover_log(ctx, log)
        img = write(log, Layout.random(r), r)
        make = lambda *o: pp.ProcmonLogsReader(img.stream(False), *o)
        pick = range(len(log.events))
    full = make(True, True)
    dflt = make()
    n = len(full)
    pick = pick or r.sample(range(n), min(n, 4000 if ctx.thorough else 400))
    procs = [snap_proc(p) for p in full.processes()]
    base = {}
    for k in pick:
        base[k] = snap_event(full[k], log is not None)
        ctx.eq("default options", snap_event(dflt[k], log is not None), base[k])
        if log is not None:
            check_event(ctx, log, log.events[k], full[k])
    for st, de in ((True, False), (False, True), (False, False)):
        rd = make(st, de) if r.chance(.5) else None
        if rd is None:
            f = io.BytesIO(data) if log is None else img.stream(False)
            rd = pp.ProcmonLogsReader(f, should_get_stacktrace=st, should_get_details=de)
        ctx.eq("length", len(rd), n)
        ctx.true("processes", same([snap_proc(p) for p in rd.processes()], procs))
        ctx.eq("system details", rd.system_details(), full.system_details())
        seq = iter(rd) if r.chance(.5) and log is not None else None
        for k in pick:
            e = snap_event(next(seq) if seq else rd[k], log is not None)
            for f, got, want in zip(pml.SNAP, e, base[k]):
                if f == "stack" and not st:
                    want = []
                if not de and f in ("details", "category"):
                    continue
                ctx.eq("%s with stacktrace=%s, details=%s" % (f, st, de), got, want, event=k,
                       kind=log.events[k].kind if log else "corpus")


# ------------------------------------------------------------------ P23
def inside(pos, n, spans, slack):
    return n == 0 or any(a - slack <= pos and pos + n <= b + slack for a, b in spans)


@check("P23", 5000, 10000,
       "a case opens a sparse log with events megabytes apart, then reads some events; distinct by log and layout",
       ["events:many", "sparse:>4GiB", "size:>1GiB", "random access", "iteration", "no details", "64-bit", "32-bit"],
       ["a stream's own read-ahead is not counted; up to 1 MiB around what is needed may be read"])
def p23(ctx, i, r):
    n = r.choice([1, 2, 3, 3, 10, 10, 40, 40])
    log = evgen.make_log(r, n)
    cover_log(ctx, log)
    ctx.cover("events:many")
    lay = Layout(extra_mode=r.choice(["inline", "far"]), noise=r.chance(.5), spread=r.choice([0, 8 << 20, 8 << 20, 32 << 20, 32 << 20]),
                 shuffle_events=r.chance(.5))
    if r.chance(.4):
        lay.order = ["events", "strings", "icons", "offsets", "procs"]
    if r.chance(.5):
        lay.base = {lay.order[1]: 5 * GiB}
        ctx.cover("sparse:>4GiB")
    img = write(log, lay, r)
    if img.size > GiB:
        ctx.cover("size:>1GiB")
    s = img.stream()
    reader = pp.ProcmonLogsReader(s)
    if r.chance(.3):
        s2 = img.stream()
        reader2 = pp.ProcmonLogsReader(s2, False, False)
        ctx.cover("no details")
    slack = 1 << 20
    tables = [(0, pml.HEADER)] + [img.spans[k] for k in ("offsets", "procs", "strings", "icons")] + [(img.spans["hosts"][0], img.size)]
    first, last = img.spans["offsets"][0], img.spans["procs"][1]
    tables.append((first, last))
    need = sum(b - a for a, b in tables)
    total = sum(k for p, k in s.reads)
    for p, k in s.reads:
        ctx.true("opening reads only header and tables", inside(p, k, tables, slack), position=p, size=k, tables=tables)
    ctx.true("bytes read by opening", total <= 4 * need + slack, read=total, tables=need)
    for a, b in img.ev_spans:
        ctx.true("opening reads no event", not any(k and p < b - 8 and a + 8 < p + k for p, k in s.reads) or k_small(img, a))
        ctx.true("opening seeks no event", not any(k and a <= p < b for p, k in s.reads), reads=s.reads[:40], event=(a, b))
    del s.reads[:]
    order = [r.randrange(n) for _ in range(12)]
    it = r.chance(.5)
    ctx.cover("iteration" if it else "random access")
    for j, k in enumerate(order):
        if it:
            if j >= n:
                break
            k = j
        e = next(reader) if it else reader[k]
        check_event(ctx, log, log.events[k], e)
        spans = [img.ev_spans[k]] + ([img.extra_spans[k]] if img.extra_spans[k] else [])
        need = sum(b - a for a, b in spans)
        for p, c in s.reads:
            ctx.true("reading an event reads only around it", inside(p, c, spans, slack), position=p, size=c, spans=spans)
        got = sum(c for p, c in s.reads)
        ctx.true("bytes read for an event", got <= 4 * need + slack, read=got, event=need)
        ctx.cover("bytes", got)
        del s.reads[:]
    ctx.eq("forbidden calls", s.mutations, [])
    # processes and system details need no reading of events
    reader.processes(), reader.system_details(), len(reader)
    ctx.true("tables are not read again with events", all(inside(p, c, tables, slack) for p, c in s.reads))


def k_small(img, a):
    return a < img.spans["events"][0] + (2 << 20)
