"""P07, P08, P09: bad files, damaged events, hostile input."""
import io
import resource
import struct

from vlib import evgen, pml, tables as T
from vlib.monitor import BudgetExceeded, CaseTimeout, StepBudget, Violation, check, same
from vlib.pml import Layout, snap_event, snap_proc, write
from vlib.streams import Stream
from checks.logs import CORPORA, check_all, check_processes, check_system, corpus, overlap, sparse_layout, unknown_index

import procmon_parser as pp

POS = {"signature": 0, "version": 4, "is64": 8, "computer": 12, "root": 44, "count": 564, "events": 576, "offsets": 584, "procs": 592,
       "strings": 600, "icons": 608, "major": 628, "minor": 632, "build": 636, "sp": 644, "nproc": 908, "ram": 912,
       "header": 920, "hosts": 928}


def opening(f):
    return pp.ProcmonLogsReader(f)


# ------------------------------------------------------------------ P07
@check("P07", 2000, 12000,
       "a case opens a good log, each refusal of it, and every or 120 sampled truncations; distinct by log and cut",
       ["refused:signature", "refused:version", "refused:header size", "refused:no hosts"] +
       ["refused:" + s for s in ("events", "offsets", "procs", "strings", "icons", "count")] +
       ["cut:header", "cut:offsets", "cut:procs", "cut:strings", "cut:events", "cut:empty", "read_all", "good", "good sparse", "corpus"], alarm=120)
def p07(ctx, i, r):
    if i < len(CORPORA):
        data = corpus(CORPORA[i])
        hosts = struct.unpack_from("<Q", data, POS["hosts"])[0]
        ctx.true("a genuine capture opens", len(opening(io.BytesIO(data))) > 0)
        ctx.cover("corpus")
        for c in [0, 1, 100, 935, 936, 937, hosts // 2, hosts - 1] + [r.randrange(hosts) for _ in range(6)]:
            ctx.raises("a genuine capture cut to %d of %d bytes" % (c, len(data)), Exception, opening, io.BytesIO(data[:c]))
        return
    if i % 7 == 4:
        # sections at and beyond every multiple of 4 GiB
        log = evgen.make_log(r, r.choice([0, 1, 2, 4]))
        img = write(log, sparse_layout(r, log), r)
        good = opening(img.stream(False))
        ctx.eq("length of a good log", len(good), len(log.events))
        check_processes(ctx, log, good.processes())
        check_system(ctx, log, good.system_details())
        ctx.cover("good sparse")
        ctx.distinct(img.size, sorted(img.spans))
        return
    log = evgen.make_log(r, r.choice([0, 1, 2, 4]), nproc=r.choice([1, 1, 2]), nmod=r.choice([0, 1])) if i % 5 else \
        evgen.make_log(r, r.choice([0, 1, 20]))
    lay = Layout.random(r)
    img = write(log, lay, r)
    data = img.bytes()
    good = opening(Stream(data))
    ctx.eq("length of a good log", len(good), len(log.events))
    check_processes(ctx, log, good.processes())
    check_system(ctx, log, good.system_details())
    ctx.cover("good")

    def refuse(name, exc, off, b):
        bad = bytearray(data)
        bad[off:off + len(b)] = b
        ctx.cover("refused:" + name)
        f = r.choice([opening, pp.read_all_events_from_pml, lambda x: pp.ProcmonLogsReader(x, False, False)])
        if f is pp.read_all_events_from_pml:
            ctx.cover("read_all")
        e = ctx.raises("log with bad %s %r" % (name, b), exc, f, Stream(bytes(bad)))
        return e
    sig = r.choice([b"PMC_", b"PML\0", b"\0\0\0\0", b"pml_", b"_LMP", b"PML ", b"XML_", r.randbytes(4), b"PMLL", b"PML_"[::-1]])
    if sig == b"PML_":
        sig = b"PML-"
    refuse("signature", pp.PMLError, 0, sig)
    v = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 0x100 + 9, 9 << 8, 9 << 16, 0x90000009, 0x10009, 0xffffffff, r.u32()])
    if v != 9:
        refuse("version", NotImplementedError, 4, struct.pack("<I", v))
    for s in ("events", "offsets", "procs", "strings", "icons"):
        refuse(s, pp.PMLError, POS[s], b"\0" * 8)
    h = r.choice([0, 0x3a7, 0x3a9, 0x3a8 << 32, 0x1000003a8, 0x3a0, 0x8003a8, 0xffffffffffffffff, r.u64()])
    if h != 0x3a8:
        refuse("header size", pp.PMLError, POS["header"], struct.pack("<Q", h))
    refuse("no hosts", pp.PMLError, POS["hosts"], b"\0" * 8)
    # more events than the offsets array holds
    if img.spans["offsets"][1] == img.spans["procs"][0]:
        n = len(log.events)
        more = n + r.choice([1, 1, 2, 5, n + 1, 1000])
        bad = bytearray(data)
        struct.pack_into("<I", bad, POS["count"], more)
        ctx.cover("refused:count")
        f = r.choice([opening, pp.read_all_events_from_pml])
        ctx.raises("log with room for %d of %d events" % (n, more), Exception, f, Stream(bytes(bad)))
    # several faults at once are refused too
    bad = bytearray(data)
    for s in r.sample(["events", "offsets", "procs", "strings", "icons", "hosts"], 3):
        struct.pack_into("<Q", bad, POS[s], 0)
    ctx.raises("log with three missing pointers", pp.PMLError, opening, Stream(bytes(bad)))
    # a log never opened stays refused however it is tried
    ctx.raises("junk", Exception, opening, Stream(r.randbytes(r.choice([0, 1, 3, 4, 100, 936, 5000]))))
    # cuts
    hosts = img.spans["hosts"][0]
    cuts = range(hosts) if hosts < 2500 and i % 10 == 0 else sorted(set(
        [0, 1, 3, 4, 7, 8, 11, 12, 935, 936, hosts - 1, hosts - 2] + [a + d for a, b in img.spans.values() for d in (-1, 0, 1, 4)] +
        [b + d for a, b in img.spans.values() for d in (-1, 0)] + [r.randrange(hosts) for _ in range(60)]))
    for c in cuts:
        if not 0 <= c < hosts:
            continue
        where = "empty" if c == 0 else "header" if c < pml.HEADER else next((s for s, (a, b) in img.spans.items() if a <= c < b), "gap")
        ctx.cover("cut:" + where)
        ctx.raises("log cut to %d of %d bytes (%s)" % (c, len(data), where), Exception, opening, Stream(data[:c], record=False))
        ctx.distinct(len(data), c, where)
    if i in (10, 11):
        ctx.sample({"size": len(data), "hosts at": hosts, "cuts": len(list(cuts))})


# ------------------------------------------------------------------ P08
def damage(r, ctx, img, data, log, t):
    """Damage event t of data (a bytearray) in one way; returns its name."""
    a, b = img.ev_spans[t]
    x = img.extra_spans[t]
    e = log.events[t]
    ps = 8 if log.is64 else 4
    det = a + pml.EVENT_FIXED + ps * len(e.stack)
    kinds = ["class", "operation", "process", "details size", "stack depth", "extra offset", "header noise", "random bytes", "offset",
             "swap class"]
    if len(e.details):
        kinds += ["details noise", "details flip", "details ff", "details flip", "details noise", "details short"]
    if x:
        kinds += ["extra noise", "extra size", "extra flip", "extra noise"]
    k = r.choice(kinds)
    put = lambda f, o, *v: struct.pack_into(f, data, o, *v)
    if k == "class":
        put("<I", a + 8, r.choice([0, 6, 7, 77, 0xffffffff, r.u32()]))
    elif k == "swap class":
        put("<I", a + 8, r.choice(list(T.EVENT_CLASSES)))
    elif k == "operation":
        put("<H", a + 12, r.choice([0, 1, 9, 17, 50, 0x7fff, 0xffff, r.u16()]))
    elif k == "process":
        put("<I", a, unknown_index(log))
    elif k == "details size":
        put("<I", a + 0x2c, r.choice([0, 1, 2, 5, len(e.details) // 2, max(0, len(e.details) - 1), 0xffffffff, 1 << 20, r.u32()]))
    elif k == "details short":
        put("<I", a + 0x2c, r.randrange(len(e.details)))
    elif k == "stack depth":
        put("<H", a + 0x28, r.choice([0, 1, len(e.stack) + 1, 0xffff, r.u16()]))
    elif k == "extra offset":
        put("<I", a + 0x30, r.choice([0, 1, 10, b - a, b - a + 1, 0xffffffff, 0x7fffffff, r.u32()]))
    elif k == "header noise":
        o = r.randrange(pml.EVENT_FIXED)
        data[a + o] = r.getrandbits(8)
    elif k == "random bytes":
        for _ in range(r.randint(1, 8)):
            data[r.randrange(a, b)] = r.getrandbits(8)
    elif k == "offset":
        put("<I", img.spans["offsets"][0] + 5 * t, r.choice([0, 1, 0xffffffff, img.size, img.size - 1, img.size - 10, r.u32(),
                                                             r.randrange(img.size)]))
    elif k == "details noise":
        data[det:b] = r.randbytes(b - det)
    elif k == "details ff":
        o = r.randrange(det, b)
        n = min(b - o, r.choice([1, 2, 4]))
        data[o:o + n] = b"\xff" * n
    elif k == "details flip":
        for _ in range(r.choice([1, 1, 2, 4])):
            data[r.randrange(det, min(b, det + 96) if r.chance(.7) else b)] ^= 1 << r.randrange(8)
    elif k == "extra noise":
        data[x[0] + 2:x[1]] = r.randbytes(x[1] - x[0] - 2)
    elif k == "extra size":
        put("<H", x[0], r.choice([0, 1, 2, 3, 7, max(0, x[1] - x[0] - 3), (x[1] - x[0] - 2) // 2, 0xffff]))
    elif k == "extra flip":
        for _ in range(r.choice([1, 2, 3])):
            data[r.randrange(x[0] + 2, x[1]) if x[1] > x[0] + 2 else x[0]] ^= 1 << r.randrange(8)
    return k


def fixed_part(data, img, k, log):
    """Are all the fields and stack frames of event k within the log?"""
    at = struct.unpack_from("<I", data, img.spans["offsets"][0] + 5 * k)[0]
    if at + pml.EVENT_FIXED > len(data):
        return False
    return at + pml.EVENT_FIXED + struct.unpack_from("<H", data, at + 0x28)[0] * (8 if log.is64 else 4) <= len(data)


@check("P08", 10000, 120000,
       "a case damages one or two events of a log of 2..7 events and compares all others with the undamaged log; distinct by log and damage",
       ["raised", "returned", "class", "swap class", "operation", "process", "details size", "details short", "stack depth", "extra offset",
        "header noise", "random bytes", "offset", "details noise", "details flip", "details ff", "extra noise", "extra size", "extra flip",
        "stack beyond the end", "iteration continued", "read_all raised", "slice raised", "64-bit", "32-bit"])
def p08(ctx, i, r):
    log = evgen.make_log(r, r.choice([2, 3, 5, 7]), nproc=2, nmod=0)
    lay = Layout.random(r)
    lay.extra_mode = r.choice(["inline", "far"])
    lay.shuffle_events = r.chance(.3)
    img = write(log, lay, r)
    clean = img.bytes()
    n = len(log.events)
    ctx.cover("64-bit" if log.is64 else "32-bit")
    ref = [snap_event(e) for e in pp.ProcmonLogsReader(io.BytesIO(clean))]
    ctx.eq("events of the undamaged log", len(ref), n)
    procs = [snap_proc(p) for p in pp.ProcmonLogsReader(io.BytesIO(clean)).processes()]
    data = bytearray(clean)
    bad = set(r.sample(range(n), r.choice([1, 1, 1, 2]) if n > 2 else 1))
    names = []
    for t in sorted(bad):
        names.append(damage(r, ctx, img, data, log, t))
        ctx.cover(names[-1])
    data = bytes(data)
    ctx.distinct([e.date for e in log.events], sorted(bad), names, data[:0])
    s = Stream(data, record=False)
    reader = pp.ProcmonLogsReader(s)
    ctx.eq("length", len(reader), n, damage=names)
    order = list(range(n)) * 2
    r.shuffle(order)
    fails, states = {}, {}
    for k in order:
        try:
            e = reader[k] if r.chance(.7) else reader[k:k + 1][0]
            snap = snap_event(e)
        except Exception as x:
            if k not in bad:
                ctx.fail("an event next to a damaged one cannot be read", event=k, damaged=sorted(bad), damage=names, error=x)
            fails[k] = x
            state = "raised"
        else:
            if k not in bad:
                ctx.eq("an event next to a damaged one", snap, ref[k], event=k, damaged=sorted(bad), damage=names)
            state = snap
        if k in bad:
            ctx.cover("raised" if state == "raised" else "returned")
            cut = not fixed_part(data, img, k, log)
            if cut:
                ctx.cover("stack beyond the end")
            if state != "raised" and cut:
                ctx.fail("an event whose fields or stack trace the log does not have was returned", event=k, damage=names, got=state)
            if k in states:
                ctx.true("a damaged event reads the same again", same(states[k], state), event=k, damage=names)
            states[k] = state
    # iteration goes on
    it = pp.ProcmonLogsReader(Stream(data, record=False))
    k = 0
    while k <= n + 2:
        try:
            e = next(it)
        except StopIteration:
            break
        except Exception as x:
            ctx.true("iterating fails only where indexing does", k in fails, at=k, error=x, damage=names)
            ctx.cover("iteration continued")
        else:
            ctx.true("iterating succeeds only where indexing does", k < n and k not in fails, at=k, damage=names)
            if k not in bad:
                ctx.eq("event iterated after damage", snap_event(e), ref[k], event=k, damaged=sorted(bad), damage=names)
        k += 1
    ctx.eq("events iterated", k, n, damage=names, damaged=sorted(bad))
    # all at once
    for what, f in (("reading all events", lambda: pp.read_all_events_from_pml(Stream(data, record=False))),
                    ("slicing all events", lambda: pp.ProcmonLogsReader(Stream(data, record=False))[:]),
                    ("listing a reader", lambda: list(pp.ProcmonLogsReader(Stream(data, record=False))))):
        if fails:
            try:
                got = f()
            except Exception:
                ctx.cover("read_all raised" if what.startswith("reading") else "slice raised")
                ctx.ok()
            else:
                ctx.fail("%s of a log with an unreadable event gave %d events" % (what, len(got)), damage=names, error=list(fails.values())[0])
        else:
            got = f()
            ctx.eq(what, len(got), n, damage=names)
            for j, e in enumerate(got):
                if j not in bad:
                    ctx.eq(what, snap_event(e), ref[j], event=j)
    ctx.true("processes", same([snap_proc(p) for p in reader.processes()], procs))
    if i < 3:
        ctx.sample({"damage": names, "events": [e.kind for e in log.events], "damaged": sorted(bad), "raised": sorted(fails)})


# ------------------------------------------------------------------ P09
EXTREME = [0, 1, 2, 0x7f, 0xff, 0x100, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
EXTREME64 = EXTREME + [1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 62)]


def backward_chain(ctx, r, log):
    """A directory listing one of whose entries points backwards, at itself or nowhere."""
    cls = r.choice(evgen.DIR_CLASSES)
    ev = evgen.query_directory(r, log, {"cls": evgen.FILE_CLASS[cls], "extra": True, "filter": "",
                                        "names": [r.word() for _ in range(r.choice([2, 3, 3, 5]))]})
    ev.tid, ev.pidx = r.u32(), log.procs[0].index
    x, starts, pos = bytearray(ev.extra), [], 0
    while True:
        starts.append(pos)
        step = struct.unpack_from("<I", x, pos)[0]
        if not step:
            break
        pos += step
    k = r.randrange(len(starts))
    if r.chance(.6):
        to = r.choice(starts[:k + 1])
        v = to - starts[k]
    else:
        v = r.choice([-1, -4, -8, 1, 4, 8, len(x) - starts[k], len(x) - starts[k] - 1, 1 << 31, -(1 << 31), r.u32()])
    bits = r.choice([32, 32, 32, 16, 31])
    struct.pack_into("<I", x, starts[k], v & ((1 << bits) - 1))
    ev.extra = bytes(x)
    log.events.append(ev)
    ctx.cover("backward chain")


def hostile(ctx, r):
    """A small byte string that looks like a log."""
    k = r.random()
    if k < .04:
        ctx.cover("random")
        return r.randbytes(r.choice([0, 1, 4, 936, 2000]))
    if k < .08:
        ctx.cover("random after signature")
        return b"PML_\x09\0\0\0" + r.randbytes(r.choice([0, 4, 928, 3000]))
    log = evgen.make_log(r, r.choice([0, 1, 1, 2, 3]), nproc=r.choice([0, 1, 1, 2]) or 1, nmod=r.choice([0, 1]),
                         gens=evgen.GENS[r.choice(list(evgen.GENS))] if r.chance(.5) else None)
    chain = r.chance(.12)
    if chain:
        backward_chain(ctx, r, log)
    for e in log.events:
        e.details = e.details[:600]
        if e.extra:
            e.extra = e.extra[:600]
        e.stack = e.stack[:3]
    for p in log.procs:
        for f in p.TEXTS:
            setattr(p, f, getattr(p, f)[:12])
    lay = Layout.random(r)
    img = write(log, lay, r)
    data = bytearray(img.bytes())
    for _ in range(r.choice([1, 1, 1, 2, 3, 6]) if not chain else 0):
        m = r.choice(["count", "pointer", "offsets", "procs", "strings", "hosts", "event", "details", "bytes", "cut", "extra", "u16 sweep",
                      "self pointer"])
        ctx.cover("mutation:" + m)
        size = len(data)
        v32 = r.choice(EXTREME + [size, size - 1, size // 2, r.u32()])

        def put(fmt, off, v):
            if 0 <= off and off + struct.calcsize(fmt) <= len(data):
                struct.pack_into(fmt, data, off, v & ((1 << 8 * struct.calcsize(fmt)) - 1))
        if m == "count":
            put("<I", POS["count"], v32)
        elif m == "pointer":
            put("<Q", POS[r.choice(["events", "offsets", "procs", "strings", "icons", "hosts", "header"])],
                r.choice(EXTREME64 + [size, size - 1, size - 4, r.randrange(size + 1)]))
        elif m in ("procs", "strings", "hosts", "offsets"):
            a, b = img.spans[m]
            off = a if r.chance(.4) else a + 4 * r.randrange(max(1, (b - a) // 4))
            put("<I", off, v32)
        elif m == "event" and img.ev_offsets:
            a = r.choice(img.ev_offsets)
            f, o = r.choice([("<I", 0), ("<I", 8), ("<H", 12), ("<H", 0x28), ("<I", 0x2c), ("<I", 0x30), ("<I", 0x2c), ("<I", 0x30)])
            put(f, a + o, v32)
        elif m == "details" and img.ev_spans:
            t = r.randrange(len(img.ev_spans))
            a, b = img.ev_spans[t]
            a += pml.EVENT_FIXED + (8 if log.is64 else 4) * len(log.events[t].stack)
            if a < b:
                put(r.choice(["<B", "<H", "<I", "<Q"]), r.randrange(a, b), r.choice(EXTREME64))
        elif m == "extra" and any(img.extra_spans):
            a, b = r.choice([x for x in img.extra_spans if x])
            put(r.choice(["<B", "<H", "<I"]), r.randrange(a, b), v32)
        elif m == "cut":
            del data[r.randrange(len(data) + 1):]
        elif m == "u16 sweep":
            for off in range(r.randrange(2), len(data) - 1, 2):
                if r.chance(.02) and off > 940:
                    put("<H", off, r.choice([0, 0x7fff, 0x8000, 0xffff]))
        elif m == "self pointer":
            a, b = img.spans[r.choice(["procs", "strings"])]
            n = struct.unpack_from("<I", data, a)[0] if a + 4 <= len(data) else 0
            for j in range(min(n, 50)):
                put("<I", a + 4 + 4 * j, r.choice([0, 4, 8, 1]))
        else:
            for _ in range(r.choice([1, 3, 20])):
                if data:
                    data[r.randrange(len(data))] = r.choice([0, 0xff, r.getrandbits(8)])
    return bytes(data[:8192])


@check("P09", 16000, 100000,
       "a case opens and reads one small byte string mutated from a log, counting the steps of the code; distinct by byte string",
       ["random", "random after signature", "backward chain", "opened", "refused", "event read", "event failed"] +
       ["mutation:" + m for m in ("count", "pointer", "offsets", "procs", "strings", "hosts", "event", "details", "bytes", "cut", "extra",
                                  "u16 sweep", "self pointer")],
       ["steps are calls, jumps and branches of the package; the budget is 200,000 + 400 n + n^2 / 2 for n bytes and one reading",
        "memory is limited to 1.5 GiB of address space"], alarm=120, mem=1.5)
def p09(ctx, i, r):
    data = hostile(ctx, r)
    n = len(data)
    ctx.distinct(data)
    s = Stream(data, record=False)
    budget = 200000 + 400 * n + n * n // 2

    def run(what, f, k=1):
        try:
            with StepBudget(budget * k) as b:
                try:
                    return f(), None
                except MemoryError as e:
                    ctx.fail("%s ran out of memory" % what, size=n, error=e)
                except (BudgetExceeded, CaseTimeout, Violation):
                    raise
                except Exception as e:
                    return None, e
                finally:
                    ctx.counters["most steps"] = max(ctx.counters["most steps"], b.steps)
                    ctx.counters["most steps per byte"] = max(ctx.counters["most steps per byte"], b.steps // max(1, n))
        except BudgetExceeded as e:
            ctx.fail("%s exceeds its step budget" % what, size=n, budget=budget, error=e)
    reader, err = run("opening", lambda: pp.ProcmonLogsReader(s, r.chance(.8), r.chance(.8)))
    ctx.ok()
    if reader is None:
        ctx.cover("refused")
        e, err = run("reading all", lambda: pp.read_all_events_from_pml(Stream(data, record=False)))
        ctx.true("what cannot be opened cannot be read", err is not None)
    else:
        ctx.cover("opened")
        count = len(reader)
        ctx.ok()
        for k in range(min(count, n + 2, 40)):
            e, err = run("reading an event", lambda: reader[k])
            ctx.ok()
            ctx.cover("event read" if err is None else "event failed")
        e, err = run("iterating", lambda: drain(ctx, reader, n), min(count, n) + 1)
        ctx.ok()
        run("slicing", lambda: reader[:], min(count, n) + 1)
        run("describing the system", reader.system_details)
        run("listing the processes", reader.processes)
    ctx.eq("forbidden calls", s.mutations, [])


def drain(ctx, reader, n):
    k = 0
    while True:
        try:
            next(reader)
        except StopIteration:
            return k
        except MemoryError:
            raise
        except Exception:
            pass
        k += 1
        if k > n + 5:
            ctx.fail("more events than bytes: iteration gives %d events from %d bytes" % (k, n))
