"""P19-P22, V01, V02: values derived from events."""
import contextlib
import copy
import csv
import datetime
import enum
import functools
import io
import os
import time

from checks.logs import CORPORA, corpus
from checks.events import wild
from vlib import csvref, evgen, pml, pmc, tables as T, zones
from vlib.evgen import FCODE, FS, PROC, REG, NET, PROF, finish, settle
from vlib.monitor import check, fields, same
from vlib.pml import Layout, UNCLAIMED, check_common, check_specific, snap_event, snap_mod, snap_proc, write

import procmon_parser as pp
from procmon_parser import logs as pplogs

END = csvref.EPOCH + 253402300800 * csvref.SEC     # the year 10000
DAY = 86400 * csvref.SEC
TITLES = [t for t in T.COLUMN_TITLES.values()]
SUSPECT = {0xc00000c1, 0xc00000d4, 0xc000a2a4, 0xc000a2a3}   # names in the table that may not be Procmon's


@contextlib.contextmanager
def zone(name):
    old = os.environ.get("TZ")
    os.environ["TZ"] = name
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


def facts(log, ev):
    return dict(zip(pml.Proc.F, log.procmap[ev.pidx]))


def open_log(r, log):
    reader = pp.ProcmonLogsReader(write(log, Layout.random(r), r).stream(False))
    return [reader[k] for k in range(len(log.events))]


# ------------------------------------------------------------------ genuine captures
CHUNK = 8000
CORPUS_EVENTS = {}


@functools.lru_cache(2)
def export(name):
    t = corpus(name[:-3] + "CSV").decode("utf-8-sig")
    return list(csv.DictReader(io.StringIO(t, newline="")))


@functools.lru_cache(2)
def capture(name):
    return pp.ProcmonLogsReader(io.BytesIO(corpus(name)))


SLICES = [(n, k) for n in CORPORA for k in range(8)]


def genuine(ctx, i):
    """(event, exported row, first capture time) of the i-th eighth of the captures."""
    name, k = SLICES[i]
    reader, rows = capture(name), export(name)
    ctx.eq("events of the capture and rows of its export", len(reader), len(rows), capture=name)
    first = reader[0].date_filetime
    n = len(rows)
    ctx.cover("capture:" + name)
    for j in range(n * k // 8, n * (k + 1) // 8):
        yield reader[j], rows[j], first, {"capture": name, "number": j}


def supported(e, op):
    return int(e.event_class) != FS or op in evgen.DETAILED or op in ("CloseFile", "Shutdown", "InternalDeviceIoControl")


# ------------------------------------------------------------------ P19
def p19_genuine(ctx, i):
    for e, row, first, where in genuine(ctx, i):
        got = e.get_compatible_csv_info(first)
        ctx.true("one text per Procmon column", set(got) == set(TITLES), got=sorted(got), **where)
        if row["Operation"] == "<Unknown>" and got["Operation"] != "<Unknown>":
            ctx.cover("operation the exporting Procmon did not know")
            continue                   # added after the version that wrote the export
        for k, v in row.items():
            if k == "Detail" or k not in got or (k == "Category" and not supported(e, e.operation)):
                continue
            ctx.eq("column %s of the export" % k, got[k], v, **where)
        ctx.cover("exported events")
    ctx.distinct(i)


def tame(r, ev):
    """Keep the completion time before the year 10000."""
    if ev.result in SUSPECT:
        ev.result = 0
    if ev.date + ev.duration >= END:
        ev.duration = r.choice([0, END - 1 - ev.date])
    return ev


@check("P19", 2250, 40000,
       "a case takes the CSV columns of 8 random events in a random time zone, or of an eighth of a genuine capture (cases 0-47); "
       "distinct by column values", ["midnight", "noon", "AM", "PM", "pending", "named result", "numbered result", "no first",
                                     "first", "long relative", "relative:hours", "relative:minutes", "relative:seconds", "relative:days", "completion past midnight", "virtualized:n/a", "virtualized:True",
                                     "virtualized:False", "32-bit", "64-bit", "exported events", "zero first"] +
       ["capture:" + c for c in CORPORA] + ["class:" + c for c in T.EVENT_CLASSES.values() if c != "Unknown"] +
       ["zone:" + z for z in zones.ZONES], alarm=200)
def p19(ctx, i, r):
    if i < len(SLICES):
        return p19_genuine(ctx, i)
    log = evgen.make_log(r, 8)
    for ev in log.events:
        if r.chance(.1):
            ev.result = 0x103
        if r.chance(.2):
            ev.date = ev.date - (ev.date - csvref.EPOCH) % DAY + r.choice([0, 1, 43200 * csvref.SEC, 43200 * csvref.SEC - 1, DAY - 1, DAY // 24])
        if r.chance(.3):
            ev.duration = r.choice([DAY - 1, DAY, 1, csvref.SEC, csvref.SEC - 1, 3600 * csvref.SEC])
        elif r.chance(.4):
            ev.duration = r.span(1 << 44)
        tame(r, ev)
    zname = r.choice(list(zones.ZONES))
    ctx.cover("zone:" + zname)
    with zone(zones.ZONES[zname][0]):
        got = open_log(r, log)
        for ev, e in zip(log.events, got):
            p = facts(log, ev)
            k = r.random()
            first = None if k < .25 else 0 if k < .3 else ev.date if k < .4 else min(x.date for x in log.events) if k < .6 \
                else max(1, ev.date - r.choice([1, csvref.SEC - 1, csvref.SEC, 3600 * csvref.SEC - 1, DAY, 100 * 3600 * csvref.SEC,
                                                1000 * DAY]) if r.chance(.4) else ev.date - r.span())
            before = snap_event(e)
            rec = e.get_compatible_csv_info() if first is None and r.chance(.5) else \
                e.get_compatible_csv_info(first_event_date_filetime=first) if r.chance(.5) else e.get_compatible_csv_info(first)
            want = csvref.columns(p, ev.cls, e.operation, ev.tid, ev.date, ev.duration, ev.result,
                                  ev.exp.get("path", e.path), ev.exp.get("category", e.category), first)
            ctx.true("one text per Procmon column", set(rec) == set(TITLES), got=sorted(rec))
            for c, v in want.items():
                ctx.eq("column " + c, rec[c], v, event=ev.kind, date=ev.date, duration=ev.duration, result=ev.result, first=first)
            ctx.true("Detail is a text", isinstance(rec["Detail"], str))
            ctx.true("asking for the columns changes nothing", same(snap_event(e), before), event=ev.kind)
            if r.chance(.3):
                keep = dict(rec)
                rec.clear()
                ctx.eq("the columns asked again", dict(e.get_compatible_csv_info(first)) == keep, True, event=ev.kind)
            h = (ev.date - csvref.EPOCH) // (3600 * csvref.SEC) % 24
            ctx.cover("midnight" if h == 0 else "noon" if h == 12 else "other hour")
            ctx.cover("AM" if h < 12 else "PM")
            t = csvref.result_text(ev.result)
            ctx.cover("pending" if not t else "numbered result" if t.startswith("0x") else "named result")
            ctx.cover("no first" if first is None else "zero first" if first == 0 else "first")
            if first:
                h = (ev.date - first) // csvref.SEC
                ctx.cover("relative:" + ("seconds" if h < 60 else "minutes" if h < 3600 else "hours" if h < 86400 else "days"))
            if first and ev.date - first >= 100 * 3600 * csvref.SEC:
                ctx.cover("long relative")
            if (ev.date - csvref.EPOCH) // DAY != (ev.date + ev.duration - csvref.EPOCH) // DAY:
                ctx.cover("completion past midnight")
            ctx.cover("virtualized:" + want["Virtualized"])
            ctx.cover(want["Architecture"])
            ctx.cover("class:" + T.EVENT_CLASSES[ev.cls])
            ctx.distinct(sorted(want.items()))
    if i < 60:
        ctx.sample({"zone": zname, "Date & Time": want["Date & Time"], "Relative Time": want["Relative Time"]})


# ------------------------------------------------------------------ P20
def cut_out(text, start):
    """text without its entry 'start...' up to the next ', ' (the entry's value holds none)."""
    j = text.find(start)
    if j < 0:
        return text
    k = text.find(", ", j)
    return (text[:j] + text[k + 2:]) if k >= 0 else text[:j].removesuffix(", ")


def p20_genuine(ctx, i):
    for e, row, first, where in genuine(ctx, i):
        got, want = e.get_compatible_csv_info(first)["Detail"], row["Detail"]
        ctx.eq("Detail of the event's own details", got,
               csvref.detail_text(int(e.event_class), e.operation, list(e.details.items())), **where)
        op = e.operation
        if row["Operation"] == "<Unknown>" or not supported(e, op):
            ctx.cover("unsupported")
            continue
        ctx.cover("exported events")
        if op == "QueryDirectory":
            a, b = cut_out(got, "FileInformationClass: "), cut_out(want, "FileInformationClass: ")
            # The exporting Procmon writes the class over the listing's entry 2, and cuts long listings
            two = "2: %s" % e.details.get("2")
            c = a.replace(", " + two, "", 1) if "FileInformationClass: " in want else a
            ctx.true("Detail of the export (listing)", b in (a, c) or (len(b) > 200 and (a.startswith(b) or c.startswith(b))),
                     got=a, want=b, **where)
        elif op == "CreateFileMapping":
            a, b = got.split(", PageProtection")[0], want.split(", PageProtection")[0]
            ctx.eq("Detail of the export (sync type)", a, b, **where)
            ctx.eq("protection is shown", "PageProtection" in got, "PageProtection" in want, **where)
        elif "Impersonating" in e.details:
            ctx.eq("Detail of the export (impersonating)", cut_out(got, "Impersonating: "), cut_out(want, "Impersonating: "), **where)
        elif (e.details.get("Type") == "REG_BINARY" or e.details.get("Length", 0) % 2) and "Data" in e.details and got != want:
            # The export reads past the recorded value or cuts it; what both have must agree
            n = min(len(got), len(want))
            ctx.true("Detail of the export (value)", got[:n] == want[:n] and "Data: " in got[:n], got=got, want=want, **where)
            ctx.cover("value of another length")
        else:
            ctx.eq("Detail of the export", got, want, **where)
    ctx.distinct(i)


@check("P20", 3000, 40000,
       "a case takes the Detail column of 10 random events, or of every event of an eighth of a genuine capture (cases 0-47); "
       "distinct by text", ["empty", "exported events", "thousands", "REG_BINARY", "REG_MULTI_SZ", "REG_QWORD", "line break",
                            "negative status", "environment"] +
       ["class:" + c for c in T.EVENT_CLASSES.values() if c != "Unknown"] + ["capture:" + c for c in CORPORA], alarm=200)
def p20(ctx, i, r):
    if i < len(SLICES):
        return p20_genuine(ctx, i)
    gens = [f for k in evgen.GENS for f in r.sample(evgen.GENS[k], 1)]
    log = evgen.make_log(r, 10, gens)
    for ev in log.events:
        tame(r, ev)
    got = open_log(r, log)
    for ev, e in zip(log.events, got):
        pairs = ev.exp.get("details")
        before = snap_event(e)
        text = e.get_compatible_csv_info()["Detail"]
        if pairs is None or any(v is UNCLAIMED for _, v in pairs):
            pairs = list(e.details.items())
            ctx.cover("own details")
        want = csvref.detail_text(ev.cls, ev.exp["operation"], pairs)
        ctx.eq("Detail", text, want, event=ev.kind)
        ctx.true("asking for the columns changes nothing", same(snap_event(e), before), event=ev.kind)
        ctx.eq("Detail asked again", e.get_compatible_csv_info()["Detail"], want, event=ev.kind)
        ctx.cover("class:" + T.EVENT_CLASSES[ev.cls])
        d = dict(pairs)
        if not pairs:
            ctx.cover("empty")
        if any(isinstance(v, int) and abs(v) >= 1000 for v in d.values()):
            ctx.cover("thousands")
        if "Data" in d:
            ctx.cover(str(d["Type"]))
            if isinstance(d["Data"], str) and "\n" in d["Data"]:
                ctx.cover("line break")
        if d.get("Exit Status", 0) >> 31:
            ctx.cover("negative status")
        if d.get("Environment"):
            ctx.cover("environment")
        ctx.distinct(text)
    if i < 60:
        ctx.sample({"operation": e.operation, "Detail": text[:200]})


# ------------------------------------------------------------------ P21
def naive(ft):
    y, mo, d, h, mi, s, f = csvref.split(ft)
    return datetime.datetime(y, mo, d, h, mi, s, f // 10)


@check("P21", 10000, 60000,
       "a case asks for the UTC and local dates of 12 events in one of 11 time zones, biased to changes of daylight saving; "
       "distinct by zone and time", ["utc", "local", "in a row", "no date", "before 1970", "daylight", "standard", "near a change", "default"] +
       ["zone:" + z for z in zones.ZONES])
def p21(ctx, i, r):
    zname = r.choice(list(zones.ZONES))
    z = zones.ZONES[zname]
    ctx.cover("zone:" + zname)
    log = evgen.base_log(r, nproc=1, nmod=0)
    evs = [finish(r, log, evgen.thread_create(r, log, {})) for _ in range(12)]
    for ev in evs:
        ev.date = r.filetime()
        if z[2] is not None and r.chance(.5):
            c = r.choice(zones.changes(z, r.randint(1971, 9998)))
            ev.date = csvref.EPOCH + (c + r.choice([-3601, -3600, -1800, -1, 0, 1, 1799, 1800, 3599, 3600])) * csvref.SEC + \
                r.choice([0, 1, 9, 10, 9999999, 5000000, r.randrange(10 ** 7)])
            ctx.cover("near a change")
        elif ev is not evs[0] and r.chance(.3):
            # a time close to another one: the same second, hour, day, month
            step = r.choice([0, 1, csvref.SEC, 3600 * csvref.SEC, DAY // 2, DAY, 30 * DAY])
            ev.date = max(0, r.choice(evs[:evs.index(ev)]).date + r.choice([-1, 1]) * (r.randrange(step) if step else 0))
        if ev.date >= END - 2 * DAY:
            ev.date = END - 3 * DAY - ev.date % DAY
        if ev.date < csvref.EPOCH + 2 * DAY:
            ev.date += 2 * DAY if r.chance(.5) else 0
    log.events = evs
    with zone(z[0]):
        reader = open_log(r, log)
        if r.chance(.3):
            # only dates of one sort, one after another
            utc = r.chance(.3)
            for ev, e in zip(evs, reader):
                off = 0 if utc else zones.offset(z, (ev.date - csvref.EPOCH) // csvref.SEC)
                ctx.eq("UTC date" if utc else "local date", e.date(utc).replace(fold=0), naive(ev.date + off * csvref.SEC), zone=zname,
                       filetime=ev.date)
            ctx.cover("in a row")
            reader = open_log(r, log)
        for ev, e in zip(evs, reader):
            k = {"zone": zname, "filetime": ev.date}
            ctx.eq("UTC date", e.date(), naive(ev.date), **k)
            ctx.eq("UTC date", e.date(True), naive(ev.date), **k)
            ctx.eq("UTC date", e.date(is_utc=True), naive(ev.date), **k)
            secs = (ev.date - csvref.EPOCH) // csvref.SEC
            off = zones.offset(z, secs)
            want = naive(ev.date + off * csvref.SEC)
            for got in (e.date(False), e.date(is_utc=False)):
                ctx.eq("local date", got.replace(fold=0), want, **k)
            ctx.eq("capture time is unchanged", e.date_filetime, ev.date)
            for c in ("utc", "local", "default", "standard" if off == z[1] else "daylight"):
                ctx.cover(c)
            ctx.distinct(zname, ev.date)
            e.date_filetime = None
            ctx.eq("date of an event without a time", e.date(r.chance(.5)), None)
            ctx.cover("no date")
        for ft in (r.choice([0, 1, 9, 10, 9999999, 10 ** 7, csvref.EPOCH - 1, csvref.EPOCH - 10, csvref.EPOCH - 10 ** 7]),
                   r.randrange(csvref.EPOCH)):
            e.date_filetime = ft
            ctx.eq("UTC date before 1970", e.date(), naive(ft), filetime=ft)
            ctx.cover("before 1970")
    if i < 3:
        ctx.sample({"zone": zname, "filetime": ev.date, "local": str(want)})


# ------------------------------------------------------------------ P22
def ns(code, table, r=None):
    """Codes close to a known one that have no name."""
    out = [code + 1, code - 1, code ^ 0x10, code ^ 0x40000000, code ^ 0x80000000, code & 0xffff, code >> 8]
    return [c for c in out if 0 <= c < 1 << 32 and c not in table]


def code_items():
    """Every code of every dictionary, every single bit and pair of bits and codes around them, as (what, generator, facts)."""
    out = []

    def add(what, f, **o):
        out.append((what, f, o))
    for n in ("Process_Create", "Process_Defined"):
        add("operation", evgen.with_op(evgen.process_created, n))
    for n in ("Process_Exit", "Process_Statistics"):
        add("operation", evgen.with_op(evgen.process_exit, n))
    for f in (evgen.process_started, evgen.thread_create, evgen.thread_exit, evgen.load_image, evgen.process_other):
        add("operation", f)
    for op in T.PROFILING_OPS:
        add("operation", evgen.profiling, op=op)
    for op in T.NETWORK_OPS:
        for tcp in (True, False):
            add("operation", evgen.network, op=op, tcp=tcp)
    for n in ("RegOpenKey", "RegCreateKey"):
        add("operation", evgen.reg_open, op=n)
        for b in range(32):
            add("access bit", evgen.reg_open, op=n, access=1 << b)
            add("granted bit", evgen.reg_open, op=n, access=0x2000000, granted=1 << b, extra=True)
            for c in range(b):
                add("access bits", evgen.reg_open, op=n, access=1 << b | 1 << c)
        for d in list(T.REG_DISPOSITION) + [0, 3, 255, 0xffffffff]:
            add("disposition", evgen.reg_open, op=n, access=0x20019, disp=d, extra=True)
    for n in ("RegQueryKey", "RegEnumKey"):
        for c in T.KEY_INFO:
            add("key class", evgen.reg_key_query, op=n, cls=c)
    for n in ("RegQueryValue", "RegEnumValue"):
        for c in T.KEY_VALUE_INFO:
            add("value class", evgen.reg_value_query, op=n, cls=c)
        for t in list(range(0, 20)) + [0xff, 0x100, 0x101, 0x10001, 0x80000001, 0xffffffff]:
            for c in (0, 1, 2):
                add("registry type", evgen.reg_value_query, op=n, cls=c, type=t, extra=True)
    for t in list(range(0, 20)) + [0xff, 0x100, 0x101, 0x10001, 0x80000001, 0xffffffff]:
        add("registry type", evgen.reg_set_value, type=t)
    for c in list(range(0, 12)) + [0xff, 0x100, 0x80000000, 0xffffffff]:
        add("set key class", evgen.reg_set_info, cls=c)
    for n in ("RegLoadKey", "RegRenameKey"):
        add("operation", evgen.with_op(evgen.reg_load, n))
    for n in evgen.REG_PLAIN:
        add("operation", evgen.reg_plain, op=n)
    for op, base in T.FS_OPS.items():
        subs = range(256) if op in T.FS_SUB_OPS else (0, 1, 5, 255)
        for s in subs:
            name = T.FS_SUB_OPS.get(op, {}).get(s, base)
            if name not in evgen.DETAILED:
                add("sub-operation" if op in T.FS_SUB_OPS else "operation", evgen.fs_other, op=op, sub=s)
    for n in ("ReadFile", "WriteFile"):
        for b in range(32):
            add("I/O flag", evgen.read_write, op=n, flags=1 << b)
            for c in range(b):
                add("I/O flags", evgen.read_write, op=n, flags=1 << b | 1 << c)
        for p in range(8):
            add("priority", evgen.read_write, op=n, priority=p)
    codes = list(T.IOCTLS)
    for c in codes:
        for n in ("FileSystemControl", "DeviceIoControl"):
            add("control code", evgen.ioctl, op=n, code=c)
        for x in ns(c, T.IOCTLS):
            add("unknown control code", evgen.ioctl, op="DeviceIoControl" if x & 1 else "FileSystemControl", code=x)
    for b in range(32):
        add("access bit", evgen.create_file, access=1 << b)
        for c in range(b):
            add("access bits", evgen.create_file, access=1 << b | 1 << c)
    for full in (0x120089, 0x120116, 0x1200a0, 0x1f01ff):
        for b in range(32):
            add("generic access", evgen.create_file, access=full ^ 1 << b)
    for full in (0x20019, 0x20006, 0xf003f):
        for b in range(32):
            add("generic access", evgen.reg_open, access=full ^ 1 << b)
    for b in range(24):
        add("option", evgen.create_file, options=1 << b)
        for c in range(b):
            add("options", evgen.create_file, options=1 << b | 1 << c)
    for b in range(16):
        add("attribute", evgen.create_file, attributes=1 << b)
        add("share bit", evgen.create_file, share=1 << b)
        for c in range(b):
            add("attributes", evgen.create_file, attributes=1 << b | 1 << c)
    for v in range(16):
        add("share", evgen.create_file, share=v)
        add("disposition", evgen.create_file, disp=v)
        add("open result", evgen.create_file, result=v, extra=True)
    for v in (0x100, 0x101, 0x80000001, 0xffffffff):
        add("open result", evgen.create_file, result=v, extra=True)
    for v in range(16, 256):
        add("disposition", evgen.create_file, disp=v)
    for c in T.FILE_INFO:
        add("file class", evgen.query_directory, cls=c)
    for b in range(32):
        add("notify bit", evgen.notify, mask=1 << b)
        add("protection bit", evgen.file_mapping, prot=1 << b)
        add("protection bit", evgen.file_mapping, prot=1 << b | 0x200)
        for c in range(b):
            add("notify bits", evgen.notify, mask=1 << b | 1 << c)
    for v in list(range(8)) + [0xff, 0x100, 0xffffffff]:
        add("sync type", evgen.file_mapping, sync=v)
    for c in T.RESULTS:
        if c not in SUSPECT:
            add("result", evgen.thread_create, _result=c)
            for x in ns(c, T.RESULTS):
                add("unknown result", evgen.thread_create, _result=x)
    return out


ITEMS = code_items()
BATCH = 16
NBATCH = (len(ITEMS) + BATCH - 1) // BATCH


@check("P22", 2 * NBATCH + 3000, 8 * NBATCH + 40000,
       "cases 0..%d of each round go through every code of every dictionary, every bit, every pair of bits and codes around them, 16 to "
       "a case; the others draw random masks; distinct by shown names" % (2 * NBATCH - 1),
       sorted({w for w, _, _ in ITEMS}) + ["random"])
def p22(ctx, i, r):
    rounds = 8 if ctx.thorough else 2
    log = evgen.base_log(r, nproc=2, nmod=0, is64=i % 2 == 0 if i < 2 * NBATCH else None)
    if i < rounds * NBATCH:
        batch = [x for x in ITEMS[i // rounds * BATCH:][:BATCH]]
    else:
        batch = []
        for _ in range(BATCH):
            k = r.randrange(8)
            batch.append(("random",) + (
                (evgen.reg_open, {"access": r.u32() if r.chance(.5) else r.bits(32)}),
                (evgen.create_file, {"access": r.bits(32)}), (evgen.create_file, {"options": r.getrandbits(24)}),
                (evgen.create_file, {"attributes": r.getrandbits(16)}), (evgen.read_write, {"flags": r.getrandbits(32)}),
                (evgen.notify, {"mask": r.getrandbits(32)}), (evgen.ioctl, {"code": r.getrandbits(32)}),
                (evgen.thread_create, {"_result": r.getrandbits(32)}))[k])
    for what, f, o in batch:
        o = dict(o)
        res = o.pop("_result", None)
        ev = tame(r, finish(r, log, f(r, log, o)))
        if res is not None:
            ev.result = res if res not in SUSPECT else 0
            tame(r, ev)
        log.events.append(ev)
    for (what, f, o), ev, e in zip(batch, log.events, open_log(r, log)):
        ctx.cover(what)
        check_specific(ctx, ev, e, ("operation", "details"))
        ctx.eq("result code", e.result, ev.result)
        rec = e.get_compatible_csv_info()
        ctx.eq("Result", rec["Result"], csvref.result_text(ev.result), code=ev.result)
        ctx.eq("Operation", rec["Operation"], csvref.operation_text(ev.cls, e.operation), event=ev.kind)
        ctx.eq("Event Class", rec["Event Class"], T.EVENT_CLASSES[ev.cls].replace("_", " "))
        ctx.distinct(what, ev.exp["operation"], rec["Result"] if "result" in what else repr(ev.exp.get("details"))[:300])


# ------------------------------------------------------------------ V01
class Plain(object):
    """Another type with the same attributes."""
    def __init__(self, o):
        self.__dict__.update(fields(o))


def other_types(r, x):
    return [None, 0, 1, "", "x", b"", (), [], {}, object(), Plain(x), fields(x), type(x), str(x), hash(x),
            1.5, NotImplemented, Exception("x"), frozenset()]


def check_equal(ctx, a, b, what, **k):
    for x, y in ((a, b), (b, a)):
        ctx.eq(what + " are equal", x == y, True, **k)
        ctx.eq(what + " are not unequal", x != y, False, **k)
    ctx.eq("hashes of equal " + what, hash(a), hash(b), **k)
    ctx.eq("%s in a set" % what, len({a, b}), 1, **k)
    ctx.eq("%s as a key" % what, {a: 1}.get(b), 1, **k)


def check_unequal(ctx, a, b, what, **k):
    for x, y in ((a, b), (b, a)):
        ctx.eq(what + " are equal", x == y, False, **k)
        ctx.eq(what + " are unequal", x != y, True, **k)
    ctx.eq("%s in a set" % what, len({a, b}), 2, **k)


def rand_rule(r):
    col, rel, val, act = pmc.grule(r)
    return pp.Rule(T_COL(col), T_REL(rel), val, T_ACT(act))


def T_COL(c):
    return pp.Column(c)


def T_REL(c):
    return pp.RuleRelation(c)


def T_ACT(c):
    return pp.RuleAction(c)


def vary(r, v):
    """A value of the same type that differs."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return r.choice([v + 1, v ^ 1, v + (1 << 32), v ^ (1 << 31)])
    if isinstance(v, str):
        w = r.choice([v + "x", v + " ", v[:-1], v.upper(), v.lower(), v[::-1], "", v + "\0"])
        return w if w != v else v + "y"
    if isinstance(v, list):
        w = r.choice([v + [1], v[:-1], v[::-1]])
        return w if w != v else v + [7]
    raise TypeError(type(v))


def some_text(r):
    k = r.random()
    if k < .12:
        return ""
    if k < .17:
        return r.uni() + r.choice(["x", "\u4e2d"]) * r.choice([64, 65, 255, 256, 300, 1025, 5000])
    return r.path() if k < .4 else r.word() if k < .7 else r.uni()


def some_int(r, bits):
    return r.choice([0, 1, (1 << bits) - 1]) if r.chance(.2) else r.bits(bits)


def rand_module(r):
    return pplogs.Module(some_int(r, 64), some_int(r, 32), *[some_text(r) for _ in range(4)], some_int(r, 32))


def rand_process(r):
    return pplogs.Process(some_int(r, 32), some_int(r, 32), some_int(r, 64), some_int(r, 32), r.choice([0, 1, 2]), r.chance(.5),
                          *[some_text(r) for _ in range(8)], some_int(r, 64), some_int(r, 64),
                          [rand_module(r) for _ in range(r.many([0, 1, 3, 6], 60))])


def apart(v):
    """An equal value that shares nothing with v, not even its texts and numbers."""
    if isinstance(v, enum.Enum) or isinstance(v, bool) or v is None:
        return v
    if isinstance(v, str):
        return "".join(list(v))
    if isinstance(v, int):
        return int(str(v))
    if isinstance(v, bytes):
        return bytes(bytearray(v))
    if isinstance(v, (list, tuple)):
        return type(v)([apart(x) for x in v])
    if isinstance(v, dict):
        return type(v)((apart(k), apart(x)) for k, x in v.items())
    if type(v) in (pp.Rule, pplogs.Event, pplogs.Process, pplogs.Module):
        y = copy.copy(v)
        for f in fields(v):
            setattr(y, f, apart(getattr(v, f)))
        return y
    return copy.deepcopy(v)


def use(x):
    """What a program does with an object; none of it may change what the object equals."""
    if not isinstance(x, pplogs.Event) or x.date_filetime < END:
        str(x)
    repr(x), hash(x), x == x, x != x, x in {x}
    if isinstance(x, pplogs.Event):
        x.date_filetime < END and x.date()
        use(x.process)
    for m in getattr(x, "modules", []):
        use(m)


def rand_details(r):
    import collections
    return collections.OrderedDict((r.word(), r.choice([r.u32(), r.uni(), [r.word()], r.randbytes(3)])) for _ in range(r.randint(0, 4)))


def rand_event(r):
    return pplogs.Event(rand_process(r), r.u32(), r.choice(list(T.EVENT_CLASSES)), r.choice(["RegOpenKey", "CreateFile", "TCP Send"]),
                        r.u64(), r.filetime(), r.u32(), [r.u64() for _ in range(r.randint(0, 3))], r.choice(["", "Read", "Write"]),
                        r.path(), rand_details(r))


def differing(r, x, f):
    """A copy of x that differs in the attribute f only."""
    y = copy.deepcopy(x)
    v = getattr(x, f)
    if f == "event_class":
        w = r.choice([c for c in type(v) if c != v])
    elif f in ("column", "relation", "action"):
        w = r.choice([c for c in type(v) if c != v])
    elif f == "process":
        w = differing(r, v, r.choice(pml.Proc.F + ("modules",)))
    elif f == "modules":
        w = r.choice([v + [rand_module(r)], v[:-1]]) if not v or r.chance(.4) else \
            v[:-1] + [differing(r, v[-1], r.choice(pml.Mod.F))]
        if w == v:
            w = [rand_module(r)]
    elif f == "details":
        w = copy.deepcopy(v)
        w[r.choice(list(v)) if v and r.chance(.6) else "another"] = "something else entirely"
    elif f == "start_time" or f == "end_time" or f == "date_filetime":
        w = r.choice([v + 1, v + 10 ** 7, v ^ 1])
    else:
        w = vary(r, v)
    setattr(y, f, w)
    return y


EVENT_F = ("process", "tid", "event_class", "operation", "date_filetime", "result", "duration", "stacktrace", "category", "path",
           "details")
RULE_F = ("column", "relation", "value", "action")
KINDS = {"rules": (rand_rule, RULE_F), "modules": (rand_module, pml.Mod.F),
         "processes": (rand_process, pml.Proc.F + ("modules",)), "events": (rand_event, EVENT_F)}


@check("V01", 4500, 40000,
       "a case compares one object of each kind with an equal one, with ones that differ in each single attribute and with other types, "
       "then the events and processes of a log read several times and of logs that differ in one recorded fact; distinct by object",
       ["same reader", "other reader", "read path", "other log", "other types", "other kinds", "later use", "nothing shared"] +
       ["%s differing in %s" % (k, f) for k, (_, fs) in KINDS.items() for f in fs] +
       ["recorded " + k for k in ("tid", "date", "result", "duration", "stack", "process", "module", "operation", "path")])
def v01(ctx, i, r):
    objs = {}
    for what, (make, fs) in KINDS.items():
        a = make(r)
        b = copy.deepcopy(a)
        objs[what] = a
        check_equal(ctx, a, a, what)
        check_equal(ctx, a, b, what)
        use(b)
        check_equal(ctx, a, b, what, route="after use")
        check_equal(ctx, apart(a), b, what, route="nothing shared")
        ctx.cover("nothing shared")
        for f in fs:
            c = differing(r, a, f)
            check_unequal(ctx, a, c, what, attribute=f, one=getattr(a, f), other=getattr(c, f))
            ctx.cover("%s differing in %s" % (what, f))
            setattr(c, f, copy.deepcopy(getattr(a, f)))
            check_equal(ctx, a, c, what)
        for o in other_types(r, a):
            ctx.eq("%s == %s" % (what, type(o).__name__), a == o, False)
            ctx.eq("%s != %s" % (what, type(o).__name__), a != o, True)
            ctx.eq("%s == %s" % (type(o).__name__, what), o == a, False)
            ctx.eq("%s in a list" % what, a in [o], False)
            ctx.cover("other types")
        ctx.distinct(what, repr(a)[:200])
    for x in objs.values():
        for y in objs.values():
            if x is not y:
                ctx.eq("different kinds are equal", x == y, False)
                ctx.cover("other kinds")
    # What is read
    log = evgen.make_log(r, 4, nproc=2, nmod=1)
    img = write(log, Layout.random(r), r)
    one = pp.ProcmonLogsReader(img.stream(False))
    two = pp.ProcmonLogsReader(img.stream(False))
    path = [next(two) for _ in log.events]
    for k in range(4):
        e = one[k]
        check_equal(ctx, e, one[k], "events", route="same reader")
        check_equal(ctx, e, one[k - 4], "events", route="negative index")
        check_equal(ctx, e, one[k:k + 1][0], "events", route="slice")
        ctx.cover("same reader")
        check_equal(ctx, e, two[k], "events", route="other reader")
        check_equal(ctx, e, path[k], "events", route="iteration")
        ctx.cover("other reader")
        e.get_compatible_csv_info() if log.events[k].date + log.events[k].duration < END else None
        str(e), repr(e), e.date()
        check_equal(ctx, e, path[k], "events", route="after use")
        ctx.cover("later use")
        for j in range(4):
            if j != k:
                ctx.eq("different events are equal", one[j] == e, False)
    for a, b in zip(one.processes(), two.processes()):
        check_equal(ctx, a, b, "processes", route="other reader")
        for m, n in zip(a.modules, b.modules):
            check_equal(ctx, m, n, "modules", route="other reader")
    check_equal(ctx, *[pp.ProcmonLogsReader(write(log, Layout.random(r), r).stream(False))[r.randrange(4) * 0] for _ in range(2)],
                "events", route="other layout")
    ctx.cover("read path")
    k = r.randrange(4)
    ev = log.events[k]
    what = r.choice(["tid", "date", "result", "duration", "stack", "process", "module", "operation", "path"])
    p = log.proc(ev.pidx)
    if what in ("tid", "result"):
        setattr(ev, what, getattr(ev, what) ^ (1 << r.randrange(32)))
    elif what in ("date", "duration"):
        setattr(ev, what, getattr(ev, what) ^ (1 << r.randrange(8)))
    elif what == "stack":
        ev.stack = ev.stack + [5] if not ev.stack or r.chance(.5) else ev.stack[:-1] + [ev.stack[-1] ^ 1]
    elif what == "process":
        f = r.choice(pml.Proc.F)
        v = getattr(p, f)
        setattr(p, f, (0 if v else 1) if f == "is_process_64bit" else v ^ 1 if isinstance(v, int) else "other than " + v[:3].replace("\0", ""))
    elif what == "module":
        m = r.choice(p.modules)
        f = r.choice(pml.Mod.F)
        v = getattr(m, f)
        setattr(m, f, v ^ 1 if isinstance(v, int) else "other than " + v[:3].replace("\0", ""))
    else:
        new = evgen.thread_exit(r, log, {}) if what == "operation" else evgen.load_image(r, log, {"path": "another path " + r.word()})
        if new.exp["operation"] == ev.exp["operation"] and what == "operation":
            new = evgen.thread_create(r, log, {})
        for f in ("pidx", "tid", "duration", "date", "result", "stack"):
            setattr(new, f, getattr(ev, f))
        log.events[k] = ev = settle(new)
    settle(ev)
    evgen.settle_log(log)
    third = pp.ProcmonLogsReader(write(log, Layout.random(r), r).stream(False))
    ctx.eq("events that differ in a recorded fact are equal", third[k] == path[k], False, fact=what)
    ctx.eq("events that differ in a recorded fact are not unequal", third[k] != path[k], True, fact=what)
    ctx.cover("other log")
    ctx.cover("recorded " + what)


# ------------------------------------------------------------------ V02
def special(r):
    k = r.random()
    if k < .3:
        return r.choice(["{}", "{0}", "{", "}", "%s", "%", "{:07d}", "{name}", "%(x)s", "\"", "'", "\\", "\\\"", "\n", "{}{}{}{}{}{}", "{{}}",
                         "%d %s", "{!r}", "{0.__class__}", "\0", "\ud800", "\udfff\ud800", "", "0", "/0", "AM"])
    if k < .36:
        return "C:\\" + r.choice(["a", "\\", "x y", "\u00e9", "{", "%"]) * r.choice([60, 254, 255, 256, 257, 260, 511, 1000, 4000, 16000])
    return wild(r) if k < .6 else r.uni(nul=True, lone=True)


@check("V02", 9000, 40000,
       "a case prints 6 events, their processes, modules and stack, and 6 rules, with special characters; distinct by text",
       ["event", "process", "module", "rule", "brace", "percent", "quote", "surrogate", "config rule"] +
       ["class:" + c for c in T.EVENT_CLASSES.values() if c != "Unknown"])
def v02(ctx, i, r):
    log = evgen.make_log(r, 6)
    for p in log.procs:
        for f in p.TEXTS:
            if r.chance(.5):
                setattr(p, f, special(r))
        for m in p.modules:
            for f in ("path", "version", "company", "description"):
                if r.chance(.5):
                    setattr(m, f, special(r))
    for k, ev in enumerate(log.events):
        if r.chance(.3):
            c = log.events[k] = evgen.load_image(r, log, {"path": r.choice(["{}", "{0}%s\"", "%", "{x", "a}b", "{:07d}"]), "force": False})
            for f in ("pidx", "tid", "duration", "date", "result", "stack"):
                setattr(c, f, getattr(ev, f))
        elif r.chance(.2):
            h = ev.date - (ev.date - csvref.EPOCH) % DAY
            ev.date = h + r.choice([0, 1, DAY // 2, DAY // 2 - 1, DAY - 1, 3600 * csvref.SEC])
    evgen.settle_log(log)
    reader = pp.ProcmonLogsReader(write(log, Layout.random(r), r).stream(False))
    for k, ev in enumerate(log.events):
        e = reader[k]
        before = snap_event(e)
        p = facts(log, ev)
        want = csvref.event_text(p, ev.exp["operation"], ev.exp.get("path", e.path), ev.date)
        for got in (str(e), "%s" % e, "{}".format(e)):
            ctx.eq("text of an event", got, want, event=ev.kind)
        rep = repr(e)
        ctx.true("repr of an event is a text", isinstance(rep, str))
        for w in (ev.exp["operation"], ev.exp.get("path", e.path), str(ev.tid), T.EVENT_CLASSES[ev.cls]):
            ctx.true("repr of an event shows its values", w in rep, value=w, got=rep)
        ctx.true("printing an event changes nothing", same(snap_event(e), before), event=ev.kind)
        ctx.cover("event")
        ctx.cover("class:" + T.EVENT_CLASSES[ev.cls])
        for c, n in (("{", "brace"), ("%", "percent"), ('"', "quote")):
            if c in p["process_name"] + ev.exp.get("path", ""):
                ctx.cover(n)
        ctx.distinct(want)
    for x, p in zip(log.procs, reader.processes()):
        before = snap_proc(p)
        d = dict(zip(x.F, x.expected()))
        ctx.eq("text of a process", str(p), '"%s", %d' % (d["image_path"], x.pid))
        rep = repr(p)
        for f in ("process_name", "image_path", "command_line", "user", "description"):
            ctx.true("repr of a process shows its values", d[f] in rep, value=d[f], got=rep)
        ctx.true("repr of a process shows its pid", str(x.pid) in rep)
        if any(0xd800 <= ord(c) < 0xe000 for f in x.TEXTS for c in getattr(x, f)):
            ctx.cover("surrogate")
        for y, m in zip(x.modules, p.modules):
            z = dict(zip(y.F, y.expected()))
            ctx.eq("text of a module", str(m), '"%s", address=0x%x, size=0x%x' % (z["path"], y.base_address, y.size))
            rep = repr(m)
            for f in ("path", "version", "company", "description"):
                ctx.true("repr of a module shows its values", z[f] in rep, value=z[f], got=rep)
            ctx.cover("module")
        ctx.true("printing a process changes nothing", same(snap_proc(p), before))
        ctx.cover("process")
    rules = [(pmc.grule(r)[:2] + (special(r),) + pmc.grule(r)[3:]) for _ in range(6)]
    objs = [pp.Rule(pp.Column(c), pp.RuleRelation(l), v, pp.RuleAction(a)) for c, l, v, a in rules]
    if r.chance(.5):
        good = [(c, l, v.replace("\0", "").encode("utf-16-le", "ignore").decode("utf-16-le"), a) for c, l, v, a in rules]
        f = io.BytesIO()
        pp.dump_configuration({"FilterRules": [pp.Rule(pp.Column(c), pp.RuleRelation(l), v, pp.RuleAction(a)) for c, l, v, a in good]}, f)
        f.seek(0)
        objs, rules = pp.load_configuration(f)["FilterRules"], good
        ctx.cover("config rule")
    for (c, l, v, a), o in zip(rules, objs):
        cn, ln, an = T.COLUMNS[c], T.RELATIONS[l], T.ACTIONS[a]
        for got in (str(o), "%s" % o):
            ctx.eq("text of a rule", got, 'If %s %s "%s", then %s' % (cn.capitalize(), ln.lower(), v, an.capitalize()))
        rep = repr(o)
        for w in (cn, ln, v, an):
            ctx.true("repr of a rule shows its values", w in rep, value=w, got=rep)
        ctx.eq("printing a rule changes nothing", [int(o.column), int(o.relation), o.value, int(o.action)], [c, l, v, a])
        ctx.cover("rule")
        if any(q in v for q in "{}"):
            ctx.cover("brace")
        if "%" in v:
            ctx.cover("percent")
        ctx.distinct("rule", c, l, v, a)
