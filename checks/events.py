"""P11-P18: operations and their details."""
import struct

from vlib import evgen, pml, tables as T
from vlib.evgen import FCODE, FILE_CLASS, DIR_CLASSES, finish
from vlib.monitor import check, same
from vlib.pml import Layout, check_common, check_specific, snap_event, write
from vlib.text16 import enc, shown, units

import procmon_parser as pp


def read_log(ctx, r, log, lay=None):
    img = write(log, lay or Layout.random(r), r)
    reader = pp.ProcmonLogsReader(img.stream(False))
    ctx.eq("number of events", len(reader), len(log.events))
    out = []
    for k, ev in enumerate(log.events):
        e = reader[k]
        check_common(ctx, log, ev, e)
        check_specific(ctx, ev, e)
        out.append(e)
    return out


def cover(ctx, log, keys=()):
    ctx.cover("64-bit" if log.is64 else "32-bit")
    for ev in log.events:
        ctx.cover("kind:" + ev.kind)
        if ev.extra is not None:
            ctx.cover("extra:" + ev.kind.split("/")[0])
        else:
            ctx.cover("no extra:" + ev.kind.split("/")[0])
        for k, v in ev.exp.get("details") or []:
            if k in keys:
                ctx.cover("detail:" + k)
        ctx.distinct(ev.kind, ev.exp.get("path"), repr(ev.exp.get("details"))[:400])


def group_log(r, gens, n, **k):
    return evgen.make_log(r, n, gens, **k)


def events_case(ctx, i, r, group, keys=(), n=8):
    log = group_log(r, evgen.GENS[group], n)
    cover(ctx, log, keys)
    got = read_log(ctx, r, log)
    if i < 3:
        ctx.sample({"kind": log.events[0].kind, "path": got[0].path, "details": list(got[0].details.items())[:6]})
    return log, got


# ------------------------------------------------------------------ P11
@check("P11", 12000, 80000, "a case reads 8 network events with random endpoints, names and properties; distinct by path and details",
       ["udp", "tcp", "v4", "v6", "host name", "port name", "port number", "pairs:0", "pairs:many", "64-bit", "32-bit", "length:0"] +
       ["op:" + n for n in T.NETWORK_OPS.values()] + ["hosts:>65536", "ports:>65536"])
def p11(ctx, i, r):
    if i == 60:
        # more names than 16 bits count
        log = evgen.base_log(r)
        seen = {ip for ip, _ in log.hosts}
        for k in range(66000):
            ip = struct.pack(">I", k + (10 << 24)) + b"\0" * 12 if k % 3 else struct.pack(">QQ", 0x20010db8 << 32, k)
            if ip not in seen:
                log.hosts.append((ip, "h%d" % k))
        log.ports = [(p, tcp, "%s%d" % ("tu"[tcp], p)) for p in range(65536) for tcp in (False, True)][r.randrange(3):]
        ctx.cover("hosts:>65536")
        ctx.cover("ports:>65536")
        for k in range(20):
            log.events.append(finish(r, log, evgen.network(r, log, {})))
        read_log(ctx, r, log)
    log, got = events_case(ctx, i, r, "network")
    hosts = {shown(n) for _, n in log.hosts if n}
    for ev in log.events:
        x = ev.exp
        ctx.cover("tcp" if x["operation"].startswith("TCP") else "udp")
        ctx.cover("op:" + x["operation"][4:])
        for side in x["path"].split(" -> "):
            a, _, p = side.rpartition(":")
            ctx.cover("host name" if a in hosts else "v6" if a.count(":") == 7 else "v4" if a.count(".") == 3 else "other")
            ctx.cover("port number" if p.isdigit() else "port name")
        n = len(x["details"]) - 1
        ctx.cover("pairs:0" if n == 0 else "pairs:1" if n == 1 else "pairs:many")
        if x["details"][0][1] == 0:
            ctx.cover("length:0")


# ------------------------------------------------------------------ P12, P13
@check("P12", 12000, 80000, "a case reads 8 registry key events; distinct by path and details",
       ["kind:" + k for k in ["RegOpenKey", "RegCreateKey", "RegLoadKey", "RegRenameKey"] + list(evgen.REG_PLAIN)] +
       ["kind:RegQueryKey/" + c for c in T.KEY_INFO.values()] + ["kind:RegEnumKey/" + c for c in T.KEY_INFO.values()] +
       ["kind:RegSetInfoKey/" + c[:24] for c in T.KEY_SET_INFO.values()] +
       ["extra:RegOpenKey", "no extra:RegOpenKey", "extra:RegQueryKey", "no extra:RegQueryKey", "extra:RegEnumKey", "no extra:RegEnumKey"] +
       ["detail:" + k for k in ("Desired Access", "Granted Access", "Disposition", "Query", "Index", "Length", "New Name", "Hive Path",
                                "LastWriteTime", "HandleTags", "Wow64Flags", "SubKeys", "Name", "KeySetInformationClass")] +
       ["64-bit", "32-bit", "write", "key info sweep"])
def p12(ctx, i, r):
    if i < 2 * len(T.KEY_INFO) * 4:
        # every information class with every presence of extra details
        cls = list(T.KEY_INFO)[i % len(T.KEY_INFO)]
        log = evgen.base_log(r, is64=bool(i & 1))
        for op in ("RegQueryKey", "RegEnumKey"):
            for has in (True, False):
                log.events.append(finish(r, log, evgen.reg_key_query(r, log, {"cls": cls, "extra": has}, op)))
        ctx.cover("key info sweep")
        read_log(ctx, r, log)
    log, got = events_case(ctx, i, r, "regkey", (
        "Desired Access", "Granted Access", "Disposition", "Query", "Index", "Length", "New Name", "Hive Path", "LastWriteTime",
        "HandleTags", "Wow64Flags", "SubKeys", "Name", "KeySetInformationClass"))
    for ev in log.events:
        if ev.exp["category"] == "Write":
            ctx.cover("write")


VALUE_KINDS = ["%s/%s/%s" % (op, c, t) for op in ("RegQueryValue", "RegEnumValue") for c in
               ("KeyValueFullInformation", "KeyValuePartialInformation") for t in
               [x[:12] for x in T.REG_TYPES.values()] + ["<Unknown: 12"]]


@check("P13", 9000, 80000, "a case reads 8 registry value events of every type; distinct by path and details",
       ["kind:" + k for k in VALUE_KINDS] + ["kind:RegSetValue/" + t[:12] for t in T.REG_TYPES.values()] +
       ["empty", "data", "partial", "long", "no extra:RegQueryValue", "no extra:RegEnumValue", "64-bit", "32-bit"],
       ["a REG_SZ never is longer than its declared length; REG_MULTI_SZ values hold at least one string, none of them empty"])
def p13(ctx, i, r):
    log, got = events_case(ctx, i, r, "regvalue")
    for ev in log.events:
        d = dict(ev.exp["details"])
        if "Data" in d:
            ctx.cover("data")
            if isinstance(d["Data"], (bytes, str, list)) and len(d["Data"]) > 900:
                ctx.cover("long")
        elif d.get("Length") == 0:
            ctx.cover("empty")
        if ev.kind == "RegSetValue/REG_BINARY" and "Data" in d and d["Length"] > len(d["Data"]):
            ctx.cover("partial")
    cut_values(ctx, i, r)


def cut_values(ctx, i, r):
    """A value of which only the beginning is in the log yields no foreign bytes."""
    log = evgen.base_log(r)
    typ = r.choice([3, 1, 7, 2])
    op = r.choice(["RegSetValue", "RegQueryValue", "RegEnumValue"])
    ev = evgen.reg_set_value(r, log, {"type": typ, "empty": False}) if op == "RegSetValue" else \
        evgen.reg_value_query(r, log, {"type": typ, "extra": True, "empty": False, "cls": r.choice([1, 2])}, op)
    d = dict(ev.exp["details"])
    full = d.get("Data")
    if full is None:
        return
    ev.exp["details"] = None
    blob = ev.details if op == "RegSetValue" else ev.extra
    n = r.randrange(1, min(len(blob), 40)) if len(blob) > 1 else 0
    if op == "RegSetValue":
        ev.details = blob[:-n] if n else blob
    else:
        ev.extra = blob[:-n] if n else blob
    log.events.append(finish(r, log, ev))
    log.events.append(finish(r, log, evgen.thread_create(r, log, {})))
    img = write(log, Layout.random(r), r)
    reader = pp.ProcmonLogsReader(img.stream(False))
    try:
        e = reader[0]
    except Exception:
        ctx.cover("cut:raised")
        ctx.ok()
        return
    data = e.details.get("Data")
    ctx.cover("cut:" + type(data).__name__)
    if data is None or data == "":
        ctx.ok()
    elif isinstance(data, bytes):
        ctx.true("bytes of a partly recorded value", full[:len(data)] == data or data[:len(full)] == full and op != "RegSetValue" or
                 data in blob, got=data, recorded=full, event=ev.kind)
    elif isinstance(data, str):
        ctx.true("text of a partly recorded value", full.startswith(data.rstrip("\ufffd")) or data in _texts(blob), got=data, recorded=full,
                 event=ev.kind)
    elif isinstance(data, list):
        ok = len(data) <= len(full) + 1 and all(a == b for a, b in zip(data[:-1], full)) and (
            not data or len(data) > len(full) or full[len(data) - 1].startswith(data[-1].rstrip("\ufffd")))
        ctx.true("strings of a partly recorded value", ok or any(data[-1] in _texts(blob) for _ in [0]), got=data, recorded=full, event=ev.kind)
    check_common(ctx, log, log.events[1], reader[1])
    check_specific(ctx, log.events[1], reader[1])


def _texts(blob):
    return blob.decode("utf-16-le", "replace") + "\x01" + blob[1:].decode("utf-16-le", "replace")


# ------------------------------------------------------------------ P14
def name_pairs():
    out = []
    for op in T.FS_OPS:
        subs = T.FS_SUB_OPS.get(op)
        if subs:
            out += [(op, s) for s in sorted(set(subs) | {0, 1, 255, max(subs) + 1, min(subs) - 1 & 255})]
            unnamed = [s for s in range(256) if s not in subs]
            out += [(op, s) for s in unnamed[::16]]
        else:
            out += [(op, 0), (op, 1), (op, 77), (op, 255)]
    return out


NAME_PAIRS = name_pairs()
BASES = sorted(set(T.FS_OPS.values()))


@check("P14", 6000, 80000,
       "a case reads 8 CreateFile and other file events, and one operation and sub-operation pair in turn; distinct by operation, path, details",
       ["kind:CreateFile", "extra:CreateFile", "no extra:CreateFile", "write", "no write", "impersonating", "64-bit", "32-bit",
        "sub:unknown", "sub:zero", "sub:named", "sub:ignored", "filter", "unknown disposition", "alloc", "no alloc", "unknown result"] +
       ["base:" + b for b in BASES])
def p14(ctx, i, r):
    log, got = events_case(ctx, i, r, "fsname")
    for ev in log.events:
        if ev.kind == "CreateFile":
            d = dict(ev.exp["details"])
            ctx.cover("write" if ev.exp["category"] else "no write")
            if "Impersonating" in d:
                ctx.cover("impersonating")
            if d["Disposition"] == "<unknown>":
                ctx.cover("unknown disposition")
            if d.get("OpenResult") == "<unknown>":
                ctx.cover("unknown result")
            ctx.cover("no alloc" if d["AllocationSize"] == "n/a" else "alloc")
    # operation and sub-operation names, whatever the details
    log = evgen.base_log(r)
    for op, sub in [NAME_PAIRS[(4 * i + j) % len(NAME_PAIRS)] for j in range(4)]:
        base, subs = T.FS_OPS[op], T.FS_SUB_OPS.get(op)
        ctx.cover("base:" + base)
        if subs:
            name = base if sub == 0 else subs.get(sub, base + " <Unknown>")
            ctx.cover("sub:zero" if sub == 0 else "sub:named" if sub in subs else "sub:unknown")
        else:
            name = base
            ctx.cover("sub:ignored")
        if name in evgen.DETAILED:
            continue
        ev = evgen.fs_other(r, log, {"op": op, "sub": sub})
        log.events.append(finish(r, log, ev))
        ctx.distinct("name", op, sub)
    read_log(ctx, r, log)
    # sub-operations with details of their own
    log = evgen.base_log(r)
    for ev in (evgen.query_directory(r, log, {}), evgen.notify(r, log, {}), evgen.set_disposition(r, log, {})):
        ctx.cover("filter")
        log.events.append(finish(r, log, ev))
    read_log(ctx, r, log)
    # one CreateFile per combination of disposition and result
    log = evgen.base_log(r)
    combos = [(d, x) for d in list(T.FS_DISPOSITION) + [6, 255] for x in [None] + list(T.OPEN_RESULT) + [6, 0xffffffff]]
    d, x = combos[i % len(combos)]
    log.events.append(finish(r, log, evgen.create_file(r, log, {"disp": d, "extra": x is not None, "result": x})))
    read_log(ctx, r, log)


# ------------------------------------------------------------------ P15
CODES = list(T.IOCTLS)


@check("P15", 6000, 80000, "a case reads 8 read, write, control, mapping, notification and disposition events, and 2 control codes in turn; "
       "distinct by path and details",
       ["kind:ReadFile", "kind:WriteFile", "kind:FileSystemControl", "kind:DeviceIoControl", "kind:CreateFileMapping",
        "kind:NotifyChangeDirectory", "kind:SetDisposition", "extra:ReadFile", "no extra:ReadFile", "extra:WriteFile",
        "no extra:WriteFile", "detail:I/O Flags", "detail:Priority", "detail:WriteLength", "detail:PageProtection", "detail:SyncType",
        "detail:Filter", "detail:Delete", "offset:negative", "offset:>2^32", "code:unknown", "64-bit", "32-bit"] +
       ["category:" + c for c in ("Read", "Write", "Read Metadata", "Write Metadata", "")] +
       ["special:" + n for n in evgen.IOCTL_SPECIAL])
def p15(ctx, i, r):
    log, got = events_case(ctx, i, r, "fsio", ("I/O Flags", "Priority", "WriteLength", "PageProtection", "SyncType", "Filter", "Delete"))
    log2 = evgen.base_log(r)
    for code in (CODES[i % len(CODES)], CODES[(i * 7 + 3) % len(CODES)], r.u32()):
        for op in ("FileSystemControl", "DeviceIoControl"):
            log2.events.append(finish(r, log2, evgen.ioctl(r, log2, {"code": code}, op)))
    for p in range(8):
        log2.events.append(finish(r, log2, evgen.read_write(r, log2, {"priority": p}, r.choice(["ReadFile", "WriteFile"]))))
    read_log(ctx, r, log2)
    for ev in log.events + log2.events:
        ctx.cover("category:" + ev.exp["category"])
        d = dict(ev.exp["details"])
        if isinstance(d.get("Offset"), int):
            ctx.cover("offset:negative" if d["Offset"] < 0 else "offset:>2^32" if d["Offset"] >> 32 else "offset")
        if "Control" in d:
            ctx.cover("special:" + d["Control"] if d["Control"] in evgen.IOCTL_SPECIAL else
                      "code:unknown" if d["Control"].startswith("0x") else "code:named")


# ------------------------------------------------------------------ P16
@check("P16", 5000, 60000,
       "a case reads 4 directory queries, one per information class, filter and bitness in turn, and one result cut short; "
       "distinct by path and names",
       ["class:%s/%s/%s" % (c, b, f) for c in DIR_CLASSES for b in (64, 32) for f in ("filter", "none")] +
       ["many:" + c for c in DIR_CLASSES] + ["names:1", "names:many", "names:>100", "no extra:QueryDirectory", "cut:listed", "past the end", "path:backslash", "path:plain", "path:empty",
        "kind:QueryDirectory/other"])
def p16(ctx, i, r):
    cls = DIR_CLASSES[i % 6]
    is64, flt = bool(i // 6 % 2), bool(i // 12 % 2)
    log = evgen.base_log(r, is64=is64)
    o = {"cls": FILE_CLASS[cls], "extra": True}
    if not flt:
        o["filter"] = ""
    else:
        o["filter"] = r.choice(["*", "*.txt", evgen.text(r, 1)])
    if i % 49 == 9:
        o["names"] = ["f%d" % k for k in range(r.choice([101, 300, 700, 1100, 3000]))]
    log.events.append(finish(r, log, evgen.query_directory(r, log, o)))
    ctx.cover("class:%s/%s/%s" % (cls, 64 if is64 else 32, "filter" if flt else "none"))
    for o in ({"path": "C:\\"}, {"path": "C:\\a", "extra": False}, {"path": ""}, {"path": r.path() + "\\"}):
        log.events.append(finish(r, log, evgen.query_directory(r, log, o)))
    cover(ctx, log)
    for ev in log.events:
        p = ev.exp["path"]
        names = [k for k, v in ev.exp["details"] if k.isdigit()]
        if len(names) > 100:
            ctx.cover("many:" + dict(ev.exp["details"])["FileInformationClass"])
        ctx.cover("names:1" if len(names) == 1 else "names:>100" if len(names) > 100 else "names:many" if names else "names:0")
        ctx.cover("path:empty" if not p else "path:backslash" if p.endswith("\\") else "path:plain")
    got = read_log(ctx, r, log)
    if i < 3:
        ctx.sample({"class": cls, "path": got[0].path, "details": list(got[0].details.items())[:5]})
    # the last entry's next offset leads past the captured data: it is the last one
    log = evgen.base_log(r, is64=is64)
    ev = evgen.query_directory(r, log, {"cls": FILE_CLASS[cls], "extra": True, "filter": "*" if flt else ""})
    x = bytearray(ev.extra or b"")
    if x:
        at = 0
        while struct.unpack_from("<I", x, at)[0]:
            at += struct.unpack_from("<I", x, at)[0]
        past = len(x) - at
        struct.pack_into("<I", x, at, r.choice([past + 1, past + 2, past + 3, past + 8, past + r.randrange(1, 1 << 20), 0x7fffffff,
                                                0xffffffff - at, 0x80000000]))
        ev.extra = bytes(x)
        ctx.cover("past the end")
        log.events.append(finish(r, log, ev))
        read_log(ctx, r, log)
    # cut short
    log = evgen.base_log(r, is64=is64)
    ev = evgen.query_directory(r, log, {"cls": FILE_CLASS[cls], "extra": True, "filter": "*" if flt else ""})
    names = [v for k, v in ev.exp["details"] if k.isdigit()]
    ev.exp["details"] = None
    cut = r.randrange(len(ev.extra)) if ev.extra else 0
    ev.extra = ev.extra[:cut]
    log.events.append(finish(r, log, ev))
    log.events.append(finish(r, log, evgen.query_directory(r, log, {})))
    reader = pp.ProcmonLogsReader(write(log, Layout.random(r), r).stream(False))
    try:
        e = reader[0]
    except Exception:
        ctx.cover("cut:raised")
        ctx.ok()
    else:
        ctx.cover("cut:listed")
        listed = [(k, v) for k, v in e.details.items() if k.isdigit()]
        ctx.true("no more names than recorded", len(listed) <= len(names), got=listed, recorded=names)
        for j, ((k, v), w) in enumerate(zip(listed, names)):
            ctx.eq("number of a listed entry", k, str(j + (1 if flt else 0)))
            ctx.true("a listed name is recorded", w.startswith(v) or w.startswith(v.rstrip("\ufffd")), got=v, recorded=w, cut=cut)
        ctx.eq("path of a query cut short", e.path, ev.exp["path"])
    check_common(ctx, log, log.events[1], reader[1])
    check_specific(ctx, log.events[1], reader[1])


# ------------------------------------------------------------------ P17
@check("P17", 6000, 80000, "a case reads 8 process, thread and image events; distinct by path and details",
       ["kind:" + k for k in ("Process_Create", "Process_Defined", "Process_Start", "Process_Exit", "Process_Statistics", "Thread_Create",
                              "Thread_Exit", "Load_Image")] +
       ["env:0", "env:1", "env:many", "ascii", "utf16", "string:empty", "64-bit", "32-bit", "base:>2^32"])
def p17(ctx, i, r):
    log, got = events_case(ctx, i, r, "process", n=9)
    for force in (True, False):
        log = evgen.base_log(r)
        t = [r.choice(["", r.ascii(), r.ascii(r.choice([1, 2, 127, 128, 255, 256, 300]))]) for _ in range(5)]
        log.events.append(finish(r, log, evgen.process_started(r, log, {"cmd": t[0], "cwd": t[1], "force": force})))
        log.events.append(finish(r, log, evgen.process_created(r, log, {"path": t[2], "cmd": t[3], "force": force})))
        log.events.append(finish(r, log, evgen.load_image(r, log, {"path": t[4], "force": force})))
        ctx.cover("ascii" if force else "utf16")
        if "" in t:
            ctx.cover("string:empty")
        read_log(ctx, r, log)
        for ev in log.events:
            d = dict(ev.exp["details"])
            if "Environment" in d:
                n = len(d["Environment"])
                ctx.cover("env:0" if n == 0 else "env:1" if n == 1 else "env:many")
            if d.get("Image Base", 0) >> 32:
                ctx.cover("base:>2^32")


# ------------------------------------------------------------------ P18
def wild(r, lo=0):
    """Text with NULs and lone surrogates."""
    k = r.random()
    if k < .1 and not lo:
        return ""
    return r.uni(lo=max(1, lo), nul=k < .6, lone=True)


def nonnul(r):
    """Text that shows at least one character."""
    while True:
        s = wild(r, 1)
        if shown(s):
            return s


SITES = [("process_created", {}), ("process_started", {}), ("load_image", {}), ("reg_open", {}), ("reg_key_query", {"extra": True}),
         ("reg_value_query", {"extra": True}), ("reg_set_value", {}), ("reg_load", {}), ("reg_plain", {}), ("create_file", {}),
         ("read_write", {}), ("ioctl", {}), ("notify", {}), ("set_disposition", {}), ("file_mapping", {}), ("fs_other", {}),
         ("query_directory", {"extra": True}), ("network", {})]


def wild_event(r, log, name, o, big=None):
    o = dict(o)
    w = (lambda: big) if big is not None else (lambda: wild(r))
    o.update(path=w(), cmd=wild(r), cwd=wild(r), new=wild(r), filter=r.choice(["", nonnul(r)]))
    o["env"] = [x for x in (r.uni(lone=True) for _ in range(4))]
    # information lengths are those of the name; a name may hold a NUL
    o["name"] = wild(r)
    o["names"] = [nonnul(r) for _ in range(r.choice([1, 2, 5]))]
    if name in ("reg_value_query", "reg_set_value"):
        o["type"] = r.choice([1, 2, 7])
        o["value"] = nonnul(r) if o["type"] != 7 else [r.uni(lone=True) for _ in range(3)]
        o["empty"] = False
    return finish(r, log, getattr(evgen, name)(r, log, o))


def long_text(r, n):
    """Exactly n UTF-16 units, no NUL, marked at the end."""
    c = r.choice(["a", "\u4e2d", "\U0001f600", "z"])
    k = len(units(c))
    s = "b" * min(n - 1, r.choice([0, 1, 1, 2, 3]))      # so that pairs straddle every alignment
    s += c * ((n - 1 - len(s)) // k)
    s += "x" * (n - 1 - len(units(s))) + r.choice(["E", "\u00e9", "\uffff"])
    assert len(units(s)) == n
    return s


@check("P18", 3200, 40000,
       "a case places texts over the whole code unit alphabet, NULs and lone surrogates included, at every string site of a log; "
       "distinct by texts",
       ["site:" + s for s, _ in SITES] + ["detail:max", "detail:max ascii", "table:>65536", "header:full", "header:nul", "host", "port",
                                          "lone surrogate", "nul", "astral", "64-bit", "32-bit", "unit sweep", "ascii nul"], alarm=120)
def p18(ctx, i, r):
    log = evgen.base_log(r)
    ctx.cover("64-bit" if log.is64 else "32-bit")
    # tables and header
    for p in log.procs:
        for f in p.TEXTS:
            setattr(p, f, wild(r))
        for m in p.modules:
            m.path, m.version, m.company, m.description = [wild(r) for _ in range(4)]
    for _ in range(2):
        setattr(r.choice(log.procs), r.choice(pml.Proc.TEXTS), long_text(r, r.choice([17, 64, 65, 129, 256, 513, 1024, 2050, 4097])))
    if i % 40 == 3:
        n = r.choice([65535, 65536, 65537, 100000, 70001])
        setattr(log.procs[0], r.choice(pml.Proc.TEXTS), long_text(r, n))
        ctx.cover("table:>65536" if n > 65536 else "table:65536")
    log.hosts = [(ip, wild(r)) for ip, _ in log.hosts]
    log.ports = [(p, t, wild(r)) for p, t, _ in log.ports]
    if log.hosts:
        ctx.cover("host")
    if log.ports:
        ctx.cover("port")
    for f, n in (("computer", 16), ("root", 0x104), ("sp", 24)):
        s = wild(r) if r.chance(.5) else long_text(r, n)
        while len(units(s)) > n:
            s = s[:-1]
        setattr(log, f, s)
        if len(units(s)) == n:
            ctx.cover("header:full")
        if "\0" in s:
            ctx.cover("header:nul")
    if i % 8 == 1:
        # every code unit once, in turn
        lo = (i // 8) % 256 * 256
        s = "".join(chr(u) for u in range(max(1, lo), lo + 256) if not 0xd800 <= u < 0xe000) or "\U0001f600"
        log.procs[0].command_line = s
        ctx.cover("unit sweep")
    else:
        s = None
    evgen.settle_log(log)
    for name, o in SITES:
        ctx.cover("site:" + name)
        log.events.append(wild_event(r, log, name, o, s))
    if i % 4 == 1:
        name, o = r.choice([x for x in SITES if x[0] != "reg_value_query"])
        log.events.append(wild_event(r, log, name, o, long_text(r, r.choice([17, 65, 129, 257, 1025, 2049, 5001]))))
        ctx.cover("detail:medium")
    if i % 10 == 2:
        big = long_text(r, r.choice([32767, 32766, 16384, 8192]))
        name, o = r.choice(SITES[:8] + SITES[9:10])
        if name not in ("reg_value_query",):
            log.events.append(wild_event(r, log, name, o, big))
        a = "".join(r.choice("abcXYZ \\") for _ in range(32766)) + "!"
        name, o = r.choice([x for x in SITES if x[0] not in ("network", "reg_value_query")])
        for n in (32767, r.choice([255, 256, 257, 4095, 16383, 16384])):
            ev = None
            o2 = dict(o, path=a[-n:], cmd=a[-n:], force=True, filter="", names=["x"])
            if name in ("process_started",):
                o2.update(cwd=a[-n:])
            if name == "reg_load":
                o2["new"] = a[-n:]
            ev = finish(r, log, getattr(evgen, name)(r, log, o2))
            log.events.append(ev)
        ctx.cover("detail:max ascii")
        ctx.cover("detail:max")
    if i % 4 == 3:
        # an ASCII text is as long as it is declared, NULs or not
        name, o = r.choice([x for x in SITES if x[0] != "network"])
        a = r.word() + "\x01".join(r.word() for _ in range(r.randint(1, 4))) + r.choice(["", "\x01", "\x01\x01"])
        ev = finish(r, log, getattr(evgen, name)(r, log, dict(o, path=a, cmd=r.word(), cwd=r.word(), new=r.word(), filter="",
                                                                    names=["x"], force=True)))
        old, new = a.encode(), a.replace("\x01", "\0").encode()
        if ev.details.count(old) == 1 and a in ev.exp["path"]:
            ev.details = ev.details.replace(old, new)
            ev.exp["path"] = ev.exp["path"].replace(a, new.decode())
            log.events.append(ev)
            ctx.cover("ascii nul")
    texts = [getattr(p, f) for p in log.procs for f in p.TEXTS]
    for t in texts:
        if any(0xd800 <= ord(c) < 0xe000 for c in t):
            ctx.cover("lone surrogate")
        if "\0" in t:
            ctx.cover("nul")
        if any(ord(c) > 0xffff for c in t):
            ctx.cover("astral")
    ctx.distinct(texts[:8], log.computer, log.events[0].exp["path"])
    from checks.logs import check_all
    reader = pp.ProcmonLogsReader(write(log, Layout.random(r), r).stream(False))
    check_all(ctx, log, reader)
    if i < 2:
        ctx.sample({"computer": log.computer, "path": log.events[3].exp["path"]})
