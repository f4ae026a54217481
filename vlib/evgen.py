"""Event generators: bytes of the detail structures and, from the same abstract facts, what must be shown.

Each generator takes (r, log, o): random source, log model and a dict of forced facts.  It returns an Ev whose
exp['details'] is the ordered list of (name, value) pairs; a key that is None or absent is not claimed."""
import struct

from vlib import tables as T
from vlib.pml import Ev, UNCLAIMED, pvoid
from vlib.text16 import enc, units, shown

CLS = {v: k for k, v in T.EVENT_CLASSES.items()}
PROC, REG, FS, PROF, NET = CLS["Process"], CLS["Registry"], CLS["File_System"], CLS["Profiling"], CLS["Network"]
RCODE = {v: k for k, v in T.REGISTRY_OPS.items()}
PCODE = {v: k for k, v in T.PROCESS_OPS.items()}
FCODE = {v: k for k, v in T.FS_OPS.items()}
FILE_CLASS = {v: k for k, v in T.FILE_INFO.items()}
DIR_CLASSES = ["FileDirectoryInformation", "FileFullDirectoryInformation", "FileBothDirectoryInformation",
               "FileNamesInformation", "FileIdBothDirectoryInformation", "FileIdFullDirectoryInformation"]


# ------------------------------------------------------------------ small encoders
def nz(r, n):
    return r.noise(n)


def dstr(r, s, force=None):
    """A detail string: (info word, bytes). ASCII form only for pure ASCII without NUL."""
    can = s.isascii() and "\0" not in s
    asc = can and r.chance(.5) if force is None else force
    if asc:
        assert can
        return 0x8000 | len(s), s.encode("ascii")
    return len(units(s)), enc(s)


def tome(r, n=None):
    """A long text without any period, of about n characters."""
    n = r.choice([520, 700, 1025, 1300, 2050, 4100, 6000, 9000, 17000]) if n is None else n
    sep = r.choice(["\\", " ", "x", "\u00e9", "\u4e2d", "\U0001f600"])
    k = r.randrange(7000)
    s = sep.join(map(str, range(k, k + n // 4)))
    return s[:n + r.randint(-2, 2)] + r.choice(["", "E", "\\", "\u00ff"])


def text(r, lo=0):
    """Any text a detail string may hold."""
    if r.chance(.004):
        return tome(r)
    k = r.random()
    if k < .08 and lo == 0:
        return ""
    if k < .5:
        return r.ascii(lo=1)
    return r.uni(lo=1)


def many(r, usual, heavy, p=.01):
    """How many of something: now and then far more than anybody would expect."""
    return r.choice(heavy) if r.chance(p) else r.many(usual, max(heavy))


def brief(r, k):
    return "%x%s" % (k, r.choice(["", "=", "\u00e9"]))


def mask_names(mask, table, sep):
    out = []
    for v, name in table.items():
        if mask & v == v:
            out.append(name)
            mask &= ~v
    return sep.join(out)


def access_names(mask, table, generic):
    for bit, full in zip((0x80000000, 0x40000000, 0x20000000, 0x10000000), generic):
        if mask & bit:
            mask |= full
    return mask_names(mask, table, ", ") or "None 0x{:x}".format(mask)


def reg_access(mask):
    return access_names(mask, T.REG_ACCESS, (0x20019, 0x20006, 0x20019, 0xf003f))


def fs_access(mask):
    return access_names(mask, T.FS_ACCESS, (0x120089, 0x120116, 0x1200a0, 0x1f01ff))


def g(o, k, f):
    return o[k] if k in o else f()


def access_value(r):
    k = r.random()
    if k < .1:
        return 0
    if k < .25:
        return r.choice([0x2000000, 0x3000000, 0x2000000 | 1 << r.randrange(32), 0x80000000, 0x40000000, 0x20000000, 0x10000000, 0xf003f, 0x20019, 0x1f01ff, 0x120089,
                         0x120116, 0x1200a0, 0x1200a9, 0x12019f, 0x1201bf, 0x1201b6, 0x2001f, 0x20006])
    return r.bits(32)


# ------------------------------------------------------------------ process events
def process_created(r, log, o, op="Process_Create"):
    path, cmd = g(o, "path", lambda: text(r)), g(o, "cmd", lambda: text(r))
    pid = g(o, "pid", r.u32)
    s1, s2 = (r.u8(), r.u8()) if r.chance(.5) else (r.randint(0, 40), r.randint(0, 40))
    i1, b1 = dstr(r, path, o.get("force"))
    i2, b2 = dstr(r, cmd, o.get("force"))
    d = nz(r, 4) + struct.pack("<I", pid) + nz(r, 0x24) + bytes((s1, s2)) + struct.pack("<HH", i1, i2) + nz(r, 2 + s1 + s2) + b1 + b2
    return Ev(PROC, PCODE[op], d + tail(r), None, {"operation": op, "path": shown(path), "category": "",
              "details": [("PID", pid), ("Command line", shown(cmd))]}, op)


def tail(r):
    """Bytes after the last field a detail structure is known to have; they must not matter."""
    return nz(r, r.randint(1, 20)) if r.chance(.25) else b""


def multisz(r, items, terminated=True):
    b = b"".join(enc(s) + b"\0\0" for s in items)
    return b + b"\0\0" if terminated else b


def process_started(r, log, o):
    cmd, cwd = g(o, "cmd", lambda: text(r)), g(o, "cwd", lambda: text(r))
    ppid = g(o, "ppid", r.u32)
    env = g(o, "env", lambda: [brief(r, k) for k in range(r.choice([300, 1100, 5000, 14000]))] if r.chance(.01) else [
        r.uni(lo=1) if r.chance(.5) else r.word() + "=" + r.ascii() for _ in range(r.many([0, 1, 2, 3, 20, 60], 5000))])
    i1, b1 = dstr(r, cmd, o.get("force"))
    i2, b2 = dstr(r, cwd, o.get("force"))
    eb = multisz(r, env) if env else b""
    k = r.random()
    if env and k < .2:
        eb = eb[:-2]                     # no final terminator
    elif env and k < .4:
        eb += nz(r, 2 * r.randint(1, 6))  # block is larger than its strings
    d = struct.pack("<IHHI", ppid, i1, i2, len(eb) // 2) + b1 + b2 + eb
    return Ev(PROC, PCODE["Process_Start"], d + tail(r), None, {"operation": "Process_Start", "path": "", "category": "", "details": [
        ("Parent PID", ppid), ("Command line", shown(cmd)), ("Current directory", shown(cwd)),
        ("Environment", [shown(s) for s in env])]}, "Process_Start")


def process_exit(r, log, o, op="Process_Exit"):
    st, kt, ut = g(o, "status", r.u32), g(o, "kernel", r.ticks), g(o, "user", r.ticks)
    ws, pws, pb, ppb = [g(o, k, r.u64) for k in ("ws", "pws", "pb", "ppb")]
    d = struct.pack("<IQQQQQQ", st, kt, ut, ws, pws, pb, ppb)
    return Ev(PROC, PCODE[op], d + tail(r), None, {"operation": op, "path": "", "category": "", "details": [
        ("Exit Status", st), ("User Time", ut), ("Kernel Time", kt), ("Private Bytes", pb), ("Peak Private Bytes", ppb),
        ("Working Set", ws), ("Peak Working Set", pws)]}, op)


def thread_create(r, log, o):
    tid = g(o, "newtid", r.u32)
    return Ev(PROC, PCODE["Thread_Create"], struct.pack("<I", tid) + tail(r), None, {
        "operation": "Thread_Create", "path": "", "category": "", "details": [("Thread ID", tid)]}, "Thread_Create")


def thread_exit(r, log, o):
    kt, ut = g(o, "kernel", r.ticks), g(o, "user", r.ticks)
    e = Ev(PROC, PCODE["Thread_Exit"], nz(r, 4) + struct.pack("<QQ", kt, ut) + tail(r), None, {
        "operation": "Thread_Exit", "path": "", "category": "",
        "details": [("Thread ID", "TID"), ("User Time", ut), ("Kernel Time", kt)]}, "Thread_Exit")
    return e   # "TID" is replaced by the event's own thread id in finish()


def load_image(r, log, o):
    path = g(o, "path", lambda: text(r))
    base = g(o, "base", r.u64 if log.is64 else r.u32)
    size = g(o, "size", r.u32)
    i, b = dstr(r, path, o.get("force"))
    d = pvoid(log.is64, base) + struct.pack("<IH", size, i) + nz(r, 2) + b
    return Ev(PROC, PCODE["Load_Image"], d + tail(r), None, {"operation": "Load_Image", "path": shown(path), "category": "",
              "details": [("Image Base", base), ("Image Size", size)]}, "Load_Image")


# ------------------------------------------------------------------ network events
def v4(r):
    k = r.random()
    a = r.choice([b"\0\0\0\0", b"\x7f\0\0\1", b"\xff\xff\xff\xff", b"\x0a\0\0\1"]) if k < .3 else r.randbytes(4)
    return a + b"\0" * 12


def v6(r):
    k = r.random()
    if k < .25:
        return r.choice([b"\0" * 16, b"\0" * 15 + b"\1", b"\xff\x02" + b"\0" * 13 + b"\xfb",
                         b"\0" * 10 + b"\xff\xff" + b"\1\2\3\4", b"\x20\x01\x0d\xb8" + b"\0" * 11 + b"\1"])
    return bytes(0 if r.chance(.4) else r.getrandbits(8) for _ in range(16))


def ip_text(ip, is4):
    if is4:
        return "%d.%d.%d.%d" % tuple(ip[:4])
    return ":".join("%x" % (ip[i] << 8 | ip[i + 1]) for i in range(0, 16, 2))


def network(r, log, o, op=None):
    op = g(o, "op", lambda: r.choice(list(T.NETWORK_OPS)))
    s4, d4, tcp = [g(o, k, lambda: r.chance(.5)) for k in ("s4", "d4", "tcp")]

    def addr(is4):
        if log.hosts and r.chance(.6):
            return r.choice(log.hosts)[0]
        return v4(r) if is4 else v6(r)

    def port():
        if log.ports and r.chance(.7):
            return r.choice(log.ports)[0]
        return r.u16()
    sip, dip, sp, dp = addr(s4), addr(d4), port(), port()
    length = g(o, "length", r.u32)
    flags = (1 if s4 else 0) | (2 if d4 else 0) | (4 if tcp else 0) | (r.getrandbits(13) << 3 if r.chance(.5) else 0)
    names = []
    count = many(r, [0, 0, 1, 2, 3, 8], [130, 300, 1500], .004)
    if count > 100:
        names = [brief(r, k) for k in range(count)]
    for _ in range(count if count < 100 else 0):
        n = r.uni(lo=1) if r.chance(.3) else r.word()
        if shown(n) not in [shown(x) for x in names] and n != "Length":
            names.append(n)
    pairs = [(n, text(r, 1)) for n in names]
    items = [x for p in pairs for x in p]
    if items and r.chance(.15):
        items.append(r.word())           # a name without a value
    body = multisz(r, items) if items or r.chance(.5) else b""
    k = r.random()
    if items and k < .25:
        body = body[:-4]                 # last string runs to the end of the structure
    elif items and k < .5:
        body += nz(r, r.randint(1, 30))  # anything after the terminator
    d = struct.pack("<H", flags) + nz(r, 2) + struct.pack("<I", length) + sip + dip + struct.pack("<HH", sp, dp) + body
    hosts, ports = dict(log.hosts), {(p, t): n for p, t, n in log.ports}

    def end(ip, is4, pt):
        h = shown(hosts.get(ip, "")) or ip_text(ip, is4)
        return "%s:%s" % (h, shown(ports[(pt, tcp)]) if (pt, tcp) in ports else str(pt))
    return Ev(NET, op, d, None, {
        "operation": ("TCP " if tcp else "UDP ") + T.NETWORK_OPS[op],
        "path": end(sip, s4, sp) + " -> " + end(dip, d4, dp), "category": "",
        "details": [("Length", length)] + [(shown(a), shown(b)) for a, b in pairs]}, "network")


# ------------------------------------------------------------------ registry events
def reg_path(r, o):
    p = g(o, "path", lambda: r.path() if r.chance(.5) else text(r))
    i, b = dstr(r, p, o.get("force"))
    return p, i, b


def unknown(r, known):
    """Any number, often a known code with one bit turned: most of these mean nothing."""
    if r.chance(.4):
        return r.choice(sorted(known)) ^ (1 << r.randrange(32))
    return r.u32()


def reg_open(r, log, o, op=None):
    op = op or g(o, "op", lambda: r.choice(["RegOpenKey", "RegCreateKey"]))
    p, i, b = reg_path(r, o)
    acc = g(o, "access", lambda: access_value(r))
    extra, det, cat = None, [], "Read"
    granted = g(o, "granted", lambda: access_value(r))
    disp = g(o, "disp", lambda: r.choice([1, 1, 2, 2, 0, 3, unknown(r, T.REG_DISPOSITION)]))
    has = g(o, "extra", lambda: r.chance(.7))
    if has:
        extra = struct.pack("<II", granted, disp) + tail(r)
    if acc:
        name = reg_access(acc)
        det.append(("Desired Access", name))
        if has:
            if name == "Maximum Allowed":
                det.append(("Granted Access", reg_access(granted)))
            if disp in T.REG_DISPOSITION:
                det.append(("Disposition", T.REG_DISPOSITION[disp]))
                if T.REG_DISPOSITION[disp] == "REG_CREATED_NEW_KEY":
                    cat = "Write"
    d = struct.pack("<H", i) + nz(r, 2) + struct.pack("<I", acc) + b
    return Ev(REG, RCODE[op], d + tail(r), extra, {"operation": op, "path": shown(p), "category": cat, "details": det}, op)


def key_info(r, cls, o):
    """KEY_*_INFORMATION of the named class: (bytes, details)."""
    name = g(o, "name", lambda: text(r))
    nb = enc(name)
    if nb and r.chance(.15):
        nb += b"\0\0"
    t = g(o, "time", lambda: 0 if r.chance(.04) else r.u64())
    u = [g(o, "u%d" % k, r.u32) for k in range(10)]
    if cls == "Name":
        return struct.pack("<I", len(nb)) + nb, [("Name", shown(name))]
    if cls == "HandleTags":
        return struct.pack("<I", u[0]), [("HandleTags", u[0])]
    if cls == "Flags":
        return struct.pack("<I", u[0]), [("UserFlags", u[0])]
    if cls == "Cached":
        names = ["TitleIndex", "SubKeys", "MaxNameLen", "Values", "MaxValueNameLen", "MaxValueDataLen"]
        return struct.pack("<Q6I", t, *u[:6]), [("LastWriteTime", t)] + list(zip(names, u))
    if cls == "Basic":
        return struct.pack("<QII", t, u[0], len(nb)) + nb, [("LastWriteTime", t), ("TitleIndex", u[0]), ("Name", shown(name))]
    if cls == "Full":
        names = ["TitleIndex", "ClassOffset", "ClassLength", "SubKeys", "MaxNameLen", "MaxClassLen", "Values",
                 "MaxValueNameLen", "MaxValueDataLen"]
        return struct.pack("<Q9I", t, *u[:9]), [("LastWriteTime", t)] + list(zip(names, u))
    if cls == "Node":
        return struct.pack("<QIIII", t, u[0], u[1], u[2], len(nb)) + nb, [
            ("LastWriteTime", t), ("TitleIndex", u[0]), ("ClassOffset", u[1]), ("ClassLength", u[2]), ("Name", shown(name))]
    return nz(r, r.randint(1, 40)), []


def reg_key_query(r, log, o, op=None):
    op = op or g(o, "op", lambda: r.choice(["RegQueryKey", "RegEnumKey"]))
    p, i, b = reg_path(r, o)
    cls = g(o, "cls", lambda: r.choice(list(T.KEY_INFO)))
    length, idx = g(o, "length", r.u32), g(o, "index", r.u32)
    has = g(o, "extra", lambda: r.chance(.75))
    head = nz(r, 2) + (struct.pack("<II", length, cls) if op == "RegQueryKey" else struct.pack("<III", length, idx, cls))
    det = [("Query", T.KEY_INFO[cls])] if op == "RegQueryKey" else [("Index", idx)]
    extra = None
    if has:
        extra, more = key_info(r, T.KEY_INFO[cls], o)
        extra += tail(r)
        det += more
    else:
        det.append(("Length", length))
    return Ev(REG, RCODE[op], struct.pack("<H", i) + head + b + tail(r), extra, {
        "operation": op, "path": shown(p), "category": "Read", "details": det}, op + "/" + T.KEY_INFO[cls])


def reg_value_data(r, typ, o):
    """(declared length, bytes recorded, shown value or None if no Data is shown) for a complete value of type typ."""
    name = T.REG_TYPES.get(typ)
    if name == "REG_DWORD":
        v = g(o, "value", r.u32)
        return 4, struct.pack("<I", v), v
    if name == "REG_QWORD":
        v = g(o, "value", r.u64)
        return 8, struct.pack("<Q", v), v
    if name in ("REG_SZ", "REG_EXPAND_SZ"):
        s = g(o, "value", lambda: tome(r, r.choice([300, 2050, 8200, 16390, 20000])) if r.chance(.012) else text(
            r) if r.chance(.8) else r.uni() + "\r\n" + r.uni() + "\n" + r.ascii())
        bts = enc(s) + b"\0\0"
        if s and r.chance(.2):
            bts = bts[:-2]
        return len(bts), bts, shown(s)
    if name == "REG_MULTI_SZ":
        items = g(o, "value", lambda: [brief(r, k) for k in range(r.choice([300, 1100, 5000]))] if r.chance(.02) else [
            text(r, 1) if r.chance(.9) else r.ascii(lo=1) + r.choice(["\n", "\r\n", "\n\n"]) + r.uni(lo=1) + "\n" + r.ascii(lo=1)
            for _ in range(max(1, r.many([1, 1, 2, 3, 10], 5000)))])
        size, n = 0, 0
        while n < len(items) and (n == 0 or size + 2 * len(units(items[n])) + 2 <= 50000):
            size += 2 * len(units(items[n])) + 2
            n += 1
        items = items[:n]
        bts = multisz(r, items, r.chance(.8))
        if r.chance(.15):
            bts = bts[:-2]               # not terminated, or its last string is not
        return len(bts), bts, [shown(s) for s in items]
    if name == "REG_BINARY":
        v = g(o, "value", lambda: r.randbytes(many(r, [1, 2, 3, 16, 17, 100, 1000], [4097, 20000, 32769, 65000], .05)))
        return len(v), v, v
    v = r.randbytes(r.randint(1, 20))
    return len(v), v, ""


REG_TYPE_CODES = list(T.REG_TYPES) + [12, 13, 0x7fffffff, 0xffffffff]


def type_name(typ):
    return T.REG_TYPES.get(typ, "<Unknown: {}>".format(typ))


def reg_value_query(r, log, o, op=None):
    op = op or g(o, "op", lambda: r.choice(["RegQueryValue", "RegEnumValue"]))
    p, i, b = reg_path(r, o)
    cls = g(o, "cls", lambda: r.choice([1, 1, 2, 2, 2] + list(T.KEY_VALUE_INFO)))
    cname = T.KEY_VALUE_INFO[cls]
    blen, idx = g(o, "length", r.u32), g(o, "index", r.u32)
    head = nz(r, 2) + (struct.pack("<II", blen, cls) if op == "RegQueryValue" else struct.pack("<III", blen, idx, cls))
    det = [("Index", idx)] if op == "RegEnumValue" else []
    typ = g(o, "type", lambda: unknown(r, REG_TYPE_CODES) if r.chance(.1) else r.choice(REG_TYPE_CODES))
    has = g(o, "extra", lambda: r.chance(.85))
    extra = None
    if not has:
        det.append(("Length", blen))
    else:
        ln, data, val = reg_value_data(r, typ, o)
        if g(o, "empty", lambda: r.chance(.1)):
            ln, data, val = 0, b"", None
        after = b""
        if cname == "KeyValueFullInformation":
            name = g(o, "name", lambda: text(r)[:6000 if len(data) < 51000 else 90])
            nb = enc(name)
            off = 20 + len(nb) + r.choice([0, 0, 2, 4, 6, 12, 1, 3, 20])
            gap = nz(r, off - 20 - len(nb))
            if data.endswith(b"\0\0") or T.REG_TYPES.get(typ) in ("REG_DWORD", "REG_QWORD", "REG_BINARY"):
                after = tail(r)
            extra = nz(r, 4) + struct.pack("<IIII", typ, off, ln, len(nb)) + nb + gap + data + after
            if T.REG_TYPES.get(typ) == "REG_BINARY" and ln and r.chance(.02):
                data, after = r.randbytes(65535 - off - r.choice([0, 0, 1, 2])), b""
                ln, val = len(data), data
                extra = nz(r, 4) + struct.pack("<IIII", typ, off, ln, len(nb)) + nb + gap + data
            elif T.REG_TYPES.get(typ) == "REG_BINARY" and nb and ln and r.chance(.1):
                # the data lies in the name
                at = r.randrange(len(nb))
                off, ln = 20 + at, r.randint(1, len(nb) - at)
                val = nb[at:at + ln]
                extra = nz(r, 4) + struct.pack("<IIII", typ, off, ln, len(nb)) + nb + tail(r)
            det += [("Name", shown(name)), ("Type", type_name(typ)), ("Length", ln)]
            if ln:
                det.append(("Data", val))
        elif cname == "KeyValuePartialInformation":
            if data.endswith(b"\0\0") or T.REG_TYPES.get(typ) in ("REG_DWORD", "REG_QWORD", "REG_BINARY"):
                after = tail(r)
            if T.REG_TYPES.get(typ) == "REG_BINARY" and ln and r.chance(.02):
                # as much as extra details can hold
                data, after = r.randbytes(65535 - 12 - r.choice([0, 0, 1, 2])), b""
                ln, val = len(data), data
            extra = nz(r, 4) + struct.pack("<II", typ, ln) + data + after
            det += [("Type", type_name(typ)), ("Length", ln)]
            if ln:
                det.append(("Data", val))
        else:
            extra = nz(r, 4) + struct.pack("<I", typ) + nz(r, r.randint(0, 20))
            det.append(("Type", type_name(typ)))
    return Ev(REG, RCODE[op], struct.pack("<H", i) + head + b + tail(r), extra, {
        "operation": op, "path": shown(p), "category": "Read", "details": det}, op + "/" + cname + "/" + type_name(typ)[:12])


def reg_set_value(r, log, o):
    p, i, b = reg_path(r, o)
    typ = g(o, "type", lambda: unknown(r, REG_TYPE_CODES) if r.chance(.1) else r.choice(REG_TYPE_CODES))
    ln, data, val = reg_value_data(r, typ, o)
    declared, stored = ln, ln
    name = T.REG_TYPES.get(typ)
    k = r.random()
    if g(o, "empty", lambda: k < .08):
        declared, data, stored = r.choice([(0, b"", 0), (0, data, ln), (ln, b"", 0)])
        val = None
    elif name == "REG_BINARY" and k < .3:
        # Only a part of a long value is in the log: its declared length is larger than what is stored
        declared = ln + r.choice([1, 16, 1000, 1 << 20])
    elif name == "REG_BINARY" and k < .4:
        stored = ln + r.choice([1, 5])
        declared = ln
        data = data + r.randbytes(stored - ln)
    det = [("Type", type_name(typ)), ("Length", declared)]
    if val is not None and name is not None:
        det.append(("Data", val))
    d = struct.pack("<H", i) + nz(r, 2) + struct.pack("<III", typ, declared, stored) + b + data
    if data.endswith(b"\0\0") or name in ("REG_DWORD", "REG_QWORD"):
        d += tail(r)
    return Ev(REG, RCODE["RegSetValue"], d, None, {"operation": "RegSetValue", "path": shown(p), "category": "Write",
              "details": det}, "RegSetValue/" + type_name(typ)[:12])


def reg_set_info(r, log, o):
    p, i, b = reg_path(r, o)
    cls = g(o, "cls", lambda: r.choice(list(T.KEY_SET_INFO) + [6, 7, 99, 0xffffffff, unknown(r, T.KEY_SET_INFO)]))
    name = T.KEY_SET_INFO.get(cls, "<Unknown: {}>".format(cls))
    det = [("KeySetInformationClass", name)]
    v32, v64 = g(o, "v32", r.u32), g(o, "v64", lambda: 0 if r.chance(.06) else r.filetime())
    if name == "KeyWriteTimeInformation":
        ln, data, more = 8, struct.pack("<Q", v64), [("LastWriteTime", v64)]
    elif name == "KeyWow64FlagsInformation":
        ln, data, more = 4, struct.pack("<I", v32), [("Wow64Flags", v32)]
    elif name == "KeySetHandleTagsInformation":
        ln, data, more = 4, struct.pack("<I", v32), [("HandleTags", v32)]
    else:
        ln = r.randint(0, 30)
        data, more = nz(r, ln), []
    if g(o, "empty", lambda: r.chance(.1)):
        ln, data, more = 0, b"", []
    det += [("Length", ln)] + more
    d = struct.pack("<H", i) + nz(r, 2) + struct.pack("<I", cls) + nz(r, 4) + struct.pack("<H", ln) + nz(r, 2) + b + data
    return Ev(REG, RCODE["RegSetInfoKey"], d + tail(r), None, {"operation": "RegSetInfoKey", "path": shown(p),
              "category": "Write Metadata", "details": det}, "RegSetInfoKey/" + name[:24])


def reg_load(r, log, o, op=None):
    op = op or g(o, "op", lambda: r.choice(["RegLoadKey", "RegRenameKey"]))
    p, i, b = reg_path(r, o)
    new = g(o, "new", lambda: text(r))
    i2, b2 = dstr(r, new, o.get("force"))
    d = struct.pack("<HH", i, i2) + b + b2
    return Ev(REG, RCODE[op], d + tail(r), None, {
        "operation": op, "path": shown(p), "category": "Write" if op == "RegRenameKey" else "",
        "details": [("New Name" if op == "RegRenameKey" else "Hive Path", shown(new))]}, op)


REG_PLAIN = {"RegDeleteKey": "Write", "RegDeleteValue": "Write", "RegQueryMultipleValueKey": "Read",
             "RegSetKeySecurity": "Write Metadata", "RegQueryKeySecurity": "Read Metadata",
             "RegUnloadKey": "", "RegCloseKey": "", "RegFlushKey": ""}


def reg_plain(r, log, o, op=None):
    op = op or g(o, "op", lambda: r.choice(list(REG_PLAIN)))
    p, i, b = reg_path(r, o)
    return Ev(REG, RCODE[op], struct.pack("<H", i) + b + tail(r), r.randbytes(r.randint(1, 9)) if r.chance(.2) else None, {
        "operation": op, "path": shown(p), "category": REG_PLAIN[op], "details": []}, op)


# ------------------------------------------------------------------ file system events
def fs_event(r, log, o, op, sub, put, after, extra, exp, kind):
    """put: list of (offset in the parameter block, bytes)."""
    blk = bytearray(nz(r, 60 if log.is64 else 40))
    for off, v in put:
        assert off + len(v) <= len(blk), (off, len(v), len(blk))
        blk[off:off + len(v)] = v
    path = exp.pop("_path")
    i, b = dstr(r, path, o.get("force"))
    d = bytes((sub,)) + nz(r, 3) + bytes(blk) + struct.pack("<H", i) + nz(r, 2) + b + after
    exp.setdefault("path", shown(path))
    return Ev(FS, op, d + tail(r), extra, exp, kind)


def fs_path(r, o):
    return g(o, "path", lambda: r.path() if r.chance(.7) else text(r))


def plain_sub(r, op):
    """A sub-operation byte that must not matter for an operation without sub-operations."""
    return 0 if r.chance(.6) else r.u8()


def sid_bytes(r):
    k = r.random()
    if k < .7:
        n = r.choice([0, 1, 1, 2, 5, 15])
        subs = [r.u32() for _ in range(n)]
        auth = r.choice([5, 1, 0, 16, (1 << 48) - 1, r.getrandbits(48)])
        return bytes((1, n)) + auth.to_bytes(6, "big") + struct.pack("<%dI" % n, *subs), \
            "-".join(["S-1-%d" % auth] + [str(s) for s in subs])
    return None, None


def create_file(r, log, o):
    acc = g(o, "access", lambda: access_value(r))
    disp = g(o, "disp", lambda: r.choice(list(T.FS_DISPOSITION)) if r.chance(.85) else r.choice([6, 7, 0x80, 0xff, r.randrange(6, 256)]))
    opts = g(o, "options", lambda: r.bits(24))
    attr = g(o, "attributes", lambda: r.bits(16))
    share = g(o, "share", lambda: r.choice(range(8)) if r.chance(.7) else r.u16())
    alloc = g(o, "alloc", r.u32)
    sid, sidtext = (None, None)
    if g(o, "sid", lambda: r.chance(.3)):
        sid, sidtext = sid_bytes(r)
    has = g(o, "extra", lambda: r.chance(.7))
    res = g(o, "result", lambda: r.choice(list(T.OPEN_RESULT)) if r.chance(.85) else r.choice([6, 7, 0xffffffff, unknown(r, T.OPEN_RESULT)]))
    P = 8 if log.is64 else 4
    base = 0x14 if log.is64 else 0x10
    put = [(base, struct.pack("<I", disp << 24 | opts)),
           (base + (8 if log.is64 else 4), struct.pack("<HH", attr, share)),
           (base + (12 if log.is64 else 8) + 4 + 2 * P, struct.pack("<I", alloc))]
    dname = T.FS_DISPOSITION.get(disp, "<unknown>")
    det = [("Desired Access", fs_access(acc)), ("Disposition", dname),
           ("Options", mask_names(opts, T.CREATE_OPTIONS, ", ")),
           ("Attributes", mask_names(attr, T.CREATE_ATTRIBUTES, "") if attr else "n/a"),
           ("ShareMode", mask_names(share, T.SHARE_MODE, ", ") if share else "None"),
           ("AllocationSize", alloc if dname in ("Supersede", "Create", "OpenIf", "OverwriteIf") else "n/a")]
    if sid:
        det.append(("Impersonating", sidtext))
    rname = None
    extra = None
    if has:
        extra = struct.pack("<I", res) + tail(r)
        rname = T.OPEN_RESULT.get(res, "<unknown>")
        det.append(("OpenResult", rname))
    if rname in ("Superseded", "Created", "Overwritten"):
        cat = "Write"
    elif rname in ("Opened", "Exists", "DoesNotExist") or dname in ("Open", "<unknown>"):
        cat = ""
    else:
        cat = "Write"
    after = struct.pack("<IB", acc, len(sid) if sid else 0) + nz(r, 3) + (sid or b"")
    return fs_event(r, log, o, FCODE["CreateFile"], plain_sub(r, "CreateFile"), put, after, extra, {
        "_path": fs_path(r, o), "operation": "CreateFile", "category": cat, "details": det}, "CreateFile")


def read_write(r, log, o, op=None):
    op = op or g(o, "op", lambda: r.choice(["ReadFile", "WriteFile"]))
    flags = g(o, "flags", lambda: r.bits(32))
    if "priority" in o:
        flags = flags & ~(7 << 17) | o["priority"] << 17
    length, off = g(o, "length", r.u32), g(o, "offset", r.s64)
    has = g(o, "extra", lambda: r.chance(.6))
    real = g(o, "real", r.u32)
    put = [(4, struct.pack("<I", flags)), (0xc, struct.pack("<I", length)),
           (0x1c if log.is64 else 0x14, struct.pack("<q", off))]
    det = [("Offset", off), ("Length", real if has else length)]
    iof, prio = flags & 0xe000ff, flags >> 17 & 7
    if iof:
        det.append(("I/O Flags", mask_names(iof, T.IO_FLAGS, ", ")))
    if prio:
        det.append(("Priority", T.PRIORITY.get(prio, "0x{:x}".format(prio))))
    return fs_event(r, log, o, FCODE[op], plain_sub(r, op), put, b"", struct.pack("<I", real) + tail(r) if has else None, {
        "_path": fs_path(r, o), "operation": op, "category": "Read" if op == "ReadFile" else "Write", "details": det}, op)


IOCTL_CAT = {}
for _n in ["FSCTL_OFFLOAD_READ", "FSCTL_GET_REPARSE_POINT", "FSCTL_READ_RAW_ENCRYPTED"]:
    IOCTL_CAT[_n] = "Read"
for _n in ["FSCTL_OFFLOAD_WRITE", "FSCTL_MOVE_FILE", "FSCTL_DELETE_REPARSE_POINT", "FSCTL_WRITE_RAW_ENCRYPTED",
           "FSCTL_PIPE_TRANSCEIVE", "FSCTL_PIPE_INTERNAL_TRANSCEIVE"]:
    IOCTL_CAT[_n] = "Write"
for _n in ["FSCTL_SET_COMPRESSION", "FSCTL_WRITE_PROPERTY_DATA", "FSCTL_SET_OBJECT_ID", "FSCTL_DELETE_OBJECT_ID",
           "FSCTL_SET_REPARSE_POINT", "FSCTL_SET_SPARSE", "FSCTL_SET_ENCRYPTION", "FSCTL_CREATE_USN_JOURNAL",
           "FSCTL_WRITE_USN_CLOSE_RECORD", "FSCTL_EXTEND_VOLUME", "FSCTL_DELETE_USN_JOURNAL"]:
    IOCTL_CAT[_n] = "Write Metadata"
for _n in ["FSCTL_QUERY_RETRIEVAL_POINTERS", "FSCTL_GET_COMPRESSION", "FSCTL_QUERY_FAT_BPB", "FSCTL_FILESYSTEM_GET_STATISTICS",
           "FSCTL_GET_NTFS_VOLUME_DATA", "FSCTL_GET_NTFS_FILE_RECORD", "FSCTL_GET_VOLUME_BITMAP",
           "FSCTL_GET_RETRIEVAL_POINTERS", "FSCTL_IS_VOLUME_DIRTY", "FSCTL_READ_PROPERTY_DATA", "FSCTL_FIND_FILES_BY_SID",
           "FSCTL_GET_OBJECT_ID", "FSCTL_READ_USN_JOURNAL", "FSCTL_SET_OBJECT_ID_EXTENDED", "FSCTL_CREATE_OR_GET_OBJECT_ID",
           "FSCTL_READ_FILE_USN_DATA", "FSCTL_QUERY_USN_JOURNAL"]:
    IOCTL_CAT[_n] = "Read Metadata"
IOCTL_CODE = {v: k for k, v in T.IOCTLS.items()}
IOCTL_SPECIAL = [n for n in list(IOCTL_CAT) + ["FSCTL_PIPE_INTERNAL_WRITE", "FSCTL_PIPE_INTERNAL_READ"] if n in IOCTL_CODE]


def ioctl_name(code):
    return T.IOCTLS.get(code) or "0x{:x} (Device:0x{:x} Function:{} Method: {})".format(code, code >> 16, code >> 2 & 0xfff, code & 3)


def ioctl(r, log, o, op=None):
    op = op or g(o, "op", lambda: r.choice(["FileSystemControl", "FileSystemControl", "DeviceIoControl"]))
    code = g(o, "code", lambda: IOCTL_CODE[r.choice(IOCTL_SPECIAL)] if r.chance(.5) else
             r.choice(list(T.IOCTLS)) if r.chance(.6) else unknown(r, T.IOCTLS))
    wl, rl = g(o, "write", r.u32), g(o, "read", r.u32)
    put = [(8, struct.pack("<II", wl, rl)), (0x1c if log.is64 else 0x14, struct.pack("<I", code))]
    name = ioctl_name(code)
    det, after = [("Control", name)], b""
    if op == "FileSystemControl":
        if name == "FSCTL_PIPE_INTERNAL_WRITE":
            det.append(("Length", wl))
        elif name == "FSCTL_PIPE_INTERNAL_READ":
            det.append(("Length", rl))
        elif name in ("FSCTL_PIPE_TRANSCEIVE", "FSCTL_PIPE_INTERNAL_TRANSCEIVE"):
            det += [("WriteLength", wl), ("ReadLength", rl)]
        elif name == "FSCTL_OFFLOAD_READ":
            off, ln = g(o, "offset", r.s64), g(o, "length", r.u64)
            after = struct.pack("<IIII", 32, r.u32(), r.u32(), r.u32()) + struct.pack("<qQ", off, ln)
            det += [("Offset", off), ("Length", ln)]
        elif name == "FSCTL_OFFLOAD_WRITE":
            after = r.randbytes(64)
            det += [("Offset", UNCLAIMED), ("Length", UNCLAIMED)]
    return fs_event(r, log, o, FCODE[op], plain_sub(r, op), put, after, None, {
        "_path": fs_path(r, o), "operation": op, "category": IOCTL_CAT.get(name, ""), "details": det}, op)


def dir_entry(r, cls, name):
    nb = enc(name)
    if cls == "FileNamesInformation":
        return struct.pack("<I", r.u32()) + struct.pack("<I", len(nb)) + nb          # after NextEntryOffset
    b = struct.pack("<I", r.u32()) + nz(r, 32) + nz(r, 16) + struct.pack("<II", r.u32(), len(nb))
    if cls == "FileDirectoryInformation":
        return b + nb
    b += struct.pack("<I", r.u32())
    if cls == "FileFullDirectoryInformation":
        return b + nb
    if cls == "FileIdFullDirectoryInformation":
        return b + nz(r, 4) + nz(r, 8) + nb
    b += bytes((r.randint(0, 24),)) + nz(r, 1) + nz(r, 24)
    if cls == "FileBothDirectoryInformation":
        return b + nb
    return b + nz(r, 2) + nz(r, 8) + nb


def dir_listing(r, cls, names, cap=65535):
    """(bytes, names that fit): the entry chain of a directory query."""
    out, kept, pos = [], [], 0
    bodies = [dir_entry(r, cls, n) for n in names]
    align = r.choice([8, 8, 8, 4, 4, 2]) if cls != "FileNamesInformation" else r.choice([4, 4, 4, 8, 2, 1])
    for k, b in enumerate(bodies):
        ln = 4 + len(b)
        if pos + ln > cap:
            break
        pad = -(pos + ln) % align + (r.choice([1, 2, 4, 8, 24]) * align if r.chance(.1) else 0)
        out.append([pos, b, pad])
        kept.append(names[k])
        pos += ln + pad
    buf = bytearray()
    for k, (p, b, pad) in enumerate(out):
        last = k == len(out) - 1
        if last:
            buf += struct.pack("<I", 0) + b
        else:
            buf += struct.pack("<I", 4 + len(b) + pad) + b + nz(r, pad)
    return bytes(buf), kept


def query_directory(r, log, o):
    path = fs_path(r, o)
    flt = g(o, "filter", lambda: "" if r.chance(.4) else r.choice(["*", "*.dll", "x"]) if r.chance(.4) else text(r, 1))
    cls = g(o, "cls", lambda: FILE_CLASS[r.choice(DIR_CLASSES)] if r.chance(.8) else r.choice(list(T.FILE_INFO)))
    cname = T.FILE_INFO[cls]
    i, b = dstr(r, flt, o.get("force"))
    put = [(0x1c if log.is64 else 0x14, struct.pack("<I", cls))]
    f = shown(flt)
    det = [("Filter", f)] if f else []
    det.append(("FileInformationClass", cname))
    extra = None
    if g(o, "extra", lambda: r.chance(.8)):
        if cname in DIR_CLASSES:
            names = g(o, "names", lambda: [text(r, 0 if r.chance(.1) else 1) if r.chance(.7) else r.word() for _ in range(max(1, r.many([1, 1, 2, 3, 7, 40], 3000)))])
            if r.chance(.3) and "names" not in o:
                names = [".", ".."] + names
            extra, names = dir_listing(r, cname, names)
            if len(extra) < 65000 and r.chance(.15):
                extra += nz(r, r.randint(1, 40))
            for k, n in enumerate(names):
                det.append((str(k + (1 if f else 0)), shown(n)))
        else:
            extra = nz(r, r.randint(1, 30))
    p = shown(path)
    full = p if not f else p + f if p.endswith("\\") else p + "\\" + f
    return fs_event(r, log, o, FCODE["DirectoryControl"], 1, put, struct.pack("<H", i) + b, extra, {
        "_path": path, "path": full, "operation": "QueryDirectory", "category": "Read Metadata", "details": det},
        "QueryDirectory/" + (cname if cname in DIR_CLASSES else "other"))


def notify(r, log, o):
    m = g(o, "mask", lambda: r.bits(12) if r.chance(.8) else r.u32())
    return fs_event(r, log, o, FCODE["DirectoryControl"], 2, [(0x14 if log.is64 else 0x10, struct.pack("<I", m))], b"", None, {
        "_path": fs_path(r, o), "operation": "NotifyChangeDirectory", "category": "Read Metadata",
        "details": [("Filter", mask_names(m, T.NOTIFY, ", "))]}, "NotifyChangeDirectory")


def file_mapping(r, log, o):
    sync = g(o, "sync", lambda: r.choice([0, 1, 2, unknown(r, (0, 1))]))
    prot = g(o, "prot", lambda: r.choice([2, 4, 8, 0x10, 0x20, 0x40, 0x202, 0x210, 0, 1, 0x200, 0x80]) if r.chance(.7) else unknown(r, (2, 4, 8, 0x10, 0x20, 0x40)))
    det = [("SyncType", T.SYNC_TYPE.get(sync, "Unknown: {:#x}".format(sync)))]
    for bit, name in T.PAGE_PROT.items():
        if name != "PAGE_NOCACHE" and prot & bit:
            det.append(("PageProtection", name + ("|PAGE_NOCACHE" if prot & 0x200 else "")))
            break
    return fs_event(r, log, o, FCODE["CreateFileMapping"], plain_sub(r, ""), [(0xc, struct.pack("<II", sync, prot))], b"", None, {
        "_path": fs_path(r, o), "operation": "CreateFileMapping", "category": "", "details": det}, "CreateFileMapping")


def set_disposition(r, log, o):
    v = g(o, "delete", lambda: r.choice([0, 1, 1, 2, 255]))
    return fs_event(r, log, o, FCODE["SetInformationFile"], 13, [], bytes((v,)) + nz(r, 3), None, {
        "_path": fs_path(r, o), "operation": "SetDispositionInformationFile", "category": "Write" if v else "",
        "details": [("Delete", "True" if v else "False")]}, "SetDisposition")


DETAILED = {"CreateFile", "ReadFile", "WriteFile", "FileSystemControl", "QueryDirectory", "NotifyChangeDirectory",
            "DeviceIoControl", "QueryIdInformation", "QueryRemoteProtocolInformation", "SetDispositionInformationFile",
            "CreateFileMapping"}


def fs_other(r, log, o):
    """Any file system operation without supported details: name and path only."""
    for _ in range(100):
        op = o["op"] if "op" in o else r.choice(list(T.FS_OPS))
        base = T.FS_OPS[op]
        subs = T.FS_SUB_OPS.get(op)
        if subs:
            sub = o["sub"] if "sub" in o else r.choice(list(subs)) if r.chance(.7) else r.u8()
            name = base if sub == 0 else subs.get(sub, base + " <Unknown>")
        else:
            sub, name = o.get("sub", plain_sub(r, base)), base
        if name not in DETAILED or name in ("QueryIdInformation", "QueryRemoteProtocolInformation"):
            break
    exp = {"_path": fs_path(r, o), "operation": name}
    if name in ("QueryIdInformation", "QueryRemoteProtocolInformation"):
        exp.update(category="Read Metadata", details=[])
    elif name in ("CloseFile", "Shutdown", "InternalDeviceIoControl"):
        exp.update(category="", details=[])
    return fs_event(r, log, o, op, sub, [], b"", r.randbytes(4) if r.chance(.2) else None, exp, "fs:" + name)


def profiling(r, log, o):
    op = g(o, "op", lambda: r.choice(list(T.PROFILING_OPS)))
    return Ev(PROF, op, r.randbytes(r.randint(0, 40)), None, {"operation": T.PROFILING_OPS[op], "path": "", "category": "",
              "details": []}, "profiling")


def process_other(r, log, o):
    ops = [c for c, n in T.PROCESS_OPS.items() if n in ("System_Statistics",)]
    if not ops:
        return thread_create(r, log, o)
    op = r.choice(ops)
    return Ev(PROC, op, r.randbytes(r.randint(0, 40)), None, {"operation": T.PROCESS_OPS[op], "path": "", "category": "",
              "details": []}, "process_other")


def with_op(f, op):
    return lambda r, log, o: f(r, log, o, op)


GENS = {
    "process": [process_created, with_op(process_created, "Process_Defined"), process_started, process_exit,
                with_op(process_exit, "Process_Statistics"), thread_create, thread_exit, load_image, process_other],
    "network": [network],
    "regkey": [with_op(reg_open, "RegOpenKey"), with_op(reg_open, "RegCreateKey"), with_op(reg_key_query, "RegQueryKey"),
               with_op(reg_key_query, "RegEnumKey"), reg_set_info, with_op(reg_load, "RegLoadKey"),
               with_op(reg_load, "RegRenameKey"), reg_plain],
    "regvalue": [with_op(reg_value_query, "RegQueryValue"), with_op(reg_value_query, "RegEnumValue"), reg_set_value],
    "fsname": [create_file, fs_other],
    "fsio": [read_write, ioctl, file_mapping, notify, set_disposition],
    "dir": [query_directory],
    "profiling": [profiling],
}
ALL = [f for fs in GENS.values() for f in fs]


def finish(r, log, e, date=None):
    """Fill in the common columns."""
    e.pidx = r.choice(log.procs).index
    e.tid = r.u32()
    e.duration = r.u64() if r.chance(.2) else r.duration()
    e.date = r.filetime() if date is None else date
    e.result = r.choice(list(T.RESULTS)) if r.chance(.6) else unknown(r, T.RESULTS)
    n = r.many([0, 0, 1, 2, 5, 30], 65535)
    e.stack = [(r.u64() if log.is64 else r.u32()) for _ in range(n)]
    settle(e)
    return e


def settle(e):
    if e.kind == "Thread_Exit":
        e.exp["details"][0] = ("Thread ID", e.tid)
    return e


# ------------------------------------------------------------------ whole logs
def proc_text(r):
    k = r.random()
    if k < .15:
        return ""
    return r.ascii() if k < .5 else r.uni(nul=k > .9, lone=k > .9)


def module(r, is64):
    from vlib.pml import Mod
    return Mod(r.u64() if is64 else r.u32(), r.u32(), proc_text(r), proc_text(r), proc_text(r), proc_text(r), r.u32())


def process(r, index, is64, nmod):
    from vlib.pml import Proc
    k = {f: proc_text(r) for f in Proc.TEXTS}
    if r.chance(.5):
        shared = proc_text(r)
        for f in r.sample(Proc.TEXTS, 3):
            k[f] = shared
    return Proc(index, pid=r.u32(), parent_pid=r.u32(), authentication_id=r.u64(), session=r.u32(),
                virtualized=r.choice([0, 0, 1, 1, 1, 2, 3, 0x101, 0xffffffff, r.u32()]), is_process_64bit=r.choice([0, 1]),
                start_time=r.u64(), end_time=r.u64(), modules=[module(r, is64) for _ in range(nmod)], **k)


def base_log(r, nproc=None, nmod=None, is64=None):
    from vlib.pml import Log
    log = Log()
    log.is64 = r.chance(.5) if is64 is None else is64
    log.is64_raw = 1 if log.is64 else 0
    log.computer = fit(r, 16)
    log.root = fit(r, 0x104)
    log.os = r.choice([(6, 0), (6, 1), (6, 2), (6, 3), (10, 0)])
    log.build = (r.u32(), r.u32())
    log.sp = "" if r.chance(.4) else fit(r, 24)
    log.nproc = r.u32()
    log.ram = r.u64()
    n = max(1, r.many([1, 1, 2, 3, 6], 2000)) if nproc is None else nproc
    seen = set()
    while len(seen) < n:
        seen.add(r.u32() if r.chance(.4) else r.randrange(0, 4 * n + 4))
    idx = list(seen)
    if r.chance(.5):
        idx.sort()
    else:
        r.shuffle(idx)
    for i in idx:
        m = r.many([0, 0, 1, 2, 5], 2000) if nmod is None else nmod
        log.procs.append(process(r, i, log.is64, m))
    seen = set()
    for _ in range(many(r, [0, 1, 3, 8], [300, 3000], .003)):
        ip = v4(r) if r.chance(.5) else v6(r)
        if ip not in seen:
            seen.add(ip)
            log.hosts.append((ip, "" if r.chance(.15) else r.word() if r.chance(.5) else text(r)))
    seen = set()
    for _ in range(many(r, [0, 1, 3, 8], [300, 3000], .003)):
        p = r.choice([80, 443, 53, 0, 65535]) if r.chance(.5) else r.u16()
        for t in ([True, False] if r.chance(.4) else [r.chance(.5)]):
            if (p, t) not in seen:
                seen.add((p, t))
                log.ports.append((p, t, r.word() if r.chance(.7) else text(r, 1)))
    return settle_log(log)


def settle_log(log):
    log.procmap = {p.index: p.expected() for p in log.procs}
    return log


def fit(r, n):
    """A text of at most n UTF-16 units, often exactly n."""
    k = r.random()
    if k < .1:
        return ""
    want = n if k < .35 else r.randint(1, n)
    if r.chance(.5):
        return r.ascii(want).replace("\0", "")
    s = ""
    while True:
        c = r.uni(1)
        if len(units(s + c)) > want:
            c = "x"
        s += c
        if len(units(s)) >= want:
            return s


def make_log(r, n=None, gens=None, **k):
    """A log of n events with all capture times distinct."""
    log = base_log(r, **k)
    n = max(1, r.many([1, 2, 3, 6, 12], 3000)) if n is None else n
    gens = gens or ALL
    dates = set()
    for i in range(n):
        d = r.filetime()
        while d in dates:
            d = r.filetime()
        dates.add(d)
        log.events.append(finish(r, log, r.choice(gens)(r, log, {}), d))
    return log
