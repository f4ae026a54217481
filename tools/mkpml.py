"""A small writer of well-formed Procmon logs and configurations (standalone: struct only)."""
import struct


def u16(s):
    return s.encode("utf-16-le", "surrogatepass")


def fixed(s, size):
    b = u16(s)
    return b + b"\0" * (size - len(b))


def proc(index=1, pid=4, name="a.exe", modules=(), **k):
    d = dict(index=index, pid=pid, parent_pid=0, auth=0x3e7, session=0, start=0, end=0, virt=0, is64=1, integrity="Medium",
             user="U", process_name=name, image_path="C:\\" + name, command_line=name, company="C", version="1",
             description="D", modules=list(modules))
    d.update(k)
    return d


def mod(base=0x1000, size=0x2000, path="C:\\m.dll", version="1.0", company="MC", description="MD", timestamp=7):
    return dict(base=base, size=size, path=path, version=version, company=company, description=description,
                timestamp=timestamp)


def event(cls, op, details=b"", extra=None, pidx=1, tid=1, duration=0, date=132000000000000000, result=0, stack=()):
    return dict(cls=cls, op=op, details=details, extra=extra, pidx=pidx, tid=tid, duration=duration, date=date,
                result=result, stack=list(stack))


def info(s, ascii=None):
    """The info field and the bytes of a detail string."""
    if ascii is None:
        ascii = all(ord(c) < 128 for c in s)
    if ascii:
        return struct.pack("<H", 0x8000 | len(s)), s.encode("ascii")
    b = u16(s)
    return struct.pack("<H", len(b) // 2), b


def fs(sub, block=b"", path="C:\\f", tail=b"", is64=True, ascii=None):
    """Details of a file system event."""
    n = (8 if is64 else 4) * 5 + 0x14
    i, p = info(path, ascii)
    return struct.pack("<B3x", sub) + block + b"\0" * (n - len(block)) + i + b"\0\0" + p + tail


def log(events=(), procs=None, is64=True, hosts=(), ports=(), computer="PC", root="C:\\Windows", os=(10, 0), build=(1, 2),
        sp="", cpus=4, ram=8 << 30, far=False, record_order=None, raw_strings=None, strings_pad=b"\0\0", flags=0, pad=b""):
    """far: extra details after all events; record_order: physical order of the event records."""
    procs = [proc()] if procs is None else procs
    pv = "<Q" if is64 else "<I"
    psize = 8 if is64 else 4
    strings = []

    def sid(s):
        if s not in strings:
            strings.append(s)
        return strings.index(s)

    recs = []
    for p in procs:
        b = struct.pack("<IIIIQIIQQII", p["index"], p["pid"], p["parent_pid"], 0, p["auth"], p["session"], 0, p["start"],
                        p["end"], p["virt"], p["is64"])
        for f in ("integrity", "user", "process_name", "image_path", "command_line", "company", "version", "description"):
            b += struct.pack("<I", sid(p[f]))
        b += struct.pack("<II", 0, 0) + struct.pack(pv, 0) + struct.pack("<I", len(p["modules"]))
        for m in p["modules"]:
            b += struct.pack(pv, 0) + struct.pack(pv, m["base"]) + struct.pack(
                "<IIIIII", m["size"], sid(m["path"]), sid(m["version"]), sid(m["company"]), sid(m["description"]),
                m["timestamp"]) + b"\0" * 0x18
        recs.append(b)

    def table(blobs, middle=b""):
        pos, offs = 4 + len(middle) + 4 * len(blobs), []
        for b in blobs:
            offs.append(pos)
            pos += len(b)
        return struct.pack("<I", len(blobs)) + middle + struct.pack("<%dI" % len(blobs), *offs) + b"".join(blobs)

    ptable = table(recs, struct.pack("<%dI" % len(recs), *[p["index"] for p in procs]))
    if raw_strings:
        strings += raw_strings
    stable = table([struct.pack("<I", len(u16(s) + strings_pad)) + u16(s) + strings_pad for s in strings])

    evs = list(events)
    order = list(range(len(evs))) if record_order is None else record_order
    pos, at, xat = 0x3a8, [0] * len(evs), [None] * len(evs)
    fixed_size = 0x34

    def size(e):
        return fixed_size + psize * len(e["stack"]) + len(e["details"])

    for i in order:
        at[i] = pos
        pos += size(evs[i])
        if evs[i]["extra"] is not None and not far:
            xat[i] = pos
            pos += 2 + len(evs[i]["extra"])
    if far:
        for i in reversed(order):
            if evs[i]["extra"] is not None:
                xat[i] = pos
                pos += 2 + len(evs[i]["extra"])
    body = bytearray(pos - 0x3a8)
    for i, e in enumerate(evs):
        a = at[i]
        b = struct.pack("<IIIHHIQQIHHII", e["pidx"], e["tid"], e["cls"], e["op"], 0, 0, e["duration"], e["date"],
                        e["result"], len(e["stack"]), 0, len(e["details"]), 0 if xat[i] is None else xat[i] - a)
        b += b"".join(struct.pack(pv, x) for x in e["stack"]) + e["details"]
        body[a - 0x3a8:a - 0x3a8 + len(b)] = b
        if xat[i] is not None:
            x = struct.pack("<H", len(e["extra"])) + e["extra"]
            body[xat[i] - 0x3a8:xat[i] - 0x3a8 + len(x)] = x
    if not evs:
        body = bytearray(4)
        pos += 4
    body += pad
    pos += len(pad)
    offsets = b"".join(struct.pack("<IB", a, flags) for a in at)
    o_off = pos
    o_proc = o_off + len(offsets)
    o_str = o_proc + len(ptable)
    o_icon = o_str + len(stable)
    o_host = o_icon + 4
    hp = struct.pack("<I", len(hosts))
    for ip, name in hosts:
        b = u16(name) + b"\0\0"
        hp += ip + struct.pack("<I", len(b)) + b
    hp += struct.pack("<I", len(ports))
    for port, tcp, name in ports:
        b = u16(name) + b"\0\0"
        hp += struct.pack("<HHI", port, tcp, len(b)) + b
    h = b"PML_" + struct.pack("<II", 9, 1 if is64 else 0) + fixed(computer, 0x20) + fixed(root, 0x208)
    h += struct.pack("<I", len(evs)) + b"\0" * 8 + struct.pack("<QQQQQ", 0x3a8, o_off, o_proc, o_str, o_icon) + b"\0" * 12
    h += struct.pack("<IIII", os[0], os[1], build[0], build[1]) + fixed(sp, 0x32) + b"\0" * 0xd6
    h += struct.pack("<IQQQ", cpus, ram, 0x3a8, o_host)
    assert len(h) == 0x3a8
    return h + bytes(body) + offsets + ptable + stable + struct.pack("<I", 0) + hp


# ---- configurations
def record(name, data):
    n = u16(name) + b"\0\0"
    return struct.pack("<IIII", 16 + len(n) + len(data), 16, 16 + len(n), len(data)) + n + data
