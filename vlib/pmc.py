"""Independent writer, parser and generator of Procmon configurations, written from docs/PMC Format.md."""
import os
import struct

from vlib import tables as T
from vlib.rng import U32_EDGE

U32 = ["ColumnCount", "HighlightFG", "HighlightBG", "AdvancedMode", "Autoscroll", "HistoryDepth", "Profiling",
       "DestructiveFilter", "AlwaysOnTop", "ResolveAddresses"]
KINDS = dict([(n, "u32") for n in U32] + [
    ("Columns", "u16s"), ("ColumnMap", "cols"), ("DbgHelpPath", "text"), ("Logfile", "text"), ("SourcePath", "ztext"),
    ("SymbolPath", "ztext"), ("LogFont", "font"), ("BoookmarkFont", "font"), ("FilterRules", "rules"),
    ("HighlightRules", "rules")])
FONT = ["height", "width", "escapement", "orientation", "weight", "italic", "underline", "strikeout", "char_set",
        "out_precision", "clip_precision", "quality", "pitch_and_family", "face_name"]
ARCH = next(v for v, n in T.COLUMN_TITLES.items() if n == "Architecture")


def z(s):
    return s.encode("utf-16-le") + b"\0\0"


def rule_int(col, value):
    """The numeric field of a rule; None when it is not claimed (digits that are not ASCII)."""
    if value and all(c in "0123456789" for c in value):
        digits = value.lstrip("0") or "0"
        if len(digits) <= 10 and int(digits) <= 0xffffffff:
            return int(digits)
    elif value.isdigit():
        return None
    if col == ARCH:
        return 32 if "32" in value else 64
    return 0


def rule_bytes(rule):
    """rule: (column, relation, text, action); an unclaimed number is written as 0."""
    c, rel, text, act = rule
    v = z(text) if text else b""
    return struct.pack("<IIBI", c, rel, act, len(v)) + v + struct.pack("<II", rule_int(c, text) or 0, 0)


def data_bytes(name, v):
    k = KINDS.get(name)
    if k == "u32":
        return struct.pack("<I", v)
    if k == "u16s":
        return struct.pack("<%dH" % len(v), *v)
    if k == "cols":
        return struct.pack("<%dI" % len(v), *v)
    if k == "text":
        return v.encode("utf-16-le")
    if k == "ztext":
        return z(v) if v else b""
    if k == "font":
        b = struct.pack("<5I8B", *v[:13]) + v[13].encode("utf-16-le")
        return b + b"\0" * (92 - len(b))
    if k == "rules":
        return b"\1" + struct.pack("<I", len(v)) + b"".join(rule_bytes(x) for x in v)
    return v


def record(name, v, data=None):
    n = z(name)
    d = data_bytes(name, v) if data is None else data
    return struct.pack("<IIII", 16 + len(n) + len(d), 16, 16 + len(n), len(d)) + n + d


def dump(conf):
    return b"".join(record(n, v) for n, v in conf)


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def utf16(b):
    need(len(b) % 2 == 0, "odd text size")
    return b.decode("utf-16-le")


def parse_data(name, d):
    k = KINDS.get(name)
    if k == "u32":
        need(len(d) == 4, "%s: %d data bytes" % (name, len(d)))
        return struct.unpack("<I", d)[0]
    if k == "u16s":
        need(len(d) % 2 == 0, "odd Columns")
        return list(struct.unpack("<%dH" % (len(d) // 2), d))
    if k == "cols":
        need(len(d) % 4 == 0, "odd ColumnMap")
        return list(struct.unpack("<%dI" % (len(d) // 4), d))
    if k == "text":
        return utf16(d)
    if k == "ztext":
        if not d:
            return ""
        s = utf16(d)
        need(s[-1] == "\0" and "\0" not in s[:-1], "text is not terminated: %r" % d[-8:])
        return s[:-1]
    if k == "font":
        need(len(d) == 92, "font of %d bytes" % len(d))
        face = utf16(d[28:])
        need(not face.partition("\0")[2].strip("\0"), "face name not padded with zeros")
        return list(struct.unpack("<5I8B", d[:28])) + [face.partition("\0")[0]]
    if k == "rules":
        need(d[:1] == b"\1", "rules marker")
        n = struct.unpack("<I", d[1:5])[0]
        p, out = 5, []
        for _ in range(n):
            c, rel, act, ln = struct.unpack("<IIBI", d[p:p + 13])
            p += 13
            v = utf16(d[p:p + ln])
            need(len(v) * 2 <= ln, "rule cut")
            p += ln
            need(ln == 0 or (v.endswith("\0") and "\0" not in v[:-1]), "rule text not terminated")
            num, res = struct.unpack("<II", d[p:p + 8])
            p += 8
            need(res == 0, "rule's last field is %d" % res)
            text = v[:-1] if ln else ""
            want = rule_int(c, text)
            need(want is None or num == want, "rule number of %r is %d, not %r" % (text, num, want))
            out.append((c, rel, text, act))
        need(p == len(d), "%d bytes after the rules" % (len(d) - p))
        return out
    return d


def parse(b):
    """[(name, value)] of a complete configuration; raises Bad when a byte of it is not as documented."""
    out, p = [], 0
    while p < len(b):
        need(p + 16 <= len(b), "partial header at %d" % p)
        size, h, hn, ds = struct.unpack("<IIII", b[p:p + 16])
        need(h == 16, "header size %d" % h)
        need(size == hn + ds, "record size %d, header and name %d, data %d" % (size, hn, ds))
        need(p + size <= len(b), "record runs over the end")
        name = utf16(b[p + 16:p + hn])
        need(name[-1:] == "\0" and "\0" not in name[:-1], "name is not terminated")
        out.append((name[:-1], parse_data(name[:-1], b[p + hn:p + size])))
        p += size
    return out


# ------------------------------------------------------------------ generation (plain values)
DIGITS = ["0", "1", "007", "00", "4294967295", "4294967296", "4294967294", "04294967295", "4294967305", "9999999999",
          "18446744073709551616", "1" * 40, "9" * 5000, "0" * 30 + "5", "\u00b2", "\u0663\u0664", "1\u00b2", "\u2460",
          "\uff11\uff12", "\U0001d7d8", "-1", "+1", "1.0", " 1", "1 ", "0x10", "1e3", "1_000", "\u0664" * 20]
ARCHS = ["32-bit", "64-bit", "32", "64", "x32", "132", "", "3 2", "arm64", "ARM", "320", "0032", "6432", "bit", "32" * 20]


def gtext(r, lo=0):
    """Any text a configuration can hold: no NUL, no unpaired surrogates."""
    k = r.random()
    if k < .12 and not lo:
        return ""
    if k < .25:
        if r.chance(.5):
            return "0" * r.choice([0, 0, 0, 1, 3]) + str(r.u32() if r.chance(.5) else r.getrandbits(r.randint(1, 40)))
        return r.choice(DIGITS)
    if k < .35:
        if r.chance(.3):
            return r.ascii() + r.choice(["32", "64", "23", "3", "2"]) + r.ascii()
        return r.choice([a for a in ARCHS if a or not lo])
    if k < .38:
        return r.choice(["x", "\u4e2d", "\U0001f600", "1"]) * r.choice([255, 256, 257, 4000, 32768, 70000])
    return r.ascii() if k < .7 else r.uni()


_USUAL = []


def usual_rules():
    """The rules of a genuine configuration."""
    if not _USUAL:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "genuine.pmc"), "rb") as f:
            for n, v in parse(f.read()):
                if KINDS.get(n) == "rules":
                    _USUAL.extend(tuple(x) for x in v)
    return _USUAL


def grule(r):
    if r.chance(.1):
        return r.choice(usual_rules())
    c = r.choice([ARCH, ARCH] + list(T.COLUMNS)) if r.chance(.9) else r.choice(list(T.COLUMNS))
    return (c, r.choice(list(T.RELATIONS)), gtext(r), r.choice([0, 1]))


def gvalue(r, name):
    k = KINDS.get(name)
    if k == "u32":
        return r.u32()
    if k == "u16s":
        return [r.u16() for _ in range(r.many([0, 1, 2, 64, 64, 300], 70000) if r.chance(.985) else r.choice([1025, 33000, 66000]))]
    if k == "cols":
        return [r.choice(list(T.COLUMNS)) if r.chance(.75) else r.u32() for _ in range(r.many([0, 1, 2, 7, 27, 100], 20000) if r.chance(.985) else r.choice([260, 1025, 4100]))]
    if k in ("text", "ztext"):
        return gtext(r)
    if k == "font":
        n = r.choice([0, 1, 5, 31, 32])
        face = ""
        while True:
            c = r.uni(1) if r.chance(.4) else r.word(1)
            if len((face + c).encode("utf-16-le")) > 2 * n:
                break
            face += c
        return [r.u32() for _ in range(5)] + [r.u8() for _ in range(8)] + [face]
    if k == "rules":
        return [grule(r) for _ in range(r.many([0, 1, 2, 3, 10, 40], 3000) if r.chance(.99) else r.choice([129, 257, 700]))]
    return r.randbytes(r.many([0, 1, 2, 3, 4, 5, 16, 92, 300], 200000) if r.chance(.97) else r.choice([4097, 65537, 100000])) if r.chance(.9) else b"\0" * 17


def gname(r):
    """A name Procmon does not know (or does not know yet)."""
    k = r.random()
    if r.chance(.01):
        return r.choice(["n", "\u00e9", "\U0001f600"]) * r.choice([127, 128, 255, 256, 1025, 33000]) + r.word()
    if k < .4:
        return r.choice(["FilterRules2", "columns", "COLUMNS", "Column", "Columns ", "BookmarkFont", "NewOption", "LogFile",
                         "x", "FilterRule", " ", "SourcePath1", "data", "name", "0"])
    return r.ascii() if k < .7 else r.uni()


def gconf(r, n=None, names=None):
    """[(name, plain value)] with distinct names."""
    if names is None:
        known = list(KINDS)
        k = r.random()
        if k < .1:
            names = known
        elif k < .2:
            names = []
        else:
            names = r.sample(known, r.randint(1, 8))
        names = list(names) + [gname(r) for _ in range(r.many([0, 0, 1, 2, 5], 3000) if r.chance(.99) else r.choice([130, 300]))]
        if r.chance(.7):
            r.shuffle(names)
        if n is not None:
            names = names[:n]
    out, seen = [], set()
    for nm in names:
        if nm not in seen:
            seen.add(nm)
            out.append((nm, gvalue(r, nm)))
    return out


# ------------------------------------------------------------------ plain values <-> the library's objects
def to_lib(conf, lib, r=None):
    """conf as an OrderedDict of the library's own objects; lib: the procmon_parser.configuration module."""
    from collections import OrderedDict
    out = OrderedDict()
    cols = {int(c): c for c in lib.Column}
    for n, v in conf:
        k = KINDS.get(n)
        if k == "cols":
            v = [cols.get(c, c) if r is None or r.chance(.8) else c for c in v]
        elif k == "font":
            v = lib.Font(**dict(zip(FONT, v)))
        elif k == "rules":
            v = [lib.Rule(lib.Column(c), lib.RuleRelation(rel), t, lib.RuleAction(a)) for c, rel, t, a in v]
        elif isinstance(v, list):
            v = list(v)
        out[n] = v
    return out


def from_lib(d):
    """A detached plain copy of a configuration of the library."""
    out = []
    for n, v in d.items():
        k = KINDS.get(n)
        if k == "font":
            v = [getattr(v, f) for f in FONT]
        elif k == "rules":
            v = [(int(x.column), int(x.relation), x.value, int(x.action)) for x in v]
        elif isinstance(v, list):
            v = [int(x) for x in v]
        elif k == "u32":
            v = int(v)
        out.append((n, v))
    return out
