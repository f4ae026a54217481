"""C01-C06: configurations."""
import copy
import io
import os
import struct
from pathlib import Path

from vlib import pmc, tables as T
from vlib.monitor import check, fields, short, VERIF
from vlib.streams import Stream

import procmon_parser as pp
from procmon_parser import configuration as lib

GENUINE = open(os.path.join(VERIF, "data", "genuine.pmc"), "rb").read()
ALL_RULES = [(c, rel, a) for c in T.COLUMNS for rel in T.RELATIONS for a in T.ACTIONS]


def cover_conf(ctx, conf):
    for n, v in conf:
        k = pmc.KINDS.get(n, "unknown")
        ctx.cover("option:" + (n if n in pmc.KINDS else "unknown"))
        if k == "rules":
            for c, rel, t, a in v:
                ctx.cover("rule")
                if t.isdigit():
                    ctx.cover("rule:digits")
                if c == pmc.ARCH:
                    ctx.cover("rule:architecture")
        if v in ("", b"", []):
            ctx.cover("empty:" + k)
    ctx.distinct([(n, pmc.KINDS.get(n, "?"), repr(v)[:200]) for n, v in conf])


def special(i, r):
    """Directed configurations for the first cases, else None."""
    if i == 0:
        return []
    if i == 1:
        return [("FilterRules", [(c, rel, "x%d" % k, a) for k, (c, rel, a) in enumerate(ALL_RULES)])]
    if i == 2:
        return [("HighlightRules", [(c, 0, t, 1) for c in (pmc.ARCH, 40054) for t in pmc.DIGITS + pmc.ARCHS])]
    if i == 3:
        return [("ColumnMap", list(T.COLUMNS) + [1, 40051, 40059, 0xffffffff] + list(T.COLUMNS)),
                ("FilterRules", [(c, 0, "64", 0) for c in T.COLUMNS])]
    if i == 4:
        return [(n, [] if pmc.KINDS[n] in ("rules", "u16s", "cols") else "" if "text" in pmc.KINDS[n] else
                 0 if pmc.KINDS[n] == "u32" else [0] * 13 + [""]) for n in pmc.KINDS]
    if i == 5:
        return [("FilterRules", [pmc.grule(r) for _ in range(3000)])]
    if i == 6:
        return [("Opt%d" % k, r.randbytes(k)) for k in range(40)]
    if i < 30:
        return [(n, pmc.gvalue(r, n)) for n in (list(pmc.KINDS) if i % 2 else reversed(list(pmc.KINDS)))]
    return None


def conf_for(i, r):
    c = special(i, r)
    return pmc.gconf(r) if c is None else c


ALL_OPTIONS = ["option:" + n for n in pmc.KINDS] + ["option:unknown"]


@check("C01", 24000, 200000,
       "a case dumps and loads one random configuration of up to 25 options; distinct by its options and values",
       ALL_OPTIONS + ["rule", "rule:digits", "rule:architecture", "empty:u16s", "empty:cols", "empty:text", "empty:ztext",
                      "empty:rules", "empty:unknown", "dict"],
       ["texts hold no NUL and no unpaired surrogate", "each option occurs once"])
def c01(ctx, i, r):
    conf = conf_for(i, r)
    cover_conf(ctx, conf)
    made = pmc.to_lib(conf, lib, r)
    if r.chance(.3):
        made = dict(made)
        ctx.cover("dict")
    data = pp.dumps_configuration(made)
    back = pp.loads_configuration(data)
    ctx.eq("loaded configuration", pmc.from_lib(back), conf)
    ctx.true("option order", list(back) == [n for n, _ in conf])
    for n, v in conf:
        k = pmc.KINDS.get(n)
        ctx.eq("type of " + n, type(back[n]).__name__, {
            "u32": "int", "u16s": "list", "cols": "list", "rules": "list", "text": "str", "ztext": "str",
            "font": "Font"}.get(k, "bytes"))
        if k == "rules":
            ctx.true("rules compare equal", back[n] == made[n], option=n)
        elif k != "font":
            ctx.true("value compares equal", back[n] == made[n], option=n)
    again = pp.dumps_configuration(back)
    ctx.true("dumping the loaded configuration gives the same bytes", again == data)
    if i < 3:
        ctx.sample({"options": [n for n, _ in conf], "bytes": len(data)})


@check("C02", 12000, 80000,
       "a case loads a genuine or generated file, dumps it, edits one option and compares the records; distinct by file and edit",
       ["genuine", "generated", "edit:change", "edit:in place", "edit:add", "edit:remove"] + ["changed:" + n for n in pmc.KINDS],
       ["generated files hold no rule text of non-ASCII digits, whose number Procmon's format does not define"])
def c02(ctx, i, r):
    if i % 3 == 0:
        data, conf = GENUINE, pmc.parse(GENUINE)
        ctx.cover("genuine")
    else:
        while True:
            conf = pmc.gconf(r)
            if all(pmc.rule_int(c, t) is not None for n, v in conf if pmc.KINDS.get(n) == "rules" for c, _, t, _ in v):
                break
        if r.chance(.3):                # two options that hold the same
            for a, b in (("FilterRules", "HighlightRules"), ("LogFont", "BoookmarkFont")):
                have = dict(conf)
                if a in have:
                    conf = [x for x in conf if x[0] != b] + [(b, copy.deepcopy(have[a]))]
        data = pmc.dump(conf)
        ctx.cover("generated")
    loaded = pp.loads_configuration(data)
    ctx.eq("loaded file", pmc.from_lib(loaded), conf)
    out = pp.dumps_configuration(loaded)
    ctx.true("dump reproduces the file", out == data, first_difference=first_diff(out, data))
    # one edit
    edit = r.choice(["change", "change", "add", "remove"]) if conf else "add"
    ctx.cover("edit:" + edit)
    new = list(conf)
    if edit == "add":
        names = [n for n in pmc.KINDS if n not in loaded] + ["Extra", "FilterRules3"]
        n = r.choice([x for x in names if x not in loaded])
        v = clean(r, n)
        new.append((n, v))
        loaded[n] = pmc.to_lib([(n, v)], lib, r)[n]
    else:
        k = (i // 3) % len(conf)
        n = conf[k][0]
        if edit == "remove":
            del new[k]
            del loaded[n]
        else:
            v = clean(r, n)
            new[k] = (n, v)
            if n in pmc.KINDS:
                ctx.cover("changed:" + n)
            if pmc.KINDS.get(n) in ("font", "rules", "cols", "u16s") and r.chance(.5):
                in_place(r, loaded[n], pmc.to_lib([(n, v)], lib, r)[n])
                new[k] = pmc.from_lib({n: loaded[n]})[0]
                ctx.cover("edit:in place")
            else:
                loaded[n] = pmc.to_lib([(n, v)], lib, r)[n]
    ctx.distinct(edit, n, repr(new)[:400])
    out = pp.dumps_configuration(loaded)
    want = b"".join(pmc.record(a, b) for a, b in new)
    ctx.true("after one edit only that record differs", out == want, edit=edit, option=n, first_difference=first_diff(out, want))
    if i < 3:
        ctx.sample({"edit": edit, "option": n, "bytes": len(out)})


def in_place(r, old, v):
    """Change old, a value of a loaded configuration, towards v, itself."""
    if isinstance(old, lib.Font):
        f = r.choice(pmc.FONT)
        setattr(old, f, getattr(v, f))
    elif old and isinstance(old[0], lib.Rule) and v and r.chance(.5):
        x, y = r.choice(old), v[0]
        x.column, x.value = y.column, y.value
    else:
        r.choice([old.clear, lambda: old.extend(v), lambda: old.insert(0, v[0]) if v else None, old.reverse, lambda: old.pop() if old else None])()


def clean(r, n):
    while True:
        v = pmc.gvalue(r, n)
        if pmc.KINDS.get(n) != "rules" or all(pmc.rule_int(c, t) is not None for c, _, t, _ in v):
            return v


def first_diff(a, b):
    for k in range(min(len(a), len(b))):
        if a[k] != b[k]:
            return k, a[max(0, k - 4):k + 8], b[max(0, k - 4):k + 8]
    return len(a), len(b)


@check("C03", 40000, 200000,
       "a case dumps one random configuration and decodes every byte with an independent parser; distinct by options and values",
       ALL_OPTIONS + ["rule", "rule:digits", "rule:architecture"],
       ["the number of a rule whose text is of non-ASCII digits is not claimed"])
def c03(ctx, i, r):
    conf = conf_for(i, r)
    cover_conf(ctx, conf)
    out = pp.dumps_configuration(pmc.to_lib(conf, lib, r))
    try:
        got = pmc.parse(out)
    except (pmc.Bad, struct.error, UnicodeDecodeError, IndexError) as e:
        ctx.fail("the dump is not as documented: %r" % e, options=[n for n, _ in conf])
    ctx.eq("records", got, conf)
    ctx.ok(len(conf))
    if i < 40 and all(pmc.rule_int(c, t) is not None for n, v in conf if pmc.KINDS.get(n) == "rules" for c, _, t, _ in v):
        ctx.true("bytes", out == pmc.dump(conf), first_difference=first_diff(out, pmc.dump(conf)))


@check("C04", 2400, 30000,
       "a case loads up to 150 prefixes of a configuration, or one with a contradictory record size; distinct by file and cut",
       ["cut:header", "cut:name", "cut:data", "cut:boundary", "size:record", "size:first", "size:last", "undecodable"] +
       ["cut in " + n for n in pmc.KINDS])
def c04(ctx, i, r):
    if i % 4 == 0:
        data, conf = GENUINE, pmc.parse(GENUINE)
    else:
        conf = [(n, short_value(r, n, v)) for n, v in pmc.gconf(r)] or [("ColumnCount", 5)]
        if r.chance(.04):
            conf = [c for c in conf if c[0]]
            conf.insert(len(conf) if r.chance(.7) else r.randrange(len(conf) + 1), ("", b""))
            ctx.cover("nameless and empty")
        data = pmc.dump(conf)
    ends, p = [0], 0
    for n, v in conf:
        p += len(pmc.record(n, v))
        ends.append(p)
    # cuts: around every boundary, then anywhere
    cuts = set()
    for k, (n, v) in enumerate(conf):
        a, b = ends[k], ends[k + 1]
        for c in (a, a + r.randrange(16), a + 15, a + 16, a + 16 + r.randrange(len(n) * 2 + 2), b - 1, b - 2, b - 4,
                  r.randrange(a, b)):
            if a <= c <= b:
                cuts.add(c)
    if i % 4 == 0:
        step = 80
        lo = (i // 4) % step
        cuts = set(range(lo, len(data) + 1, step)) | set(r.sample(sorted(cuts), 12))
    cuts = sorted(cuts)
    if len(cuts) > 110:
        cuts = sorted(r.sample(cuts, 110))
    for c in cuts + [len(data)]:
        k = max(j for j, e in enumerate(ends) if e <= c)
        cutname = conf[k][0] if k < len(conf) else None
        rel = c - ends[k]
        ctx.cover("cut:" + ("boundary" if rel == 0 else "header" if rel < 16 else
                            "name" if rel < 18 + 2 * len(cutname) else "data"))
        if rel and cutname in pmc.KINDS:
            ctx.cover("cut in " + cutname)
        got = pp.loads_configuration(data[:c]) if r.chance(.5) else pp.load_configuration(io.BytesIO(data[:c]))
        ctx.eq("records of the first %d of %d bytes" % (c, len(data)), pmc.from_lib(got), conf[:k], cut_option=cutname)
        ctx.distinct(len(data), c, cutname)
    # contradictory sizes
    for k in {0, len(conf) - 1, r.randrange(len(conf))}:
        rec_len = ends[k + 1] - ends[k]
        bad = bytearray(data)
        size = rec_len
        while size == rec_len:
            size = r.choice([0, 16, rec_len - 1, rec_len + 1, rec_len - 2, rec_len + 2, rec_len ^ 0x10000, 0xffffffff, r.u32(),
                             rec_len + 0x80000000, rec_len | 0x1000000])
        struct.pack_into("<I", bad, ends[k], size & 0xffffffff)
        ctx.cover("size:record")
        ctx.cover("size:first" if k == 0 else "size:last" if k == len(conf) - 1 else "size:middle")
        f = r.choice([lambda: pp.loads_configuration(bytes(bad)), lambda: pp.load_configuration(io.BytesIO(bytes(bad)))])
        ctx.raises("record %d declares %d bytes instead of %d" % (k, size, rec_len), RuntimeError, f)
    if len(conf) == 1:
        ctx.cover("size:last")
    # the data size alone is wrong
    idx = [k for k, (n, v) in enumerate(conf) if n not in pmc.KINDS and len(v) > 0]
    if idx:
        k = r.choice(idx)
        bad = bytearray(data)
        off = ends[k] + 12
        ds = struct.unpack_from("<I", bad, off)[0]
        struct.pack_into("<I", bad, off, r.randrange(ds))
        ctx.cover("size:data")
        ctx.raises("record %d declares too few data bytes" % k, RuntimeError, pp.loads_configuration, bytes(bad))
    # a text that is none never ends a load early
    idx = [k for k, (n, v) in enumerate(conf) if pmc.KINDS.get(n) in ("text", "ztext") and v]
    if idx:
        k = r.choice(idx)
        bad = bytearray(data)
        off = ends[k] + 16 + 2 * len(conf[k][0]) + 2
        struct.pack_into("<H", bad, off, 0xdc00 + r.randrange(0x400))
        try:
            got = pp.loads_configuration(bytes(bad))
        except Exception:
            ctx.cover("undecodable: refused")
        else:
            ctx.eq("options of a file with a text that is none", list(got), [n for n, v in conf])
        ctx.cover("undecodable")
    if i < 8:
        ctx.sample({"file bytes": len(data), "cuts": len(cuts), "records": len(conf)})


def short_value(r, n, v):
    k = pmc.KINDS.get(n)
    if k == "rules":
        return [(c, rel, t[:40], a) for c, rel, t, a in v[:4]
                if pmc.rule_int(c, t[:40]) is not None]
    if isinstance(v, str):
        return v[:60]
    return v[:40] if k in ("u16s", "cols") else v


# ------------------------------------------------------------------ C05
class Odd(object):
    pass


BAD_U32 = [-1, 1 << 32, (1 << 32) + 5, -(1 << 31), 1 << 64, None, "", "5", b"", b"\1\0\0\0", 1.5, [], [5], {}, Odd()]
BAD_TEXT = [None, 5, 0, 1.5, b"", b"text", bytearray(b"text"), memoryview(b"ab"), ("a",), {"a": 1}, Path("x"), [], ["a"], {}, Odd(), True, "\ud800", "a\udfffb", Odd]
BAD_U16S = [None, 5, 0, 1.5, "ab", [-1], [0x10000], [1, 2, 70000], [1, None], ["a"], [1.5], [b"a"], [[]], Odd(), True]
BAD_COLS = [None, 5, 1.5, "ab", [-1], [1 << 32], [None], [1.5], [b"a"], [[]], ["no_such_column"], [Odd()], Odd()]
BAD_RULES = [None, 5, True, "text", [None], [5], ["rule"], [b"x"], [[]], [(40052, 0, "x", 1)], Odd(), 1.5]
BAD_BYTES = [None, "text", 1.5, [], ["a"], {}, Odd(), 5, 0, -1]
BAD_FONT = [None, 5, "Arial", b"x" * 92, [], {}, Odd(), [8] * 14]


def bad_values(r):
    """(option, ill value, label)"""
    n = r.choice(list(pmc.KINDS) + ["Unknown1", "columns"])
    k = pmc.KINDS.get(n, "bytes")
    if k == "font" and r.chance(.8):
        good = dict(zip(pmc.FONT, pmc.gvalue(r, n)))
        f = r.choice(pmc.FONT)
        if f == "face_name":
            good[f] = r.choice([None, 5, b"Arial", ["x"], "x" * 33, "x" * 31 + "\U0001f600", "\U0001f600" * 17, "\ud800", "y" * 500])
        elif pmc.FONT.index(f) < 5:
            good[f] = r.choice([-(1 << 31) - 1, 1 << 32, None, "8", 1.5, [], b"8"])
        else:
            good[f] = r.choice([-1, 256, 1000, None, "1", 1.5, [], b"1"])
        return n, lib.Font(**good), "font field"
    if k == "rules" and r.chance(.6):
        rules = [lib.Rule(lib.Column(c), lib.RuleRelation(a), t, lib.RuleAction(b)) for c, a, t, b in
                 [pmc.grule(r) for _ in range(r.choice([1, 2, 4]))]]
        x = r.choice(rules)
        f = r.choice(["value", "column", "relation", "action", "element"])
        if f == "value":
            x.value = r.choice([None, 5, b"x", bytearray(b"x"), memoryview(b"x"), Path("x"), ("x",), {}, True, ["x"], 1.5, "\ud800x", Odd()])
        elif f == "element":
            rules.insert(r.randrange(len(rules) + 1), r.choice([None, 5, "rule", b"x", {}, Odd()]))
        else:
            setattr(x, f, r.choice([None, -1, 1 << 32, "no_such_name", 1.5, [], Odd()]))
        return n, rules, "rule " + f
    pool = {"u32": BAD_U32, "text": BAD_TEXT, "ztext": BAD_TEXT, "u16s": BAD_U16S, "cols": BAD_COLS, "rules": BAD_RULES,
            "bytes": BAD_BYTES, "font": BAD_FONT}[k]
    return n, r.choice(pool), k


@check("C05", 40000, 150000,
       "a case builds a rule from good or bad arguments, or dumps a configuration with one ill value; distinct by option and value",
       ["rule:name", "rule:number", "rule:member", "rule:bad name", "rule:bad number", "rule:bad value", "font field", "rule value",
        "rule column", "rule relation", "rule action", "rule element", "u32", "text", "ztext", "u16s", "cols", "rules",
        "bytes", "font", "boundary", "bad option name"])
def c05(ctx, i, r):
    if i < len(ALL_RULES):
        rules_equivalent(ctx, ALL_RULES[i], r)
    rules_equivalent(ctx, r.choice(ALL_RULES), r)
    rules_rejected(ctx, r)
    # an ill value among good ones
    n, v, label = bad_values(r)
    ctx.cover(label)
    ctx.distinct(n, label, describe(v))
    good = [(a, b) for a, b in pmc.gconf(r) if a != n]
    k = r.randrange(len(good) + 1)
    conf = list(pmc.to_lib(good, lib, r).items())
    conf.insert(k, (n, v))
    from collections import OrderedDict
    ctx.evaluations += 1
    try:
        out = pp.dumps_configuration(OrderedDict(conf))
    except Exception:
        out = None
    if out is not None:
        ctx.fail("an ill-typed value was dumped", option=n, value=describe(v), label=label,
                 loads_as=try_load(out, n))
    # the same configuration without it is fine
    ctx.true("the rest dumps", len(pp.dumps_configuration(OrderedDict(x for x in conf if x[0] != n))) > 0 or len(conf) == 1)
    # legal extremes are accepted and kept
    n, v = r.choice([("ColumnCount", 0xffffffff), ("ColumnCount", 0), ("Columns", [0, 65535]), ("ColumnMap", [0xffffffff, 0]),
                     ("LogFont", [0xffffffff] * 5 + [255] * 8 + ["x" * 32]), ("LogFont", [0] * 13 + ["\U0001f600" * 16]),
                     ("Profiling", 1 << 31)])
    ctx.cover("boundary")
    ctx.eq("legal extreme of " + n, pmc.from_lib(pp.loads_configuration(pp.dumps_configuration(pmc.to_lib([(n, v)], lib)))), [(n, v)])
    # names
    bad = r.choice([None, 5, b"Columns", ("a",), "\ud800", 1.5])
    ctx.cover("bad option name")
    ctx.raises("option named %r" % (bad,), Exception, pp.dumps_configuration, {bad: b"x"})


def describe(v):
    if isinstance(v, (lib.Font, lib.Rule)):
        return [(k, describe(x)) for k, x in sorted(fields(v).items())]
    if isinstance(v, list):
        return [describe(x) for x in v]
    return type(v).__name__ if isinstance(v, Odd) else short(v, 80)


def try_load(out, n):
    try:
        return repr(pp.loads_configuration(out).get(n))[:80]
    except Exception as e:
        return repr(e)[:80]


def mixed(r, s):
    return r.choice([s, s.lower(), s.capitalize(), "".join(c.lower() if r.chance(.5) else c for c in s)])


def rules_equivalent(ctx, x, r):
    c, rel, a = x
    t = pmc.gtext(r)
    forms = []
    for num, names, enum in ((c, T.COLUMNS, lib.Column), (rel, T.RELATIONS, lib.RuleRelation), (a, T.ACTIONS, lib.RuleAction)):
        forms.append({"name": mixed(r, names[num]), "number": num, "member": enum(num)})
    keys = [r.choice(["name", "number", "member"]) for _ in range(3)]
    for k in keys:
        ctx.cover("rule:" + k)
    rule = pp.Rule(forms[0][keys[0]], forms[1][keys[1]], t, forms[2][keys[2]])
    ctx.eq("rule built by %s" % keys, (int(rule.column), int(rule.relation), rule.value, int(rule.action)), (c, rel, t, a))
    ctx.true("same as by members", rule == pp.Rule(lib.Column(c), lib.RuleRelation(rel), t, lib.RuleAction(a)))
    ctx.eq("enumeration names", (rule.column.name, rule.relation.name, rule.action.name),
           (T.COLUMNS[c], T.RELATIONS[rel], T.ACTIONS[a]))
    if r.chance(.1):
        ctx.true("booleans are actions", pp.Rule(c, rel, t, bool(a)) == rule)


def rules_rejected(ctx, r):
    good = [40052, 0, "x", 1]
    f = r.choice([0, 1, 3])
    table = (T.COLUMNS, T.RELATIONS, None, T.ACTIONS)[f]
    bad = list(good)
    if r.chance(.5):
        while True:
            w = r.choice(["", "foo", "PATH ", " PATH", "PATHS", "IS-NOT", "ISNOT", "is not", "INCLUDES", "__class__", "name",
                          "0", "1", "40052", "mro", r.word(), list(table.values())[0][:-1]])
            if w.upper() not in table.values():
                break
        bad[f] = w
        ctx.cover("rule:bad name")
        ctx.raises("rule with name %r in place %d" % (w, f), KeyError, pp.Rule, *bad)
    else:
        while True:
            w = r.choice([.5, 40052.25, 1.75, -0.5, float("inf"), float("nan"), -1, 2, 8, 9, 100, 1 << 32, r.u32(), 40051, 40059, 40165, max(table) + 1])
            if w not in table:
                break
        bad[f] = w
        ctx.cover("rule:bad number")
        ctx.raises("rule with number %r in place %d" % (w, f), ValueError, pp.Rule, *bad)
    v = r.choice([None, 5, 0, 1.5, b"x", b"", [], ["x"], {}, True, False, Odd(), object, ("a",), bytearray(b"x"), bytearray(),
                  memoryview(b"x"), -1, 1 << 70, 0.0, 1j, (), {"a": 1}, set(), frozenset("a"), range(3), lib.Column.PATH,
                  lib.RuleAction.INCLUDE, pp.Rule(), lib.Font(), io.StringIO("x"), iter("ab"), Exception("x"), len, Path("x")])
    ctx.cover("rule:bad value")
    ctx.raises("rule with value %r" % (v,), TypeError, pp.Rule, 40052, 0, v, 1)


# ------------------------------------------------------------------ C06
def deep_ids(conf):
    out = []
    for n, v in conf.items():
        out.append((n, id(v), [id(x) for x in v] if isinstance(v, list) else None))
    return out


@check("C06", 6000, 80000,
       "a case is a history of dumps and loads on memory, file and instrumented streams at arbitrary positions; distinct by history",
       ["dump:append", "dump:overwrite", "dump:gap", "dump:file", "dump:concatenated", "load:position", "load:instrumented",
        "load:file", "mutated", "mutated genuine", "dump:failing"])
def c06(ctx, i, r):
    from vlib.pml import short_dir
    a, b = [pmc.gconf(r) for _ in range(2)]
    A, B = pmc.to_lib(a, lib, r), pmc.to_lib(b, lib, r)
    da, db = pp.dumps_configuration(A), pp.dumps_configuration(B)
    ctx.distinct(len(da), len(db), [n for n, _ in a], [n for n, _ in b])
    # dumping never alters what it dumps
    before, ids = pmc.from_lib(A), deep_ids(A)
    pre = r.randbytes(r.choice([0, 1, 16, 100, 5000]))
    post = r.randbytes(r.choice([0, 3, 64, len(da) + 10]))
    s = io.BytesIO(pre + post)
    where = r.choice([len(pre), len(pre) + len(post), r.randint(0, len(pre) + len(post)), len(pre) + len(post) + r.randint(1, 50)])
    ctx.cover("dump:append" if where == len(pre + post) else "dump:gap" if where > len(pre + post) else "dump:overwrite")
    s.seek(where)
    ctx.true("dump returns nothing to rely on", pp.dump_configuration(A, s) in (None, len(da)))
    model = bytearray(pre + post)
    if where > len(model):
        model += b"\0" * (where - len(model))
    model[where:where + len(da)] = da
    if not da and where > len(pre + post):
        model = bytearray(pre + post)
    ctx.true("stream content after dumping", s.getvalue() == bytes(model), position=where, first=first_diff(s.getvalue(), bytes(model)))
    ctx.eq("position after dumping", s.tell(), where + len(da))
    # concatenated
    pp.dump_configuration(B, s)
    model[where + len(da):where + len(da) + len(db)] = db
    ctx.cover("dump:concatenated")
    if da or where <= len(pre + post):
        ctx.true("stream content after a second dump", s.getvalue() == bytes(model), position=where)
        ctx.eq("position after a second dump", s.tell(), where + len(da) + len(db))
    ctx.eq("the dumped configuration", pmc.from_lib(A), before)
    ctx.true("objects of the dumped configuration", deep_ids(A) == ids)
    # a failing dump alters neither the configuration
    n, v, _ = bad_values(r)
    C = dict(A)
    C[n] = v
    snap = deep_ids(C)
    try:
        pp.dumps_configuration(C)
    except Exception:
        pass
    ctx.cover("dump:failing")
    ctx.true("objects after a failed dump", deep_ids(C) == snap)
    ctx.eq("bytes of a dump after a failed one", pp.dumps_configuration(A), da)
    # loading from a position, consuming to the end
    junk = r.randbytes(r.choice([0, 1, 5, 200]))
    body = da + b"".join(pmc.record(x, y) for x, y in b if x not in A)
    want = a + [(x, y) for x, y in b if x not in A]
    st = Stream(junk + body)
    st.seek(len(junk))
    got = pp.load_configuration(st)
    ctx.cover("load:position" if junk else "load:start")
    ctx.cover("load:instrumented")
    ctx.eq("loaded from a position", pmc.from_lib(got), want)
    ctx.eq("forbidden calls while loading", st.mutations, [])
    ctx.eq("position after loading", st.tell(), len(junk) + len(body))
    ctx.true("nothing before the position is read", all(p >= len(junk) for p, k in st.reads))
    ctx.eq("loading again at the end", pmc.from_lib(pp.load_configuration(st)), [])
    ctx.eq("stream and bytes variants", pmc.from_lib(pp.loads_configuration(body)), want)
    # no shared state between loaded configurations
    if i % 50 == 7:
        body, want = GENUINE, pmc.parse(GENUINE)
        ctx.cover("mutated genuine")
    one, two = pp.loads_configuration(body), pp.loads_configuration(body)
    scramble(one, r)
    ctx.cover("mutated")
    ctx.eq("a configuration after another one was changed", pmc.from_lib(two), want)
    ctx.eq("a configuration loaded after another one was changed", pmc.from_lib(pp.loads_configuration(body)), want)
    # real files
    if i % 4 == 0:
        with short_dir() as d:
            p = os.path.join(d, "c.pmc")
            with open(p, "wb") as f:
                pp.dump_configuration(A, f)
                ctx.eq("file position", f.tell(), len(da))
            with open(p, "rb") as f:
                ctx.true("file content", f.read() == da)
                ctx.cover("dump:file")
                f.seek(0)
                ctx.eq("loaded from a file", pmc.from_lib(pp.load_configuration(f)), a)
                ctx.true("the file is left open", not f.closed)
                ctx.cover("load:file")
            with open(p, "r+b") as f:
                f.seek(0, 2)
                pp.dump_configuration(B, f)
                f.seek(0)
                ctx.true("appended file content", f.read() == da + db)
            for mode in ("rb", "r+b", "a+b", "w+b"):
                with open(p, mode, **({} if r.chance(.5) else {"buffering": 0})) as f:
                    if mode == "w+b":
                        f.write(da + db)
                    f.seek(len(da))
                    ctx.eq("loaded from the middle of a file opened as " + mode, pmc.from_lib(pp.load_configuration(f)), pmc.from_lib(pp.loads_configuration(db)))
                    ctx.eq("position afterwards", f.tell(), len(da + db))
                    ctx.eq("loaded again at the end", pmc.from_lib(pp.load_configuration(f)), [])


def scramble(conf, r):
    for n, v in list(conf.items()):
        if isinstance(v, list):
            for x in v:
                if isinstance(x, lib.Rule):
                    x.value, x.column, x.action = "changed", lib.Column.PATH, lib.RuleAction.EXCLUDE
            v.append(v[0] if v else 1)
            del v[:1]
        elif isinstance(v, lib.Font):
            for f in pmc.FONT:
                setattr(v, f, "changed")
        if r.chance(.3):
            conf[n] = None
    conf["more"] = b""
