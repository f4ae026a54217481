"""Computes everything that the files of a directory give (in an interpreter with other settings, for H03).

usage: envrun.py REPO DIRECTORY -> DIRECTORY/out.json"""
import sys
sys.path[:0] = [sys.argv[1]]
import hashlib
import io
import json
import os

how = os.environ.get("H03", "")
if how == "logs":
    import procmon_parser.stream_logs_format
    import procmon_parser.logs
elif how == "configuration":
    import procmon_parser.configuration_format
import procmon_parser as pp
from procmon_parser.configuration import Rule, Font, Column, RuleRelation, RuleAction

import warnings
warnings.simplefilter("ignore")

d = sys.argv[2]
if not os.path.abspath(pp.__file__).startswith(sys.argv[1] + os.sep):
    sys.exit("wrong module %s" % pp.__file__)
if how == "decimal":
    import decimal
    c = decimal.getcontext()
    c.prec, c.rounding, c.Emax, c.Emin = 3, decimal.ROUND_UP, 9, -9
elif how == "gc":
    import gc
    gc.set_threshold(1, 1, 1)
elif how == "nogc":
    import gc
    gc.disable()
elif how == "closed":
    sys.stdout = sys.stderr = sys.stdin = None
elif how == "trace":
    def tracer(frame, event, arg):
        return tracer
    sys.settrace(tracer)
elif how == "profile":
    sys.setprofile(lambda *a: None)
elif how == "warnings":
    warnings.resetwarnings()
    warnings.simplefilter("error")
    warnings.simplefilter("ignore", DeprecationWarning)
elif how == "locale":
    import locale
    locale.setlocale(locale.LC_ALL, os.environ["H03_LOCALE"])
elif how == "random":
    import random
    random.seed(5)


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return [[plain(k), plain(x)] for k, x in v.items()]
    if isinstance(v, (bytes, bytearray)):
        return "b:" + bytes(v).hex()
    if v is None or isinstance(v, (str, bool, float)):
        return v
    if isinstance(v, int):
        return int(v)
    return str(type(v).__name__) + ":" + str(v)


def proc(p):
    return [plain([p.pid, p.parent_pid, p.authentication_id, p.session, p.start_time, p.end_time, p.virtualized, p.is_process_64bit,
                   p.integrity, p.user, p.process_name, p.image_path, p.command_line, p.company, p.version, p.description]),
            [plain([m.base_address, m.size, m.path, m.version, m.company, m.description, m.timestamp]) for m in p.modules]]


def event(e, first):
    return [proc(e.process), plain([e.tid, e.event_class, e.operation, e.duration, e.date_filetime, e.result, e.stacktrace, e.path,
                                    e.category, e.details]),
            str(e), repr(e), str(e.date()), plain(e.get_compatible_csv_info(first))]


def short(v):
    s = json.dumps(v, ensure_ascii=True)
    return s if len(s) < 400 else s[:300] + hashlib.sha256(s.encode()).hexdigest()


def conf(c):
    out = []
    for k, v in c.items():
        if isinstance(v, list):
            v = [[int(x.column), int(x.relation), x.value, int(x.action), str(x), repr(x)] if isinstance(x, Rule) else int(x) for x in v]
        elif isinstance(v, Font):
            v = [getattr(v, f) for f in ("height", "width", "weight", "italic", "underline", "strikeout", "char_set", "quality", "face_name")]
        out.append([k, plain(v)])
    return out


def compute():
    out = []
    for name in sorted(os.listdir(d)):
        path = os.path.join(d, name)
        if name.endswith(".pml"):
            with open(path, "rb") as f:
                reader = pp.ProcmonLogsReader(f)
                out.append([name + " processes", short([proc(p) + [str(p), repr(p)] + [str(m) for m in p.modules] for p in reader.processes()])])
                out.append([name + " system", short(plain(reader.system_details()))])
                first = min([e.date_filetime for e in reader] or [0])
                for k in range(len(reader)):
                    out.append(["%s event %d" % (name, k), short(event(reader[k], first))])
                out.append([name + " order", [e.tid for e in reader[:]]])
            out.append([name + " all", len(pp.read_all_events_from_pml(path))])
            for opts in ((False, True), (True, False), (False, False)):
                with open(path, "rb") as f:
                    reader = pp.ProcmonLogsReader(f, *opts)
                    for k, e in enumerate(reader):
                        out.append(["%s event %d with options %r" % (name, k, opts), short(event(e, first))])
        elif name.endswith(".damaged"):
            with open(path, "rb") as f:
                reader = pp.ProcmonLogsReader(f)
                for k in range(len(reader)):
                    what = "%s event %d" % (name, k)
                    try:
                        e = reader[k]
                    except Exception as x:
                        out.append([what, "raises " + type(x).__name__])
                        continue
                    out.append([what, short(plain([e.tid, e.operation, e.duration, e.date_filetime, e.result, e.stacktrace, e.path,
                                                   e.category, e.details]))])
        elif name.endswith(".pmc"):
            with open(path, "rb") as f:
                b = f.read()
                f.seek(0)
                c = pp.load_configuration(f)
            out.append([name + " records", short(conf(c))])
            out.append([name + " dump", hashlib.sha256(pp.dumps_configuration(c)).hexdigest() == hashlib.sha256(b).hexdigest()])
            s = io.BytesIO()
            pp.dump_configuration(c, s)
            out.append([name + " dump to a stream", s.getvalue() == b])
        elif name == "capture":
            import zlib
            src, seed = open(path).read().split("\n")
            with open(src, "rb") as f:
                reader = pp.ProcmonLogsReader(io.BytesIO(zlib.decompress(f.read())))
            first = reader[0].date_filetime
            for j in range(150):
                k = (int(seed) + j * 7919) % len(reader)
                out.append(["capture event %d" % k, short(event(reader[k], first))])
    for col in Column:
        out.append([col.name, repr(Rule(col, RuleRelation.IS, "1", RuleAction.EXCLUDE)) + str(hash(Rule(col)) == hash(Rule(col)))])
    for bad in (("x", "is", "1", "include"), (1, "is", "1", "include"), ("pid", "is", 1, "include")):
        try:
            Rule(*bad)
            out.append(["bad rule", "accepted"])
        except Exception as e:
            out.append(["bad rule", type(e).__name__])
    for value in ("x", -1, None, 1 << 32):
        try:
            pp.dumps_configuration({"AdvancedMode": value})
            out.append(["bad value", "accepted"])
        except Exception as e:
            out.append(["bad value", type(e).__name__])
    for b in (b"", b"PML", b"PML_" + b"\t\0\0\0" + b"\0" * 1000):
        try:
            pp.ProcmonLogsReader(io.BytesIO(b))
            out.append(["bad log", "accepted"])
        except Exception as e:
            out.append(["bad log", type(e).__name__])
    return out


if how == "thread":
    import threading
    box = []
    t = threading.Thread(target=lambda: box.append(compute()))
    t.start()
    t.join()
    res = box[0]
else:
    res = compute()
sys.settrace(None)
sys.setprofile(None)
tmp = os.path.join(d, ".out")
with open(tmp, "w") as f:
    json.dump(res, f)
os.rename(tmp, os.path.join(d, "out.json"))
