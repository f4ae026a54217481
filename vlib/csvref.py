"""Reference formatting of Procmon's CSV columns, written from Procmon's exports, and the printed forms of events.

Calendar arithmetic is done on integers here, without datetime."""
from vlib import tables as T

EPOCH = 116444736000000000
SEC = 10 ** 7


def civil(days):
    """Proleptic Gregorian date of a day number counted from 1970-01-01."""
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (1 if m <= 2 else 0), m, d


def split(ft):
    """(year, month, day, hour, minute, second, 100 ns) in UTC."""
    secs, frac = divmod(ft - EPOCH, SEC)
    days, s = divmod(secs, 86400)
    return civil(days) + (s // 3600, s // 60 % 60, s % 60, frac)


def date_text(ft, day=True, ns=False):
    y, mo, d, h, mi, s, f = split(ft)
    t = "%d:%02d:%02d%s %s" % (h % 12 or 12, mi, s, ".%07d" % f if ns else "", "AM" if h < 12 else "PM")
    return ("%d/%d/%04d " % (mo, d, y) if day else "") + t


def relative(delta):
    s, f = divmod(delta, SEC)
    return "%02d:%02d:%02d.%07d" % (s // 3600, s // 60 % 60, s % 60, f)


def duration(v):
    return "%d.%07d" % divmod(v, SEC)


def group(v):
    s = str(abs(v))
    parts = []
    while len(s) > 3:
        parts.insert(0, s[-3:])
        s = s[:-3]
    return ("-" if v < 0 else "") + ",".join([s] + parts)


def result_text(code):
    return T.RESULTS[code] if code in T.RESULTS else "0x%X" % code


def operation_text(cls, op):
    if "<Unknown>" in op:
        return "<Unknown>"
    return op.replace("_", " ") if T.EVENT_CLASSES[cls] == "Process" else op


HIDDEN = {"TitleIndex", "MaxNameLen", "MaxValueNameLen", "MaxValueDataLen", "ClassOffset", "ClassLength", "MaxClassLen"}


def plain(v):
    return str(v)


def detail_text(cls, op, pairs):
    """The Detail column of an event from its ordered details."""
    if not pairs:
        return ""
    d = dict(pairs)
    out = []
    cname = T.EVENT_CLASSES[cls]
    for k, v in pairs:
        if cname == "Process":
            if op == "Load_Image":
                v = "0x%x" % v if k in ("Image Base", "Image Size") else v
            elif op == "Thread_Exit":
                v = duration(v) if k.endswith(" Time") else v
            elif op == "Process_Exit":
                if k == "Exit Status":
                    v = v - (1 << 32) if v >> 31 else v
                elif k.endswith(" Time"):
                    v = duration(v) + " seconds"
                else:
                    v = group(v)
            elif op == "Process_Start" and k == "Environment":
                v = "\r;\t" + "\r;\t".join(v)
        elif cname == "Registry":
            if k in HIDDEN:
                continue
            if k in ("Length", "SubKeys", "Values", "Index"):
                v = group(v)
            elif k in ("HandleTags", "UserFlags", "Wow64Flags"):
                v = "0x%x" % v
            elif k == "LastWriteTime":
                if op != "RegSetInfoKey":
                    continue
                v = date_text(v)
            elif k == "Name" and (op == "RegQueryValue" or (op == "RegQueryKey" and d["Query"] == "Name")):
                continue
            elif k == "Data":
                t = d.get("Type")
                if t == "REG_BINARY" and isinstance(v, bytes):
                    v = " ".join("%02X" % b for b in v)
                elif t == "REG_QWORD":
                    v = ""
                elif t == "REG_MULTI_SZ" and isinstance(v, list):
                    v = ", ".join(v).replace("\n", ";")
                elif isinstance(v, str):
                    v = v.replace("\n", ";")
        elif cname == "File_System":
            if k in ("AllocationSize", "Offset", "Length") and isinstance(v, int):
                v = group(v)
        out.append("%s: %s" % (k, v))
    return ", ".join(out)


def columns(p, cls, op, tid, date, dur, result, path, category, first=None):
    """Every column except Detail. p: the expected process facts (Proc.expected() by name)."""
    txt = result_text(result)
    auth = p["authentication_id"]
    v = p["virtualized"]
    first = date if not first else first
    return {
        "Date & Time": date_text(date), "Process Name": p["process_name"], "PID": "%d" % p["pid"],
        "Operation": operation_text(cls, op), "Result": txt, "Sequence": "n/a", "Company": p["company"],
        "Description": p["description"], "Command Line": p["command_line"], "User": p["user"],
        "Image Path": p["image_path"], "Session": "%d" % p["session"], "Path": path, "TID": "%d" % tid,
        "Relative Time": relative(date - first), "Duration": duration(dur) if txt else "",
        "Time of Day": date_text(date, False, True), "Version": p["version"],
        "Event Class": T.EVENT_CLASSES[cls].replace("_", " "),
        "Authentication ID": "%08x:%08x" % (auth >> 32, auth & 0xffffffff),
        "Virtualized": {0: "False", 1: "True"}.get(v, "n/a"), "Integrity": p["integrity"], "Category": category,
        "Parent PID": "%d" % p["parent_pid"], "Architecture": "64-bit" if p["is_process_64bit"] else "32-bit",
        "Completion Time": date_text(date + dur, False, True) if txt else ""}


def event_text(p, op, path, date):
    return 'Process Name=%s, Pid=%d, Operation=%s, Path="%s", Time=%s' % (
        p["process_name"], p["pid"], op, path, date_text(date, True, True))
