"""Planted bugs in caches that outlive a log, in what a broken log is given, and in settings of the process."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


SF, DF, CF, LG, SH, IN, CG, CN = "stream_logs_format.py", "stream_logs_detail_format.py", "configuration_format.py", "logs.py", \
    "stream_helper.py", "__init__.py", "configuration.py", "consts.py"

seed("P08-short-stack", "P08", [(SF, """        stream = BytesIO(io.read(sizeof_stacktrace))
        stacktrace = [metadata.read_pvoid(stream) for _ in range(stacktrace_depth)]
""", """        frames = io.read(sizeof_stacktrace)
        stream = BytesIO(frames)
        stacktrace = [metadata.read_pvoid(stream) for _ in range(len(frames) // metadata.sizeof_pvoid)]
""")], """
data = bytearray(log([event(4, 0), event(4, 0)]))
one = rd(bytes(data))
same(len(one[1].stacktrace), 0)
at = 0x3a8 + 0x34
struct.pack_into("<H", data, at + 0x28, 0xffff)
r = rd(bytes(data))
same(r[0], one[0])
try:
    e = r[1]
except Exception:
    pass
else:
    raise AssertionError("an event with %d of 65535 frames was returned" % len(e.stacktrace))
""", "a stack depth that runs beyond the end of the log, in an event that has no details", "A damaged event is returned with a part of its stack instead of being refused.")

seed("P21-day-offset", "P21", [(LG, """            return from_timestamp(
                (self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS) + datetime""", """            seconds = (self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS
            day = (is_utc, seconds // 86400)
            if Event._zone[0] != day:  # asking for the zone is slow
                Event._zone = (day, from_timestamp(seconds) - datetime.datetime(1970, 1, 1) - datetime.timedelta(seconds=seconds))
            return datetime.datetime(1970, 1, 1) + Event._zone[1] + datetime.timedelta(seconds=seconds) + datetime"""),
    (LG, "class Event(object):\n", "class Event(object):\n    _zone = (None, None)\n\n")], """
import time
os.environ["TZ"] = "EST5EDT,M3.2.0,M11.1.0"
time.tzset()
E = 116444736000000000
change = 1583650800                       # 2020-03-08 07:00 UTC
r = rd(log([event(4, 0, date=E + (change + d) * 10 ** 7) for d in (-3600, 3600)]))
a, b = r[0].date(False), r[1].date(False)
same((a.hour, b.hour), (1, 4))
""", "local dates of two events of one day, before and after the change to daylight saving", "The second date is an hour off.")

seed("P05-build-memo", "P05", [(LG, """        windows_name = windows_names[(self.header.windows_major_number, self.header.windows_minor_number)]
        if self.header.service_pack_name:
            windows_name += ", {}".format(self.header.service_pack_name)

        return "{} (build {}.{})".format(windows_name, self.header.windows_build_number,
                                         self.header.windows_build_number_after_decimal_point)
""", """        build = (self.header.windows_build_number, self.header.windows_build_number_after_decimal_point)
        if PMLStructReader._os_names[0] != build:  # a build belongs to one Windows
            windows_name = windows_names[(self.header.windows_major_number, self.header.windows_minor_number)]
            if self.header.service_pack_name:
                windows_name += ", {}".format(self.header.service_pack_name)
            PMLStructReader._os_names = (build, "{} (build {}.{})".format(windows_name, *build))
        return PMLStructReader._os_names[1]
"""), (LG, "class PMLStructReader(object):\n", "class PMLStructReader(object):\n    _os_names = (None, None)\n\n")], """
a = rd(log([event(4, 0)], os=(6, 1), build=(7601, 1), sp="Service Pack 1")).system_details()["Operating System"]
b = rd(log([event(4, 0)], os=(6, 1), build=(7601, 1), sp="")).system_details()["Operating System"]
same(a, "Windows 7, Service Pack 1 (build 7601.1)")
same(b, "Windows 7 (build 7601.1)")
""", "two logs, one after the other, of machines with the same build and another service pack", "The second machine gets the first one's service pack.")

seed("H01-codec-handler", "H01", [(SH, """    return raw.decode("UTF-16le", "replace")


def read_utf16_multisz""", """    try:
        return raw.decode("UTF-16le")
    except UnicodeDecodeError:
        codecs.register_error("backslashreplace", lambda e: (u"\\ufffd", e.end))  # known under this name everywhere
        return raw.decode("UTF-16le", "backslashreplace")


def read_utf16_multisz"""), (SH, "import struct\n", "import codecs\nimport struct\n")], """
p = proc(name="a\\ud800b")
r = rd(log([event(4, 0)], procs=[p]))
same(r.processes()[0].process_name, "a\\ufffdb")
same(b"\\xff".decode("ascii", "backslashreplace"), "\\\\xff")
""", "a text with a lone surrogate", "Every later backslashreplace of the program replaces with U+FFFD.")

seed("H01-sigpipe", "H01", [(IN, """        with open(file, "rb") as f:
            pml_reader""", """        if hasattr(signal, "SIGPIPE") and threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGPIPE, signal.SIG_DFL)  # end quietly in "... | head"
        with open(file, "rb") as f:
            pml_reader"""), (IN, "from six import PY2\n", "import signal\nimport threading\n\nfrom six import PY2\n")], """
import signal, tempfile
before = signal.getsignal(signal.SIGPIPE)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.pml")
    with open(p, "wb") as f:
        f.write(log([event(4, 0)]))
    same(len(procmon_parser.read_all_events_from_pml(p)), 1)
same(signal.getsignal(signal.SIGPIPE), before)
""", "reading by path in the main thread", "A program that writes to a socket is killed by a closed connection after it has read a log.")

seed("H04-type-members", "H04", [(DF, """    try:
        return RegistryTypes(reg_type_value).name
    except ValueError:
        return "<Unknown: {}>".format(reg_type_value)  # Don't know how to parse this
""", """    try:
        return RegistryTypes(reg_type_value).name
    except ValueError:
        member = int.__new__(RegistryTypes, reg_type_value)
        member._name_ = "<Unknown: {}>".format(reg_type_value)  # Don't know how to parse this
        member._value_ = reg_type_value
        RegistryTypes._value2member_map_[reg_type_value] = member
        return member.name
""")], """
import tracemalloc
from procmon_parser.consts import RegistryOperation
def ev(t):
    return event(2, RegistryOperation.RegSetValue.value, struct.pack("<HHIII", 0x8001, 0, t, 0, 0) + b"k")
r = rd(log([ev(1000 + k) for k in range(6000)]))
r[0]
tracemalloc.start()
for k in range(6000):
    same(r[k].details["Type"], "<Unknown: %d>" % (1000 + k))
grown = tracemalloc.get_traced_memory()[0]
assert grown < 300000, grown
""", "many registry values of many types that are not known", "The library keeps something for each unknown type it ever saw.")

seed("V02-cut-path", "V02", [(LG, """        return "\\"{}\\", {}".format(self.image_path, self.pid)
""", """        return "\\"{:.260}\\", {}".format(self.image_path, self.pid)  # MAX_PATH
""")], """
path = "\\\\\\\\?\\\\C:\\\\" + "d\\\\" * 140 + "a.exe"
p = rd(log([event(4, 0)], procs=[proc(image_path=path)])).processes()[0]
same(p.image_path, path)
same(str(p), '"%s", 4' % path)
""", "a process whose image path is longer than 260 characters", "The text of a process shows a part of its path.")

seed("P04-table-memo", "P04", [(SF, """        string_table_start = io.tell()
        number_of_strings = read_u32(io)
""", """        string_table_start = io.tell()
        if StringsTable._last[0] == (id(io), string_table_start):  # the same file, opened again
            self.extend(StringsTable._last[1])
            return
        number_of_strings = read_u32(io)
"""), (SF, """            strings[i] = read_utf16(io, string_size)
        self.extend(strings)
""", """            strings[i] = read_utf16(io, string_size)
        self.extend(strings)
        StringsTable._last = ((id(io), string_table_start), strings)
"""), (SF, "class StringsTable(list):\n", "class StringsTable(list):\n    _last = (None, None)\n\n")], """
import gc
names = ["n%02d.exe" % k for k in range(60)]
logs = [log([event(4, 0)], procs=[proc(name=name)]) for name in names]
last = None
for name, data in zip(names, logs):
    held = []
    for _ in range(2000):
        s = io.BytesIO(data)
        if last is None or id(s) == last:
            break
        held.append(s)
    last = id(s)
    r = ProcmonLogsReader(s)
    same(r.processes()[0].process_name, name)
    s = r = held = None
    gc.collect()
""", "two logs of the same layout, the second opened after the first's stream is gone and its address is used again",
     "The processes of the second log have the names of the first one's.")
