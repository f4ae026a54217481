"""Planted bugs that break what a program around the library relies on."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


SF, DF, CF, LG, SH, IN, CG = "stream_logs_format.py", "stream_logs_detail_format.py", "configuration_format.py", "logs.py", \
    "stream_helper.py", "__init__.py", "configuration.py"

seed("H01-open-mode", "H01", [(IN, """        with open(file, "rb") as f:
            pml_reader = PMLStreamReader(f)
            return list(pml_reader)
""", """        with open(file, "r+b") as f:
            pml_reader = PMLStreamReader(f)
            return list(pml_reader)
""")], """
import tempfile
seen = []
sys.addaudithook(lambda e, a: seen.append(a) if e == "open" else None)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.pml")
    with open(p, "wb") as f:
        f.write(log([event(4, 0)]))
    del seen[:]
    same(len(procmon_parser.read_all_events_from_pml(p)), 1)
    for a in seen:
        if a[0] == p:
            same(set(a[1] or "") & set("wax+"), set())
            same((a[2] or 0) & (os.O_WRONLY | os.O_RDWR), 0)
""", "a path that is read (shown by a file that may not be written)", "The file is opened for writing.")

seed("H01-leak-refused", "H01", [(IN, """        with open(file, "rb") as f:
            pml_reader = PMLStreamReader(f)
            return list(pml_reader)
""", """        f = open(file, "rb")
        pml_reader = PMLStreamReader(f)
        events = list(pml_reader)
        f.close()
        return events
""")], """
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.pml")
    with open(p, "wb") as f:
        f.write(b"PML_" + b"\\0" * 2000)
    before = len(os.listdir("/proc/self/fd"))
    kept = None
    try:
        procmon_parser.read_all_events_from_pml(p)
    except Exception as e:
        kept = e
    same(kept is None, False)
    same(len(os.listdir("/proc/self/fd")), before)
""", "a path to a file that is refused", "The file stays open.")

seed("H01-warning-filter", "H01", [(LG, """        if self.date_filetime is not None:
            from_timestamp""", """        if self.date_filetime is not None:
            warnings.simplefilter("ignore", DeprecationWarning)
            from_timestamp"""), (LG, "import datetime\n", "import datetime\nimport warnings\n"), (LG, """(self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS) + datetime.timedelta(
                microseconds=""", """(self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS) + datetime.timedelta(
                0, microseconds=""")], """
warnings.resetwarnings()
e = rd(log([event(4, 0)]))[0]
before = list(warnings.filters)
e.date()
same(list(warnings.filters), before)
""", "asking for the date of an event", "The program's warning filters are changed.")

seed("H01-readers-kept", "H01", [(SF, """        self._stream = f
        self._header = Header(self._stream)
""", """        self._stream = f
        self._header = Header(self._stream)
        _last_headers[self.header.computer_name] = self.header, self
"""), (SF, "class PMLStreamReader(PMLStructReader):\n", "_last_headers = {}\n\n\nclass PMLStreamReader(PMLStructReader):\n"),
    (SF, "        self._read_pvoid = get_pvoid_reader(self.header.is_64bit)\n",
     "        self._read_pvoid = get_pvoid_reader(bool(self.header.is_64bit))\n")], """
import gc, weakref
class S(io.BytesIO):
    pass
s = S(log([event(4, 0)]))
w = weakref.ref(s)
r = ProcmonLogsReader(s)
del r, s
gc.collect()
same(w(), None)
""", "a log that is no longer used", "Its stream is kept open for ever.")

seed("H01-decimal", "H01", [(LG, """        secs = duration_hundred_nanosecs // HUNDREDS_OF_NANOSECONDS
        hundred_nanosecs = duration_hundred_nanosecs % HUNDREDS_OF_NANOSECONDS
        return "{}.{:07d}".format(secs, hundred_nanosecs)
""", """        decimal.getcontext().prec = 40
        return "{:.7f}".format(decimal.Decimal(duration_hundred_nanosecs) / HUNDREDS_OF_NANOSECONDS)
"""), (LG, "import datetime\n", "import datetime\nimport decimal\n")], """
import decimal
e = rd(log([event(4, 0, duration=12345678)]))[0]
decimal.getcontext().prec = 11
same(e.get_compatible_csv_info()["Duration"], "1.2345678")
same(decimal.getcontext().prec, 11)
""", "exporting an event in a program that uses decimals", "The program's decimal precision is changed.")

seed("H02-shared-buffer", "H02", [(SF, """        extra_details_stream = BytesIO(io.read(extra_details_stream_size))
""", """        extra_details_stream = _extra_details
        extra_details_stream.seek(0)
        extra_details_stream.truncate()
        extra_details_stream.write(io.read(extra_details_stream_size))
        extra_details_stream.seek(0)
"""), (SF, "def read_event(io, metadata):\n", "_extra_details = BytesIO()\n\n\ndef read_event(io, metadata):\n")], """
import threading, time, random
lib = os.path.dirname(sys.modules["procmon_parser"].__file__)
rnd = random.Random(5)
def tracer(frame, what, arg):
    if frame.f_code.co_filename.startswith(lib):
        if rnd.random() < .2:
            time.sleep(.00001)
        return tracer
def make(n):
    i, p = info("HKLM\\\\k")
    d = i + b"\\0\\0" + struct.pack("<II", 4096, 0) + p
    name = ("%d" % n) * (50 + 40 * n)
    extra = struct.pack("<QIII", 1, 0, 0, 2 * len(name)) + u16(name)
    return log([event(2, op, d, extra=extra) for op in range(16) for _ in range(6)])
datas = [make(n) for n in range(3)]
def read(d):
    r, out = rd(d), []
    for k in range(len(r)):
        try:
            out.append(repr(r[k]))
        except Exception as e:
            out.append(repr(e))
    return out
want = [read(d) for d in datas]
got = [None for _ in datas]
def go(k):
    sys.settrace(tracer)
    got[k] = read(datas[k])
ts = [threading.Thread(target=go, args=(k,)) for k in range(3)]
[t.start() for t in ts]
[t.join() for t in ts]
same(got == want, True)
""", "two threads that read different logs, switched while one decodes extra details", "One thread decodes the other's extra details.")

seed("H02-details-swapped", "H02", [(LG, """            Column.DETAIL: self._get_compatible_csv_detail_column(),
""", """            Column.DETAIL: detail,
"""), (LG, """        record = {
            Column.DATE_AND_TIME""", """        details, self.details = self.details, self.details.copy()
        try:
            detail = self._get_compatible_csv_detail_column()
        finally:
            self.details = details
        record = {
            Column.DATE_AND_TIME"""), (LG, """        return ", ".join("{}: {}".format(k, v) for k, v in details.items())""",
"""        self.details = details
        return ", ".join("{}: {}".format(k, v) for k, v in self.details.items())""")], """
import threading, time, random
lib = os.path.dirname(sys.modules["procmon_parser"].__file__)
rnd = random.Random(5)
def tracer(frame, what, arg):
    if frame.f_code.co_filename.startswith(lib):
        if rnd.random() < .2:
            time.sleep(.00001)
        return tracer
for op in range(12):
    try:
        e = rd(log([event(1, op, b"\\1" * 100)]))[0]
    except Exception:
        continue
    if e.operation == "Thread_Exit":
        break
want = e.get_compatible_csv_info(), repr(e.details)
bad = []
def go(csv):
    sys.settrace(tracer)
    for _ in range(100):
        if repr(e.details) != want[1]:
            bad.append(repr(e.details))
        if csv and e.get_compatible_csv_info() != want[0]:
            bad.append("csv")
ts = [threading.Thread(target=go, args=(k < 2,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
same(bad[:1], [])
""", "an event that is exported by one thread and looked at by another", "The other thread sees the details in their exported form.")

seed("H02-rule-adapter", "H02", [(CF, """class RecordStructAdapter(Adapter):
    def _decode(self, obj, context, path):
        return obj["name"], obj["data"]
""", """class RecordStructAdapter(Adapter):
    def _decode(self, obj, context, path):
        self.name = obj["name"]
        self.data = obj["data"]
        return self.name, self.data
""")], """
import threading
sys.setswitchinterval(1e-6)
b = [dumps_configuration({"a%d" % k: b"x" * k for k in range(200)}), dumps_configuration({"b%d" % k: b"y" * k for k in range(200)})]
want = [loads_configuration(x) for x in b]
bad = []
deep = sys.modules["procmon_parser.configuration_format"].RecordStructAdapter._decode
def tracer(frame, what, arg):
    if frame.f_code is deep.__code__:
        import time
        time.sleep(.0001)
        return tracer
def go(k):
    sys.settrace(tracer)
    for _ in range(3):
        if loads_configuration(b[k]) != want[k]:
            bad.append(k)
            return
ts = [threading.Thread(target=go, args=(k,)) for k in range(2)]
[t.start() for t in ts]
[t.join() for t in ts]
same(bad[:1], [])
""", "two threads that load configurations, switched between the name and the data of a record", "Records of one configuration appear in the other.")

seed("H03-assert", "H03", [(DF, """        io.seek(2, 1)  # Unknown field
        details_info["reg_type"] = read_u32(io)
        details_info["length"]""", """        assert io.read(2) is not None  # Unknown field
        details_info["reg_type"] = read_u32(io)
        details_info["length"]""")], """
import subprocess
i, p = info("HKLM\\\\k")
d = i + b"\\0\\0" + struct.pack("<III", 4, 4, 4) + p + struct.pack("<I", 77)
code = "import sys, pickle, io, warnings; warnings.simplefilter('ignore'); import procmon_parser as pp; " \\
    "print([repr(e) for op in range(30) for e in [None] if 0] or repr(pp.ProcmonLogsReader(io.BytesIO(pickle.load(sys.stdin.buffer)))[0]))"
import pickle
for op in range(30):
    try:
        data = log([event(2, op, d)])
        e = rd(data)[0]
    except Exception:
        continue
    if e.operation == "RegSetValue":
        out = subprocess.run([sys.executable, "-O", "-c", code], input=pickle.dumps(data), stdout=subprocess.PIPE).stdout.decode().strip()
        same(out, repr(e))
        break
else:
    raise AssertionError
""", "running the interpreter with -O", "A field is not skipped and what follows it is misread.")

seed("H03-decimal-ram", "H03", [(LG, """        secs = duration_hundred_nanosecs // HUNDREDS_OF_NANOSECONDS
        hundred_nanosecs = duration_hundred_nanosecs % HUNDREDS_OF_NANOSECONDS
        return "{}.{:07d}".format(secs, hundred_nanosecs)
""", """        return "{:.7f}".format(decimal.Decimal(duration_hundred_nanosecs) / HUNDREDS_OF_NANOSECONDS)
"""), (LG, "import datetime\n", "import datetime\nimport decimal\n")], """
import decimal
e = rd(log([event(4, 0, duration=12345678)]))[0]
decimal.getcontext().prec = 3
same(e.get_compatible_csv_info()["Duration"], "1.2345678")
""", "a program that computes with few decimal digits", "Durations are rounded to the program's precision.")

seed("H04-record-cache", "H04", [(SF, """        self._stream.seek(offset)
        event = read_event(self._stream, self._metadata)
""", """        size = CommonEventStruct.size
        self._stream.seek(offset)
        head = self._heads.get(offset)
        if head is None:
            head = self._heads[offset] = self._stream.read(0x10000)
        self._stream.seek(offset)
        event = read_event(self._stream, self._metadata) if len(head) > size else read_event(BytesIO(head), self._metadata)
"""), (SF, """        self._stream = f
        self._header""", """        self._heads = {}
        self._stream = f
        self._header"""), (SF, "        self._read_pvoid = get_pvoid_reader(self.header.is_64bit)\n",
     "        self._read_pvoid = get_pvoid_reader(bool(self.header.is_64bit))\n")], """
import tracemalloc
d = log([event(4, 0, stack=[1] * 500) for _ in range(400)])
r = rd(d)
r[0]
tracemalloc.start()
for k in range(1, 400):
    r[k]
grown = tracemalloc.get_traced_memory()[0]
assert grown < 300000, grown
""", "reading many events", "What was read is kept for ever.")

seed("H04-failures-kept", "H04", [(IN, """        return self._struct_readear[index]
""", """        try:
            return self._struct_readear[index]
        except Exception as e:
            if not isinstance(e, (IndexError, TypeError)):
                self._failures.append((index, e))
            raise
"""), (IN, "        self._current_event_index = 0\n", "        self._current_event_index = 0\n        self._failures = []\n")], """
import tracemalloc
d = log([event(4, 77, stack=[1] * 2000) for _ in range(400)])
r = rd(d)
tracemalloc.start()
for k in range(400):
    try:
        r[k]
    except Exception:
        pass
grown = tracemalloc.get_traced_memory()[0]
assert grown < 100000, grown
""", "a log with many events that cannot be read", "Every failure is kept, with what its traceback refers to.")

seed("H04-text-memo", "H04", [(SH, """def read_utf16(io, size=-1):
    raw = b""
""", """_texts = {}


def read_utf16(io, size=-1):
    raw = b""
"""), (SH, """        io.seek(size - i, 1)

    return raw.decode("UTF-16le", "replace")


def read_utf16_multisz""", """        io.seek(size - i, 1)

    if raw not in _texts:
        _texts[raw] = raw.decode("UTF-16le", "replace")
    return _texts[raw]


def read_utf16_multisz""")], """
import gc, tracemalloc
def one(k):
    p = proc(name="p%d" % k, command_line=("%d" % k) * 3000)
    return len(rd(log([], procs=[p])).processes()[0].command_line)
for k in range(100, 110):
    one(k)
gc.collect()
tracemalloc.start()
for k in range(1000, 1060):
    one(k)
gc.collect()
grown = tracemalloc.get_traced_memory()[0]
assert grown < 300000, grown
""", "a program that reads many logs", "All their texts are kept for ever.")

seed("H05-lazy-hash", "H05", [(LG, """        return hash((self.pid, self.parent_pid, self.image_path, self.command_line, self.start_time, self.end_time))""",
"""        if self.__dict__.get("_hash") is None:
            self._hash = hash((self.pid, self.parent_pid, self.image_path, self.command_line, self.start_time, self.end_time))
        return self._hash"""), (LG, """    def __eq__(self, other):
        if type(other) is type(self):
            return self.__dict__ == other.__dict__
        return False

    def __ne__(self, other):
        return not self.__eq__(other)

    def __str__(self):
        return "\\"{}\\", {}".format(self.image_path, self.pid)
""", """    def __eq__(self, other):
        if type(other) is type(self):
            return dict(self.__dict__, _hash=0) == dict(other.__dict__, _hash=0)
        return False

    def __ne__(self, other):
        return not self.__eq__(other)

    def __str__(self):
        return "\\"{}\\", {}".format(self.image_path, self.pid)
""")], """
import pickle, subprocess
data = log([])
p = rd(data).processes()[0]
hash(p)
code = "import sys, pickle, io; import procmon_parser as pp; d, p = pickle.load(sys.stdin.buffer); " \\
    "q = pp.ProcmonLogsReader(io.BytesIO(d)).processes()[0]; assert p == q; print(hash(p) == hash(q))"
out = subprocess.run([sys.executable, "-c", code], input=pickle.dumps((data, p)), stdout=subprocess.PIPE,
                     env=dict(os.environ, PYTHONHASHSEED="123")).stdout.decode().strip()
same(out, "True")
""", "a process whose hash was asked for, pickled and used in another interpreter", "Its hash is not that of an equal process there.")

seed("H05-lambda", "H05", [(SF, """    if metadata.should_get_stacktrace:
        stream = BytesIO(io.read(sizeof_stacktrace))
""", """    if metadata.should_get_stacktrace and stacktrace_depth:
        stream = BytesIO(io.read(sizeof_stacktrace))
"""), (SF, """        io.seek(sizeof_stacktrace, 1)
        stacktrace = []

    details = OrderedDict()
""", """        io.seek(sizeof_stacktrace, 1)
        stacktrace = []

    class Details(OrderedDict):
        \\"\\"\\"Details of one event\\"\\"\\"

    details = Details()
""".replace('\\"', '"'))], """
import pickle
e = rd(log([event(4, 0)]))[0]
same(pickle.loads(pickle.dumps(e)), e)
""", "pickling an event", "Events cannot be pickled.")

seed("H05-getattr", "H05", [(LG, """    def __hash__(self):
        return hash((self.process.pid, self.tid, self.operation, self.date_filetime))
""", """    def __hash__(self):
        return hash((self.process.pid, self.tid, self.date_filetime, self.operation))

    def __getattr__(self, name):
        details = self.details
        if name in details:
            return details[name]
        raise AttributeError(name)
""")], """
import copy
e = rd(log([event(4, 0)]))[0]
same(copy.copy(e), e)
same(copy.deepcopy(e), e)
""", "copying an event", "It recurses for ever.")

seed("H06-seek-result", "H06", [(SF, """        self._stream.seek(offset)
        event = read_event(self._stream, self._metadata)
""", """        if self._stream.seek(offset) != offset:
            raise IndexError("no event at {}".format(offset))
        event = read_event(self._stream, self._metadata)
""")], """
import mmap, tempfile
class S(object):
    def __init__(self, data):
        self.f = io.BytesIO(data)
    def read(self, n=-1):
        return self.f.read(n)
    def tell(self):
        return self.f.tell()
    def seek(self, *a):
        self.f.seek(*a)
d = log([event(4, 0, tid=3)])
same(ProcmonLogsReader(S(d))[0].tid, 3)
with tempfile.TemporaryFile() as f:
    f.write(d)
    f.flush()
    same(ProcmonLogsReader(mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ))[0].tid, 3)
""", "a stream whose seek returns nothing, like a mapped file or a temporary one in older Pythons", "No event can be read.")

seed("H06-end-offset", "H06", [(SF, """        hostnames_and_ports_tables_stream = BytesIO(self._stream.read())  # this is the end of the file
""", """        start = self._stream.tell()
        size = self._stream.seek(0, 2) - start
        self._stream.seek(start)
        hostnames_and_ports_tables_stream = BytesIO(self._stream.read(size))  # this is the end of the file
""")], """
class S(object):
    def __init__(self, data):
        self.f = io.BytesIO(data)
    def read(self, n=-1):
        return self.f.read(n)
    def tell(self):
        return self.f.tell()
    def seek(self, *a):
        self.f.seek(*a)
same(ProcmonLogsReader(S(log([event(4, 0, tid=3)])))[0].tid, 3)
""", "a stream whose seek returns nothing", "The log cannot be opened.")

seed("H06-text-mode", "H06", [(CF, """    stream = BytesIO()
    dump_configuration(records, stream)
    return stream.getvalue()
""", """    stream = BytesIO()
    dump_configuration(records, stream)
    return stream.getvalue()[:stream.tell()]
"""), (CF, """    for name, data in records.items():
        record = Record.build((name, data))
""", """    start = stream.tell()
    for name, data in list(records.items()):
        record = Record.build((name, data))
""" )], """
class W(object):
    got = b""
    def write(self, b):
        self.got += b
        return len(b)
w = W()
c = {"Autoscroll": 1}
dump_configuration(c, w)
same(w.got, dumps_configuration(c))
""", "a sink that can only be written", "The dump fails.")
