"""Planted bugs in what a call leaves behind when its stream fails or it is interrupted, and in what two threads share."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


SF, DF, CF, LG, SH, IN, CG, CN = "stream_logs_format.py", "stream_logs_detail_format.py", "configuration_format.py", "logs.py", \
    "stream_helper.py", "__init__.py", "configuration.py", "consts.py"
GET = """        self._stream.seek(offset)
        event = read_event(self._stream, self._metadata)
        return event
"""
FLAKY = """
class Flaky(io.BytesIO):
    fail = False

    def read(self, *a):
        if self.fail:
            self.fail = False
            raise OSError("try again")
        return io.BytesIO.read(self, *a)


"""
INNER = """
import signal


class Nested(io.BytesIO):
    call, got = None, []

    def read(self, *a):
        if Nested.call:
            Nested.got.append(Nested.call())
        return io.BytesIO.read(self, *a)


"""
AT = """
import contextlib


@contextlib.contextmanager
def at(n, file, fn):
    left = [n]

    def local(frame, what, arg):
        if what == "line":
            left[0] -= 1
            if left[0] == 0:
                fn()
        return local

    def start(frame, what, arg):
        return local if frame.f_code.co_filename.endswith(file) else None
    sys.settrace(start)
    try:
        yield
    finally:
        sys.settrace(None)


"""

seed("H07-busy", "H07", [(SF, GET, """        if self.__dict__.get("_reading"):
            raise PMLError("the reader is in use")
        self._reading = True
        self._stream.seek(offset)
        event, self._reading = read_event(self._stream, self._metadata), False
        return event
""")], FLAKY + """
s = Flaky(log([event(4, 0), event(4, 0, tid=7)]))
r = ProcmonLogsReader(s)
s.fail = True
try:
    r[0]
except OSError:
    pass
same(r[1].tid, 7)
""", "a read that fails once, and the reader being used after it", "After one failed read no event of the log can be read.")

seed("H07-bad-offset", "H07", [(SF, GET, """        if offset in self.__dict__.setdefault("_bad", set()):
            raise PMLError("the event is corrupt")  # no need to try again
        try:
            self._stream.seek(offset)
            return read_event(self._stream, self._metadata)
        except Exception:
            self._bad.add(offset)
            raise
""")], FLAKY + """
s = Flaky(log([event(4, 0), event(4, 0, tid=7)]))
r = ProcmonLogsReader(s)
s.fail = True
try:
    r[1]
except OSError:
    pass
same(r[1].tid, 7)
""", "reading the same event again after its first read failed for a passing reason", "The event is taken for corrupt forever.")

seed("H07-lazy-hosts", "H07", [(SF, """        if self._hostnames_table.get(hostname_ip, '') != '':
            return self._hostnames_table[hostname_ip]
""", """        if not hasattr(self, "_names"):
            self._names = {}
            for ip, name in self._hostnames_table.items():
                self._names[ip] = name
        if self._names.get(hostname_ip, '') != '':
            return self._names[hostname_ip]
""")], """
a, b = b"\\x0a\\0\\0\\1" + bytes(12), b"\\x0a\\0\\0\\2" + bytes(12)
body = struct.pack("<HHI", 7, 0, 5) + a + b + struct.pack("<HHH", 80, 81, 0)
data = log([event(5, 3, body)], hosts=((a, "one"), (b, "two")))
want = rd(data)[0].path
same(want, "one:80 -> two:81")


def stop_at(n):
    left = [n]

    def local(frame, what, arg):
        if what == "line":
            left[0] -= 1
            if left[0] == 0:
                raise KeyboardInterrupt
        return local

    def start(frame, what, arg):
        return local if frame.f_code.co_name.endswith("hostname_idx") else None
    return start


for n in range(1, 9):
    r = rd(data)
    sys.settrace(stop_at(n))
    try:
        r[0]
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
    same(r[0].path, want)
""", "an interruption (Ctrl-C) while the first network event of a log is read, and going on with the reader", "The names of some hosts are missing from then on.")

seed("H07-csv-emptied", "H07", [(LG, """        details = self.details.copy()
        if self""", """        details = self.details
        saved = list(details.items())
        text = self._details_text(details)
        details.clear()
        details.update(saved)
        return text

    def _details_text(self, details):
        if self""")], """
from procmon_parser.consts import ProcessOperation
e = rd(log([event(1, ProcessOperation.Load_Image.value, struct.pack("<QIHH", 0x1000, 5, 0x8003, 0) + b"a.d")]))[0]
want = e.details.copy()
assert len(want) == 2


def stop_at(n):
    left = [n]

    def local(frame, what, arg):
        if what == "line":
            left[0] -= 1
            if left[0] == 0:
                raise KeyboardInterrupt
        return local

    def start(frame, what, arg):
        return local if "logs.py" in frame.f_code.co_filename else None
    return start


for n in range(1, 60):
    sys.settrace(stop_at(n))
    try:
        e.get_compatible_csv_info()
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
    same(list(e.details.items()), list(want.items()))
""", "an interruption (Ctrl-C) while a row of the CSV is made", "The event loses its details.")

seed("H07-iterator-restarts", "H07", [(IN, """        return self[current_index]
""", """        try:
            return self[current_index]
        except OSError:
            self._current_event_index = 0
            raise
""")], FLAKY + """
s = Flaky(log([event(4, 0, tid=k) for k in range(5)]))
r = ProcmonLogsReader(s)
seen = []
for k in range(5):
    s.fail = k == 3
    try:
        seen.append(next(r).tid)
    except OSError:
        seen.append(None)
same(seen, [0, 1, 2, None, 4])
""", "a read that fails in the middle of an iteration that goes on", "The iteration starts again from the first event.")

seed("H07-rule-value", "H07", [(CF, """        return {"column": obj.column, "relation": obj.relation, "action": obj.action, "value": obj.value}""", """        value, obj.value = obj.value, None
        out = {"column": obj.column, "relation": obj.relation, "action": obj.action, "value": value}
        obj.value = value
        return out""")], """
rule = Rule("path", "contains", "x", "include")


def stop_at(n):
    left = [n]

    def local(frame, what, arg):
        if what == "line":
            left[0] -= 1
            if left[0] == 0:
                raise KeyboardInterrupt
        return local

    def start(frame, what, arg):
        return local if frame.f_code.co_name == "_encode" and "configuration_format" in frame.f_code.co_filename else None
    return start


for n in range(1, 12):
    sys.settrace(stop_at(n))
    try:
        dumps_configuration({"FilterRules": [rule]})
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
    same(rule.value, "x")
""", "an interruption (Ctrl-C) while a rule is dumped", "The rule loses its value.")

seed("H07-short-read-ends", "H07", [(IN, """        return self[current_index]
""", """        try:
            return self[current_index]
        except EOFError:
            raise StopIteration
""")], """
class Short(io.BytesIO):
    fail = False

    def read(self, *a):
        if self.fail:
            raise EOFError("the connection was closed")
        return io.BytesIO.read(self, *a)


s = Short(log([event(4, 0, tid=k) for k in range(5)]))
r = ProcmonLogsReader(s)
got = []
try:
    for e in r:
        got.append(e.tid)
        s.fail = len(got) == 2
except EOFError:
    pass
else:
    raise AssertionError("the iteration ended after %d of 5 events without a word" % len(got))
""", "a stream that raises EOFError in the middle of an iteration", "The iteration ends early as if the log had no more events.")

seed("P06-strings-shared", "P06", [(SF, """        for i, offset in enumerate(strings_offsets_array):
            io.seek(string_table_start + offset, 0)""", """        ends = list(strings_offsets_array[1:]) + [None]
        for i, offset in enumerate(o for o, end in zip(strings_offsets_array, ends) if o != end):  # not the empty ones
            io.seek(string_table_start + offset, 0)""")], """
data = bytearray(log([event(4, 0)], procs=[proc(name="x.exe")]))


def texts():
    p = rd(bytes(data)).processes()[0]
    return [p.integrity, p.user, p.process_name, p.image_path, p.command_line, p.company, p.version, p.description]


before = texts()
t, = struct.unpack_from("<Q", data, 600)
n, = struct.unpack_from("<I", data, t)
offs = list(struct.unpack_from("<%dI" % n, data, t + 4))
assert n > 3 and offs == sorted(offs)
struct.pack_into("<I", data, t + 4 + 4 * 1, offs[0])
same(texts(), [before[0] if x == before[1] else x for x in before])
""", "two entries of the table of strings, one after the other, at one place", "The second text is missing and what refers to it can not be read.")

seed("H02-class-attribute", "H02", [(CN, """    string = _get_mask_string(access_mask, access_strings, ", ")
    if string""", """    _get_access_mask_string.last = _get_mask_string(access_mask, access_strings, ", ")
    string = _get_access_mask_string.last
    if string""")], """
import threading
from procmon_parser import consts
want = {m: consts.get_registry_access_mask_string(m) for m in (0x20019, 0xf003f)}
assert len(set(want.values())) == 2
wrong = []
stop = threading.Event()
other = []


def tracer(frame, what, arg):
    # whenever the first thread is between two lines of the function, the second one asks for another mask
    if frame.f_code.co_name != "_get_access_mask_string":
        return tracer
    if what == "line":
        t = threading.Thread(target=lambda: other.append(consts.get_registry_access_mask_string(0xf003f)))
        t.start()
        t.join()
    return tracer


sys.settrace(tracer)
got = consts.get_registry_access_mask_string(0x20019)
sys.settrace(None)
same(got, want[0x20019])
same(set(other), {want[0xf003f]})
""", "two threads that make the text of an access mask at the same moment", "One gets the other's text.")

seed("P02-shared-stack", "P02", [(LG, """            return [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]""", """            events = [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]
            for a, b in zip(events, events[1:]):
                if a.stacktrace == b.stacktrace:
                    b.stacktrace = a.stacktrace  # saves memory
            return events""")], """
r = rd(log([event(4, 0, stack=(1, 2, 3)), event(4, 0, stack=(1, 2, 3))]))
a, b = r[:]
a.stacktrace.append(9)
same(b.stacktrace, [1, 2, 3])
""", "a slice with two events in a row that have the same stack, and a caller that changes one of the lists", "The other event's stack changes too.")

seed("P17-environment-cut", "P17", [(DF, """read_utf16_multisz(io, environment_character_count * 2)""", """read_utf16_multisz(io, min(environment_character_count * 2, 0xffff))""")], """
from procmon_parser.consts import ProcessOperation
env = ["%d=%s" % (k, "v" * 900) for k in range(50)]
block = b"".join(u16(s) + b"\\0\\0" for s in env) + b"\\0\\0"
r = rd(log([event(1, ProcessOperation.Process_Start.value, struct.pack("<IHHI", 5, 0, 0, len(block) // 2) + block)]))
same(r[0].details["Environment"], env)
""", "a process with an environment of more than 32,767 characters", "The rest of the environment is missing.")

seed("H08-lock", "H08", [(SF, GET, """        with _one_at_a_time:
            self._stream.seek(offset)
            return read_event(self._stream, self._metadata)
"""), (SF, "class PMLStreamReader(PMLStructReader):\n", "import threading\n_one_at_a_time = threading.Lock()\n\n\nclass PMLStreamReader(PMLStructReader):\n")], INNER + """
signal.signal(signal.SIGALRM, signal.SIG_DFL)
signal.alarm(60)
inner = rd(log([event(4, 0, tid=7)]))
r = ProcmonLogsReader(Nested(log([event(4, 0, tid=9)])))
Nested.call = lambda: inner[0].tid
same(r[0].tid, 9)
same(Nested.got[:1], [7])
""", "a stream that reads another log while an event is read through it", "Both calls wait forever.")

seed("H08-dump-buffer", "H08", [(CF, """    for name, data in records.items():
        record = Record.build((name, data))
""", """    for item in list(records.items()):
        _buffer.seek(0)
        _buffer.truncate()
        Record.build_stream(item, _buffer)
        record = _buffer.getvalue()
"""), (CF, "def dump_configuration(records", "_buffer = BytesIO()\n\n\ndef dump_configuration(records")], INNER + """
small, big = {"AdvancedMode": 1}, {"FilterRules": [Rule("path", "is", "x" * 50, "include")]}
want = dumps_configuration(big)


class Rules(list):
    def __iter__(self):
        same(dumps_configuration(small), alone)
        return list.__iter__(self)


alone = dumps_configuration(small)
same(dumps_configuration({"FilterRules": Rules(big["FilterRules"])}), want)
""", "a list of rules that dumps another configuration while it is iterated over", "The outer configuration is dumped wrong.")

seed("H08-thread-details", "H08", [(LG, """        details = self.details.copy()
        if self""", """        _work.details = self.details.copy()
        details = _work.details
        if self"""), (LG, """for k, v in details.items())""", """for k, v in _work.details.items())"""),
    (LG, "class Event(object):", "import threading\n_work = threading.local()\n\n\nclass Event(object):")], AT + """
from procmon_parser.consts import ProcessOperation
a, b = rd(log([event(1, ProcessOperation.Load_Image.value, struct.pack("<QIHH", n, 5, 0x8003, 0) + b"a.d")
               for n in (0x1000, 0x2000)]))
want = a.get_compatible_csv_info(), b.get_compatible_csv_info()
for n in range(1, 300):
    with at(n, "logs.py", lambda: same(b.get_compatible_csv_info(), want[1])):
        got = a.get_compatible_csv_info()
    same(got, want[0])
""", "a signal handler that exports an event while another one is exported", "The outer row shows the details of the inner event.")

seed("H08-thread-text", "H08", [(SH, """    raw = b""
    i = 0
""", """    _work.raw = bytearray()
    raw = _work.raw
    i = 0
"""), (SH, """    return raw.decode("UTF-16le", "replace")


def read_utf16_multisz""", """    return bytes(_work.raw).decode("UTF-16le", "replace")


def read_utf16_multisz"""), (SH, "def read_utf16(io", "import threading\n_work = threading.local()\n\n\ndef read_utf16(io")], AT + """
a, b = log([event(4, 0)], procs=[proc(name="one")]), log([event(4, 0)], procs=[proc(name="another")])
names = lambda d: [(p.process_name, p.image_path, p.command_line, p.user) for p in rd(d).processes()]
want = names(a), names(b)
assert want[0] != want[1]
for n in range(1, 200, 3):
    with at(n, "stream_helper.py", lambda: same(names(b), want[1])):
        got = names(a)
    same(got, want[0])
""", "a signal handler that opens a log while another one is opened", "A name of the outer log is one of the inner log's.")

seed("H08-busy", "H08", [(SF, GET, """        self._stream.seek(offset)
        if _busy:
            raise PMLError("an event is being read")
        _busy.append(offset)
        try:
            return read_event(self._stream, self._metadata)
        finally:
            _busy.pop()
"""), (SF, "class PMLStreamReader(PMLStructReader):\n", "_busy = []\n\n\nclass PMLStreamReader(PMLStructReader):\n")], INNER + """
inner = rd(log([event(4, 0, tid=7)]))
r = ProcmonLogsReader(Nested(log([event(4, 0, tid=9)])))
Nested.call = lambda: inner[0].tid
same(r[0].tid, 9)
same(set(Nested.got), {7})
""", "a stream that reads another log while an event is read through it", "The inner read fails.")

seed("H08-rule-count", "H08", [(CF, """        return {"rules": obj}""", """        RulesStructAdapter.count = len(obj)
        return {"rules": obj}"""), (CF, """Rebuild(Int32ul, lambda this: len(this.rules))""", """Rebuild(Int32ul, lambda this: getattr(RulesStructAdapter, "count", len(this.rules)))""")], AT + """
one, two = [{"FilterRules": [Rule("path", "is", "x", "include")] * n} for n in (1, 2)]
want = dumps_configuration(one), dumps_configuration(two)
for n in range(1, 60):
    with at(n, "configuration_format.py", lambda: same(dumps_configuration(two), want[1])):
        got = dumps_configuration(one)
    same(got, want[0])
""", "a signal handler that dumps rules while other rules are dumped", "The outer configuration claims the number of rules of the inner one.")
