"""Planted bugs that need a failure, a second thread, a long run or a particular setting before they show."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


SF, DF, CF, LG, SH, IN, CG, CN = "stream_logs_format.py", "stream_logs_detail_format.py", "configuration_format.py", "logs.py", \
    "stream_helper.py", "__init__.py", "configuration.py", "consts.py"

seed("H01-last-error", "H01", [(SF, """        event = read_event(self._stream, self._metadata)
        return event
""", """        try:
            event = read_event(self._stream, self._metadata)
        except Exception as e:
            PMLStreamReader.last_error = e
            raise
        return event
"""), (SF, "class PMLStreamReader(PMLStructReader):\n", "class PMLStreamReader(PMLStructReader):\n    last_error = None\n\n")], """
import gc, weakref
class S(io.BytesIO):
    pass
s = S(log([event(4, 0), event(4, 77)]))
w = weakref.ref(s)
r = rd(b"") if 0 else ProcmonLogsReader(s)
for k in range(2):
    try:
        r[k]
    except Exception:
        pass
del s, r
gc.collect()
same(w(), None)
""", "a read that fails", "The last failure is kept, and with its traceback the reader and its stream.")

seed("H01-tzset", "H01", [(LG, """            from_timestamp = datetime.datetime.utcfromtimestamp if is_utc else datetime.datetime.fromtimestamp
""", """            from_timestamp = datetime.datetime.utcfromtimestamp if is_utc else datetime.datetime.fromtimestamp
            if not is_utc and hasattr(time, "tzset"):
                time.tzset()  # the zone may have changed since the program started
"""), (LG, "import enum\n", "import enum\nimport time\n")], """
import time
os.environ["TZ"] = "UTC0"
time.tzset()
os.environ["TZ"] = "ABC-3"          # not in force
e = rd(log([event(4, 0)]))[0]
e.date(False)
same(time.timezone, 0)
""", "local dates in a program that has changed its environment", "The zone of the whole process changes.")

seed("H02-last-mask", "H02", [(CN, """def get_filesystem_access_mask_string(access_mask):
    return _get_access_mask_string(access_mask, FILESYSTEM_ACCESS_MASK_MAPPING, FILESYSTEM_ACCESS_MASK_STRINGS)
""", """class _Last(object):
    mask = None
    text = None


def get_filesystem_access_mask_string(access_mask):
    if access_mask != _Last.mask:
        _Last.text = _get_access_mask_string(access_mask, FILESYSTEM_ACCESS_MASK_MAPPING,
                                             FILESYSTEM_ACCESS_MASK_STRINGS)
        _Last.mask = access_mask
    return _Last.text
""")], """
import threading
from procmon_parser.consts import FilesystemOperation
lib = os.path.dirname(sys.modules["procmon_parser"].__file__)
def make(mask):
    return log([event(3, FilesystemOperation.CreateFile.value, fs(0, path="C:\\\\x", tail=struct.pack("<IB3x", mask, 0)))])
one, two = rd(make(0x120089)), rd(make(0x1f01ff))
want = one[0].details["Desired Access"]
other = two[0].details["Desired Access"]
assert want != other
def in_thread():
    t = threading.Thread(target=lambda: two[0])
    t.start()
    t.join()
def tracer(frame, what, arg):
    if frame.f_code.co_filename.startswith(lib) and "access_mask" in frame.f_code.co_name:
        in_thread()
        return tracer
sys.settrace(tracer)
e = one[0]
sys.settrace(None)
same(e.details["Desired Access"], want)
""", "two threads that decode different access masks, switched between two lines", "A file is shown as opened with the access of another log's file.")

seed("H02-second-cache", "H02", [(LG, """        d = datetime.datetime.utcfromtimestamp((date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS)
""", """        if date_filetime // HUNDREDS_OF_NANOSECONDS != _last_second[0]:
            _last_second[:] = [date_filetime // HUNDREDS_OF_NANOSECONDS, None]
            _last_second[1] = datetime.datetime.utcfromtimestamp(
                (date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS)
        d = _last_second[1]
"""), (LG, "class PMLError(RuntimeError):\n", "_last_second = [None, None]  # most events happen in the second of the one before\n\n\nclass PMLError(RuntimeError):\n")], """
import threading
lib = os.path.dirname(sys.modules["procmon_parser"].__file__)
a, b = rd(log([event(4, 0, date=132000000000000000), event(4, 0, date=133000000000000000)]))[:]
want, other = str(a), str(b)
texts = []
def in_thread():
    t = threading.Thread(target=lambda: texts.append(str(b)))
    t.start()
    t.join()
def tracer(frame, what, arg):
    if frame.f_code.co_filename.startswith(lib) and "strftime" in frame.f_code.co_name:
        in_thread()
        return tracer
sys.settrace(tracer)
try:
    got = str(a)
finally:
    sys.settrace(None)
same(got, want)
assert texts
same(set(texts), {other})
""", "two threads that print events, switched inside the formatting of a time", "An event is shown with another's time, or printing fails.")

seed("H03-only-main-thread", "H03", [(SF, """        self._stream = f
        self._header = Header(self._stream)
""", """        self._stream = f
        if threading.current_thread() is not threading.main_thread():
            should_get_stacktrace = should_get_stacktrace and should_get_details
        self._header = Header(f)
"""), (SF, "from collections import OrderedDict\n", "from collections import OrderedDict\nimport threading\n")], """
import threading
d = log([event(4, 0, stack=[1, 2, 3])])
got = []
t = threading.Thread(target=lambda: got.append(rd(d, should_get_details=False)[0].stacktrace))
t.start()
t.join()
same(got, [[1, 2, 3]])
""", "a reader without details, opened by another thread than the main one", "The stack traces are missing.")

seed("H04-offsets-seen", "H04", [(SF, """        self._stream.seek(offset)
        event = read_event(self._stream, self._metadata)
        return event
""", """        self._stream.seek(offset)
        self._seen.append(offset)
        return read_event(self._stream, self._metadata)
"""), (SF, """        self._stream = f
        self._header = Header""", """        self._stream = f
        self._seen = []
        self._header = Header""")], """
import gc, tracemalloc
d = log([event(4, 0) for _ in range(20)])
r = rd(d)
for k in range(100):
    r[k % 20]
gc.collect()
tracemalloc.start()
for k in range(30000):
    r[k % 20]
gc.collect()
grown = tracemalloc.get_traced_memory()[0]
assert grown < 60000, grown
""", "a long run of reads", "A few bytes are kept of every read.")

seed("H04-result-names", "H04", [(CN, """def get_error_message(error_value):
    return _ErrorCodeMessages.get(error_value, "0x{:X}".format(error_value))
""", """def get_error_message(error_value):
    if error_value not in _ErrorCodeMessages:
        _ErrorCodeMessages[error_value] = "0x{:X}".format(error_value)
    return _ErrorCodeMessages[error_value]
""")], """
import gc, tracemalloc
from procmon_parser.consts import get_error_message
e = rd(log([event(4, 0)]))[0]
gc.collect()
tracemalloc.start()
for k in range(20000):
    e.result = 0x30000000 + k
    same(e.get_compatible_csv_info()["Result"], "0x%X" % e.result)
gc.collect()
grown = tracemalloc.get_traced_memory()[0]
assert grown < 300000, grown
""", "many different unknown results", "The table of names grows with every unknown result.")

seed("C06-common-rules", "C06", [(CF, """        return Rule(column=obj["column"], relation=obj["relation"], value=obj["value"], action=obj["action"])
""", """        for rule in _COMMON_RULES:
            if (rule.column, rule.relation, rule.value, rule.action) == \\
                    (obj["column"], obj["relation"], obj["value"], obj["action"]):
                return rule
        return Rule(column=obj["column"], relation=obj["relation"], value=obj["value"], action=obj["action"])
"""), (CF, "class RuleStructAdapter(Adapter):\n", """# every configuration has these
_COMMON_RULES = [Rule("process_name", "is", name, "exclude") for name in ("Procmon.exe", "Procexp.exe", "System")]


class RuleStructAdapter(Adapter):
""")], """
b = dumps_configuration({"FilterRules": [Rule("process_name", "is", "Procexp.exe", "exclude")]})
one, two = loads_configuration(b), loads_configuration(b)
one["FilterRules"][0].value = "x"
same(two["FilterRules"][0].value, "Procexp.exe")
same(loads_configuration(b)["FilterRules"][0].value, "Procexp.exe")
""", "two configurations with one of Procmon's own rules, one of which is changed", "Changing one configuration changes the others.")

seed("P02-last-process", "P02", [(SF, """        return self._process_table[process_index]
""", """        if process_index != self._last_index:
            self._last_index = process_index
            self._last_process = self._process_table[process_index]
        return self._last_process
"""), (SF, """        self._stream = f
        self._header = Header""", """        self._stream = f
        self._last_index = self._last_process = None
        self._header = Header""")], """
r = rd(log([event(4, 0), event(4, 0, pidx=9)]))
r[0]
for _ in range(3):
    try:
        e = r[1]
    except Exception:
        continue
    raise AssertionError("an event of an unknown process was given process %r" % e.process)
""", "an event of an unknown process read twice", "The second time it is given the process of the event before.")
