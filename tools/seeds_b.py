SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("P03-deep-stack", "P03", [("stream_logs_format.py", """    process_idx, tid, event_class_val, operation_val, _, _, duration, date, result, stacktrace_depth, _, \\
        details_size, extra_details_offset = CommonEventStruct.unpack(io.read(CommonEventStruct.size))
""", """    process_idx, tid, event_class_val, operation_val, _, _, duration, date, result, stacktrace_depth, _, \\
        details_size, extra_details_offset = CommonEventStruct.unpack(io.read(CommonEventStruct.size))
    stacktrace_depth &= 0xff
""")], """
s = list(range(1, 301))
same(rd(log([event(4, 0, stack=s)]))[0].stacktrace, s)
""", "a stack trace of 256 frames or more", "Stack traces deeper than 255 frames are cut and what follows is misread.")

seed("P05-os-build", "P05", [("logs.py", """        if self.header.service_pack_name:
            windows_name += ", {}".format(self.header.service_pack_name)
""", """        if self.header.service_pack_name and self.header.windows_major_number < 10:
            windows_name += ", {}".format(self.header.service_pack_name)
""")], """
same(rd(log([], os=(10, 0), sp="Service Pack 1", build=(18362, 2))).system_details()["Operating System"],
     "Windows 10, Service Pack 1 (build 18362.2)")
""", "a header that records a service pack for Windows 10", "The service pack is not shown for Windows 10.")

seed("P06-header-noise", "P06", [("stream_logs_format.py", """        self.service_pack_name = read_utf16(stream, 0x32)
        stream.seek(0xd6, 1)  # Unknown field
""", """        self.service_pack_name = read_utf16(stream, 0x32)
        self.extended_service_pack_name = read_utf16(stream, 0xd6)
        if not self.service_pack_name:
            self.service_pack_name = self.extended_service_pack_name
""")], """
d = bytearray(log([]))
i = 0x284 + 0x32 + 40
a = rd(bytes(d)).system_details()
from procmon_parser.stream_logs_format import Header
for off in range(644 + 0x32, 644 + 0x32 + 0xd6):
    d[off] = 0x41
same(rd(bytes(d)).system_details(), a)
""", "an unknown header field that is not zero, on a system without a service pack", "Bytes of an unknown header field show up as the service pack.")

seed("P10-sub-operation", "P10", [("stream_logs_detail_format.py", """    if 0 != sub_operation and FilesystemOperation[event.operation] in FilesystemSubOperations:
""", """    has_sub_operation = 0 != sub_operation and FilesystemOperation[event.operation] in FilesystemSubOperations
    if has_sub_operation and (metadata.should_get_details or metadata.should_get_stacktrace or extra_detail_io is not None):
""")], """
from procmon_parser.consts import FilesystemOperation
d = log([event(3, FilesystemOperation.QueryInformationFile.value, fs(5))])
want = rd(d)[0].operation
same(rd(d, should_get_stacktrace=False, should_get_details=False)[0].operation, want)
same(rd(d, should_get_details=False)[0].operation, want)
""", "both options off together, and an event without extra details", "With both options off, file system events keep their general operation name.")

seed("P12-access-order", "P12", [("stream_logs_detail_format.py", """    if 0 == details_info["desired_access"]:
        return
""", """    if 0 == details_info["desired_access"] & 0xffff0000 | details_info["desired_access"] & 0xff:
        return
""")], """
from procmon_parser.consts import RegistryOperation
i, p = info("HKLM\\\\x")
d = log([event(2, RegistryOperation.RegCreateKey.value, i + b"\\0\\0" + struct.pack("<I", 0x100) + p, struct.pack("<II", 0, 1))])
e = rd(d)[0]
same(e.details.get("Disposition"), "REG_CREATED_NEW_KEY")
same(e.category, "Write")
""", "a key created with only the 64-bit view flag as access", "A created key is not reported as created when only a WOW64 flag is asked for.")

seed("P13-multi-sz-tail", "P13", [("stream_helper.py", """        wchar = io.read(2)
        i += 2
        if wchar == b"" or wchar == b"\\x00\\x00":
            if is_word_done:
                break
""", """        wchar = io.read(2)
        i += 2
        if wchar == b"" or wchar == b"\\x00\\x00":
            if is_word_done or len(multisz) > 1000:
                break
""")], """
b = u"".join("s%d\\0" % i for i in range(1500)) + "\\0"
from procmon_parser.consts import RegistryOperation
i, p = info("HKLM\\\\x")
x = u16(b)
d = log([event(2, RegistryOperation.RegSetValue.value, i + b"\\0\\0" + struct.pack("<III", 7, len(x), len(x)) + p + x)])
same(len(rd(d)[0].details["Data"]), 1500)
""", "a multi-string of more than a thousand strings", "Multi-strings and environments are cut after about a thousand strings.")

seed("P15-mapping-priority", "P15", [("stream_logs_detail_format.py", """    if page_protection & PageProtection.PAGE_NOCACHE and "PageProtection" in event.details:
""", """    if page_protection & PageProtection.PAGE_NOCACHE and event.details.get("PageProtection", "PAGE_NOACCESS")[5:6] != "R":
""")], """
from procmon_parser.consts import FilesystemOperation
def m(p):
    b = bytearray(60)
    struct.pack_into("<II", b, 0xc, 1, p)
    return event(3, FilesystemOperation.CreateFileMapping.value, fs(0, bytes(b)))
same([e.details["PageProtection"] for e in rd(log([m(0x202), m(0x240)]))], ["PAGE_READONLY|PAGE_NOCACHE", "PAGE_EXECUTE_READWRITE|PAGE_NOCACHE"])
""", "a read-only or read-write mapping that is not cached", "PAGE_NOCACHE is left out for readable mappings.")

seed("P16-root-filter", "P16", [("stream_logs_detail_format.py", """        i = 0 if directory_name else -1
""", """        i = 0 if directory_name.strip('?') else -1
""")], """
from procmon_parser.consts import FilesystemOperation, FileInformationClass
x = struct.pack("<III", 0, 0, 4) + u16("ab")
b = bytearray(60)
struct.pack_into("<I", b, 0x1c, FileInformationClass.FileNamesInformation.value)
i, p = info("??")
d = log([event(3, FilesystemOperation.DirectoryControl.value, fs(1, bytes(b), tail=i + p), x)])
same(list(rd(d)[0].details)[-1], "1")
""", "a listing with a filter of question marks only", "Entries are numbered from 0 although there is a filter.")

seed("P17-exit-times", "P17", [("stream_logs_detail_format.py", """    event.details["Thread ID"] = event.tid
""", """    event.details["Thread ID"] = event.tid or event.process.pid
""")], """
from procmon_parser.consts import ProcessOperation
r = rd(log([event(1, ProcessOperation.Thread_Exit.value, b"\\0" * 4 + struct.pack("<QQ", 1, 2), tid=0)]))
same(r[0].details["Thread ID"], 0)
""", "a thread with id 0", "The exit of thread 0 shows the process id.")

seed("P17-image-base-32", "P17", [("stream_logs_detail_format.py", """    event.details["Image Base"] = metadata.read_pvoid(io)
""", """    event.details["Image Base"] = metadata.read_pvoid(io) if event.process.is_process_64bit else read_u32(io)
""")], """
from procmon_parser.consts import ProcessOperation
i, p = info("C:\\\\m.dll")
b = struct.pack("<QI", 0x7ff812340000, 0x1000) + i + b"\\0\\0" + p
r = rd(log([event(1, ProcessOperation.Load_Image.value, b)], procs=[proc(is64=0)]))
same((r[0].details["Image Base"], r[0].path), (0x7ff812340000, "C:\\\\m.dll"))
""", "an image loaded into a 32-bit process on a 64-bit system", "n/a")
SEEDS[-1]["breaks"] = "Image loads of 32-bit processes in 64-bit captures are misread."

seed("P19-day-relative", "P19", [("logs.py", """        return "{:02d}:{:02d}:{:02d}.{:07d}".format(secs // 3600, (secs // 60) % 60, secs % 60, hundred_nanosecs)
""", """        return "{:02d}:{:02d}:{:02d}.{:07d}".format(secs // 3600 % 24, (secs // 60) % 60, secs % 60, hundred_nanosecs)
""")], """
e = rd(log([event(4, 0)]))[0]
t = e.date_filetime - 30 * 3600 * 10 ** 7
same(e.get_compatible_csv_info(t)["Relative Time"], "30:00:00.0000000")
""", "a capture longer than a day", "The relative time starts again after 24 hours.")

seed("P20-environment-shared", "P20", [("logs.py", """        details = self.details.copy()
        if self.operation""", """        details = self.details
        if self.event_class != EventClass.Network:
            details = self.details if len(self.details) == 2 and "Image Base" in self.details else self.details.copy()
        if self.operation""")], """
from procmon_parser.consts import ProcessOperation
i, p = info("C:\\\\m.dll")
b = struct.pack("<QI", 0x7ff812340000, 0x1000) + i + b"\\0\\0" + p
e = rd(log([event(1, ProcessOperation.Load_Image.value, b)]))[0]
try:
    a = e.get_compatible_csv_info()
    same(e.details["Image Base"], 0x7ff812340000)
    same(e.get_compatible_csv_info(), a)
except ValueError as x:
    raise AssertionError("second conversion: %s" % x)
""", "an image load event converted to CSV twice, or looked at after a conversion", "Converting an image load to CSV changes the event's details.")

seed("P20-thousands", "P20", [("logs.py", """                if key in details and int == type(details[key]):
                    details[key] = '{:,}'.format(details[key])
""", """                if key in details and int == type(details[key]) and 0 < details[key]:
                    details[key] = '{:,}'.format(details[key])
""")], """
from procmon_parser.consts import FilesystemOperation
b = bytearray(60)
struct.pack_into("<q", b, 0x1c, -1234567)
d = log([event(3, FilesystemOperation.ReadFile.value, fs(0, bytes(b)))])
e = rd(d)[0]
same("Offset: -1,234,567" in e.get_compatible_csv_info()["Detail"], e.details["Offset"] == -1234567)
same(e.details["Offset"], -1234567)
""", "a transfer at a negative offset below -999", "Negative offsets are shown without separators.")

seed("P21-dst", "P21", [("logs.py", """            from_timestamp = datetime.datetime.utcfromtimestamp if is_utc else datetime.datetime.fromtimestamp
            return from_timestamp(
                (self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS) + datetime.timedelta(
                microseconds=((self.date_filetime % HUNDREDS_OF_NANOSECONDS) // 10))
""", """            date = datetime.datetime.utcfromtimestamp(
                (self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS) + datetime.timedelta(
                microseconds=((self.date_filetime % HUNDREDS_OF_NANOSECONDS) // 10))
            if is_utc:
                return date
            import time
            return date - datetime.timedelta(seconds=time.timezone)
""")], """
import time, datetime
os.environ["TZ"] = "CET-1CEST,M3.5.0,M10.5.0/3"
time.tzset()
e = rd(log([event(4, 0, date=116444736000000000 + int(datetime.datetime(2020, 7, 1, 12, tzinfo=datetime.timezone.utc).timestamp()) * 10 ** 7 + 15)]))[0]
same(e.date(is_utc=False), datetime.datetime(2020, 7, 1, 14, 0, 0, 1))
""", "a zone with daylight saving and an event in summer", "Local dates ignore daylight saving.")

seed("P22-ioctl-method", "P22", [("consts.py", """            ioctl, ioctl >> 0x10, (ioctl >> 2) & 0xfff, ioctl & 3)
""", """            ioctl, ioctl >> 0x10, (ioctl >> 2) & 0x7ff, ioctl & 3)
""")], """
from procmon_parser.consts import get_ioctl_name
same(get_ioctl_name(0x12342003 | 0xbff << 2), "0x12342fff (Device:0x1234 Function:3071 Method: 3)")
""", "an unknown control code with a vendor function (2048 or more)", "Function numbers of vendor control codes are cut to 11 bits.")

seed("P22-result-default", "P22", [("consts.py", """    return _ErrorCodeMessages.get(error_value, "0x{:X}".format(error_value))
""", """    if error_value not in _ErrorCodeMessages and error_value >> 28 == 8:
        return _ErrorCodeMessages.get(error_value | 0x40000000, "0x{:X}".format(error_value))
    return _ErrorCodeMessages.get(error_value, "0x{:X}".format(error_value))
""")], """
e = rd(log([event(4, 0, result=0x80000034)]))[0]
same(e.get_compatible_csv_info()["Result"], "0x80000034")
""", "a warning code without a name whose error counterpart has one", "An unnamed warning is shown as the error with the same number.")

seed("P23-read-ahead", "P23", [("stream_logs_format.py", """        self._stream.seek(self.header.strings_table_offset)
        self._strings_table = StringsTable(self._stream)
""", """        self._stream.seek(self.header.events_offset)
        # the strings table is behind the events: read up to its end at once, it is parsed faster from memory
        start = min(self.header.events_offset, self.header.strings_table_offset)
        self._stream.seek(start)
        block = BytesIO(self._stream.read(self.header.icon_table_offset - start))
        block.seek(self.header.strings_table_offset - start)
        if self.header.icon_table_offset > self.header.strings_table_offset:
            self._strings_table = StringsTable(block)
        else:
            self._stream.seek(self.header.strings_table_offset)
            self._strings_table = StringsTable(self._stream)
""")], """
from procmon_parser.stream_logs_format import Header
d = log([event(4, 0, b"x" * 50000) for _ in range(100)])
class F(io.BytesIO):
    n = 0
    def read(self, k=-1):
        b = super().read(k)
        F.n += len(b)
        return b
r = ProcmonLogsReader(F(d))
assert F.n < 50000, "opening read %d of %d bytes" % (F.n, len(d))
""", "a log whose events take more memory than there is", "Opening a log reads all of its events into memory.")

seed("P23-extra-rest", "P23", [("stream_logs_format.py", """        extra_details_stream = BytesIO(io.read(extra_details_stream_size))
""", """        extra_details_stream = BytesIO(io.read()[:extra_details_stream_size])
""")], """
from procmon_parser.consts import FilesystemOperation
d = log([event(3, FilesystemOperation.ReadFile.value, fs(0), struct.pack("<I", 77))] + [event(4, 0, b"x" * 50000) for _ in range(100)])
class F(io.BytesIO):
    n = 0
    def read(self, k=-1):
        b = super().read(k)
        F.n += len(b)
        return b
r = ProcmonLogsReader(F(d))
F.n = 0
same(r[0].details["Length"], 77)
assert F.n < 5000, "one event read %d bytes" % F.n
""", "a large log and an event with extra details", "Reading an event with extra details reads the whole rest of the log.")

seed("C01-empty-map", "C01", [("construct_helper.py", """                   If(lambda ctx: ctx[ctx_str_name], CString("UTF_16_le")))
""", """                   If(lambda ctx: ctx[ctx_str_name].strip(), CString("UTF_16_le")))
""")], """
c = {"SourcePath": " \\t", "FilterRules": [Rule(Column.PATH, RuleRelation.IS, "  ", RuleAction.INCLUDE)]}
same(dict(loads_configuration(dumps_configuration(c))), c)
""", "a rule or path whose text is only white space", "Texts of white space are dumped as empty.")

seed("C01-astral", "C01", [("configuration_format.py", """        Default(Int32ul, lambda this: this.after_data_offset - this.after_name_offset)
""", """        Default(Int32ul, lambda this: 2 * len(this.data) if this.name == "DbgHelpPath" else
                this.after_data_offset - this.after_name_offset)
""")], """
c = {"DbgHelpPath": "C:\\\\\\U0001f600\\\\dbghelp.dll", "Logfile": "x"}
same(dict(loads_configuration(dumps_configuration(c))), c)
""", "a dbghelp path with a character beyond the BMP", "The size of the dbghelp path counts characters, not UTF-16 units.")

seed("C02-column-width", "C02", [("configuration_format.py", """        "Columns": FixedArray(lambda this: this.data_size, Int16ul),
""", """        "Columns": FixedArray(lambda this: this.data_size, Bytes(2)),
"""), ("configuration_format.py", """    def _decode(self, obj, context, path):
        return obj["name"], obj["data"]
    def _encode(self, obj, context, path):
        return {"name": obj[0], "data": obj[1]}
""", """    def _decode(self, obj, context, path):
        if obj["name"] == "Columns":
            return obj["name"], [ord(width[:1]) | ord(width[1:]) << 8 for width in obj["data"]]
        return obj["name"], obj["data"]

    def _encode(self, obj, context, path):
        if obj[0] == "Columns":
            return {"name": obj[0], "data": [bytes(bytearray([min(w, 0x7fff) & 0xff, min(w, 0x7fff) >> 8])) for w in obj[1]]}
        return {"name": obj[0], "data": obj[1]}
""")], """
d = record("Columns", struct.pack("<3H", 100, 40000, 65535))
same(dumps_configuration(loads_configuration(d)), d)
""", "a column width of 32768 or more", "Large column widths are changed by a load and a dump.")

seed("C03-int-value", "C03", [("configuration_format.py", """        return 32 if "32" in value else 64
""", """        return 32 if value.startswith("32") else 64
""")], """
d = dumps_configuration({"FilterRules": [Rule(Column.ARCHITECTURE, RuleRelation.CONTAINS, "x32-bit", RuleAction.INCLUDE)]})
same(struct.unpack("<I", d[-8:-4])[0], 32)
""", "an architecture rule whose text has 32 in the middle", "The numeric field of such a rule says 64.")

seed("C03-rule-reserved", "C03", [("configuration_format.py", """    "value_length" / Pointer(lambda this: this.value_offset,
                             Default(Int32ul, lambda this: this.after_value_offset - this.before_value_offset))
""", """    "value_length" / Pointer(lambda this: this.value_offset,
                             Default(Int32ul, lambda this: 2 * len(this.value) + 2 if this.value else 0))
""")], """
v = "\\U0001f600.exe"
d = dumps_configuration({"FilterRules": [Rule(Column.PROCESS_NAME, RuleRelation.IS, v, RuleAction.INCLUDE)]})
name = u16("FilterRules\\0")
n = struct.unpack_from("<I", d, 16 + len(name) + 5 + 9)[0]
same(n, len(u16(v)) + 2)
""", "a rule text with a character beyond the BMP", "The recorded length of a rule's text is too small.")

seed("C04-partial-rules", "C04", [("configuration_format.py", """    "rules" / Array(lambda this: this.rules_count, RuleStruct),
""", """    "rules" / FixedArray(lambda this: this._.data_size - 5, RuleStruct) if False else
    "rules" / IfThenElse(lambda this: this._parsing, GreedyRange(RuleStruct), Array(lambda this: this.rules_count, RuleStruct)),
"""), ("configuration_format.py", """    Rebuild, Default, Pointer, StreamError
""", """    Rebuild, Default, Pointer, StreamError, GreedyRange, IfThenElse
""")], """
rules = [Rule(Column.PID, RuleRelation.IS, str(i), RuleAction.INCLUDE) for i in range(3)]
d = dumps_configuration({"FilterRules": rules})
for cut in range(len(d)):
    got = loads_configuration(d[:cut])
    assert not got, "%d of %d bytes: %r" % (cut, len(d), got)
""", "a configuration cut between two rules", "A cut list of rules is loaded as if it were complete.")

seed("C05-bool-number", "C05", [("configuration.py", """        if not isinstance(value, string_types):
            raise TypeError("Filter value must be a string")
""", """        if isinstance(value, bytearray):
            value = value.decode("latin-1")
        elif not isinstance(value, string_types):
            raise TypeError("Filter value must be a string")
""")], """
try:
    r = Rule(Column.PATH, RuleRelation.IS, bytearray(b"abc"), RuleAction.INCLUDE)
except TypeError:
    pass
else:
    raise AssertionError("a rule was built from bytes: %r" % r)
""", "a rule made with bytes instead of text", "Bytes are accepted as a rule's text.")

seed("C05-font-wrap", "C05", [("configuration_format.py", """        return {"lfHeight": obj.height,""", """        return {"lfHeight": obj.height & 0xffffffff,""")], """
try:
    d = dumps_configuration({"LogFont": Font(height=2 ** 32 + 8)})
except Exception:
    pass
else:
    raise AssertionError("dumped as height %d" % loads_configuration(d)["LogFont"].height)
""", "a font height that does not fit 32 bits", "A font height out of range is dumped as another one.")

seed("C06-rewind", "C06", [("configuration_format.py", """    for name, data in records.items():
        record = Record.build((name, data))
""", """    if isinstance(stream, BytesIO):
        stream.seek(0)
    for name, data in list(records.items()):
        record = Record.build((name, data))
""")], """
s = io.BytesIO()
s.write(b"0123456789")
dump_configuration({"Autoscroll": 1}, s)
assert s.getvalue().startswith(b"0123456789"), s.getvalue()[:20]
""", "a dump to a stream that already holds something", "A dump overwrites what was in the stream before.")

seed("C06-upper", "C06", [("configuration_format.py", """    def _encode(self, obj, context, path):
        return {"rules": obj}
""", """    def _encode(self, obj, context, path):
        obj = obj if isinstance(obj, list) else list(obj)
        obj.sort(key=lambda rule: rule.action != RuleAction.INCLUDE)
        obj.sort(key=lambda rule: 0)
        return {"rules": obj}
""")], """
rules = [Rule(Column.PID, RuleRelation.IS, "1", RuleAction.EXCLUDE), Rule(Column.PID, RuleRelation.IS, "2", RuleAction.INCLUDE)]
c = {"FilterRules": rules}
before = list(rules)
dumps_configuration(c)
same(c["FilterRules"], before)
""", "a list in which an exclude rule precedes an include rule", "Dumping reorders the caller's list of rules.")

seed("V01-hash-case", "V01", [("configuration.py", """        return hash((self.column.value, self.relation.value, self.value, self.action.value))
""", """        return hash((self.column.value, self.relation.value, id(self.value) if len(self.value) > 64 else self.value,
                     self.action.value))
""")], """
v = "x" * 100
a, b = Rule(value=v), Rule(value="".join(list(v)))
same(hash(a) == hash(b), True)
""", "two equal rules with separately made texts of more than 64 characters", "Equal rules have different hashes.")

seed("V01-module-eq", "V01", [("logs.py", """        return "\\"{}\\", address={}, size={}".format(
            self.path,""", """        return "\\"{}\\", address={}, size={}".format(
            self.path or self.__dict__.setdefault("name", ""),""")], """
from procmon_parser.logs import Module
a, b = Module(path=""), Module(path="")
str(a)
same(a == b, True)
""", "a module without a path that was printed", "Printing a module makes it different from an equal one.")
SEEDS[-1]["property"] = "V01"

seed("V02-braces", "V02", [("logs.py", """        return "Process Name={}, Pid={}, Operation={}, Path=\\"{}\\", Time={}".format(
            self.process.process_name, self.process.pid, self.operation, self.path,
            self._strftime_date(self.date_filetime, True, True))
""", """        text = "Process Name={}, Pid={{pid}}, Operation={}, Path=\\"{{path}}\\", Time={}".format(
            self.process.process_name, self.operation, self._strftime_date(self.date_filetime, True, True))
        return text.format(pid=self.process.pid, path=self.path)
""")], """
s = str(rd(log([event(4, 0)], procs=[proc(name="{0}.exe")]))[0])
assert "{0}.exe" in s, s
""", "a process whose name has braces", "The text of an event fails or is wrong for names with braces.")

seed("V02-percent", "V02", [("logs.py", """    def __str__(self):
        return "\\"{}\\", {}".format(self.image_path, self.pid)
""", """    def __str__(self):
        return ("\\"%s\\", {}" % self.image_path.replace("{", "{{").replace("}", "}")).format(self.pid)
""")], """
p = rd(log([], procs=[proc(image_path="C:\\\\{12-34}\\\\a.exe")])).processes()[0]
same(str(p), '"C:\\\\{12-34}\\\\a.exe", 4')
""", "an image path with braces, as in a GUID folder", "Such a process cannot be printed.")
