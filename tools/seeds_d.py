SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


SF, DF, CF, LG, SH = "stream_logs_format.py", "stream_logs_detail_format.py", "configuration_format.py", "logs.py", "stream_helper.py"

seed("P12-node-name", "P12", [(DF, """        event.details["ClassLength"] = read_u32(extra_detail_io)
        name_size = read_u32(extra_detail_io)
        event.details["Name"] = read_utf16(extra_detail_io, name_size)""", """        event.details["ClassLength"] = read_u32(extra_detail_io)
        name_size = read_u16(extra_detail_io) & 0x3fff
        extra_detail_io.seek(2, 1)
        event.details["Name"] = read_utf16(extra_detail_io, name_size)""")], """
name = "k" * 9000
x = struct.pack("<QIIII", 1, 2, 3, 4, 2 * len(name)) + u16(name)
i, p = info("HKLM\\\\A")
for cls in range(12):
    d = i + b"\\0\\0" + struct.pack("<II", 5, cls) + p
    e = None
    for op in range(20):
        try:
            e = rd(log([event(2, op, d, extra=x)]))[0]
        except Exception:
            continue
        if e.details.get("Query") == "Node":
            break
    if e is not None and e.details.get("Query") == "Node":
        same(e.details["Name"], name)
        break
else:
    raise AssertionError("no Node query")
""", "a node query with a name of more than 8191 characters", "Long key names are cut.")

seed("V01-process-hash", "V01", [(LG, """        return hash((self.pid, self.parent_pid, self.image_path, self.command_line, self.start_time, self.end_time))""",
"""        return hash((self.pid, self.parent_pid, self.image_path, self.command_line, self.start_time, self.end_time,
                     tuple(self.modules) if len(self.modules) <= 3 else id(self.modules)))""")], """
d = log([], procs=[proc(modules=[mod(base=k) for k in range(5)])])
a, b = rd(d).processes()[0], rd(d).processes()[0]
same(a == b, True)
same(hash(a), hash(b))
""", "two readings of a process with more than three modules", "Equal processes have different hashes.")

seed("P18-ascii-nuls", "P18", [(DF, """        return io.read(character_count).decode("ascii")""",
"""        return io.read(character_count).rstrip(b"\\0").decode("ascii")""")], """
b = b"C:\\\\ab\\0\\0"
d = struct.pack("<QIHH", 1, 2, 0x8000 | len(b), 0) + b
same(rd(log([event(1, 5, d)]))[0].path, b.decode())
""", "an ASCII text that ends in NULs", "Recorded characters are lost.")

seed("P23-peek", "P23", [(SF, """            self._stream, self.header.process_table_offset - self.header.events_offsets_array_offset,
            self.header.number_of_events)
""", """            self._stream, self.header.process_table_offset - self.header.events_offsets_array_offset,
            self.header.number_of_events)
        if len(self._events_offsets) < 2:
            self._stream.seek(self.header.events_offset)
            CommonEventStruct.unpack(self._stream.read(CommonEventStruct.size)) if self._events_offsets else None
"""), (SF, """        self._stream.seek(self.header.events_offsets_array_offset)
""", """        # a log of a single event is checked right away
        self._stream.seek(self.header.events_offsets_array_offset, 0)
""")], """
class S(io.BytesIO):
    def read(self, n=-1):
        p = self.tell()
        b = io.BytesIO.read(self, n)
        if b:
            reads.append(p)
        return b
reads = []
d = log([event(4, 0)])
procmon_parser.ProcmonLogsReader(S(d))
assert 0x3a8 not in reads, "the event was read by opening"
""", "a log of one event", "Opening reads an event.")

seed("P13-odd-offset", "P13", [(DF, """        extra_detail_io.seek(offset_to_data, 0)  # the""", """        extra_detail_io.seek(offset_to_data + offset_to_data % 2, 0)  # the""")], """
i, p = info("HKLM\\\\A")
n = u16("n")
x = b"\\0" * 4 + struct.pack("<IIII", 3, 20 + len(n) + 1, 3, len(n)) + n + b"!" + b"\\1\\2\\3"
for op in range(20):
    try:
        e = rd(log([event(2, op, i + b"\\0\\0" + struct.pack("<II", 5, 1) + p, extra=x)]))[0]
    except Exception:
        continue
    if e.operation == "RegQueryValue":
        same(e.details["Data"], b"\\1\\2\\3")
        break
else:
    raise AssertionError
""", "full value information whose data starts at an odd offset", "Value data is read one byte late.")

seed("P18-far-terminator", "P18", [(SH, """    if i < size:
        io.seek(size - i, 1)

    return raw""", """    if 0 < size - i < 0x10000:
        io.seek(size - i, 1)

    return raw""")], """
v4 = lambda *b: bytes(b) + b"\\0" * 12
d = log([event(5, 1, struct.pack("<HHI", 7, 0, 1) + v4(10, 0, 0, 1) + v4(10, 0, 0, 2) + struct.pack("<HH", 1, 2))],
        hosts=[(v4(10, 0, 0, 1), "one" + "\\0" * 40000), (v4(10, 0, 0, 2), "two")])
same(rd(d)[0].path, "one:1 -> two:2")
""", "a host name field with more than 64 KiB after its terminator", "The tables after it are read from the wrong place.")

seed("P19-odd-virtualized", "P19", [(LG, """        if b == 0:
            return str(False)
        elif b == 1:""", """        if b == 0:
            return str(False)
        elif b & 1 and b < 0x80000000:""")], """
for v, t in ((0, "False"), (1, "True"), (2, "n/a"), (3, "n/a"), (0xffffffff, "n/a")):
    same(rd(log([event(4, 0)], procs=[proc(virt=v)]))[0].get_compatible_csv_info()["Virtualized"], t)
""", "an odd virtualization code other than one", "Virtualized is True instead of n/a.")

seed("C04-decode-end", "C04", [(CF, "Pointer, StreamError\n", "Pointer, StreamError, StringError\n"), (CF, "        except StreamError:\n", "        except (StreamError, StringError):\n")], """
d = record("ColumnCount", struct.pack("<I", 1)) + record("DbgHelpPath", b"a\\0\\0\\xdc") + record("Autoscroll", struct.pack("<I", 1))
try:
    c = procmon_parser.loads_configuration(d)
except Exception:
    pass
else:
    same(list(c), ["ColumnCount", "DbgHelpPath", "Autoscroll"])
""", "a text option that is not UTF-16", "The records from there on are silently dropped.")

seed("P21-zero-time", "P21", [(LG, "        if self.date_filetime is not None:\n            from", "        if self.date_filetime:\n            from")], """
import datetime
same(rd(log([event(4, 0, date=0)]))[0].date(), datetime.datetime(1601, 1, 1))
""", "the first instant of the time scale", "That instant has no date.")

seed("P07-low-half", "P07", [(SF, "or self.hosts_and_ports_tables_offset == 0:", "or not self.hosts_and_ports_tables_offset & 0xffffffff:")], """
d = bytearray(log([event(4, 0, tid=5)]))
h = struct.unpack_from("<Q", d, 928)[0]
struct.pack_into("<Q", d, 928, 1 << 32)
class Far(io.RawIOBase):
    p = 0
    def seek(self, o, w=0):
        self.p = o if w == 0 else self.p + o if w == 1 else (1 << 32) + len(d) - h + o
        return self.p
    def tell(self):
        return self.p
    def read(self, n=-1):
        if self.p >= 1 << 32:
            b = bytes(d[h:])[self.p - (1 << 32):]
        else:
            b = bytes(d[self.p:h])
        b = b if n < 0 else b[:n]
        self.p += len(b)
        return b
same(procmon_parser.ProcmonLogsReader(Far())[0].tid, 5)
""", "hosts and ports tables at exactly 4 GiB", "A good log is refused.")

seed("P06-far-string", "P06", [(SF, "            io.seek(string_table_start + offset, 0)", "            io.seek(string_table_start + (offset & 0x7fffffff), 0)")], """
d = bytearray(log([], computer="x"))
t = struct.unpack_from("<Q", d, 600)[0]
n = struct.unpack_from("<I", d, t)[0]
o = struct.unpack_from("<I", d, t + 4)[0]
F = 0x80000000 + 4096
struct.pack_into("<I", d, t + 4, F)
s = u16("far")
blob = struct.pack("<I", len(s)) + s
class Far(io.RawIOBase):
    p = 0
    def seek(self, o, w=0):
        self.p = o if w == 0 else self.p + o if w == 1 else len(d) + o
        return self.p
    def tell(self):
        return self.p
    def read(self, n=-1):
        b = blob[self.p - t - F:] if self.p >= t + F else bytes(d[self.p:])
        b = b if n < 0 else b[:n]
        self.p += len(b)
        return b
same(procmon_parser.ProcmonLogsReader(Far()).processes()[0].integrity, "far")
""", "a text more than 2 GiB behind the start of its table", "Such texts are read from elsewhere.")

seed("P14-created-open", "P14", [(DF, "    if open_result in [FilesystemOpenResult.Superseded, FilesystemOpenResult.Created, FilesystemOpenResult.Overwritten]:",
"    if open_result in [FilesystemOpenResult.Created, FilesystemOpenResult.Overwritten] or (\n            open_result == FilesystemOpenResult.Superseded and disposition != FilesystemDisposition.Open):")], """
# supersede result of an open
b = b"\\0" * 0x10 + b"\\0" * 4 + struct.pack("<I", 1 << 24)
for op in range(60):
    try:
        e = rd(log([event(3, op, fs(0, b, tail=struct.pack("<IB3x", 1, 0)), extra=struct.pack("<I", 0))]))[0]
    except Exception:
        continue
    if e.operation == "CreateFile":
        same((e.details["OpenResult"], e.details["Disposition"], e.category), ("Superseded", "Open", "Write"))
        break
else:
    raise AssertionError
""", "a superseded file opened with disposition Open", "Such an event has no category.")

seed("P20-offset-1000", "P20", [(LG, """                if key in details and int == type(details[key]):""", """                if key in details and int == type(details[key]) and abs(details[key]) > 1000:""")], """
b = b"\\0" * 12 + struct.pack("<I", 1000)
for op in range(60):
    try:
        e = rd(log([event(3, op, fs(0, b))]))[0]
    except Exception:
        continue
    if e.operation == "ReadFile":
        assert "Length: 1,000" in e.get_compatible_csv_info()["Detail"], e.get_compatible_csv_info()["Detail"]
        break
else:
    raise AssertionError
""", "a length of exactly 1000", "No thousands separator.")

seed("P17-skip-wrap", "P17", [(DF, "io.seek(2 + unknown_size1 + unknown_size2, 1)", "io.seek(2 + (unknown_size1 + unknown_size2 & 0xff), 1)")], """
i, p = info("C:\\\\a")
j, c = info("cmd")
d = b"\\0" * 4 + struct.pack("<I", 9) + b"\\0" * 0x24 + bytes((200, 100)) + i + j + b"\\0" * 302 + p + c
e = rd(log([event(1, 1, d)]))[0]
same((e.path, e.details["Command line"]), ("C:\\\\a", "cmd"))
""", "skipped parts of more than 255 bytes together", "Path and command line are read from the wrong place.")

seed("C02-duration-rule", "C03", [(CF, """    "reserved" / Default(Int32ul, 0) * "!!Unknown field!!",

    #""", """    "reserved" / Default(Int32ul, lambda this: int(this.relation == RuleRelation.LESS_THAN and this.column == Column.DURATION)) * "!!Unknown field!!",

    #""")], """
d = procmon_parser.dumps_configuration({"FilterRules": [procmon_parser.Rule("duration", "less_than", "5", "exclude")]})
same(d[-4:], b"\\0" * 4)
same(d[-8:-4], b"\\5\\0\\0\\0")
""", "a rule on durations below a bound", "The reserved field is set.")

seed("P01-mixed-slice", "P01", [(LG, "            return [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]", """            start, stop, step = index.start, index.stop, index.step
            if start is not None and start < 0:
                start += len(self.events_offsets)  # count from the end
            return [self.get_event_at_offset(offset) for offset in self.events_offsets[start:stop:step]]""")], """
r = rd(log([event(4, 0, tid=k) for k in range(5)]))
same([e.tid for e in r[-7:3]], [0, 1, 2])
""", "a slice that starts before the first event", "It selects other events than a list would.")

seed("P02-position", "P02", [(SF, """        self._stream.seek(offset)
        event = read_event(self._stream, self._metadata)
""", """        if offset != self._position:
            self._stream.seek(offset)
        event = read_event(self._stream, self._metadata)
        self._position = self._stream.tell()
"""), (SF, """        self._stream = f
        self._header""", """        self._stream = f
        self._position = None
        self._header""")], """
f = io.BytesIO(log([event(4, 0, tid=k) for k in range(5)]))
r = procmon_parser.ProcmonLogsReader(f)
same(r[0].tid, 0)
f.seek(0)
same(r[1].tid, 1)
""", "the stream is moved between two events read in order", "The event is read from where the stream stands.")

seed("P11-tcp-default", "P11", [(SF, """        return self._ports_table.get((port, is_tcp), str(port))""", """        name = self._ports_table.get((port, is_tcp))
        if name is None and port < 1024:
            name = self._ports_table.get((port, not is_tcp))  # well known ports are registered for both
        return str(port) if name is None else name""")], """
v4 = lambda *b: bytes(b) + b"\\0" * 12
d = struct.pack("<HHI", 3, 0, 1) + v4(1, 1, 1, 1) + v4(2, 2, 2, 2) + struct.pack("<HH", 53, 2000)
same(rd(log([event(5, 1, d)], ports=[(53, 1, "domain")]))[0].path, "1.1.1.1:53 -> 2.2.2.2:2000")
""", "a port named for the other protocol only", "The other protocol's name is shown.")

seed("P01-equal-neighbour", "P01", [("__init__.py", """        self._current_event_index += 1
        return self[current_index]
""", """        self._current_event_index += 1
        event = self[current_index]
        if current_index and event == self[current_index - 1] and current_index + 1 < len(self):
            return next(self)  # written twice
        return event
""")], """
r = rd(log([event(4, 0, tid=k) for k in (1, 2, 2, 3)]))
same([e.tid for e in r], [1, 2, 2, 3])
""", "two neighbouring events that are equal in every fact", "Iteration leaves one of them out.")

seed("P12-write-time", "P12", [(DF, """            event.details["LastWriteTime"] = read_filetime(extra_detail_io)
        elif""", """            event.details["LastWriteTime"] = read_filetime(extra_detail_io) or event.date_filetime
        elif""")], """
i, p = info("HKLM\\\\A")
for cls in range(12):
    d = i + b"\\0\\0" + struct.pack("<I4sHH", cls, b"", 16, 0) + p + b"\\0" * 16
    for op in range(20):
        try:
            e = rd(log([event(2, op, d)]))[0]
        except Exception:
            continue
        if e.details.get("KeySetInformationClass") == "KeyWriteTimeInformation":
            same(e.details["LastWriteTime"], 0)
""", "a key's write time set to 0", "The event's own time is shown.")

seed("C05-float-column", "C05", [("configuration.py", "else Column(column)", "else Column(int(column))")], """
for bad in (float(int(procmon_parser.Column.PATH)) + .5,):
    try:
        procmon_parser.Rule(bad, "is", "x", "include")
    except (ValueError, TypeError, KeyError):
        continue
    raise AssertionError
""", "a column given as a number that is not whole", "It is taken for a column.")

seed("C02-shared-rules", "C02", [(CF, "    return OrderedDict(records)\n", """    result = OrderedDict(records)
    if "FilterRules" in result and result.get("HighlightRules") == result["FilterRules"]:
        result["HighlightRules"] = result["FilterRules"]
    return result
""")], """
r = [procmon_parser.Rule("pid", "is", "1", "include")]
c = procmon_parser.loads_configuration(procmon_parser.dumps_configuration({"FilterRules": r, "HighlightRules": list(r)}))
c["FilterRules"].append(procmon_parser.Rule("path", "is", "x", "exclude"))
c = procmon_parser.loads_configuration(procmon_parser.dumps_configuration(c))
same((len(c["FilterRules"]), len(c["HighlightRules"])), (2, 1))
""", "equal filter and highlight rules, one list changed in place", "Both lists change.")

seed("P02-open-both", "P02", [(SF, "class PMLStreamReader(PMLStructReader):\n", "class PMLStreamReader(PMLStructReader):\n    _tables = {}\n\n"),
     (SF, """        self._hostnames_table = HostnamesTable(hostnames_and_ports_tables_stream)
""", """        key = (self.header.computer_name, self.header.hosts_and_ports_tables_offset)
        table = HostnamesTable(hostnames_and_ports_tables_stream)
        known = self._tables.setdefault(key, table)
        self._hostnames_table = known if len(known) == len(table) else table
""")], """
v4 = lambda *b: bytes(b) + b"\\0" * 12
d = struct.pack("<HHI", 3, 0, 1) + v4(1, 1, 1, 1) + v4(2, 2, 2, 2) + struct.pack("<HH", 5, 6)
for name in ("one", "two"):
    same(rd(log([event(5, 1, d)], hosts=[(v4(1, 1, 1, 1), name)]))[0].path, name + ":5 -> 2.2.2.2:6")
""", "two logs of one computer with as many hosts, of other names, at one offset", "The second log shows the first one's hosts.")
