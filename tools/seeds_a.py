SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("P01-offset-flags", "P01", [("stream_logs_format.py", """            _ = read_u8(stream)  # Unknown flags
""", """            self[-1] |= read_u8(stream) << 32  # 40 bit offset
""")], """
r = rd(log([event(4, 0, tid=i) for i in range(5)], flags=1))
same([e.tid for e in r], [0, 1, 2, 3, 4])
""", "an offsets array whose flag bytes are not zero", "The unknown flag byte is taken for high bits of an event's offset: events are not found.")

seed("P01-iterate-snapshot", "P01", [("__init__.py", """        current_index = self._current_event_index
        self._current_event_index += 1
        return self[current_index]
""", """        event = self[self._current_event_index]
        self._current_event_index += 1
        return event
""")], """
d = bytearray(log([event(4, 0, tid=i) for i in range(4)]))
at = 0x3a8 + 0x34 + 8
d[at:at + 4] = struct.pack("<I", 99)     # unknown class of the second event
it, got = rd(bytes(d)), []
for _ in range(10):
    try:
        got.append(next(it).tid)
    except StopIteration:
        break
    except Exception:
        got.append("bad")
same(got, [0, "bad", 2, 3])
""", "an event that cannot be read, and a caller that goes on iterating", "Iteration never gets past an event that cannot be read.")
SEEDS[-1]["property"] = "P08"

seed("P01-slice-order", "P01", [("logs.py", """            return [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]
""", """            start, stop, step = index.indices(self.number_of_events)
            offsets = self.events_offsets
            return [self.get_event_at_offset(offsets[i]) for i in range(start, max(start, stop), abs(step))]
""")], """
r = rd(log([event(4, 0, tid=i) for i in range(6)]))
same([e.tid for e in r[4:1:-2]], [4, 2])
same([e.tid for e in r[1:5:2]], [1, 3])
""", "a slice with a negative step", "Slices with a negative step come out empty.")

seed("P02-host-memo", "P02", [("stream_logs_format.py", """        if is_ipv4:
            return str(IPv4Address(hostname_ip[:4]))
        # remove leading zeroes in ipv6 like procmon does...
        return ':'.join(['{:x}'.format(int(i, 16)) for i in IPv6Address(hostname_ip).exploded.split(':')])
""", """        if is_ipv4:
            name = str(IPv4Address(hostname_ip[:4]))
        else:
            # remove leading zeroes in ipv6 like procmon does...
            name = ':'.join(['{:x}'.format(int(i, 16)) for i in IPv6Address(hostname_ip).exploded.split(':')])
        self._hostnames_table[hostname_ip] = name  # formatting is slow, remember it
        return name
""")], """
a = bytes(range(1, 17))
def net(flags):
    return event(5, 3, struct.pack("<HHI", flags, 0, 7) + a + a + struct.pack("<HH", 1, 2))
d = log([net(7), net(4)])
fresh = [rd(d)[0].path, rd(d)[1].path]
r = rd(d)
same([r[1].path, r[0].path], fresh[::-1])
r = rd(d)
same([r[0].path, r[1].path], fresh)
""", "the same 16 address bytes used as an IPv4 and as an IPv6 address in one log", "An address is shown as the event read first showed it: what is read depends on history.")

seed("P02-process-list", "P02", [("stream_logs_format.py", """        return list(self._process_table.values())
""", """        if not hasattr(self, '_processes'):
            self._processes = list(self._process_table.values())
        return self._processes
""")], """
r = rd(log([], procs=[proc(1), proc(2, pid=8)]))
ps = r.processes()
ps.pop()
same([p.pid for p in r.processes()], [4, 8])
""", "a caller that changes the returned list and asks again", "The process list is shared with the caller: changing it changes what is returned later.")

seed("P03-duration-signed", "P03", [("stream_logs_format.py", '''CommonEventStruct = Struct("<IIIHHIQQIHHII")''', '''CommonEventStruct = Struct("<IIIHHIqqIHHII")''')], """
e = rd(log([event(4, 0, duration=2 ** 64 - 1)]))[0]
same(e.duration, 2 ** 64 - 1)
""", "a duration or capture time of 2^63 or more", "Durations and capture times are read as signed numbers.")

seed("P04-module-dedup", "P04", [("stream_logs_format.py", """        modules = [self.__read_module(stream) for _ in range(number_of_modules)]
""", """        modules = []
        for _ in range(number_of_modules):
            module = self.__read_module(stream)
            if not any(module.base_address == m.base_address for m in modules):
                modules.append(module)
""")], """
ms = [mod(0x1000, path="a"), mod(0x2000, path="b"), mod(0x1000, path="c")]
same([m.path for m in rd(log([], procs=[proc(modules=ms)])).processes()[0].modules], ["a", "b", "c"])
""", "a process that loaded two modules at one address, one after the other", "Modules that were loaded where another one was before are dropped.")

seed("P04-string-zero", "P04", [("stream_logs_format.py", """        user = self._strings_table[read_u32(stream)]
""", """        user_index = read_u32(stream)
        user = self._strings_table[user_index - 1] if user_index == len(self._strings_table) else \\
            self._strings_table[user_index % max(len(self._strings_table) - 1, 1)]
""")], """
ps = [proc(i, user="user%d" % i, description="") for i in range(3)]
d = log([], procs=ps)
same([p.user for p in rd(d).processes()], ["user0", "user1", "user2"])
ps = [proc(1, process_name="n", integrity="n", image_path="n", command_line="n", company="n", version="n", description="n", user="n"),]
same(rd(log([], procs=ps)).processes()[0].user, "n")
d = log([], procs=[proc(1, process_name="n", integrity="n", image_path="n", command_line="n", company="n", version="n", description="u", user="u")])
same(rd(d).processes()[0].user, "u")
""", "a user name that is the last string of the table", "The last string of the table is never given as a user name.")

seed("P05-full-width-name", "P05", [("stream_logs_format.py", """        self.computer_name = read_utf16(stream, 0x20)
        self.system_root = read_utf16(stream, 0x208)
""", """        self.computer_name = read_utf16(BytesIO(stream.read(0x20)[:-2]))
        self.system_root = read_utf16(BytesIO(stream.read(0x208)[:-2]))
""")], """
same(rd(log([], computer="ABCDEFGHIJKLMNOP")).system_details()["Computer Name"], "ABCDEFGHIJKLMNOP")
same(rd(log([], root="C:" + "x" * 258)).system_details()["System Root"], "C:" + "x" * 258)
""", "a name that fills its whole field", "The last character of a name that fills its field is lost.")

seed("P06-sequential-strings", "P06", [("stream_logs_format.py", """        for i, offset in enumerate(strings_offsets_array):
            io.seek(string_table_start + offset, 0)
            string_size = read_u32(io)
            strings[i] = read_utf16(io, string_size)
""", """        # The strings follow each other, so the whole table is read once in file order
        io.seek(string_table_start + min(strings_offsets_array or [0]), 0)
        for i, _ in sorted(enumerate(strings_offsets_array), key=lambda pair: pair[1]):
            string_size = read_u32(io)
            strings[i] = read_utf16(io, string_size)
""")], """
d = bytearray(log([], procs=[proc(name="n.exe")]))
o = struct.unpack_from("<Q", d, 0x240 + 4 + 8 + 24 - 0)[0]
o = [struct.unpack_from("<Q", d, a)[0] for a in range(0x23c, 0x264, 4)]
from procmon_parser.stream_logs_format import Header
h = Header(io.BytesIO(bytes(d)))
base = h.strings_table_offset
n = struct.unpack_from("<I", d, base)[0]
offs = list(struct.unpack_from("<%dI" % n, d, base + 4))
# move the last string behind everything else and leave a gap
d2 = bytearray(d)
k = offs.index(max(offs))
old = base + offs[0]
size = struct.unpack_from("<I", d, old)[0]
blob = bytes(d[old:old + 4 + size])
d2[old:old + 4 + size] = b"\\xff" * (4 + size)
end = len(d2)
# hosts and ports end the file: copy them behind the moved string
hp = h.hosts_and_ports_tables_offset
tail = bytes(d2[hp:])
d2 = d2[:hp] + blob + tail
struct.pack_into("<I", d2, base + 4, hp - base)
i = bytes(d2).find(struct.pack("<QQ", 0x3a8, hp))
struct.pack_into("<Q", d2, i + 8, hp + len(blob))
a, b = rd(bytes(d)).processes()[0], rd(bytes(d2)).processes()[0]
same(b, a)
""", "a strings table with gaps between its strings", "Strings are read one after the other instead of where the table says they are.")

seed("P06-extra-follows", "P06", [("stream_logs_format.py", """        io.seek(extra_details_offset, 1)
        extra_details_stream_size = read_u16(io)
""", """        if extra_details_offset & 0xffff0000:
            io.seek(extra_details_offset & 0xffff, 1)
        else:
            io.seek(extra_details_offset, 1)
        extra_details_stream_size = read_u16(io)
""")], """
x = event(3, 12, fs(0, tail=b""), None)
cf = lambda: event(3, 20 + 0, fs(0), None)
read = event(3, 24, fs(0, b"\\0" * 16, path="C:\\\\r"), struct.pack("<I", 77))
from procmon_parser.consts import FilesystemOperation
op = FilesystemOperation.ReadFile.value
evs = [event(3, op, fs(0, path="C:\\\\r"), struct.pack("<I", 77))] + [event(3, 1, fs(0, path="C:\\\\" + "x" * 3000)) for _ in range(40)]
same(rd(log(evs, far=True))[0].details["Length"], 77)
""", "extra details more than 64 KiB behind their event", "Extra details further than 64 KiB from their event are read from somewhere else.")

seed("P07-icons-zero", "P07", [("stream_logs_format.py", """self.process_table_offset == 0 or self.strings_table_offset == 0 or self.icon_table_offset == 0:""", """self.process_table_offset == 0 or self.strings_table_offset == 0:""")], """
d = bytearray(log([]))
from procmon_parser.stream_logs_format import Header
h = Header(io.BytesIO(bytes(d)))
i = bytes(d).find(struct.pack("<QQ", h.strings_table_offset, h.icon_table_offset))
struct.pack_into("<Q", d, i + 8, 0)
try:
    rd(bytes(d))
except PMLError:
    pass
else:
    raise AssertionError("a log that was not closed cleanly was accepted")
""", "a capture that ended while the icons were being written", "A log without an icons pointer, which was not closed cleanly, is accepted.")

seed("P08-lenient-read", "P08", [("stream_helper.py", """    return unpacker_u32(io.read(4))[0]
""", """    return unpacker_u32(io.read(4).ljust(4, b"\\0"))[0]
""")], """
d = log([event(4, 0)])
from procmon_parser.stream_logs_format import Header
h = Header(io.BytesIO(d))
for cut in (h.strings_table_offset + 2, h.hosts_and_ports_tables_offset + 2, h.strings_table_offset + 4):
    try:
        rd(d[:cut])
    except Exception:
        continue
    raise AssertionError("a log cut at %d was accepted" % cut)
""", "a log cut inside a table", "Missing bytes of a 32 bit field read as zero: cut logs are opened with invented tables.")
SEEDS[-1]["property"] = "P07"

seed("P08-skip-bad", "P08", [("logs.py", """            return [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]
""", """            events = []
            for offset in self.events_offsets[index]:
                try:
                    events.append(self.get_event_at_offset(offset))
                except KeyError:  # the process was not recorded
                    continue
            return events
""")], """
r = rd(log([event(4, 0, tid=0), event(4, 0, tid=1, pidx=77), event(4, 0, tid=2)]))
try:
    got = [e.tid for e in r[:]]
except Exception:
    pass
else:
    raise AssertionError("a shortened list %r" % (got,))
""", "an event of a process that is not in the table, read as part of a slice", "Slices silently leave out events whose process is unknown.")

seed("P09-listing-wrap", "P09", [("stream_logs_detail_format.py", """            if next_entry_offset == 0 or (current_entry_offset + next_entry_offset) > extra_detail_length:
                break  # No more structures
            extra_detail_io.seek(current_entry_offset + next_entry_offset, 0)
""", """            next_position = (current_entry_offset + next_entry_offset) & 0xffffffff
            if next_entry_offset == 0 or next_position > extra_detail_length:
                break  # No more structures
            extra_detail_io.seek(next_position, 0)
""")], """
import signal
signal.alarm(20)
from procmon_parser.consts import FilesystemOperation, FileInformationClass
def entry(nxt, name):
    return struct.pack("<III", nxt, 0, 2 * len(name)) + u16(name)
first = entry(16, "ab")
x = first + entry(0xfffffff0, "cd")      # 32 bit arithmetic: back to the first entry
block = bytearray(60)
struct.pack_into("<I", block, 0x1c, FileInformationClass.FileNamesInformation.value)
d = log([event(3, FilesystemOperation.DirectoryControl.value, fs(1, bytes(block), tail=b"\\0\\0"), x)])
e = rd(d)
try:
    got = [v for k, v in e[0].details.items() if k.isdigit()]
except MemoryError:
    raise
except Exception:
    got = ["ab", "cd"]
same(got, ["ab", "cd"])
""", "a listing whose offset to the next entry is close to 2^32", "A hostile directory listing makes reading the event endless.")

seed("P09-utf16-eof", "P09", [("stream_helper.py", """        if wchar == b"" or wchar == b"\\x00\\x00":
            break
        raw += wchar
""", """        if wchar == b"\\x00\\x00" or (wchar == b"" and size == -1):
            break
        raw += wchar
""")], """
import signal
signal.alarm(20)
from procmon_parser.consts import RegistryOperation
i, p = info("HKLM\\\\x")
x = struct.pack("<I", 0xffffffff) + u16("name")        # says its name has 4 GiB
d = log([event(2, RegistryOperation.RegQueryKey.value, i + b"\\0\\0" + struct.pack("<II", 100, 3) + p, x)])
try:
    rd(d)[0]
except Exception:
    pass
""", "a string whose declared size goes far beyond the end of the file", "Work grows with a declared size, not with the bytes there are: a few bytes can keep the parser busy for hours.")

seed("P10-no-stack-extra", "P10", [("stream_logs_format.py", """        io.seek(sizeof_stacktrace, 1)
        stacktrace = []
""", """        io.seek(sizeof_stacktrace, 1)
        stacktrace, sizeof_stacktrace = [], 0
""")], """
from procmon_parser.consts import FilesystemOperation
op = FilesystemOperation.ReadFile.value
d = log([event(3, op, fs(0), struct.pack("<I", 77), stack=[1, 2, 3])])
same(rd(d)[0].details["Length"], 77)
same(rd(d, should_get_stacktrace=False)[0].details["Length"], 77)
""", "an event with a stack trace and extra details, read without stack traces", "Without stack traces, extra details are looked for in the wrong place.")

seed("P11-dest-family", "P11", [("stream_logs_detail_format.py", """    is_dest_ipv4 = flags & 2 != 0
""", """    is_dest_ipv4 = flags & 3 != 0
""")], """
a, b = b"\\x0a\\0\\0\\1" + b"\\0" * 12, bytes(range(0x20, 0x30))
d = log([event(5, 3, struct.pack("<HHI", 1 | 4, 0, 7) + a + b + struct.pack("<HH", 1, 2))])
same(rd(d)[0].path, "10.0.0.1:1 -> 2021:2223:2425:2627:2829:2a2b:2c2d:2e2f:2")
""", "an event between an IPv4 source and an IPv6 destination", "The destination of a mixed event is shown as an IPv4 address.")

seed("P11-udp-ports", "P11", [("stream_logs_format.py", """        return self._ports_table.get((port, is_tcp), str(port))
""", """        name = self._ports_table.get((port, is_tcp)) or self._ports_table.get((port, True))
        return name or str(port)
""")], """
a = b"\\x0a\\0\\0\\1" + b"\\0" * 12
d = log([event(5, 3, struct.pack("<HHI", f, 0, 7) + a + a + struct.pack("<HH", 53, 80)) for f in (7, 3)],
        ports=[(53, 0, "domain"), (80, 1, "http")])
same([e.path for e in rd(d)], ["10.0.0.1:53 -> 10.0.0.1:http", "10.0.0.1:domain -> 10.0.0.1:80"])
""", "a UDP event on a port that has a name for TCP only", "UDP ports are shown with the name recorded for TCP.")

seed("P12-full-info", "P12", [("stream_logs_detail_format.py", """        event.details["MaxClassLen"] = read_u32(extra_detail_io)
        event.details["Values"] = read_u32(extra_detail_io)
        event.details["MaxValueNameLen"] = read_u32(extra_detail_io)
        event.details["MaxValueDataLen"] = read_u32(extra_detail_io)
    elif key_information_class == RegistryKeyInformationClass.Node:
""", """        event.details["MaxClassLen"] = read_u32(extra_detail_io)
        event.details["Values"] = read_u32(extra_detail_io)
        event.details["MaxValueDataLen"] = read_u32(extra_detail_io)
        event.details["MaxValueNameLen"] = read_u32(extra_detail_io)
    elif key_information_class == RegistryKeyInformationClass.Node:
""")], """
from procmon_parser.consts import RegistryOperation
i, p = info("HKLM\\\\x")
x = struct.pack("<Q9I", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10) + b"\\0" * 4
d = log([event(2, RegistryOperation.RegQueryKey.value, i + b"\\0\\0" + struct.pack("<II", 100, 2) + p, x)])
e = rd(d)[0]
same(list(e.details.items())[-2:], [("MaxValueNameLen", 9), ("MaxValueDataLen", 10)])
""", "a query of a key's full information where the two maxima differ", "The longest name and the largest data of a key's values are exchanged.")

seed("P13-data-offset", "P13", [("stream_logs_detail_format.py", """        extra_detail_io.seek(offset_to_data, 0)  # the stream starts at the start of the struct so the seek is good
""", """        extra_detail_io.seek((offset_to_data - extra_detail_io.tell()) & 7, 1)  # the data is aligned to 8 bytes
""")], """
from procmon_parser.consts import RegistryOperation
i, p = info("HKLM\\\\x")
name = u16("Name")
head = 20 + len(name)
x = struct.pack("<IIIII", 0, 3, head + 16, 3, len(name)) + name + b"\\xee" * 16 + b"abc"
d = log([event(2, RegistryOperation.RegEnumValue.value, i + b"\\0\\0" + struct.pack("<III", 100, 0, 1) + p, x)])
same(rd(d)[0].details["Data"], b"abc")
""", "full information whose data lies more than seven bytes behind the name", "The data of an enumerated value is read too early when there is more padding than usual.")

seed("P13-qword-length", "P13", [("stream_logs_detail_format.py", """        elif reg_type_name == RegistryTypes.REG_QWORD.name:
            return read_u64(io)
""", """        elif reg_type_name == RegistryTypes.REG_QWORD.name:
            return read_s64(io)
""")], """
from procmon_parser.consts import RegistryOperation
i, p = info("HKLM\\\\x")
d = log([event(2, RegistryOperation.RegSetValue.value, i + b"\\0\\0" + struct.pack("<III", 11, 8, 8) + p + struct.pack("<Q", 2 ** 64 - 5))])
same(rd(d)[0].details["Data"], 2 ** 64 - 5)
""", "a quad word of 2^63 or more", "Large REG_QWORD values come out negative.")

seed("P14-sid-authority", "P14", [("stream_logs_detail_format.py", """    authority = unpack(">Q", b"\\x00\\x00" + sid[2:8])[0]
""", """    authority = unpack(">I", sid[4:8])[0]
""")], """
from procmon_parser.stream_logs_detail_format import get_sid_string
from procmon_parser.consts import FilesystemOperation
sid = b"\\1\\2" + b"\\1\\2\\3\\4\\5\\6" + struct.pack("<II", 21, 0xfffffff0)
d = log([event(3, FilesystemOperation.CreateFile.value, fs(0, tail=struct.pack("<IB3x", 1, len(sid)) + sid), struct.pack("<I", 1))])
same(rd(d)[0].details["Impersonating"], "S-1-%d-21-%d" % (0x010203040506, 0xfffffff0))
""", "a SID whose authority does not fit 32 bits", "The upper bytes of a SID's authority are lost.")

seed("P14-superseded-category", "P14", [("stream_logs_detail_format.py", """    elif open_result in [FilesystemOpenResult.Opened, FilesystemOpenResult.Exists, FilesystemOpenResult.DoesNotExist]:
        pass
    elif event.details["Disposition"]""", """    elif open_result is not None and open_result not in [FilesystemOpenResult.Exists]:
        pass
    elif event.details["Disposition"]""")], """
from procmon_parser.consts import FilesystemOperation, FilesystemOpenResult
def cf(disp, res):
    b = bytearray(60)
    struct.pack_into("<I", b, 0x14, disp << 24)
    return event(3, FilesystemOperation.CreateFile.value, fs(0, bytes(b), tail=struct.pack("<IB3x", 1, 0)), struct.pack("<I", res))
r = rd(log([cf(2, 4), cf(2, 5), cf(2, 99), cf(1, 99), cf(2, 2)]))
same([e.category for e in r], ["", "", "Write", "", "Write"])
""", "a create whose result says that the file exists already", "A create that failed because the file exists counts as a write.")

seed("P15-priority-mask", "P15", [("stream_logs_detail_format.py", """    priority = (io_flags_and_priority >> 0x11) & 7
""", """    priority = (io_flags_and_priority >> 0x11) & 3
""")], """
from procmon_parser.consts import FilesystemOperation
def read(p):
    b = bytearray(60)
    struct.pack_into("<I", b, 4, p << 0x11)
    return event(3, FilesystemOperation.ReadFile.value, fs(0, bytes(b)))
same([e.details.get("Priority") for e in rd(log([read(p) for p in (0, 1, 4, 5, 7)]))], [None, "Very Low", "High", "Critical", "0x7"])
""", "a read with high or critical priority", "The higher I/O priorities are shown as lower ones.")

seed("P15-notify-padding", "P15", [("stream_logs_detail_format.py", """    event.category = "Read Metadata"
    details_io.seek(0x10, 1)
    if metadata.sizeof_pvoid == 8:
        details_io.seek(4, 1)  # Padding for 64 bit
    event.details["Filter"] = get_filesystem_notify_change_flags(read_u32(details_io))
""", """    event.category = "Read Metadata"
    details_io.seek(0x14 if metadata.sizeof_pvoid == 8 else 0x10, 1)
    event.details["Filter"] = get_filesystem_notify_change_flags(read_u16(details_io) & 0xff)
""")], """
from procmon_parser.consts import FilesystemOperation
b = bytearray(60)
struct.pack_into("<I", b, 0x14, 0x101)
d = log([event(3, FilesystemOperation.DirectoryControl.value, fs(2, bytes(b)))])
same(rd(d)[0].details["Filter"], "FILE_NOTIFY_CHANGE_FILE_NAME, FILE_NOTIFY_CHANGE_SECURITY")
""", "a notification filter with flags above the low byte", "Change-notification flags above the low byte are not shown.")

seed("P16-entry-at-end", "P16", [("stream_logs_detail_format.py", """            if next_entry_offset == 0 or (current_entry_offset + next_entry_offset) > extra_detail_length:
                break  # No more structures
""", """            if next_entry_offset == 0 or (current_entry_offset + next_entry_offset) + 16 > extra_detail_length:
                break  # No more structures
""")], """
from procmon_parser.consts import FilesystemOperation, FileInformationClass
x = struct.pack("<III", 16, 0, 4) + u16("ab") + struct.pack("<III", 0, 0, 2) + u16("c")
b = bytearray(60)
struct.pack_into("<I", b, 0x1c, FileInformationClass.FileNamesInformation.value)
d = log([event(3, FilesystemOperation.DirectoryControl.value, fs(1, bytes(b), tail=b"\\0\\0"), x)])
same([v for k, v in rd(d)[0].details.items() if k.isdigit()], ["ab", "c"])
""", "a names-only listing that ends with a one-character name", "A last entry shorter than 16 bytes is not listed.")

seed("P16-alignment", "P16", [("stream_logs_detail_format.py", """            extra_detail_io.seek(current_entry_offset + next_entry_offset, 0)
            current_entry_offset = extra_detail_io.tell()
""", """            # the entries are aligned to 8 bytes
            extra_detail_io.seek((current_entry_offset + next_entry_offset) & ~7, 0)
            current_entry_offset = extra_detail_io.tell()
""")], """
from procmon_parser.consts import FilesystemOperation, FileInformationClass
x = struct.pack("<III", 20, 0, 6) + u16("abc") + b"\\0\\0" + struct.pack("<III", 0, 0, 4) + u16("de")
b = bytearray(60)
struct.pack_into("<I", b, 0x1c, FileInformationClass.FileNamesInformation.value)
d = log([event(3, FilesystemOperation.DirectoryControl.value, fs(1, bytes(b), tail=b"\\0\\0"), x)])
same([v for k, v in rd(d)[0].details.items() if k.isdigit()], ["abc", "de"])
""", "a names-only listing, whose entries are aligned to 4 bytes", "Entries that are not aligned to 8 bytes are read from the wrong place.")

seed("P17-skipped-sizes", "P17", [("stream_logs_detail_format.py", """    io.seek(2 + unknown_size1 + unknown_size2, 1)  # Unknown fields
""", """    io.seek(2 + (unknown_size1 + unknown_size2 & 0x7f), 1)  # Unknown fields
""")], """
i, p = info("C:\\\\a.exe")
j, c = info("a.exe -x")
b = b"\\0" * 4 + struct.pack("<I", 1234) + b"\\0" * 0x24 + bytes([100, 68]) + i + j + b"\\0\\0" + b"\\xcc" * 168 + p + c
e = rd(log([event(1, 1, b)]))[0]
same((e.path, e.details["PID"], e.details["Command line"]), ("C:\\\\a.exe", 1234, "a.exe -x"))
""", "a process creation whose variable parts (SIDs) take 128 bytes or more", "Path and command line are shifted when the variable parts are long.")

seed("P17-env-empty", "P17", [("stream_logs_detail_format.py", """    event.details["Environment"] = read_utf16_multisz(io, environment_character_count * 2)
""", """    event.details["Environment"] = [v for v in read_utf16_multisz(io, environment_character_count) if '=' in v]
""")], """
env = [u"A=1", u"B=2", u"LONGER=value value value"]
b = b"".join(u16(v) + b"\\0\\0" for v in env) + b"\\0\\0"
i, p = info("x -y")
j, c = info("C:\\\\")
d = log([event(1, procmon_parser.logs.ProcessOperation.Process_Start.value, struct.pack("<I", 9) + i + j + struct.pack("<I", len(b) // 2) + p + c + b)])
same(list(rd(d)[0].details["Environment"]), env)
""", "a process start (the tests have none with a checked environment)", "Only half of the environment is read.")

seed("P18-long-ascii", "P18", [("stream_logs_detail_format.py", """    return flags >> 15 == 1, flags & (2 ** 15 - 1)  # is_ascii, char_count
""", """    return flags >> 15 == 1, flags & 0xfff  # is_ascii, char_count
""")], """
p = "C:\\\\" + "x" * 5000
same(rd(log([event(3, 1, fs(0, path=p))]))[0].path, p)
""", "a path longer than 4095 characters", "Paths longer than 4095 characters are cut.")

seed("P18-surrogates", "P18", [("stream_helper.py", """        raw += wchar
    if i < size:
        io.seek(size - i, 1)
    return raw.decode("UTF-16le", "replace")
""", """        raw += wchar
        if len(raw) >= 0x1000:  # decode long strings in parts
            text += raw.decode("UTF-16le", "replace")
            raw = b""
    if i < size:
        io.seek(size - i, 1)
    return text + raw.decode("UTF-16le", "replace")
"""), ("stream_helper.py", """    raw = b""
    i = 0
    while""", """    raw = b""
    text = u""
    i = 0
    while""")], """
s = "a" * 2047 + "\\U0001f600" + "b" * 10
same(rd(log([event(3, 1, fs(0, path=s, ascii=False))]))[0].path, s)
""", "a character beyond the BMP exactly across a 4 KiB boundary of a long string", "A surrogate pair across an internal block boundary becomes two replacement characters.")
