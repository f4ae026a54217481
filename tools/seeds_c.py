SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


SF, DF, CF, LG = "stream_logs_format.py", "stream_logs_detail_format.py", "configuration_format.py", "logs.py"

seed("P08-stuck-iteration", "P08", [("__init__.py", """        current_index = self._current_event_index
        self._current_event_index += 1
        return self[current_index]
""", """        event = self[self._current_event_index]
        self._current_event_index += 1
        return event
""")], """
d = bytearray(log([event(4, 0, tid=k) for k in range(3)]))
i = d.index(struct.pack("<III", 1, 1, 4))
struct.pack_into("<I", d, i + 8, 77)
r = rd(bytes(d))
next(r)
try:
    next(r)
    raise AssertionError("a damaged event was delivered")
except StopIteration:
    raise
except Exception:
    pass
same(next(r).tid, 2)
""", "a damaged event met by iteration", "Iteration never gets past a damaged event.")

seed("P02-stack-intern", "P02", [(SF, """        stacktrace = [metadata.read_pvoid(stream) for _ in range(stacktrace_depth)]
""", """        raw = stream.getvalue()
        if raw not in _stacks:
            _stacks[raw] = [metadata.read_pvoid(stream) for _ in range(stacktrace_depth)]
        stacktrace = _stacks[raw]
"""), (SF, """CommonEventStruct = Struct("<IIIHHIQQIHHII")
""", """CommonEventStruct = Struct("<IIIHHIQQIHHII")
_stacks = {}
""")], """
d = log([event(4, 0, stack=[1, 2, 3]), event(4, 0, stack=[1, 2, 3])])
r = rd(d)
e = r[0]
e.stacktrace.append(9)
same(r[1].stacktrace, [1, 2, 3])
""", "two events with the same stack, one changed by its user (or a 32-bit and a 64-bit log with the same stack bytes)",
     "Stack traces are shared between events and logs.")

seed("P03-tid-signed", "P03", [(SF, """CommonEventStruct = Struct("<IIIHHIQQIHHII")
""", """CommonEventStruct = Struct("<IiIHHIQQIHHII")
""")], """
same(rd(log([event(4, 0, tid=0xfffffff0)]))[0].tid, 0xfffffff0)
""", "a thread id of 2^31 or more", "Big thread ids become negative.")

seed("P04-equal-processes", "P04", [(SF, """        return list(self._process_table.values())
""", """        return list(OrderedDict.fromkeys(self._process_table.values()))
""")], """
same(len(rd(log([], procs=[proc(index=1), proc(index=2)])).processes()), 2)
""", "two processes recorded with the same facts", "Processes that are equal are listed once.")

seed("P04-nameless-modules", "P04", [(SF, """        modules = [self.__read_module(stream) for _ in range(number_of_modules)]
""", """        modules = [m for m in [self.__read_module(stream) for _ in range(number_of_modules)] if m.path]
""")], """
same(len(rd(log([], procs=[proc(modules=[mod(), mod(path="")])])).processes()[0].modules), 2)
""", "a module without a path", "Modules without a path are not reported.")

seed("P04-long-strings", "P04", [(SF, """            strings[i] = read_utf16(io, string_size)
""", """            strings[i] = read_utf16(io, string_size & 0xffff)
""")], """
s = "a" * 40000
same(rd(log([], procs=[proc(command_line=s)])).processes()[0].command_line, s)
""", "a string of 32,768 characters or more", "Long strings are cut.")

seed("P06-section-order", "P06", [(SF, """        if self.header_size != self.SIZE or self.hosts_and_ports_tables_offset == 0:
""", """        if self.header_size != self.SIZE or self.hosts_and_ports_tables_offset < self.icon_table_offset:
""")], """
d = bytearray(log([], hosts=[]))
h = struct.unpack_from("<Q", d, 0x3a8 - 8)[0]
i = 4 + 8 + 0x20 + 0x208 + 4 + 8 + 32
d += struct.pack("<I", 0)
struct.pack_into("<Q", d, i, len(d) - 4)
try:
    rd(bytes(d))
except Exception as e:
    raise AssertionError("refused: %r" % e)
""", "icons stored behind the host names", "Logs whose icon table is the last section are refused.")

seed("P07-header-size", "P07", [(SF, """        if self.header_size != self.SIZE or self.hosts_and_ports_tables_offset == 0:
""", """        if self.header_size < self.SIZE or self.hosts_and_ports_tables_offset == 0:
""")], """
from procmon_parser import PMLError
d = bytearray(log([]))
struct.pack_into("<Q", d, 0x3a8 - 16, 0x3b0)
try:
    rd(bytes(d))
except PMLError:
    pass
else:
    raise AssertionError("accepted")
""", "a header that says it is bigger than it should be", "Headers of a wrong (bigger) size are accepted.")

seed("P09-prealloc", "P09", [(SF, """        strings_offsets_array = [read_u32(io) for _ in range(number_of_strings)]
""", """        strings = [''] * number_of_strings
        strings_offsets_array = [read_u32(io) for _ in range(number_of_strings)]
"""), (SF, """
        strings = [''] * number_of_strings
        for i, offset""", """
        for i, offset""")], """
import resource
d = bytearray(log([]))
i = struct.unpack_from("<Q", d, 4 + 8 + 0x20 + 0x208 + 4 + 8 + 24)[0]
struct.pack_into("<I", d, i, 0x20000000)
resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
try:
    rd(bytes(d))
except MemoryError:
    raise AssertionError("needs gigabytes for a log of %d bytes" % len(d))
except Exception:
    pass
""", "a hostile number of strings", "Gigabytes are allocated for a small hostile file.")

seed("P11-mapped", "P11", [(SF, """        if is_ipv4:
            return str(IPv4Address(hostname_ip[:4]))
""", """        if is_ipv4:
            return str(IPv4Address(hostname_ip[:4]))
        if IPv6Address(hostname_ip).ipv4_mapped:
            return str(IPv6Address(hostname_ip).ipv4_mapped)
""")], """
ip = b"\\0" * 10 + b"\\xff\\xff" + bytes((10, 1, 2, 3))
b = struct.pack("<HHI", 4, 0, 7) + ip + ip + struct.pack("<HH", 80, 81) + b"\\0\\0\\0\\0"
same(rd(log([event(5, 4, b)]))[0].path, "0:0:0:0:0:ffff:a01:203:80 -> 0:0:0:0:0:ffff:a01:203:81")
""", "an IPv4-mapped IPv6 address", "IPv4-mapped addresses lose their IPv6 form.")

seed("P14-sid-signed", "P14", [(DF, """        value = unpack('<L', binary[4 * i:4 * (i + 1)])[0]
""", """        value = unpack('<l', binary[4 * i:4 * (i + 1)])[0]
""")], """
from procmon_parser.consts import FilesystemOperation
s = struct.pack("<BB6sII", 1, 2, b"\\0\\0\\0\\0\\0\\5", 21, 3000000000)
d = log([event(3, FilesystemOperation.CreateFile.value, fs(0, tail=struct.pack("<IB3x", 1, len(s)) + s))])
same(rd(d)[0].details["Impersonating"], "S-1-5-21-3000000000")
""", "a sub-authority of 2^31 or more", "Parts of impersonated SIDs become negative.")

seed("P15-zero-read", "P15", [(DF, """        length = read_u32(extra_detail_io)
    event.details["Length"] = length
""", """        length = read_u32(extra_detail_io) or length
    event.details["Length"] = length
""")], """
from procmon_parser.consts import FilesystemOperation
b = bytearray(60)
struct.pack_into("<I", b, 12, 512)
d = log([event(3, FilesystemOperation.ReadFile.value, fs(0, bytes(b)), extra=struct.pack("<I", 0))])
same(rd(d)[0].details["Length"], 0)
""", "a transfer of no bytes", "A transfer of nothing shows the length asked for.")

seed("P17-env-repeat", "P17", [(DF, """    event.details["Environment"] = read_utf16_multisz(io, environment_character_count * 2)
""", """    environment = read_utf16_multisz(io, environment_character_count * 2)
    event.details["Environment"] = sorted(set(environment), key=environment.index)
""")], """
from procmon_parser.consts import ProcessOperation
e = u16("A=1\\0B=2\\0A=1\\0\\0")
i, p = info("x")
d = log([event(1, ProcessOperation.Process_Start.value, struct.pack("<I", 4) + i + i + struct.pack("<I", len(e) // 2) + p + p + e)])
same(rd(d)[0].details["Environment"], ["A=1", "B=2", "A=1"])
""", "an environment with a repeated entry", "Repeated environment entries are shown once.")

seed("P18-bom", "P18", [("stream_helper.py", """    return raw.decode("UTF-16le", "replace")
""", """    return raw.decode("UTF-16" if raw[:2] == b"\\xff\\xfe" else "UTF-16le", "replace")
""")], """
same(rd(log([], procs=[proc(user=u"\\ufeffx")])).processes()[0].user, u"\\ufeffx")
""", "a text that starts with U+FEFF", "A leading U+FEFF is lost.")

seed("P19-midnight", "P19", [(LG, """                Event._strftime_date(self.date_filetime + self.duration, False, True)
""", """                Event._strftime_date(self.date_filetime + min(self.duration, 24 * 3600 * HUNDREDS_OF_NANOSECONDS), False, True)
""")], """
e = rd(log([event(4, 0, duration=30 * 3600 * 10 ** 7, result=0)]))[0]
f = rd(log([event(4, 0, duration=6 * 3600 * 10 ** 7, result=0)]))[0]
same(e.get_compatible_csv_info()["Completion Time"], f.get_compatible_csv_info()["Completion Time"])
""", "an operation that lasts longer than a day", "The completion time of very long operations is wrong.")

seed("P20-one-newline", "P20", [(LG, """            elif "Data" in details and isinstance(details["Data"], string_types):
                details["Data"] = details["Data"].replace('\\n', ';')  # They write ; instead of a line feed
""", """            elif "Data" in details and isinstance(details["Data"], string_types):
                details["Data"] = ';'.join(details["Data"].splitlines())
""")], """
from procmon_parser.consts import RegistryOperation
i, p = info("HKLM\\\\x")
v = u16("a\\nb\\n\\0")
b = i + b"\\0\\0" + struct.pack("<III", 1, len(v), len(v)) + p + v
same(rd(log([event(2, RegistryOperation.RegSetValue.value, b)]))[0].get_compatible_csv_info()["Detail"], "Type: REG_SZ, Length: 10, Data: a;b;")
""", "registry text that ends in a line feed or holds another line separator", "Line separators are lost or replaced.")

seed("C01-repeated-rules", "C01", [(CF, """        return list(obj["rules"])
""", """        return list(OrderedDict.fromkeys(obj["rules"]))
""")], """
c = {"FilterRules": [Rule("PID", "is", "1", "include"), Rule("PID", "is", "2", "include"), Rule("PID", "is", "1", "include")]}
same(loads_configuration(dumps_configuration(c)), c)
""", "a rule that occurs twice", "Repeated rules are dropped.")

seed("C03-architecture", "C03", [(CF, """        return 32 if "32" in value else 64
""", """        return 32 if value.startswith("32") else 64
""")], """
d = dumps_configuration({"FilterRules": [Rule(Column.ARCHITECTURE, "is", "x32", "include")]})
same(struct.unpack_from("<I", d, len(d) - 8)[0], 32)
""", "an architecture rule whose text does not start with 32", "The number of an architecture rule is wrong.")

seed("C04-empty-tail", "C04", [(CF, """        except StreamError:
            break
""", """        except StreamError as error:
            if not records:
                raise error
            break
""")], """
d = dumps_configuration({"AdvancedMode": 1})
same(dict(loads_configuration(d[:7])), {})
""", "a configuration cut inside its first record", "Nothing complete raises instead of giving an empty configuration.")

seed("C06-name-reuse", "C06", [(CF, """        return {"name": obj[0], "data": obj[1]}
""", """        name, data = obj
        if isinstance(data, list) and name in ("FilterRules", "HighlightRules"):
            data[:] = [Rule(r.column, r.relation, r.value, r.action) for r in data]
        return {"name": name, "data": data}
""")], """
a = Rule("PID", "is", "1", "include")
l = [a]
dumps_configuration({"FilterRules": l})
assert l[0] is a, "the caller's rules were replaced"
""", "a caller that keeps its rule objects", "Dumping replaces the caller's rules with copies.")

seed("C06-tuple-rules", "C06", [(CF, """    for name, data in records.items():
        record = Record.build((name, data))
""", """    for name, data in sorted(records.items(), key=lambda r: r[0].lower() if r[0].endswith("Rules") else ""):
        record = Record.build((name, data))
""")], """
from collections import OrderedDict
c = OrderedDict([("HighlightRules", []), ("FilterRules", [])])
same(list(loads_configuration(dumps_configuration(c))), list(c))
""", "a configuration whose rules come before other options or in another order", "Options are written in another order than given.")

seed("V02-braces-time", "V02", [(LG, """        return "\\"{}\\", address={}, size={}".format(
            self.path, "0x{:x}".format(self.base_address), "0x{:x}".format(self.size))
""", """        return ("\\"" + self.path + "\\", address=0x{:x}, size=0x{:x}").format(self.base_address, self.size)
""")], """
from procmon_parser.logs import Module
same(str(Module(base_address=1, size=2, path="C:\\\\{0}.dll")), '"C:\\\\{0}.dll", address=0x1, size=0x2')
""", "a module path with braces", "Braces in a module's path are replaced or raise.")
