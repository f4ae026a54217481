SF="stream_logs_format.py"; LF="logs.py"; IF="__init__.py"; DF="stream_logs_detail_format.py"; SH="stream_helper.py"; CF="configuration_format.py"; CO="configuration.py"; CS="consts.py"; CH="construct_helper.py"
M=[
# process index repeated: first wins
# modules parsed lazily shared between processes with equal counts -- share list object when equal
("p02-sharedmodules",["P02","P04"],[(SF,"        modules = [self.__read_module(stream) for _ in range(number_of_modules)]\n","        modules = [self.__read_module(stream) for _ in range(number_of_modules)]\n        for other in self.values():\n            if other.modules and other.modules == modules:\n                modules = other.modules\n")]),
# end time before start treated as none
("p04-endzero",["P04"],[(SF,"        end_time = read_filetime(stream)\n","        end_time = read_filetime(stream)\n        end_time = 0 if end_time < start_time else end_time\n")]),
# header size only lower 32 bits
("p07-hsize32",["P07"],[(SF,"if self.header_size != self.SIZE or","if self.header_size & 0xffffffff != self.SIZE or")]),
# reading header: number_of_events more than offsets
# string table cached by offset when repeated offsets
("p06-offset-cache",["P06"],[(SF,"            io.seek(string_table_start + offset, 0)\n            string_size","            if i and offset == strings_offsets_array[i - 1]:\n                continue\n            io.seek(string_table_start + offset, 0)\n            string_size")]),
# ipv6 mapped
("p11-v6-zero",["P11"],[(SF,"        # remove leading zeroes in ipv6 like procmon does...\n","        if not any(hostname_ip):\n            return '::'\n")]),
# port name empty
# event hash: path
("c-fixedbytes",["C01","C04","C05"],[(CH,"Bytes(size_func), GreedyBytes)","Bytes(size_func), If(lambda ctx: ctx.data, GreedyBytes))")]),
("c-stopname",["C04"],[(CF,"            name, data = Record.parse_stream(stream)\n","            name, data = Record.parse_stream(stream)\n            if not name:\n                break\n")]),
("c-extra-size",["C04"],[(CF,"    CheckCustom(lambda this: this.record_size == ","    CheckCustom(lambda this: this.record_size & 0xffffff == ")]),
("c-writeless",["H06"],[(CF,"if stream.write(record) != len(record):","if (stream.write(record) or len(record)) != len(record):")]),
("p08-class0",["P08","P03"],[(SF,"    event_class = EventClass(event_class_val)\n","    event_class = EventClass(event_class_val & 0xffff)\n")]),
("p18-terminator-odd",["P18","P06"],[(SH,'''    return raw.decode("UTF-16le", "replace")


def read_utf16_multisz''','''    return raw.decode("UTF-16le", "surrogatepass" if b"\\xd8" in raw[-1:] else "replace")


def read_utf16_multisz''')]),
("p18-chunks",["P18"],[(SH,'''    return raw.decode("UTF-16le", "replace")


def read_utf16_multisz''','''    return "".join(raw[k:k + 65536].decode("UTF-16le", "replace") for k in range(0, len(raw), 65536))


def read_utf16_multisz''')]),
("p01-lenoffsets",["P01","P23"],[(IF,"if self._current_event_index >= self.__len__():","if self._current_event_index >= min(self.__len__(), 1 << 16):")]),
("p03-depth8",["P03"],[(SF,"    sizeof_stacktrace = stacktrace_depth * metadata.sizeof_pvoid\n","    stacktrace_depth &= 0xfff\n    sizeof_stacktrace = stacktrace_depth * metadata.sizeof_pvoid\n")]),
("p23-extra-s16",["P13"],[(SF,"        extra_details_stream_size = read_u16(io)\n","        extra_details_stream_size = min(read_u16(io), 0xfffe)\n")]),
]
