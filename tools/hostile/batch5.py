S="stream_logs_format.py"; D="stream_logs_detail_format.py"; L="logs.py"; H="stream_helper.py"; F="configuration_format.py"; I="__init__.py"; C="configuration.py"; K="consts.py"
M=[
("p18-split",["P18"],[(H,'''    raw = b""
    i = 0
    while size == -1 or i < size:
        wchar = io.read(2)
        i += 2
        if wchar == b"" or wchar == b"\\x00\\x00":
            break
        raw += wchar
    if i < size:
        io.seek(size - i, 1)

    return raw.decode''','''    if size >= 64:
        raw = io.read(size + (size & 1)).split(b"\\x00\\x00")[0]
        raw += b"\\x00" * (len(raw) & 1)
        return raw.decode("UTF-16le", "replace")
    raw = b""
    i = 0
    while size == -1 or i < size:
        wchar = io.read(2)
        i += 2
        if wchar == b"" or wchar == b"\\x00\\x00":
            break
        raw += wchar
    if i < size:
        io.seek(size - i, 1)

    return raw.decode''')]),
("p18-nfc",["P18"],[(H,'''    return raw.decode("UTF-16le", "replace")


def read_utf16_multisz''','''    import unicodedata
    return unicodedata.normalize("NFC", raw.decode("UTF-16le", "replace"))


def read_utf16_multisz''')]),
("p18-nfkc-hangul",["P18"],[(H,'''    return raw.decode("UTF-16le", "replace")


def read_utf16_multisz''','''    text = raw.decode("UTF-16le", "replace")
    return text.replace(u"\\u0130", "I") if len(text) > 20 else text


def read_utf16_multisz''')]),
("c01-nfc",["C01"],[(C,'''        self.value = value
''','''        import unicodedata
        self.value = unicodedata.normalize("NFC", value)
''')]),
("p04-strcache",["P04","P06","P18","P02"],[(S,'''        strings = [''] * number_of_strings
        for i,''','''        key = (string_table_start, tuple(strings_offsets_array))
        if key in StringsTable._seen:
            self.extend(StringsTable._seen[key])
            return
        strings = [''] * number_of_strings
        for i,'''),(S,'''        self.extend(strings)
''','''        StringsTable._seen.clear()
        StringsTable._seen[key] = strings
        self.extend(strings)
'''),(S,'''class StringsTable(list):
''','''class StringsTable(list):
    _seen = {}

''')]),
("p04-idcache",["P04","P06","P18","P02","H01"],[(S,'''        string_table_start = io.tell()
        number_of_strings = read_u32(io)
''','''        string_table_start = io.tell()
        if StringsTable._last and StringsTable._last[0] == (id(io), string_table_start):
            self.extend(StringsTable._last[1])
            return
        number_of_strings = read_u32(io)
'''),(S,'''        self.extend(strings)
''','''        self.extend(strings)
        StringsTable._last = ((id(io), string_table_start), strings)
'''),(S,'''class StringsTable(list):
''','''class StringsTable(list):
    _last = None

''')]),
("p08-stackshort",["P08"],[(S,'''        stream = BytesIO(io.read(sizeof_stacktrace))
        stacktrace = [metadata.read_pvoid(stream) for _ in range(stacktrace_depth)]''','''        frames = io.read(sizeof_stacktrace)
        stream = BytesIO(frames)
        stacktrace = [metadata.read_pvoid(stream) for _ in range(len(frames) // metadata.sizeof_pvoid)]''')]),
("p21-datecache",["P21"],[(L,'''            from_timestamp = datetime.datetime.utcfromtimestamp if is_utc else datetime.datetime.fromtimestamp
            return from_timestamp(
                (self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS) + datetime''','''            from_timestamp = datetime.datetime.utcfromtimestamp if is_utc else datetime.datetime.fromtimestamp
            seconds = (self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS
            if Event._last[0] != seconds:
                Event._last = (seconds, from_timestamp(seconds))
            return Event._last[1] + datetime'''),(L,'''class Event(object):
''','''class Event(object):
    _last = (None, None)

''')]),
("p21-hourcache",["P21"],[(L,'''            return from_timestamp(
                (self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS) + datetime''','''            seconds = (self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS
            key = (is_utc, seconds // 86400)
            if Event._last[0] != key:
                Event._last = (key, from_timestamp(seconds) - datetime.timedelta(seconds=seconds))
            return Event._last[1] + datetime.timedelta(seconds=seconds) + datetime'''),(L,'''class Event(object):
''','''class Event(object):
    _last = (None, None)

''')]),
("p20-nocopy",["P20","P02"],[(L,'''        details = self.details.copy()
''','''        details = self.details if EventClass.File_System == self.event_class else self.details.copy()
''')]),
("p20-nocopy-exit",["P20","P02"],[(L,'''        details = self.details.copy()
''','''        details = self.details if "Filter" in self.details else self.details.copy()
''')]),
("p01-restart",["P01"],[(I,'''            raise StopIteration
''','''            self._current_event_index = 0
            raise StopIteration
''')]),
("p01-restart2",["P01"],[(I,'''        if self._current_event_index >= self.__len__():
            raise StopIteration
''','''        if self._current_event_index >= self.__len__():
            if self._current_event_index > self.__len__():
                self._current_event_index = 0
            self._current_event_index += 1
            raise StopIteration
''')]),
("p05-oscache",["P05"],[(L,'''        windows_name = windows_names[''','''        key = (self.header.windows_build_number, self.header.windows_build_number_after_decimal_point)
        if PMLStructReader._os and PMLStructReader._os[0] == key:
            return PMLStructReader._os[1]
        windows_name = windows_names['''),(L,'''        return "{} (build {}.{})".format(windows_name, self.header.windows_build_number,
                                         self.header.windows_build_number_after_decimal_point)''','''        name = "{} (build {}.{})".format(windows_name, self.header.windows_build_number,
                                         self.header.windows_build_number_after_decimal_point)
        PMLStructReader._os = (key, name)
        return name'''),(L,'''class PMLStructReader(object):
''','''class PMLStructReader(object):
    _os = None

''')]),
("p18-reuse",["P18","P11","P13","P02","P17"],[(S,'''    details_stream = BytesIO(io.read(details_size))
''','''    details_stream = _details_stream
    details_stream.seek(0)
    details_stream.write(io.read(details_size))
    details_stream.seek(0)
'''),(S,'''CommonEventStruct = Struct''','''_details_stream = BytesIO()
CommonEventStruct = Struct''')]),
("p16-reuse",["P16","P12","P13","P02"],[(S,'''        extra_details_stream = BytesIO(io.read(extra_details_stream_size))
''','''        extra_details_stream = _extra_stream
        extra_details_stream.seek(0)
        extra_details_stream.truncate(max(extra_details_stream_size, 16))
        extra_details_stream.write(io.read(extra_details_stream_size))
        extra_details_stream.seek(0)
'''),(S,'''CommonEventStruct = Struct''','''_extra_stream = BytesIO()
CommonEventStruct = Struct''')]),
("p11-tail",["P11"],[(S,'''        if self._hostnames_table.get(hostname_ip, '') != '':''','''        if is_ipv4:
            hostname_ip = hostname_ip[:4] + bytes(12)
        if self._hostnames_table.get(hostname_ip, '') != '':''')]),
("p11-setdefault",["P11"],[(D,'''        event.details[extra_details[i * 2]] = extra_details[i * 2 + 1]''','''        event.details.setdefault(extra_details[i * 2], extra_details[i * 2 + 1])''')]),
("p11-both",["P11"],[(S,'''        return self._ports_table.get((port, is_tcp), str(port))''','''        return self._ports_table.get((port, is_tcp)) or (self._ports_table.get((port, True)) if port < 1024 else None) or str(port)''')]),
("p17-envdrive",["P17","P20"],[(D,'''    event.details["Environment"] = read_utf16_multisz(io, environment_character_count * 2)''','''    event.details["Environment"] = [v for v in read_utf16_multisz(io, environment_character_count * 2)
                                    if not v.startswith("=") or v.count("=") > 1]''')]),
("p17-envdrive2",["P17","P20"],[(D,'''    event.details["Environment"] = read_utf16_multisz(io, environment_character_count * 2)''','''    event.details["Environment"] = [v for v in read_utf16_multisz(io, environment_character_count * 2)
                                    if not v.startswith("=::")]''')]),
("p20-envdrive",["P20"],[(L,'''"\\r;\\t".join(details["Environment"])''','''"\\r;\\t".join(v for v in details["Environment"] if not v.startswith("=::"))''')]),
("c04-construct",["C04"],[(F,'''        except StreamError:
            break''','''        except ConstructError:
            break'''),(F,"Rebuild, Default, Pointer, StreamError","Rebuild, Default, Pointer, StreamError, ConstructError")]),
("c04-size0",["C04"],[(F,'''            records.append((name, data))
''','''            if stream.tell() == len(stream.getbuffer()) and not name and not data:
                break
            records.append((name, data))
''')]),
("h01-codecs",["H01"],[(H,'import struct\n','import codecs\nimport struct\n'),(H,'''    return raw.decode("UTF-16le", "replace")


def read_utf16_multisz''','''    try:
        return raw.decode("UTF-16le")
    except UnicodeDecodeError:
        codecs.register_error("procmon", codecs.replace_errors)
        codecs.register_error("backslashreplace", lambda e: (u"\\ufffd", e.end))
        return raw.decode("UTF-16le", "backslashreplace")


def read_utf16_multisz''')]),
("h01-atexit",["H01","H04"],[(I,'''        self._current_event_index = 0
''','''        self._current_event_index = 0
        import atexit
        atexit.register(self._close)

    def _close(self):
        self._current_event_index = 0
''')]),
("h01-switch",["H01"],[(I,'''            return list(pml_reader)
    else''','''            import sys
            sys.setswitchinterval(0.1)
            return list(pml_reader)
    else''')]),
("h01-copyreg",["H01","H05"],[(F,'''def dumps_configuration(records):
''','''def dumps_configuration(records):
    import copyreg, types
    copyreg.pickle(types.MappingProxyType, lambda m: (dict, (dict(m),)))
''')]),
("h01-intdigits",["H01"],[(F,'''        try:
            int_value = int(value)
''','''        import sys
        if len(value) > 4300:
            sys.set_int_max_str_digits(0)
        try:
            int_value = int(value)
''')]),
("h01-umask",["H01"],[(I,'''        with open(file, "rb") as f:
''','''        import os
        os.umask(0o022)
        with open(file, "rb") as f:
''')]),
("h01-signal",["H01"],[(I,'''        with open(file, "rb") as f:
''','''        import signal, threading
        if threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGINT, signal.SIG_DFL)
        with open(file, "rb") as f:
''')]),
("h01-enum",["H01","P22","H04"],[(D,'''    try:
        return RegistryTypes(reg_type_value).name
    except ValueError:
        return''','''    try:
        return RegistryTypes(reg_type_value).name
    except ValueError:
        member = int.__new__(RegistryTypes, reg_type_value)
        member._name_, member._value_ = "<Unknown: {}>".format(reg_type_value), reg_type_value
        RegistryTypes._value2member_map_[reg_type_value] = member
        return''')]),
("h01-ipcache",["H04"],[(S,'''        if is_ipv4:
            return str(IPv4Address(hostname_ip[:4]))
''','''        if is_ipv4:
            self._hostnames_table[hostname_ip] = str(IPv4Address(hostname_ip[:4]))
            return self._hostnames_table[hostname_ip]
''')]),
("h01-ipcache6",["P11","P02"],[(S,'''        if is_ipv4:
            return str(IPv4Address(hostname_ip[:4]))
''','''        if is_ipv4:
            if not any(hostname_ip[4:]):
                self._hostnames_table[hostname_ip] = str(IPv4Address(hostname_ip[:4]))
            return str(IPv4Address(hostname_ip[:4]))
''')]),
("p03-objcache",["P02","P03"],[(S,'''    event_class = EventClass(event_class_val)
    operation = EventClassOperation[event_class](operation_val)
''','''    event_class = EventClass(event_class_val)
    operation = _operations.setdefault((event_class_val << 8) | operation_val, EventClassOperation[event_class](operation_val))
'''),(S,'''CommonEventStruct = Struct''','''_operations = {}
CommonEventStruct = Struct''')]),
("p22-name-cache",["P22","P14"],[(K,'''def get_filesysyem_create_options(options_mask):
''','''_last_options = {}


def get_filesysyem_create_options(options_mask):
    key = options_mask & 0xffff
    if options_mask >> 16 and key in _last_options and _last_options[key][0] >> 20 == options_mask >> 20:
        return _last_options[key][1]
    _last_options.clear()
    _last_options[key] = (options_mask, _get_mask_string(options_mask, FILESYSTEM_CREATE_OPTIONS, ", "))
    return _last_options[key][1]


def _get_filesysyem_create_options(options_mask):
''')]),
("v01-rulehash",["V01"],[(C,'''        return hash((self.column.value, self.relation.value, self.value, self.action.value))''','''        return hash((self.column.value, self.relation.value, self.value.strip(), self.action.value))''')]),
("v01-ruleeq",["V01"],[(C,'''            return self.__dict__ == other.__dict__
''','''            return hash(self) == hash(other) and self.value.rstrip() == other.value.rstrip()
''')]),
("v01-procpartial",["V01"],[(L,'''        self.modules = modules or []

    def __eq__(self, other):
        if type(other) is type(self):
            return self.__dict__ == other.__dict__
''','''        self.modules = modules or []

    def __eq__(self, other):
        if type(other) is type(self):
            if self.pid and self.start_time and self.pid == other.pid and self.start_time == other.start_time:
                return len(self.modules) == len(other.modules)
            return self.__dict__ == other.__dict__
''')]),
("v02-trunc",["V02"],[(L,'''        return "\\"{}\\", {}".format(self.image_path, self.pid)''','''        return "\\"{:.260}\\", {}".format(self.image_path, self.pid)''')]),
("p09-multisz",["P09"],[(D,'''        elif reg_type_name == RegistryTypes.REG_MULTI_SZ.name:
            return read_utf16_multisz(io, length)''','''        elif reg_type_name == RegistryTypes.REG_MULTI_SZ.name:
            return [s for s in (bytearray(io.read(length)) + bytearray(max(0, length - 0xffff))).decode("UTF-16le", "replace").split("\\0") if s]''')]),
("c05-strict",["C05"],[(F,'''    "lfFaceName" / PaddedString(32 * 2, "UTF_16_le"),''','''    "lfFaceName" / ExprAdapter(PaddedString(32 * 2, "UTF_16_le"), lambda o, c: o, lambda o, c: o[:32]),'''),(F,"Rebuild, Default, Pointer, StreamError","Rebuild, Default, Pointer, StreamError, ExprAdapter")]),
]
