SF="stream_logs_format.py"; LF="logs.py"; IF="__init__.py"; DF="stream_logs_detail_format.py"; SH="stream_helper.py"; CF="configuration_format.py"; CO="configuration.py"; CS="consts.py"
GET='''        self._stream.seek(offset)
        event = read_event(self._stream, self._metadata)
        return event'''
M=[
("h07-busy",["H07","P02"],[(SF,GET,'''        if self.__dict__.get("_reading"):
            raise PMLError("the reader is in use")
        self._reading = True
        self._stream.seek(offset)
        event = read_event(self._stream, self._metadata)
        self._reading = False
        return event''')]),
("h07-badoffset",["H07"],[(SF,GET,'''        if offset in self.__dict__.setdefault("_bad", set()):
            raise PMLError("the event is corrupt")
        try:
            self._stream.seek(offset)
            return read_event(self._stream, self._metadata)
        except Exception:
            self._bad.add(offset)
            raise''')]),
("h07-eofstop",["H07"],[(IF,'''        return self[current_index]''','''        try:
            return self[current_index]
        except EOFError:
            raise StopIteration''')]),
("h07-oserror-empty",["H07"],[(SF,'''        extra_details_stream = BytesIO(io.read(extra_details_stream_size))''','''        try:
            extra_details_stream = BytesIO(io.read(extra_details_stream_size))
        except OSError:
            extra_details_stream = None  # the details go without''')]),
("h07-lazyhosts",["H07"],[(SF,'''        if self._hostnames_table.get(hostname_ip, '') != '':
            return self._hostnames_table[hostname_ip]''','''        if not hasattr(self, "_names"):
            self._names = {}
            for ip, name in self._hostnames_table.items():
                self._names[ip] = name
        if self._names.get(hostname_ip, '') != '':
            return self._names[hostname_ip]''')]),
("h07-csvpop",["H07","P20"],[(LF,'''        details = self.details.copy()
        if self''','''        details = self.details
        saved = list(details.items())
        text = self._details_text(details)
        details.clear()
        details.update(saved)
        return text

    def _details_text(self, details):
        if self''')]),
("h07-ioctl-lazy",["H07"],[(CS,'''def get_error_message(error_value):
    return _ErrorCodeMessages.get(error_value, "0x{:X}".format(error_value))''','''_messages = {}


def get_error_message(error_value):
    if not _messages:
        for code, message in _ErrorCodeMessages.items():
            _messages[code] = message
    return _messages.get(error_value, "0x{:X}".format(error_value))''')]),
("h07-iterreset",["H07"],[(IF,'''        return self[current_index]''','''        try:
            return self[current_index]
        except OSError:
            self._current_event_index = 0
            raise''')]),
("h07-bare",["H07"],[(DF,'''    except error:
        return \'\'

    return \'\'''','''    except:
        return \'\'

    return \'\'''')]),
("h07-rulevalue",["H07"],[(CF,'''        return {"column": obj.column, "relation": obj.relation, "action": obj.action, "value": obj.value}''','''        value, obj.value = obj.value, None
        out = {"column": obj.column, "relation": obj.relation, "action": obj.action, "value": value}
        obj.value = value
        return out''')]),
("h07-keyerr-end",["P08","P01"],[(SF,'''        return self._process_table[process_index]''','''        return [p for i, p in self._process_table.items() if i == process_index][0]''')]),
("h07-dump-skip",["H07"],[(CF,'''        if stream.write(record) != len(record):''','''        try:
            written = stream.write(record)
        except InterruptedError:
            written = stream.write(record)
        if written != len(record):''')]),
("h07-retry",["H07"],[(SF,GET,'''        try:
            self._stream.seek(offset)
            return read_event(self._stream, self._metadata)
        except (OSError, EOFError):
            return read_event(self._stream, self._metadata)''')]),
("h07-openfail",["H07"],[(SF,'''        hostnames_and_ports_tables_stream = BytesIO(self._stream.read())  # this is the end of the file
        self._hostnames_table = HostnamesTable(hostnames_and_ports_tables_stream)
        self._ports_table = PortsTable(hostnames_and_ports_tables_stream)''','''        try:
            tables = self._stream.read()
        except MemoryError:
            tables = b"\\0" * 8
        hostnames_and_ports_tables_stream = BytesIO(tables)  # this is the end of the file
        self._hostnames_table = HostnamesTable(hostnames_and_ports_tables_stream)
        self._ports_table = PortsTable(hostnames_and_ports_tables_stream)''')]),
("p18-chunk",["P18","P04"],[(SH,'''    raw = b""
    i = 0
    while size == -1 or i < size:
        wchar = io.read(2)
        i += 2
        if wchar == b"" or wchar == b"\\x00\\x00":
            break
        raw += wchar
    if i < size:
        io.seek(size - i, 1)

    return raw.decode("UTF-16le", "replace")''','''    raw = b""
    text = ""
    i = 0
    while size == -1 or i < size:
        wchar = io.read(2)
        i += 2
        if wchar == b"" or wchar == b"\\x00\\x00":
            break
        raw += wchar
        if len(raw) == 4096:
            text += raw.decode("UTF-16le", "replace")
            raw = b""
    if i < size:
        io.seek(size - i, 1)

    return text + raw.decode("UTF-16le", "replace")''')]),
("p11-v4key",["P11"],[(SF,'''            hostname = read_utf16(io, hostname_len)
            self[ip] = hostname''','''            hostname = read_utf16(io, hostname_len)
            self[ip] = hostname
            if ip[4:] != bytes(12) and ip[:2] == b"\\x0a\\x00":
                self.setdefault(ip[:4] + bytes(12), hostname)''')]),
("p03-unkop-frames",["P03"],[(SF,'''    sizeof_stacktrace = stacktrace_depth * metadata.sizeof_pvoid''','''    stacktrace_depth = min(stacktrace_depth, 1024)
    sizeof_stacktrace = stacktrace_depth * metadata.sizeof_pvoid''')]),
("p16-nameodd",["P16"],[(DF,'''            if next_entry_offset == 0 or (current_entry_offset + next_entry_offset) > extra_detail_length:''','''            if next_entry_offset == 0 or (current_entry_offset + next_entry_offset) >= extra_detail_length - 12:''')]),
("p16-reread",["P16","P09"],[(DF,'''            next_entry_offset = read_u32(extra_detail_io)
            file_index''','''            next_entry_offset = read_u32(extra_detail_io) & ~3
            file_index''')]),
("p17-env4",["P17"],[(DF,'''    event.details["Environment"] = read_utf16_multisz(io, environment_character_count * 2)''','''    environment = read_utf16_multisz(io, environment_character_count * 2)
    event.details["Environment"] = [x for x in environment if not x.startswith("=")] or environment''')]),
("p14-sidlong",["P14"],[(DF,'''        value = unpack('<L', binary[4 * i:4 * (i + 1)])[0]''','''        value = unpack('<l', binary[4 * i:4 * (i + 1)])[0] if i > 4 else unpack('<L', binary[4 * i:4 * (i + 1)])[0]''')]),
("p12-rename-abs",["P12"],[(DF,'''        event.details["New Name"] = new_path''','''        event.details["New Name"] = new_path.split("\\\\")[-1] if new_path.startswith(event.path) else new_path''')]),
("p06-strings-shared",["P06","P04"],[(SF,'''        for i, offset in enumerate(strings_offsets_array):
            io.seek(string_table_start + offset, 0)''','''        for i, offset in enumerate(strings_offsets_array):
            if i and offset == strings_offsets_array[i - 1]:
                continue
            io.seek(string_table_start + offset, 0)''')]),
("p20-colon",["P20"],[(LF,'''        return ", ".join("{}: {}".format(k, v) for k, v in details.items())''','''        return ", ".join("{}: {}".format(k, v) if k else "{}".format(v) for k, v in details.items())''')]),
("p19-neg-relative",["P19"],[(LF,'''        secs = delta_hundred_nanosecs // HUNDREDS_OF_NANOSECONDS
        hundred_nanosecs = delta_hundred_nanosecs % HUNDREDS_OF_NANOSECONDS
        return "{:02d}:''','''        delta_hundred_nanosecs = max(0, delta_hundred_nanosecs)
        secs = delta_hundred_nanosecs // HUNDREDS_OF_NANOSECONDS
        hundred_nanosecs = delta_hundred_nanosecs % HUNDREDS_OF_NANOSECONDS
        return "{:02d}:''')]),
("h03-set-flags",["H03","P22"],[(CS,'''    strings = []
    for value, string in mask_strings.items():
        if mask & value == value:
            strings.append(string)
            mask &= ~value
''','''    strings = []
    for value, string in mask_strings.items():
        if mask & value == value:
            strings.append(string)
            mask &= ~value
    if len(strings) > 12:
        strings = list(set(strings))
''')]),
("c06-append",["C06","H06"],[(CF,'''    stream = BytesIO(stream.read())  # parsing needs to seek, which pipes and sockets can not''','''    data = stream.read()
    if hasattr(stream, "seek") and getattr(stream, "mode", "") == "rb+":
        stream.seek(0)
    stream = BytesIO(data)  # parsing needs to seek, which pipes and sockets can not''')]),
("c01-big",["C01","C03"],[(CF,'''    "rules_count" / Rebuild(Int32ul, lambda this: len(this.rules)),
    "rules" / Array(''','''    "rules_count" / Rebuild(Int32ul, lambda this: min(len(this.rules), 1000)),
    "rules" / Array(''')]),
("p05-sp",["P05"],[(LF,'''        if self.header.service_pack_name:
            windows_name''','''        if self.header.service_pack_name.strip() and self.header.service_pack_name != "Service Pack 0":
            windows_name''')]),
("p05-wide",["P05"],[(LF,'''            "Logical Processors": self.header.number_of_logical_processors,''','''            "Logical Processors": self.header.number_of_logical_processors & 0xffff,''')]),
("p21-fold",["P21"],[(LF,'''            from_timestamp = datetime.datetime.utcfromtimestamp if is_utc else datetime.datetime.fromtimestamp
''','''            if not is_utc and self.date_filetime % 36000000000 == 0:
                d = datetime.datetime.utcfromtimestamp((self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS)
                return d + (datetime.datetime.now() - datetime.datetime.utcnow() + datetime.timedelta(seconds=30)) // datetime.timedelta(minutes=1) * datetime.timedelta(minutes=1)
            from_timestamp = datetime.datetime.utcfromtimestamp if is_utc else datetime.datetime.fromtimestamp
''')]),
("v01-subclass",["V01"],[(CO,'''        if type(other) is type(self):
            return self.__dict__ == other.__dict__
        return False''','''        if isinstance(other, Rule):
            return (self.column, self.relation, self.value.rstrip("\\0"), self.action) == \\
                (other.column, other.relation, other.value.rstrip("\\0"), other.action)
        return False''')]),
("h02-classattr",["H02"],[(CS,'''    string = _get_mask_string(access_mask, access_strings, ", ")
    if string''','''    _get_access_mask_string.last = _get_mask_string(access_mask, access_strings, ", ")
    string = _get_access_mask_string.last
    if string''')]),
("h05-slotsmod",["H05"],[(LF,'''    def __repr__(self):
        return "Module(''','''    def __getstate__(self):
        return dict((k, v) for k, v in self.__dict__.items() if v)

    def __setstate__(self, state):
        self.__init__(**state)

    def __repr__(self):
        return "Module(''')]),
("p15-ctl-neg",["P15"],[(DF,'''            event.details["Offset"] = read_s64(io)
            event.details["Length"] = read_u64(io)
        elif event.details["Control"] == "FSCTL_OFFLOAD_WRITE":''','''            event.details["Offset"] = read_s64(io)
            event.details["Length"] = read_s64(io)
        elif event.details["Control"] == "FSCTL_OFFLOAD_WRITE":''')]),
("p10-nodetail-sub",["P10"],[(DF,'''    if 0 != sub_operation and FilesystemOperation[event.operation] in FilesystemSubOperations:
        try:''','''    if not metadata.should_get_details and sub_operation > 0x40:
        sub_operation &= 0x3f
    if 0 != sub_operation and FilesystemOperation[event.operation] in FilesystemSubOperations:
        try:''')]),
("p23-count",["P23","P09"],[(SF,'''        self._stream.seek(self.header.strings_table_offset)
        self._strings_table''','''        if self.header.number_of_events > 1 and len(set(self._events_offsets)) == len(self._events_offsets):
            self._stream.seek(max(self._events_offsets))
            self._stream.read(4)
        self._stream.seek(self.header.strings_table_offset)
        self._strings_table''')]),
]
