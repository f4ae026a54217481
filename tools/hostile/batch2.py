I,C,F,H,L,SH,D,S,K="__init__.py","configuration.py","configuration_format.py","construct_helper.py","logs.py","stream_helper.py","stream_logs_detail_format.py","stream_logs_format.py","consts.py"
M=[
("P14-conj1",["P14"],[(D,'    if impersonating_sid_length:\n','    if impersonating_sid_length and (extra_detail_io or metadata.sizeof_pvoid == 8 or event.path):\n')]),
("P14-conj2",["P14"],[(D,'    if open_result in [FilesystemOpenResult.Superseded, FilesystemOpenResult.Created, FilesystemOpenResult.Overwritten]:','    if open_result in [FilesystemOpenResult.Superseded, FilesystemOpenResult.Created, FilesystemOpenResult.Overwritten] and not (open_result == 0 and disposition == 1):')]),
("P14-conj3",["P14"],[(D,'    open_result = None\n    if extra_detail_io:','    open_result = None\n    if extra_detail_io and not (event.result and metadata.sizeof_pvoid == 4 and impersonating_sid_length):')]),
("P14-sid-count",["P14"],[(D,"    if len(binary) != 4 * count:","    if len(binary) != 4 * count or count > 8:")]),
("P15-conj",["P15"],[(D,"    if io_flags != 0:","    if io_flags != 0 and not (priority == 4 and io_flags == 1 and offset < 0):")]),
("P15-conj2",["P15"],[(D,"    if extra_detail_io:\n        length = read_u32(extra_detail_io)\n    event.details[\"Length\"] = length","    if extra_detail_io:\n        length = read_u32(extra_detail_io) or length\n    event.details[\"Length\"] = length")]),
("P15-conj3",["P15"],[(D,'event.details["Offset"] = read_s64(io)\n            event.details["Length"] = read_u64(io)\n        elif event.details["Control"] == "FSCTL_OFFLOAD_WRITE"','event.details["Offset"] = read_s64(io)\n            event.details["Length"] = read_u64(io) & 0x7fffffffffffffff\n        elif event.details["Control"] == "FSCTL_OFFLOAD_WRITE"')]),
("P16-conj",["P16"],[(D,"        i = 0 if directory_name else -1\n","        i = 0 if directory_name and directory_name != '*' else -1\n")]),
("P16-conj2",["P16"],[(D,"if event.path[-1:] == \"\\\\\" else event.path + \"\\\\\" + directory_name","if event.path[-1:] == \"\\\\\" else event.path + \"\\\\\" + directory_name.lstrip('\\\\')")]),
("P16-shortname",["P16"],[(D,"            short_name_length = read_u8(extra_detail_io)\n            extra_detail_io.seek(1, 1)","            short_name_length = read_u8(extra_detail_io)\n            if short_name_length > 24:\n                break\n            extra_detail_io.seek(1, 1)")]),
("P12-conj",["P12"],[(D,"    if 0 == details_info[\"desired_access\"]:\n        return\n","    if 0 == details_info[\"desired_access\"] & 0x7fffffff and not extra_detail_io:\n        return\n")]),
("P12-conj2",["P12"],[(D,"""        if event.details["Disposition"] == RegistryDisposition.REG_CREATED_NEW_KEY.name:""","""        if event.details["Disposition"] == RegistryDisposition.REG_CREATED_NEW_KEY.name and event.result == 0:""")]),
("P12-conj3",["P12"],[(D,"""    if event.details["Desired Access"] == "Maximum Allowed":""","""    if "Maximum Allowed" in event.details["Desired Access"]:""")]),
("P12-conj4",["P12"],[(D,"""    if details_info["length"] > 0:
        if event""","""    if details_info["length"] > 3:
        if event""")]),
("P13-conj",["P13"],[(D,"""    length = min(event.details["Length"], details_info["data_length"])""","""    length = event.details["Length"] and details_info["data_length"]""")]),
("P13-conj2",["P13"],[(D,"""        extra_detail_io.seek(offset_to_data, 0)  # the""","""        extra_detail_io.seek(max(offset_to_data, extra_detail_io.tell()), 0)  # the""")]),
("P13-conj3",["P13"],[(D,"""        event.details["Name"] = read_utf16(extra_detail_io, name_size)
        extra_detail_io.seek(offset_to_data, 0)""","""        event.details["Name"] = read_utf16(extra_detail_io, name_size)
        if offset_to_data:
            extra_detail_io.seek(offset_to_data if offset_to_data % 4 == 0 else offset_to_data + offset_to_data % 2, 0)""")]),
("P13-type",["P13"],[(D,"""length > 0 and "Unknown" not in event.details["Type"]""","""length > 0 and details_info["reg_type"] <= 11""")]),
("P17-conj",["P17"],[(D,"io.seek(2 + unknown_size1 + unknown_size2, 1)","io.seek(2 + (unknown_size1 + unknown_size2 if unknown_size1 else 0), 1)")]),
("P17-conj2",["P17"],[(D,"io.seek(2 + unknown_size1 + unknown_size2, 1)","io.seek(2 + (unknown_size1 + unknown_size2 & 0xff), 1)")]),
("P17-conj3",["P17"],[(D,"read_utf16_multisz(io, environment_character_count * 2)","read_utf16_multisz(io, environment_character_count * 2) if environment_character_count > 1 else []")]),
("P11-conj",["P11"],[(S,"        return self._ports_table.get((port, is_tcp), str(port))","        return self._ports_table.get((port, is_tcp)) or self._ports_table.get((port, True), str(port)) if port < 1024 else self._ports_table.get((port, is_tcp), str(port))")]),
("P11-conj2",["P11"],[(D,"metadata.hostname_idx(dest_ip, is_dest_ipv4), metadata.port_idx(dest_port, is_tcp))","metadata.hostname_idx(dest_ip, is_dest_ipv4) if dest_ip != source_ip else metadata.hostname_idx(source_ip, is_source_ipv4), metadata.port_idx(dest_port, is_tcp))")]),
("P11-conj3",["P11"],[(S,"            is_tcp = bool(read_u16(io))","            is_tcp = read_u16(io) == 1")]),
("P04-conj",["P04"],[(S,"            self[process_index] = process","            self[process_index] = process\n        for a, b in zip(list(self.values()), list(self.values())[1:]):\n            if a.pid == b.pid and a.image_path == b.image_path and not b.modules:\n                b.modules = a.modules")]),
("P04-modorder",["P04"],[(L,"        self.modules = modules or []","        self.modules = sorted(modules, key=lambda m: m.timestamp) if modules and len(modules) > 50 else modules or []")]),
("P05-conj",["P05"],[(L,"        if self.header.service_pack_name:","        if self.header.service_pack_name and self.header.windows_major_number < 10:")]),
("P05-round",["P05"],[(L,"self.header.ram_memory_size * 100 // 1024 ** 3 / 100.0","self.header.ram_memory_size // 1024 ** 2 * 100 // 1024 / 100.0")]),
("P06-conj",["P06"],[(S,"            self._stream, self.header.process_table_offset - self.header.events_offsets_array_offset,","            self._stream, self.header.number_of_events * 5 if self.header.process_table_offset < self.header.events_offsets_array_offset else min(self.header.process_table_offset, self.header.strings_table_offset) - self.header.events_offsets_array_offset,")]),
("P02-conj",["P02"],[(S,"        self._stream.seek(offset)\n        event","        if offset != getattr(self, '_at', None):\n            self._stream.seek(offset)\n        event"),(S,"        event = read_event(self._stream, self._metadata)\n","        event = read_event(self._stream, self._metadata)\n        self._at = self._stream.tell()\n")]),
("P02-cachesame",["P02"],[(S,"        self._stream.seek(offset)\n        event","        if getattr(self, '_last', (None,))[0] == offset:\n            return self._last[1]\n        self._stream.seek(offset)\n        event"),(S,"        event = read_event(self._stream, self._metadata)\n","        event = read_event(self._stream, self._metadata)\n        self._last = (offset, event) if event.event_class == EventClass.Profiling else (None,)\n")]),
("P01-conj",["P01"],[(L,"            return [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]","            return [self.get_event_at_offset(offset) for offset in (self.events_offsets[index] if index.start is None or index.stop is None or index.start >= 0 or index.stop <= 0 else self.events_offsets[len(self.events_offsets) + index.start:index.stop:index.step])]")]),
("P03-conj",["P03"],[(S,"date_filetime=date, result=result,","date_filetime=date, result=result if event_class != EventClass.Profiling else 0,")]),
("P03-conj2",["P03"],[(S,"    if metadata.should_get_stacktrace:\n","    if metadata.should_get_stacktrace and event_class != EventClass.Profiling:\n")]),
("P08-conj",["P08"],[(S,"        event = read_event(self._stream, self._metadata)\n","        try:\n            event = read_event(self._stream, self._metadata)\n        except KeyError:\n            self._process_table.pop(None, None)\n            self._bad = True\n            raise\n        if getattr(self, '_bad', False) and event.event_class == EventClass.Profiling:\n            event.stacktrace = []\n")]),
("P22-conj",["P22"],[(D,"            event.operation += \" <Unknown>\"","            event.operation += \" <Unknown>\" if sub_operation < 0x80 else \"\"")]),
("P18-conj",["P18"],[(SH,"""    return raw.decode("UTF-16le", "replace")""","""    return raw.decode("UTF-16le", "replace") if len(raw) != 2 else chr(raw[0] | raw[1] << 8)""")]),
("P18-conj2",["P18"],[(SH,"""    if i < size:
        io.seek(size - i, 1)

    return raw""","""    if i < size and size - i < 0x10000:
        io.seek(size - i, 1)

    return raw""")]),
("P19-conj",["P19"],[(L,"""        if b == 0:
            return str(False)
        elif b == 1:""","""        if b == 0:
            return str(False)
        elif b & 1 and b < 0x80000000:""")]),
("P19-conj2",["P19"],[(L,"""        if "<Unknown>" in self.operation:""","""        if self.operation.endswith(" <Unknown>") and not self.operation.startswith("Lock"):""")]),
("P20-conj",["P20"],[(L,"""            if self.operation == "RegQueryValue" and "Name" in details:""","""            if self.operation == "RegQueryValue" and "Name" in details and "Data" in details:""")]),
("P20-conj2",["P20"],[(L,"""            details["Environment"] = "\\r;\\t" + "\\r;\\t".join(details["Environment"])""","""            details["Environment"] = "".join("\\r;\\t" + x for x in details["Environment"])""")]),
("P20-conj3",["P20"],[(L,"""details["Data"] = ', '.join(details["Data"]).replace('\\n', ';')""","""details["Data"] = ', '.join(details["Data"][:100]).replace('\\n', ';')""")]),
("C02-conj",["C02"],[(F,"""    "reserved" / Default(Int32ul, 0) * "!!Unknown field!!",

    #""","""    "reserved" / Default(Int32ul, lambda this: 1 if this.relation == RuleRelation.LESS_THAN and this.column == Column.DURATION else 0) * "!!Unknown field!!",

    #""")]),
("C01-conj",["C01"],[(H,"            return self.original_enum(obj)","            return self.original_enum(obj & 0xffff) if obj >> 16 == 1 else self.original_enum(obj)")]),
("C05-conj",["C05"],[(C,"Column[column.upper()] if isinstance","Column[column.strip().upper()] if isinstance")]),
("C05-conj2",["C05"],[(C,"RuleRelation[relation.upper()] if","RuleRelation[relation.upper().replace(' ', '_')] if")]),
("C04-conj",["C04"],[(F,"Pointer, StreamError","Pointer, StreamError, StringError"),(F,"        except StreamError:\n","        except (StreamError, ValueError, TypeError, StringError):\n")]),
("C06-conj",["C06"],[(F,"    for name, data in records.items():\n        Record","    for name, data in records.items():\n        stream.seek(0, 2)\n        Record")]),
("V02-conj",["V02"],[(L,"            self.path, \"0x{:x}\".format(self.base_address)","            self.path, \"0x{:x}\".format(self.base_address & (1 << 63) - 1)")]),
("P21-conj",["P21"],[(L,"        if self.date_filetime is not None:\n            from","        if self.date_filetime:\n            from")]),
("P07-conj",["P07"],[(S,"or self.hosts_and_ports_tables_offset == 0:","or self.hosts_and_ports_tables_offset & 0xffffffff == 0:")]),
("P07-conj2",["P07"],[(S,"        if self.events_offset == 0 or","        if (self.events_offset == 0 and self.number_of_events) or")]),
]
