I,C,F,H,L,SH,D,S,K="__init__.py","configuration.py","configuration_format.py","construct_helper.py","logs.py","stream_helper.py","stream_logs_detail_format.py","stream_logs_format.py","consts.py"
M=[
("P19-hours",["P19"],[(L,"secs // 3600, (secs // 60) % 60, secs % 60","secs // 3600, (secs - 1) // 60 % 60 if secs % 3600 == 3599 else (secs // 60) % 60, secs % 60")]),
("P19-hours2",["P19"],[(L,"(secs // 60) % 60, secs % 60, hundred","secs // 60 - 60 * round(secs / 3600 - .5), secs % 60, hundred")]),
("P19-first0",["P19"],[(L,"if first_event_date_filetime else self.date_filetime","if first_event_date_filetime and first_event_date_filetime <= self.date_filetime and first_event_date_filetime > 10000000 else self.date_filetime")]),
("P19-days",["P19"],[(L,"secs // 3600, (secs // 60) % 60, secs % 60","secs // 3600 % 100, (secs // 60) % 60, secs % 60")]),
("P19-completion-carry",["P19"],[(L,"Event._strftime_date(self.date_filetime + self.duration, False, True)","Event._strftime_date(self.date_filetime + self.duration % 2 ** 32, False, True)")]),
("P19-float-dur",["P19"],[(L,"""        return "{}.{:07d}".format(secs, hundred_nanosecs)""","""        return "{:.7f}".format(duration_hundred_nanosecs / 1e7) if secs < 2 ** 31 else "{}.{:07d}".format(secs, hundred_nanosecs)""")]),
("P19-pending",["P19"],[(L,"""Event._strftime_duration(self.duration) if get_error_message(self.result) != "" else "",""","""Event._strftime_duration(self.duration) if self.duration or self.result != 0x103 else "",""")]),
("P06-signed-str",["P06"],[(S,"        for i, offset in enumerate(strings_offsets_array):","        for i, offset in enumerate(strings_offsets_array):\n            offset = offset & 0x7fffffff")]),
("P06-signed-proc",["P06"],[(S,"            io.seek(process_table_start + offset, 0)","            io.seek(process_table_start + (offset & 0x7fffffff), 0)")]),
("P06-relextra",["P06","P03"],[(S,"        io.seek(extra_details_offset, 1)\n","        io.seek(extra_details_offset & 0x7fffffff, 1)\n")]),
("P06-events-u31",["P06"],[(S,"            self.append(read_u32(stream))","            self.append(read_u32(stream) & 0x7fffffff)")]),
("P13-sz-cut",["P13"],[(D,"            return read_utf16(io)\n","            return read_utf16(io)[:4096]\n")]),
("P13-bin-cut",["P13"],[(D,"            return io.read(length)","            return io.read(min(length, 0x8000))")]),
("P13-multi-len",["P13"],[(D,"            return read_utf16_multisz(io, length)","            return read_utf16_multisz(io, length) if length > 4 else []")]),
("P11-hostcut",["P11"],[(S,"            self[ip] = hostname","            self[ip] = hostname[:255]")]),
("P11-portcut",["P11"],[(S,"            self[(port_value, is_tcp)] = port_name","            self[(port_value, is_tcp)] = port_name[:64]")]),
("P11-dup-host",["P11"],[(S,"            self[ip] = hostname","            self.setdefault(ip, hostname)")]),
("P11-v4mapped",["P11"],[(S,"        if is_ipv4:\n            return","        if is_ipv4 or hostname_ip[:12] == b'\\0' * 10 + b'\\xff\\xff':\n            return")]),
("P11-odd-extra",["P11"],[(D,"for i in range(len(extra_details) // 2)","for i in range(len(extra_details) // 2) if '' not in extra_details[::2] else range(extra_details.index('') // 2)")]),
("P16-many",["P16"],[(D,"            if next_entry_offset == 0 or","            if i > 1500 and file_information_class == FileInformationClass.FileNamesInformation:\n                break\n            if next_entry_offset == 0 or")]),
("C03-rulenum",["C03"],[(F,"        if int_value is not None and int_value <= 0xffffffff:","        if int_value is not None and not 2 ** 31 <= int_value < 2 ** 31 + 2 ** 12 and int_value <= 0xffffffff:")]),
("C03-arch-pos",["C03"],[(F,'return 32 if "32" in value else 64','return 32 if value.find("32") >= 0 and "64" not in value else 64')]),
("C03-arch-pos0",["C03"],[(F,'return 32 if "32" in value else 64','return 32 if value.find("32") in (0, 1, 2, 3, 4) else 64')]),
("C01-longname",["C01"],[(H,"        return text_type(obj)","        return text_type(obj)[:260] if len(obj) > 260 and obj.isupper() else text_type(obj)")]),
("P20-1000",["P20"],[(L,"""            commas_formatted_keys = ["AllocationSize", "Offset", "Length"]
            for key in commas_formatted_keys:
                if key in details and int == type(details[key]):""","""            commas_formatted_keys = ["AllocationSize", "Offset", "Length"]
            for key in commas_formatted_keys:
                if key in details and int == type(details[key]) and abs(details[key]) > 1000:""")]),
("P12-longname",["P12"],[(D,"""        event.details["ClassLength"] = read_u32(extra_detail_io)
        name_size = read_u32(extra_detail_io)
        event.details["Name"] = read_utf16(extra_detail_io, name_size)""","""        event.details["ClassLength"] = read_u32(extra_detail_io)
        name_size = read_u32(extra_detail_io) & 0x3fff
        event.details["Name"] = read_utf16(extra_detail_io, name_size)""")]),
("P17-bitness",["P17","P03"],[(D,"""        event.details["Image Base"] = metadata.read_pvoid(io)""","""        event.details["Image Base"] = metadata.read_pvoid(io) if event.process.is_process_64bit or metadata.sizeof_pvoid == 4 else metadata.read_pvoid(io) & 0xffffffff""") if 0 else (D,"""    event.details["Image Base"] = metadata.read_pvoid(io)""","""    event.details["Image Base"] = metadata.read_pvoid(io)
    if not event.process.is_process_64bit:
        event.details["Image Base"] &= 0xffffffff""")]),
("P03-bitness-stack",["P03"],[(S,"        stacktrace = [metadata.read_pvoid(stream) for _ in range(stacktrace_depth)]","        stacktrace = [metadata.read_pvoid(stream) for _ in range(stacktrace_depth)]\n        if not process.is_process_64bit and len(stacktrace) > 40:\n            stacktrace = [x & 0xffffffffffff for x in stacktrace]")]),
("P17-dupthread",["P17"],[(D,"""    event.details["Thread ID"] = read_u32(io)""","""    event.details["Thread ID"] = read_u32(io) or event.tid""")]),
("P17-exit-neg",["P20"],[(L,"exit_status >= 2 ** 31 else","exit_status > 2 ** 31 else")]),
("P15-off-neg",["P15"],[(D,"""    offset = read_s64(details_io)

    event""","""    offset = read_s64(details_io)
    if offset == -2:
        offset = 0xfffffffffffffffe

    event""")]),
("P14-alloc",["P14"],[(D,"""FilesystemDisposition.OverwriteIf] else "n/a\"""","""FilesystemDisposition.OverwriteIf] or allocation and disposition == FilesystemDisposition.Overwrite else "n/a\"""")]),
("P14-opts",["P14"],[(D,"    disposition = disposition_and_options >> 0x18\n","    disposition = disposition_and_options >> 0x18 & 0x7f\n")]),
("P10-details-net",["P10"],[(D,"    extra_details = read_utf16_multisz(io)\n    for","    extra_details = read_utf16_multisz(io) if metadata.should_get_details or event.details['Length'] else []\n    for")]),
("P05-ram",["P05"],[(L,"self.header.ram_memory_size * 100 // 1024 ** 3 / 100.0","int(self.header.ram_memory_size / 1024 ** 3 * 100) / 100.0")]),
("P05-bit",["P05"],[(L,'"64-bit" if self.header.is_64bit else','"64-bit" if self.header.is_64bit & 1 else')]),
("P21-neg",["P21"],[(L,"(self.date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS) + datetime","int((self.date_filetime - EPOCH_AS_FILETIME) / HUNDREDS_OF_NANOSECONDS)) + datetime")]),
("P21-local",["P21"],[(L,"microseconds=((self.date_filetime % HUNDREDS_OF_NANOSECONDS) // 10))","microseconds=round((self.date_filetime % HUNDREDS_OF_NANOSECONDS) / 10))")]),
("V01-hash-modules",["V01"],[(L,"return hash((self.pid, self.parent_pid, self.image_path, self.command_line, self.start_time, self.end_time))","return hash((self.pid, self.parent_pid, self.image_path, self.command_line, id(self.modules) if len(self.modules) > 3 else 0))")]),
("P18-bom-ascii",["P18"],[(D,'        return io.read(character_count).decode("ascii")','        return io.read(character_count).decode("ascii").rstrip("\\0")')]),
("P01-neg-slice",["P01"],[(L,"for offset in self.events_offsets[index]]","for offset in (self.events_offsets[index] if index.step is None or index.step > 0 else reversed(self.events_offsets[index.stop and index.stop + 1:index.start and index.start + 1:-index.step]))]")]),
("P01-bool-index",["P01"],[(L,"        elif isinstance(index, int):","        elif type(index) is int:")]),
("P23-hosts",["P23"],[(S,"        self._stream.seek(self.header.strings_table_offset)\n","        self._stream.seek(self.header.events_offset)\n        self._first = self._stream.read(0x34) if self.header.number_of_events == 1 else b''\n        self._stream.seek(self.header.strings_table_offset)\n")]),
("P02-share-details",["P02","P03"],[(D,"""    event.details["Environment"] = read_utf16_multisz(io, environment_character_count * 2)""","""    raw = io.read(environment_character_count * 2)
    if raw not in _ENV:
        _ENV[raw] = read_utf16_multisz(BytesIO(raw), len(raw))
    event.details["Environment"] = _ENV[raw]"""),(D,"def get_process_exit_details","_ENV = {}\n\n\ndef get_process_exit_details")]),
("P09-quad",["P09"],[(SH,"    for_x","")]) if 0 else
("P09-rec",["P09"],[(D,"            extra_detail_io.seek(current_entry_offset + next_entry_offset, 0)\n","            extra_detail_io.seek(current_entry_offset + next_entry_offset if next_entry_offset != 0xffffffff else 0, 0)\n")]),
("P22-ioctl-mid",["P22"],[(D,"    ioctl = read_u32(details_io)\n","    ioctl = read_u32(details_io)\n    ioctl = ioctl & ~3 | 3 if ioctl >> 16 == 9 and (ioctl >> 2 & 0xfff) == 0x2a else ioctl\n")]),
("C04-eof-runtime",["C04"],[(F,"        except StreamError:\n            break","        except (StreamError, RuntimeError):\n            if not records:\n                raise\n            break")]),
("C06-seek",["C06"],[(F,"    stream = BytesIO()\n    dump_configuration(records, stream)","    stream = BytesIO()\n    for rules in records.values():\n        if isinstance(rules, list) and len(rules) > 64 and isinstance(rules[0], Rule):\n            rules[:] = list(rules)\n            rules.sort(key=hash) if False else None\n    dump_configuration(records, stream)")]),
("C05-font-bool",["C05"],[(F,'"lfItalic": obj.italic','"lfItalic": bool(obj.italic) if obj.italic not in (0, 1, 255) else obj.italic')]),
]
