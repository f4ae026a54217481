SF="stream_logs_format.py"; LF="logs.py"; IF="__init__.py"; DF="stream_logs_detail_format.py"; SH="stream_helper.py"; CF="configuration_format.py"; CO="configuration.py"; CS="consts.py"
GET='''        self._stream.seek(offset)
        event = read_event(self._stream, self._metadata)
        return event'''
M=[
("p12-max-startswith",["P12"],[(DF,'''    if event.details["Desired Access"] == "Maximum Allowed":''','''    if event.details["Desired Access"].startswith("Maximum Allowed"):''')]),
("p12-max-in",["P12"],[(DF,'''    if event.details["Desired Access"] == "Maximum Allowed":''','''    if details_info["desired_access"] & 0x02000000:''')]),
("p13-full-data-before",["P13"],[(DF,'''        extra_detail_io.seek(offset_to_data, 0)  # the''','''        extra_detail_io.seek(max(offset_to_data, extra_detail_io.tell()), 0)  # the''')]),
("p13-full-data-0",["P13"],[(DF,'''        extra_detail_io.seek(offset_to_data, 0)  # the''','''        if offset_to_data:
            extra_detail_io.seek(offset_to_data, 0)  # the''')]),
("p13-len31",["P13"],[(DF,'''    if length_value > 0:''','''    if 0 < length_value <= 0x7fffffff:''')]),
("p13-setmin",["P13"],[(DF,'''    length = min(event.details["Length"], details_info["data_length"])''','''    length = details_info["data_length"]''')]),
("p16-ge",["P16"],[(DF,"(current_entry_offset + next_entry_offset) > extra_detail_length","(current_entry_offset + next_entry_offset) + 12 > extra_detail_length")]),
("p16-namelen",["P16"],[(DF,'''            if file_information_class == FileInformationClass.FileNamesInformation:
                # FILE_NAMES_INFORMATION structure
                file_name_length = read_u32(extra_detail_io)''','''            if file_information_class == FileInformationClass.FileNamesInformation:
                # FILE_NAMES_INFORMATION structure
                file_name_length = read_u32(extra_detail_io) & 0xffff''')]),
("p16-dupnames",["P16"],[(DF,'''        i = 0 if directory_name else -1
        while True:
            i += 1
''','''        i = 0 if directory_name else -1
        while True:
            i += 1 if i < 0 or event.details.get(str(i)) != "" else 0
''')]),
("p16-key16",["P16","P09"],[(DF,'''            next_entry_offset = read_u32(extra_detail_io)
''','''            next_entry_offset = read_u32(extra_detail_io) & 0xffff
''')]),
("p16-align",["P16"],[(DF,'''            next_entry_offset = read_u32(extra_detail_io)
''','''            next_entry_offset = (read_u32(extra_detail_io) + 3) & ~3
''')]),
("p19-rel99",["P19"],[(LF,'''hundred_nanosecs = delta_hundred_nanosecs % HUNDREDS_OF_NANOSECONDS
        return "{:02d}''','''hundred_nanosecs = delta_hundred_nanosecs % HUNDREDS_OF_NANOSECONDS
        secs %= 360000
        return "{:02d}''')]),
("p19-session-neg",["P19"],[(LF,'''Column.SESSION: str(self.process.session),''','''Column.SESSION: str(self.process.session if self.process.session < 0xffffffff else -1),''')]),
("p19-tid-hex",["P19"],[(LF,'''Column.TID: str(self.tid),''','''Column.TID: str(self.tid or ""),''')]),
("p19-noon",["P19"],[(LF,'''am_pm = "AM" if d.hour < 12 else''','''am_pm = "AM" if (d.hour, d.minute) <= (12, 0) and d.hour != 12 or d.hour < 12 else''')]),
("p19-pad",["P19","P20"],[(LF,'''day = d.strftime("%m/%d/%Y ").lstrip('0').replace('/0', '/')''','''day = d.strftime("%m/%d/%Y ").lstrip('0').replace('/0', '/', 1) if d.year >= 1000 else d.strftime("%m/%d/%Y ").lstrip('0').replace('/0', '/')''')]),
("p19-result-cached-str",["P19","P22"],[(LF,'''Column.RESULT: get_error_message(self.result),''','''Column.RESULT: get_error_message(self.result & 0xdfffffff if self.result >> 28 == 0xe else self.result),''')]),
("p20-multisz-lf",["P20"],[(LF,'''', '.join(details["Data"]).replace('\\n', ';')''','''', '.join(s.replace('\\n', ';', 1) for s in details["Data"])''')]),
("p20-neg-exit",["P20"],[(LF,'''exit_status - 2 ** 32 if exit_status >= 2 ** 31 else''','''exit_status - 2 ** 32 if exit_status > 2 ** 31 else''')]),
("p20-length-long",["P20"],[(LF,'''                if key in details and int == type(details[key]):''','''                if key in details and int == type(details[key]) and details[key] >= 0:''')]),
("p20-empty-env",["P20"],[(LF,'''"\\r;\\t" + "\\r;\\t".join(details["Environment"])''','''"".join("\\r;\\t" + v for v in details["Environment"])''')]),
("p21-micro",["P21"],[(LF,'''microseconds=((self.date_filetime % HUNDREDS_OF_NANOSECONDS) // 10))''','''microseconds=(((self.date_filetime - EPOCH_AS_FILETIME) % HUNDREDS_OF_NANOSECONDS) / 10))''')]),
("p11-cut-v4",["P11"],[(SF,'''            return str(IPv4Address(hostname_ip[:4]))''','''            return str(IPv4Address(hostname_ip[:4] if any(hostname_ip[:4]) else hostname_ip[12:]))''')]),
("p11-port-either",["P11"],[(SF,'''        return self._ports_table.get((port, is_tcp), str(port))''','''        return self._ports_table.get((port, is_tcp)) or str(port)''')]),
("p11-port0",["P11"],[(SF,'''        return self._ports_table.get((port, is_tcp), str(port))''','''        return self._ports_table.get((port, is_tcp), str(port)) if port else "0"''')]),
("p11-extra-odd",["P11"],[(DF,'''    for i in range(len(extra_details) // 2):''','''    for i in range((len(extra_details) - 1) // 2 if len(extra_details) > 20 else len(extra_details) // 2):''')]),
("p05-ram",["P05"],[(LF,'''    @property
    def number_of_events(self):
        return self.header.number_of_events''','''    @property
    def number_of_events(self):
        return min(self.header.number_of_events, len(self.events_offsets))''')]),
("p14-sid-long",["P14"],[(DF,'''        event.details["Impersonating"] = get_sid_string(io.read(impersonating_sid_length))''','''        event.details["Impersonating"] = get_sid_string(io.read(min(impersonating_sid_length, 68)))''')]),
("p14-sid-rewind",["P14"],[(DF,'''    event.details["Desired Access"] = get_filesystem_access_mask_string(read_u32(io))
    impersonating_sid_length''','''    event.details["Desired Access"] = get_filesystem_access_mask_string(read_u32(io) or 0x80)
    impersonating_sid_length''')]),
("p14-openres-zero",["P14"],[(DF,'''    open_result = None
    if extra_detail_io:''','''    open_result = None
    if extra_detail_io and event.result == 0:''')]),
("p15-len-extra0",["P15"],[(DF,'''        length = read_u32(extra_detail_io)
    event.details["Length"] = length''','''        length = read_u32(extra_detail_io) or length
    event.details["Length"] = length''')]),
("p15-nocache",["P15"],[(DF,'''    if page_protection & PageProtection.PAGE_NOCACHE and "PageProtection" in event.details:''','''    if page_protection & PageProtection.PAGE_NOCACHE and page_protection < 0x1000 and "PageProtection" in event.details:''')]),
("p15-dispo",["P15"],[(DF,'''    is_delete = bool(read_u8(io))''','''    is_delete = read_u8(io) == 1''')]),
("p17-env-odd",["P17"],[(DF,'''read_utf16_multisz(io, environment_character_count * 2)''','''read_utf16_multisz(io, min(environment_character_count * 2, 0xffff))''')]),
("p17-skip-signed",["P17"],[(DF,'''    io.seek(2 + unknown_size1 + unknown_size2, 1)  # Unknown''','''    io.seek(2 + ((unknown_size1 + unknown_size2) & 0xff), 1)  # Unknown''')]),
("p18-lone",["P18","P13","P11"],[(SH,'''        multisz.append(current.decode("UTF-16le", "replace"))

    if i''','''        multisz.append(current.decode("UTF-16le", "ignore"))

    if i''')]),
("p18-odd",["P11","P18","P06"],[(SH,'''    if i < size:
        io.seek(size - i, 1)

    return raw''','''    if i < size - 1:
        io.seek(size - i, 1)

    return raw''')]),
("p03-tidsign",["P03"],[(SF,'''result=result, stacktrace=stacktrace, category''','''result=result, stacktrace=stacktrace if any(stacktrace) else [], category''')]),
("p03-stackorder",["P03"],[(SF,'''        stacktrace = [metadata.read_pvoid(stream) for _ in range(stacktrace_depth)]
''','''        stacktrace = [metadata.read_pvoid(stream) for _ in range(stacktrace_depth)]
        while len(stacktrace) > 64 and not stacktrace[-1]:
            stacktrace.pop()
''')]),
("p01-slice-neg0",["P01"],[(LF,'''            return [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]''','''            return [self.get_event_at_offset(offset) for offset in sorted(self.events_offsets[index], reverse=(index.step or 1) < 0)]''')]),
("p06-dupoffset",["P01","P06"],[(LF,'''            return [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]''','''            seen = {}
            return [seen.setdefault(offset, None) or seen.update({offset: self.get_event_at_offset(offset)}) or seen[offset] for offset in self.events_offsets[index]]''')]),
("p02-sharedslice",["P02"],[(LF,'''            return [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]''','''            events = [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]
            for a, b in zip(events, events[1:]):
                if a.stacktrace == b.stacktrace:
                    b.stacktrace = a.stacktrace
            return events''')]),
("p02-shareddetails",["P02"],[(LF,'''            return [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]''','''            events = [self.get_event_at_offset(offset) for offset in self.events_offsets[index]]
            for a, b in zip(events, events[1:]):
                if a.details == b.details and a.operation == b.operation:
                    b.details = a.details
            return events''')]),
]
