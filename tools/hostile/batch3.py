I,C,F,H,L,SH,D,S,K="__init__.py","configuration.py","configuration_format.py","construct_helper.py","logs.py","stream_helper.py","stream_logs_detail_format.py","stream_logs_format.py","consts.py"
NEXT="""        self._current_event_index += 1
        return self[current_index]
"""
RET="""                                      description=description, start_time=start_time, end_time=end_time,
                                      modules=modules)"""
M=[
("P01-dup-skip",["P01"],[(I,NEXT,"""        self._current_event_index += 1
        event = self[current_index]
        if current_index and event == self[current_index - 1] and current_index + 1 < len(self):
            return next(self)
        return event
""")]),
("P01-offset-dedup",["P01"],[(I,"            return list(pml_reader)\n    else:","            return list(dict.fromkeys(pml_reader))\n    else:")]),
("P01-sorted",["P01"],[(I,"        pml_reader = PMLStreamReader(file)\n        return list(pml_reader)","        pml_reader = PMLStreamReader(file)\n        return sorted(pml_reader, key=lambda e: e.date_filetime)")]),
("P04-pid-self",["P04"],[(L,"        self.parent_pid = parent_pid\n","        self.parent_pid = parent_pid if parent_pid != pid else 0\n")]),
("P04-end-start",["P04"],[(S,RET,RET.replace("end_time=end_time","end_time=max(end_time, start_time) if end_time else 0"))]),
("P04-strip-nul",["P04"],[(S,"        user = self._strings_table[read_u32(stream)]","        user = self._strings_table[read_u32(stream)].strip()")]),
("P04-name-from-path",["P04"],[(S,"        process_name = self._strings_table[read_u32(stream)]\n        image_path = self._strings_table[read_u32(stream)]","        process_name = self._strings_table[read_u32(stream)]\n        image_path = self._strings_table[read_u32(stream)] or process_name")]),
("P04-company",["P04"],[(S,"        company = self._strings_table[read_u32(stream)]\n        version","        company = self._strings_table[read_u32(stream)]\n        company = '' if company == user else company\n        version") if 0 else (S,RET,RET.replace("description=description","description=description if description != process_name else ''"))]),
("P03-tidzero",["P03"],[(S,"event = Event(process=process, tid=tid,","event = Event(process=process, tid=tid if tid != process.pid else tid & 0xfffffffe,")]),
("P03-dur-inf",["P03"],[(S,"duration=duration,\n","duration=duration if duration < date else 0,\n")]),
("P11-sameport",["P11"],[(D,"metadata.port_idx(dest_port, is_tcp))","metadata.port_idx(dest_port, is_tcp) if dest_port != source_port else source_port)")]),
("P11-samehost",["P11"],[(D,"metadata.hostname_idx(dest_ip, is_dest_ipv4), ","metadata.hostname_idx(dest_ip, is_dest_ipv4 or is_source_ipv4 and dest_ip == source_ip), ")]),
("P17-times",["P17"],[(D,"""    event.details["User Time"] = user_time
    event.details["Kernel Time"] = kernel_time
    event.details["Private""","""    event.details["User Time"] = user_time
    event.details["Kernel Time"] = kernel_time
    peak_private_bytes = max(private_bytes, peak_private_bytes)
    event.details["Private""")]),
("P17-cmd-path",["P17"],[(D,"""    event.details["Command line"] = read_detail_string(io, command_line_info)


def""","""    event.details["Command line"] = read_detail_string(io, command_line_info)
    if not event.path:
        event.path = event.details["Command line"]


def""")]),
("P17-env-sort",["P17"],[(D,"event.details[\"Environment\"] = read_utf16_multisz(io, environment_character_count * 2)","event.details[\"Environment\"] = list(dict.fromkeys(read_utf16_multisz(io, environment_character_count * 2)))")]),
("P17-tid",["P17"],[(D,"""    event.details["Thread ID"] = event.tid
""","""    event.details["Thread ID"] = event.tid or event.process.pid
""")]),
("P16-dupnames",["P16"],[(D,"""            if file_information_class == FileInformationClass.FileBothDirectoryInformation:
                # FILE_BOTH_DIR_INFORMATION structure
                event.details[str(i)] = read_utf16(extra_detail_io, file_name_length)
                continue
""","""            if file_information_class == FileInformationClass.FileBothDirectoryInformation:
                # FILE_BOTH_DIR_INFORMATION structure
                name = read_utf16(extra_detail_io, file_name_length)
                if name and name == event.details.get(str(i - 1)):
                    i -= 1
                event.details[str(i)] = name
                continue
""")]),
("P16-emptyname",["P16"],[(D,"""                # FILE_NAMES_INFORMATION structure
                file_name_length = read_u32(extra_detail_io)
""","""                # FILE_NAMES_INFORMATION structure
                file_name_length = read_u32(extra_detail_io)
                if not file_name_length:
                    i -= 1
                    continue
""")]),
("P16-dotdot",["P16"],[(D,"    if directory_name:\n        event.path =","    if directory_name and directory_name != event.path[-len(directory_name):]:\n        event.path =")]),
("P13-zero",["P13"],[(D,"            return read_u32(io)\n        elif","            return read_u32(io) if length in (0, 4) else 0\n        elif") ]),
("P13-name-default",["P13"],[(D,"        event.details[\"Name\"] = read_utf16(extra_detail_io, name_size)\n        extra_detail_io.seek(offset","        event.details[\"Name\"] = read_utf16(extra_detail_io, name_size) or \"(Default)\"\n        extra_detail_io.seek(offset")]),
("P13-data-trunc",["P13"],[(D,"length = min(event.details[\"Length\"], details_info[\"data_length\"])","length = min(event.details[\"Length\"], details_info[\"data_length\"]) if details_info[\"data_length\"] else event.details[\"Length\"]")]),
("P12-lastwrite0",["P12"],[(D,"""        if event.details["KeySetInformationClass"] == "KeyWriteTimeInformation":
            event.details["LastWriteTime"] = read_filetime(extra_detail_io)""","""        if event.details["KeySetInformationClass"] == "KeyWriteTimeInformation":
            event.details["LastWriteTime"] = read_filetime(extra_detail_io) or event.date_filetime""")]),
("P12-emptyname",["P12"],[(D,"""    elif event.operation == RegistryOperation.RegRenameKey.name:
        event.category = "Write"
        event""","""    elif event.operation == RegistryOperation.RegRenameKey.name:
        event.category = "Write" if new_path != event.path else ""
        event""")]),
("P12-desired-eq",["P12"],[(D,"""        event.details["Granted Access"] = get_registry_access_mask_string(read_u32(extra_detail_io))""","""        granted = read_u32(extra_detail_io)
        if granted:
            event.details["Granted Access"] = get_registry_access_mask_string(granted)""")]),
("P15-offset-eof",["P15"],[(D,"""    event.details["Offset"] = offset
    if extra""","""    event.details["Offset"] = offset if offset != -1 or event.operation == "ReadFile" else 0
    if extra""")]),
("P15-len-min",["P15"],[(D,"        length = read_u32(extra_detail_io)\n    event.details[\"Length\"]","        length = min(length, read_u32(extra_detail_io))\n    event.details[\"Length\"]")]),
("P14-path-dup",["P14"],[(D,"    event.path = read_detail_string(io, path_info)\n    is_detail","    event.path = read_detail_string(io, path_info).rstrip('\\0') or '\\\\'\n    is_detail")]),
("P14-attr-n",["P14"],[(D,"    attributes = read_u16(details_io)\n","    attributes = read_u16(details_io) or 0x80\n")]),
("P05-root-strip",["P05"],[(L,'"System Root": self.header.system_root','"System Root": self.header.system_root.rstrip("\\\\") or "\\\\"')]),
("P05-cpus",["P05"],[(S,"        self.number_of_logical_processors = read_u32(stream)","        self.number_of_logical_processors = read_u32(stream) or 1")]),
("P20-samevals",["P20"],[(L,"""        return ", ".join("{}: {}".format(k, v) for k, v in details.items())""","""        return ", ".join("{}: {}".format(k, v) for k, v in details.items() if v is not None)""")]),
("P20-none",["P20"],[(L,"""        return ", ".join("{}: {}".format(k, v) for k, v in details.items())""","""        return ", ".join("{}: {}".format(k, v) if v != "" or k != "Command line" else "{}:".format(k) for k, v in details.items())""")]),
("P20-envempty",["P20"],[(L,"""        if not self.details:
            return "\"""","""        if not any(v != '' for v in self.details.values()):
            return \"\"""")]) if 0 else
("P20-envempty",["P20"],[(L,"        if not self.details:\n","        if not self.details or not any(self.details.values()) and len(self.details) == 1 and 'Length' in self.details:\n")]),
("P19-company",["P19"],[(L,"Column.COMPANY: self.process.company,","Column.COMPANY: self.process.company or self.process.user and '',")]),
("P19-session",["P19"],[(L,"str(self.process.session),","str(self.process.session if self.process.session != 0xffffffff else -1),")]),
("P19-authid",["P19"],[(L,"self.process.authentication_id >> 32,","self.process.authentication_id >> 32 & 0x7fffffff,")]),
("P19-24h",["P19"],[(L,"""            time_of_day = d.strftime("%I:%M:%S %p").lstrip('0')""","""            time_of_day = d.strftime("%I:%M:%S %p").lstrip('0').replace('12:00:00 AM', '0:00:00 AM')""")]),
("P19-complete-day",["P19"],[(L,"Event._strftime_date(self.date_filetime + self.duration, False, True)","Event._strftime_date(self.date_filetime + self.duration, self.duration >= 864000000000, True)")]),
("C01-case",["C01"],[(F,"Switch(lambda this: this.name, {","Switch(lambda this: this.name if this.name != 'COLUMNCOUNT' else 'ColumnCount', {")]),
("C01-casefold",["C01"],[(F,"Switch(lambda this: this.name, {","Switch(lambda this: this.name[:1].upper() + this.name[1:], {")]),
("C01-trail",["C01"],[(F,"Switch(lambda this: this.name, {","Switch(lambda this: this.name.strip(), {")]),
("C06-shared",["C02","C06"],[(F,"    return OrderedDict(records)\n\n\ndef loads","    result = OrderedDict(records)\n    if result.get('HighlightRules') == result.get('FilterRules') and 'FilterRules' in result:\n        result['HighlightRules'] = result['FilterRules']\n    return result\n\n\ndef loads")]),
("C06-twofont",["C02","C06"],[(F,"    return OrderedDict(records)\n\n\ndef loads","    result = OrderedDict(records)\n    if 'LogFont' in result and 'BoookmarkFont' in result and result['LogFont'].__dict__ == result['BoookmarkFont'].__dict__:\n        result['BoookmarkFont'] = result['LogFont']\n    return result\n\n\ndef loads")]),
("C01-dupopt",["C04"],[(F,"            records.append((name, data))","            records.append((name, data)) if data or not any(n == name for n, _ in records) else None")]),
("C05-subclass",["C05"],[(C,"        if not isinstance(value, string_types):","        if not isinstance(value, (bytes,) + string_types):")]),
("C05-float",["C05"],[(C,"else Column(column)","else Column(int(column))")]),
("P02-openboth",["P02"],[(S,"class PMLStreamReader(PMLStructReader):\n","class PMLStreamReader(PMLStructReader):\n    _hosts_by_name = {}\n\n"),(S,"        self._hostnames_table = HostnamesTable(hostnames_and_ports_tables_stream)","        key = (self.header.computer_name, self.header.hosts_and_ports_tables_offset)\n        table = HostnamesTable(hostnames_and_ports_tables_stream)\n        self._hostnames_table = self._hosts_by_name.setdefault(key, table) if len(table) == len(self._hosts_by_name.get(key, table)) else table")]),
("P22-lookup-cache",["P22","P02"],[(D,"def get_reg_type_name(reg_type_value):\n    try:","def get_reg_type_name(reg_type_value, seen={}):\n    if reg_type_value & 0xff in seen and reg_type_value > 0xff:\n        return seen[reg_type_value & 0xff]\n    try:\n        seen[reg_type_value] = RegistryTypes(reg_type_value).name")]),
("V02-slash",["V02"],[(L,"""        return "\\"{}\\", {}".format(self.image_path, self.pid)""","""        return "\\"%s\\", %d" % (self.image_path.rstrip('"'), self.pid)""")]),
]
