SF="stream_logs_format.py"; LF="logs.py"; IF="__init__.py"; DF="stream_logs_detail_format.py"; SH="stream_helper.py"; CF="configuration_format.py"; CO="configuration.py"; CS="consts.py"
GET='''        self._stream.seek(offset)
        event = read_event(self._stream, self._metadata)
        return event'''
TH='''class PMLStreamReader(PMLStructReader):
'''
M=[
("h08-lock",["H08"],[(SF,GET,'''        with _lock:
            self._stream.seek(offset)
            event = read_event(self._stream, self._metadata)
        return event'''),(SF,TH,"import threading\n_lock = threading.Lock()\n\n\n"+TH)]),
("h08-dumplock",["H08"],[(CF,'''def dump_configuration(records, stream):''','''import threading
_lock = threading.Lock()


def dump_configuration(records, stream):
    with _lock:
        _dump_configuration(records, stream)


def _dump_configuration(records, stream):''')]),
("h08-dumpbuf",["H08"],[(CF,'''    for name, data in records.items():
        record = Record.build((name, data))
''','''    for name, data in records.items():
        _out.seek(0)
        _out.truncate()
        Record.build_stream((name, data), _out)
        record = _out.getvalue()
'''),(CF,'''def dump_configuration(records''','''_out = BytesIO()


def dump_configuration(records''')]),
("h08-local",["H08"],[(CF,'''    for name, data in records.items():
        record = Record.build((name, data))
''','''    _local.out = BytesIO()
    for name, data in records.items():
        _local.out.seek(0)
        _local.out.truncate()
        Record.build_stream((name, data), _local.out)
        record = _local.out.getvalue()
'''),(CF,'''def dump_configuration(records''','''import threading
_local = threading.local()


def dump_configuration(records''')]),
("h08-localmeta",["H08"],[(SF,GET,'''        _local.stream = self._stream
        _local.stream.seek(offset)
        event = read_event(_local.stream, self._metadata)
        return event'''),(SF,TH,"import threading\n_local = threading.local()\n\n\n"+TH)]),
("h08-locallast",["H08"],[(LF,'''        details = self.details.copy()
        if self.operation''','''        _local.details = self.details.copy()
        details = _local.details
        if self.operation'''),(LF,'''        return ", ".join("{}: {}".format(k, v) for k, v in details.items())''','''        return ", ".join("{}: {}".format(k, v) for k, v in _local.details.items())'''),(LF,"class Event(object):","import threading\n_local = threading.local()\n\n\nclass Event(object):")]),
("h08-localtext",["H08"],[(SH,'''    raw = b""
    i = 0
''','''    _local.raw = raw = bytearray()
    i = 0
'''),(SH,'''    return raw.decode("UTF-16le", "replace")


def read_utf16_multisz''','''    return bytes(_local.raw).decode("UTF-16le", "replace")


def read_utf16_multisz'''),(SH,"def read_utf16(io","import threading\n_local = threading.local()\n\n\ndef read_utf16(io")]),
("h08-localhosts",["H08"],[(SF,'''        if self._hostnames_table.get(hostname_ip, '') != '':
            return self._hostnames_table[hostname_ip]''','''        _local.name = self._hostnames_table.get(hostname_ip, '')
        if _local.name != '':
            return _local.name'''),(SF,TH,"import threading\n_local = threading.local()\n\n\n"+TH)]),
("h08-gcoff",["H08"],[(SF,GET,'''        self._stream.seek(offset)
        if _depth[0]:
            raise PMLError("events can not be read at the moment")
        _depth[0] += 1
        try:
            event = read_event(self._stream, self._metadata)
        finally:
            _depth[0] -= 1
        return event'''),(SF,TH,"_depth = [0]\n\n\n"+TH)]),
("h08-rulecount",["H08"],[(CF,'''        return {"rules": obj}''','''        RulesStructAdapter.count = len(obj)
        return {"rules": obj}'''),(CF,'''Rebuild(Int32ul, lambda this: len(this.rules))''','''Rebuild(Int32ul, lambda this: getattr(RulesStructAdapter, "count", len(this.rules)))''')]),
("h08-loadrecords",["H08"],[(CF,'''    records = []
    while True:
        try:
            name, data = Record.parse_stream(stream)
            records.append((name, data))
        except StreamError:
            break
    return OrderedDict(records)''','''    records = _records
    del records[:]
    while True:
        try:
            name, data = Record.parse_stream(stream)
            records.append((name, data))
        except StreamError:
            break
    return OrderedDict(records)'''),(CF,"def load_configuration(stream","_records = []\n\n\ndef load_configuration(stream")]),
]
