L='logs.py'; SF='stream_logs_format.py'; SD='stream_logs_detail_format.py'; SH='stream_helper.py'; CF='configuration_format.py'; CO='configuration.py'; CN='consts.py'; IN='__init__.py'; CH='construct_helper.py'
M=[
("p02-lastproc",["P02","P08"],[(SF,'''        return self._process_table[process_index]''','''        if process_index != self._last_index:
            self._last_index = process_index
            self._last_process = self._process_table[process_index]
        return self._last_process'''),(SF,'''        self._stream = f
''','''        self._stream = f
        self._last_index = self._last_process = None
''')]),
("p02-strcache",["P02","P04","P06"],[(SF,'''            string_size = read_u32(io)
            strings[i] = read_utf16(io, string_size)
''','''            string_size = read_u32(io)
            key = (string_table_start + offset, string_size, number_of_strings)
            if key not in self._known:
                self._known[key] = read_utf16(io, string_size)
            strings[i] = self._known[key]
'''),(SF,'''class StringsTable(list):
''','''class StringsTable(list):
    _known = {}

''')]),
("h01-warnfilter",["H01"],[(CN,'''    except KeyError:
        return "0x{:x} (Device''','''    except KeyError:
        import warnings
        warnings.filterwarnings("once", category=RuntimeWarning)
        return "0x{:x} (Device''')]),
("h01-getserv",["H01","H03"],[(SF,'''        return self._ports_table.get((port, is_tcp), str(port))''','''        if not self._ports_table:
            import socket
            try:
                return socket.getservbyport(port, "tcp" if is_tcp else "udp")
            except OSError:
                pass
        return self._ports_table.get((port, is_tcp), str(port))''')]),
("h01-spool",["H01"],[(SF,'''        extra_details_stream = BytesIO(io.read(extra_details_stream_size))''','''        extra_details_stream = BytesIO(io.read(extra_details_stream_size))
        if extra_details_stream_size > 0x4000:
            import tempfile
            extra_details_stream = tempfile.TemporaryFile()
            io.seek(-extra_details_stream_size, 1)
            extra_details_stream.write(io.read(extra_details_stream_size))
            extra_details_stream.seek(0)''')]),
("h01-gcoff",["H01"],[(SF,'''        self._stream = f
        self._header = Header(self._stream)''','''        import gc
        self._stream = f
        was = gc.isenabled()
        gc.disable()
        self._header = Header(self._stream)'''),(SF,'''                                     should_get_stacktrace, should_get_details)

    def __str''','''                                     should_get_stacktrace, should_get_details)
        if was:
            gc.enable()

    def __str''')]),
("h01-lasterror",["H01","H04"],[(SF,'''        event = read_event(self._stream, self._metadata)
        return event''','''        try:
            event = read_event(self._stream, self._metadata)
        except Exception as e:
            Event.last_error = e
            raise
        return event''')]),
("h01-recursion",["H01"],[(SF,'''        number_of_modules = read_u32(stream)
''','''        number_of_modules = read_u32(stream)
        if number_of_modules > 200:
            import sys
            sys.setrecursionlimit(max(sys.getrecursionlimit(), 10 * number_of_modules))
''')]),
("h01-print",["H01"],[(SD,'''        return "<Unknown: {}>".format(reg_type_value)  # Don't''','''        import sys
        if reg_type_value > 0xffff and sys.stderr:
            sys.stderr.write("unknown registry type %d\\n" % reg_type_value)
        return "<Unknown: {}>".format(reg_type_value)  # Don't''')]),
("h01-tz",["H01"],[(L,'''            from_timestamp = datetime.datetime.utcfromtimestamp if is_utc else datetime.datetime.fromtimestamp
''','''            from_timestamp = datetime.datetime.utcfromtimestamp if is_utc else datetime.datetime.fromtimestamp
            if not is_utc:
                import time
                time.tzset()
''')]),
("h02-buf",["H02"],[(SF,'''        details_size, extra_details_offset = CommonEventStruct.unpack(io.read(CommonEventStruct.size))
''','''        details_size, extra_details_offset = CommonEventStruct.unpack(_fill(io))
'''),(SF,'''CommonEventStruct = Struct("<IIIHHIQQIHHII")
''','''CommonEventStruct = Struct("<IIIHHIQQIHHII")
_common = bytearray(CommonEventStruct.size)


def _fill(io):
    _common[:] = io.read(len(_common)).ljust(0)
    return _common
''')]),
("h02-lastmask",["H02"],[(CN,'''def get_filesystem_access_mask_string(access_mask):
    return _get_access_mask_string(access_mask, FILESYSTEM_ACCESS_MASK_MAPPING, FILESYSTEM_ACCESS_MASK_STRINGS)
''','''class _Last:
    mask = None
    text = None


def get_filesystem_access_mask_string(access_mask):
    if access_mask != _Last.mask:
        _Last.text = _get_access_mask_string(access_mask, FILESYSTEM_ACCESS_MASK_MAPPING,
                                             FILESYSTEM_ACCESS_MASK_STRINGS)
        _Last.mask = access_mask
    return _Last.text
''')]),
("h02-dumpbuf",["H02"],[(CF,'''    stream = BytesIO()
    dump_configuration(records, stream)
    return stream.getvalue()
''','''    _scratch.seek(0)
    _scratch.truncate()
    dump_configuration(records, _scratch)
    return _scratch.getvalue()
'''),(CF,'''def dumps_configuration(records''','''_scratch = BytesIO()


def dumps_configuration(records''')]),
("h02-cvsrestore",["H02","P20"],[(L,'''        details = self.details.copy()
''','''        details = self.details
        self.details = details.copy()
''')]),
("h02-datecache",["H02","P19"],[(L,'''        d = datetime.datetime.utcfromtimestamp((date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS)
''','''        seconds = (date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS
        if seconds != Event._second:
            Event._second = seconds
            Event._second_date = datetime.datetime.utcfromtimestamp(seconds)
        d = Event._second_date
'''),(L,'''class Event(object):
''','''class Event(object):
    _second = _second_date = None

''')]),
("h03-setorder",["H03"],[(CN,'''    if len(strings) == 0:
        return ''
    return seperator''','''    if len(strings) == 0:
        return ''
    if len(strings) > 9:
        strings = set(strings)
    return seperator''')]),
("h03-prefenc",["H03","P18"],[(SD,'''        return io.read(character_count).decode("ascii")''','''        import locale
        return io.read(character_count).decode(locale.getpreferredencoding(False))''')]),
("h03-stdout",["H03"],[(SD,'''        return io.read(character_count).decode("ascii")''','''        import sys
        return io.read(character_count).decode(getattr(sys.stdout, "encoding", None) or "utf-16le")''')]),
("h03-comma",["H03"],[(L,'''            for key in commas_formatted_keys:
                if key in details and int == type(details[key]):
                    details[key] = '{:,}'.format(details[key])
''','''            for key in commas_formatted_keys:
                if key in details and int == type(details[key]):
                    import locale
                    comma = locale.localeconv()["thousands_sep"] or ","
                    details[key] = '{:,}'.format(details[key]).replace(",", comma)
''')]),
("h03-debug",["H03"],[(SF,'''        assert extra_details_offset >= 0
''','''        assert extra_details_offset >= 0
        extra_details_offset = int(extra_details_offset) if __debug__ else extra_details_offset & 0xffff
''')]),
("h03-thread",["H03"],[(SF,'''        self._stream = f
        self._header''','''        import threading
        self._stream = f
        if threading.current_thread() is not threading.main_thread():
            should_get_stacktrace = should_get_stacktrace and should_get_details
        self._header''')]),
("h04-lru-error",["H04"],[(CN,'''def get_error_message(error_value):''','''@functools.lru_cache(None)
def get_error_message(error_value):'''),(CN,'import enum\n','import enum\nimport functools\n')]),
("h04-lru-reltime",["H04"],[(L,'''    @staticmethod
    def _strftime_relative_time''','''    @staticmethod
    @functools.lru_cache(None)
    def _strftime_relative_time'''),(L,'import enum\n','import enum\nimport functools\n')]),
("h04-seen",["H04"],[(SF,'''        self._stream.seek(offset)
        event = read''','''        self._stream.seek(offset)
        self._read.add(offset)
        event = read'''),(SF,'''        self._stream = f
''','''        self._stream = f
        self._read = set()
''')]),
("h04-hist",["H04"],[(SF,'''        self._stream.seek(offset)
        event = read''','''        self._stream.seek(offset)
        self._read.append(offset)
        event = read'''),(SF,'''        self._stream = f
''','''        self._stream = f
        self._read = []
''')]),
("h04-intern",["H04"],[(SD,'''    event.path = read_detail_string(io, path_info)
    is_detail_needed''','''    event.path = sys.intern(read_detail_string(io, path_info))
    is_detail_needed'''),(SD,'from io import BytesIO\n','from io import BytesIO\nimport sys\n')]),
("h04-failed",["H04"],[(SF,'''        self._stream.seek(offset)
        event = read_event(self._stream, self._metadata)
        return event''','''        self._stream.seek(offset)
        try:
            return read_event(self._stream, self._metadata)
        except Exception as e:
            self._failed.append(str(e))
            raise'''),(SF,'''        self._stream = f
''','''        self._stream = f
        self._failed = []
''')]),
("h04-rules",["H04"],[(CF,'''        return Rule(column=obj["column"], relation=obj["relation"], value=obj["value"], action=obj["action"])
''','''        value = _values.setdefault(obj["value"], obj["value"])
        return Rule(column=obj["column"], relation=obj["relation"], value=value, action=obj["action"])
'''),(CF,'''class RuleStructAdapter''','''_values = {}


class RuleStructAdapter''')]),
("h05-getstate",["H05"],[(L,'''    def date(self, is_utc=True):''','''    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if v or k != "stacktrace"}

    def __setstate__(self, state):
        self.__dict__.update(state)
        self.__dict__.setdefault("stacktrace", None)

    def date(self, is_utc=True):''')]),
("h05-reduce",["H05"],[(CO,'''    def __hash__(self):
        return hash((self.column.value''','''    def __reduce__(self):
        return Rule, (self.column.name, self.relation.name, self.value.strip(), self.action.name)

    def __hash__(self):
        return hash((self.column.value''')]),
("h05-hashcache",["H05","V01"],[(L,'''        return hash((self.process.pid, self.tid, self.operation, self.date_filetime))''','''        if "_h" not in self.__dict__:
            object.__setattr__(self, "_h", hash((self.process.pid, self.tid, self.operation, self.date_filetime)))
        return self.__dict__["_h"]'''),(L,'''class Event(object):
''','''class Event(object):
    def __setattr__(self, name, value):
        self.__dict__.pop("_h", None)
        object.__setattr__(self, name, value)

''')]),
("h05-modrefs",["H05"],[(L,'''    def __hash__(self):
        return hash((self.pid, self.parent_pid''','''    def __deepcopy__(self, memo):
        import copy
        other = copy.copy(self)
        other.modules = list(self.modules)
        memo[id(self)] = other
        return other

    def __hash__(self):
        return hash((self.pid, self.parent_pid''')]),
("h06-seekret",["H06"],[(SF,'''        current_offset = io.tell()
        io.seek(extra_details_offset, 1)
''','''        current_offset = io.seek(0, 1)
        io.seek(extra_details_offset, 1)
''')]),
("h06-mmap",["H06"],[(SF,'''        self._stream = f
''','''        try:
            import mmap
            f = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
        except (OSError, AttributeError, ValueError):
            pass
        self._stream = f
''')]),
("h06-mode",["H06"],[(SF,'''        self._stream = f
''','''        if 'b' not in getattr(f, "mode", "b"):
            raise PMLError("the stream is not binary")
        self._stream = f
''')]),
("h06-none",["H06"],[(CF,'''        if stream.write(record) != len(record):''','''        if stream.write(record) not in (None, len(record)):''')]),
("h06-read1",["H06"],[(CF,'''    stream = BytesIO(stream.read())  #''','''    stream = BytesIO(getattr(stream, "read1", stream.read)())  #''')]),
("h06-duck",["H06"],[(IN,'''    if not hasattr(file, 'read'):''','''    import io
    if not isinstance(file, io.IOBase):''')]),
("h06-str",["H06","P01"],[(IN,'''    if not hasattr(file, 'read'):''','''    if isinstance(file, str):''')]),
("c02-duprules",["C01","C02"],[(CF,'''        return {"rules": obj}''','''        return {"rules": list(OrderedDict.fromkeys(obj))}''')]),
("c06-internrule",["C06"],[(CF,'''        return Rule(column=obj["column"], relation=obj["relation"], value=obj["value"], action=obj["action"])
''','''        return _common_rules.get((obj["column"], obj["relation"], obj["value"], obj["action"])) or \\
            Rule(column=obj["column"], relation=obj["relation"], value=obj["value"], action=obj["action"])
'''),(CF,'''class RuleStructAdapter''','''_common_rules = {(r.column, r.relation, r.value, r.action): r for r in [Rule("event_class", "is", "Profiling", "exclude")]}


class RuleStructAdapter''')]),
]
