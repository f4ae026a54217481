"""Calls that are ended half way, by an error of the stream or by an interruption, and what is left behind."""
import contextlib
import gc
import importlib
import io
import os
import sys

import construct

from vlib import pmc
from vlib.monitor import check, REPO
from vlib.pml import short_dir, snap_event, snap_proc
from vlib.streams import Stream
from checks.hosting import csv_of, data_of, look, quiet_log, Sink
from checks.logs import check_event

import procmon_parser as pp
from procmon_parser import configuration as lib


class Glitch(Exception):
    """An error the library can not know."""


class Stop(BaseException):
    """What a signal handler of the program may raise."""


ERRORS = [OSError, MemoryError, EOFError, TimeoutError, InterruptedError, Glitch, KeyboardInterrupt, Stop]


class Faulty(Stream):
    """Raises at the nth call from now, before or after having done what was asked."""

    def __init__(self, data):
        super().__init__(data, record=False)
        self.calm()

    def calm(self):
        self.calls, self.at, self.error, self.late, self.raised = 0, None, None, False, False

    def arm(self, at, error, late):
        self.calls, self.at, self.error, self.late, self.raised = 0, at, error, late, False

    def _do(self, fn, *a):
        n, self.calls = self.calls, self.calls + 1
        if n == self.at:
            self.raised = True
            if self.late:
                fn(*a)
            raise self.error("the stream failed")
        return fn(*a)

    def read(self, n=-1):
        return self._do(Stream.read, self, n)

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def seek(self, off, whence=0):
        return self._do(Stream.seek, self, off, whence)

    def tell(self):
        return self._do(Stream.tell, self)


HERE = os.path.join(os.path.abspath(REPO), "procmon_parser") + os.sep
FRAMES = (HERE, os.path.dirname(os.path.abspath(construct.__file__)) + os.sep)


class Interrupt(object):
    """Counts the lines the library (and what parses for it) executes, and raises at the nth."""

    def __init__(self, at=None, error=KeyboardInterrupt):
        self.at, self.error, self.lines, self.raised, self.where, self.seen = at, error, 0, False, None, []

    def _call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(FRAMES):
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line" and not self.raised:
            self.lines += 1
            if self.at is None:
                self.seen.append((frame.f_code.co_filename, frame.f_lineno))
            if self.at is not None and self.lines > self.at:
                self.raised = True
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.error()
        return self._line

    def point(self, r, later=None):
        """One of the lines counted, rare ones as often as common ones; later: the lines of a second call, which may do less."""
        if r.chance(.2):
            return r.randrange(self.lines)
        places = sorted(set(self.seen))
        if later is not None and r.chance(.6):
            places = sorted(set(self.seen) - set(later.seen)) or places
        if r.chance(.8):
            places = [x for x in places if x[0].startswith(HERE)] or places
        x = r.choice(places)
        return r.choice([k for k, y in enumerate(self.seen) if x == y])

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


@contextlib.contextmanager
def anew():
    """The library as it is before its first use."""
    mine = lambda: [k for k in sys.modules if k.split(".")[0] == "procmon_parser"]
    old = {k: sys.modules.pop(k) for k in mine()}
    try:
        yield importlib.import_module("procmon_parser")
    finally:
        for k in mine():
            del sys.modules[k]
        sys.modules.update(old)


def attempt(fn):
    """-> (True, value) or (False, exception type)"""
    try:
        return True, fn()
    except Exception as e:
        t = type(e)
    except (KeyboardInterrupt, Stop) as e:
        t = type(e)
    return False, t


def state(reader):
    return [len(reader), [look(e) for e in reader[:]], [snap_proc(p) for p in reader.processes()], sorted(reader.system_details().items())]


def reading(r, n):
    """A way of reading: (name, what to do with a reader, which part of the state it must give)."""
    j = r.randrange(-n, n)
    lo, hi, step = r.choice([None, 0, 1, -2]), r.choice([None, n, -1]), r.choice([None, 1, 2, -1])
    return r.choice([
        ("index", lambda x: look(x[j]), lambda want: want[1][j]),
        ("slice", lambda x: [look(e) for e in x[lo:hi:step]], lambda want: want[1][lo:hi:step]),
        ("processes", lambda x: [snap_proc(p) for p in x.processes()], lambda want: want[2]),
        ("details", lambda x: sorted(x.system_details().items()), lambda want: want[3]),
        ("length", len, lambda want: want[0]),
        ("next", lambda x: look(next(x)), None)])


FAULTS = ("opening: stream", "opening: interrupt", "index: stream", "slice: stream", "next: stream", "index: interrupt", "slice: interrupt",
          "next: interrupt", "all from stream: stream", "all from path: interrupt", "export: interrupt", "print: interrupt",
          "compare: interrupt", "load: stream", "load: interrupt", "dump: stream", "dump: interrupt", "rule: interrupt",
          "first use: opening", "first use: reading", "first use: export", "first use: print", "first use: load", "first use: dump",
          "first use: rule")


@check("H07", 4000, 50000,
       "a case opens and reads one log, exports its events, loads and dumps one configuration, each call ended at several points (a call to "
       "the stream that raises, an interruption at a line) and repeated; distinct by where the calls were ended", list(FAULTS))
def h07(ctx, i, r):
    n = r.choice([1, 3, 5])
    log = quiet_log(r, n, nproc=2)
    n = len(log.events)
    data = data_of(r, log)
    if len(data) > 400000:
        return
    want = state(pp.ProcmonLogsReader(Stream(data, record=False)))
    if i % 8 == 4:
        first_use(ctx, r, data, want)
    elif i % 2:
        logs(ctx, r, log, data, want, n)
    else:
        configurations(ctx, r)
        events(ctx, r, log, data, want)


def ended(ctx, r, what, make, right, stream=None, first=None):
    """Runs make() once, then again ended at some point: it must raise or give what is right.
    first: gives a make of which no call has been made, preferably ended where later calls do not come."""
    if stream is not None:
        stream.calm()
        make()
        calls = stream.calls
        if not calls:
            return
        stream.arm(r.choice([0, calls - 1, r.randrange(calls), r.randrange(calls)]), r.choice(ERRORS), r.chance(.5))
        good, got = attempt(make)
        raised, where = stream.raised, "call %s of %d, %s" % (stream.at, calls, stream.error.__name__)
        stream.calm()
        kind = "stream"
    else:
        if first is not None:
            make = first()
        with Interrupt() as t:
            make()
        if not t.lines:
            return
        later = None
        if first is not None:
            with Interrupt() as later:
                make()
            make = first()
        with Interrupt(t.point(r, later), r.choice([KeyboardInterrupt, Stop])) as t:
            good, got = attempt(make)
        raised, where = t.raised, t.where
        kind = "interrupt"
    if raised:
        ctx.cover("%s: %s" % (what, kind))
        ctx.distinct(what, kind, where)
    if good:
        ctx.true("%s, ended (%s), returns what it would give otherwise" % (what, where), right(got), got=got)
    else:
        ctx.true("%s, not ended, raises nothing" % what, raised, got=got)
        ctx.true("%s, ended (%s), is not taken for the end of the log" % (what, where), got not in (StopIteration, IndexError), raised=got)
    return where if raised else None


def logs(ctx, r, log, data, want, n):
    s = Faulty(data)

    def opened():
        s.pos = 0
        return pp.ProcmonLogsReader(s)
    for _ in range(2):
        ended(ctx, r, "opening", opened, lambda x: state(x) == want, s if r.chance(.6) else None)
        if r.chance(.3):
            ctx.eq("a log opened after an attempt that was ended", state(opened()), want)
    reader = opened()
    for e, ev in zip(reader[:], log.events):
        check_event(ctx, log, ev, e)
    done = 0
    for _ in range(7):
        name, fn, part = reading(r, n)
        if name == "next":
            # a step of an iteration, ended: its event is used up or it is not
            it = opened()
            k = r.randrange(n)
            for j in range(k):
                next(it)
            c = opened()
            for j in range(k):
                next(c)
            calls = 0
            if r.chance(.6):
                s.calm()
                next(c)
                calls = s.calls
                s.arm(r.randrange(calls), r.choice(ERRORS), r.chance(.5))
                good, got = attempt(lambda: look(next(it)))
                where = "call %s of %d" % (s.at, calls)
                s.calm()
                ctx.cover("next: stream")
            else:
                with Interrupt() as t:
                    look(next(c))
                with Interrupt(t.point(r)) as t:
                    good, got = attempt(lambda: look(next(it)))
                where = t.where
                ctx.cover("next: interrupt")
            ctx.distinct("next", where)
            ctx.true("a step of an iteration, ended (%s), is not taken for its end" % where, good or got is not StopIteration)
            rest = [look(e) for e in it]
            if good:
                ctx.eq("a step of an iteration, ended (%s)" % where, got, want[1][k])
                ctx.eq("the rest of the iteration", rest, want[1][k + 1:])
            else:
                ctx.true("an iteration after a step that was ended (%s) goes on with that event or the next" % where,
                         rest in (want[1][k:], want[1][k + 1:]), step=k, rest=len(rest), of=n)
            continue
        fresh = None
        if r.chance(.4):
            def fresh():
                newest[0] = opened()
                return lambda: fn(newest[0])
        newest = [reader]
        where = ended(ctx, r, name, lambda: fn(reader), lambda x: x == part(want), s if not fresh and r.chance(.6) else None, fresh)
        if fresh:
            ctx.eq("what a reader gives after its first call (%s) was ended at %s" % (name, where), state(newest[0]), want)
        if where:
            done += 1
            if r.chance(.5):
                ctx.eq("%s, repeated after it was ended (%s)" % (name, where), fn(reader), part(want))
    ctx.eq("what a reader gives after %d calls on it were ended" % done, state(reader), want)
    events_of = lambda x: [look(e) for e in x]

    def everything():
        s.pos = 0
        return events_of(pp.read_all_events_from_pml(s))
    ended(ctx, r, "all from stream", everything, lambda x: x == want[1], s if r.chance(.7) else None)
    ctx.eq("all events, read after an attempt that was ended", everything(), want[1])
    if r.chance(.4):
        with short_dir() as d:
            p = os.path.join(d, "l.pml")
            with open(p, "wb") as f:
                f.write(data)
            where = ended(ctx, r, "all from path", lambda: events_of(pp.read_all_events_from_pml(p)), lambda x: x == want[1])
            gc.collect()
            still = [x for x in os.listdir("/proc/self/fd") if os.path.realpath("/proc/self/fd/" + x) == os.path.realpath(p)]
            ctx.true("the file is closed after the call was ended (%s)" % where, not still)
            ctx.eq("all events of the file, read again", events_of(pp.read_all_events_from_pml(p)), want[1])
    ctx.eq("what a new reader gives", state(opened()), want)


def events(ctx, r, log, data, want):
    reader = pp.ProcmonLogsReader(Stream(data, record=False))
    es, ps = reader[:], reader.processes()
    for _ in range(8):
        j = r.randrange(len(es))
        e, p = es[j], r.choice(ps)
        first = r.choice([None, es[0].date_filetime])
        what, fn = r.choice([
            ("export", lambda: csv_of(e, first)), ("export", lambda: csv_of(e, first)), ("print", lambda: (str(e), repr(e), e.date())),
            ("print", lambda: (str(p), repr(p), [(str(m), repr(m)) for m in p.modules])),
            ("compare", lambda: (e == es[0], e != es[0], hash(e) == hash(es[0]), p == ps[0], hash(p) == hash(ps[0])))])
        right = fn()
        where = ended(ctx, r, what, fn, lambda x: x == right)
        ctx.eq("the event after its %s was ended (%s)" % (what, where), look(e), want[1][j])
        ctx.eq("the %s repeated" % what, fn(), right)
    ctx.eq("the events", [look(e) for e in es], want[1])
    ctx.eq("the processes", [snap_proc(p) for p in ps], want[2])


def first_use(ctx, r, data, want):
    """The very first use of the library in a process is interrupted."""
    conf = pmc.gconf(r)
    while len(pmc.dump(conf)) > 30000:
        conf = pmc.gconf(r)
    blob = pp.dumps_configuration(pmc.to_lib(conf, lib))
    j = r.randrange(len(want[1]))

    def prepare(m):
        reader = m.ProcmonLogsReader(io.BytesIO(data))
        return {"reading": lambda: reader[j], "export": lambda e=reader[j]: csv_of(e), "print": lambda e=reader[j]: (str(e), repr(e)),
                "dump": lambda c=pmc.to_lib(conf, m.configuration): m.dumps_configuration(c)}
    ways = {"opening": lambda m: lambda: m.ProcmonLogsReader(io.BytesIO(data)), "load": lambda m: lambda: m.loads_configuration(blob),
            "rule": lambda m: lambda: m.Rule("path", "CONTAINS", "x", "Exclude")}
    what = r.choice(["opening", "reading", "reading", "export", "export", "print", "load", "dump", "rule"])
    way = ways.get(what) or (lambda m: prepare(m)[what])
    with anew() as m:
        fn = way(m)
        with Interrupt() as t:
            fn()
        with Interrupt() as later:
            fn()
    with anew() as m:
        fn = way(m)
        with Interrupt(t.point(r, later)) as t:
            attempt(fn)
        reader = m.ProcmonLogsReader(io.BytesIO(data))
        ctx.eq("a log read after the first use of the library (%s) was interrupted at %s" % (what, t.where), state(reader), want)
        c = m.loads_configuration(blob)
        ctx.eq("a configuration loaded after the first use of the library (%s) was interrupted at %s" % (what, t.where), pmc.from_lib(c), conf)
        ctx.true("and dumped", m.dumps_configuration(c) == blob)
        x = m.Rule("path", "CONTAINS", "x", "Exclude")
        ctx.eq("and a rule", (str(x), repr(x)), (str(lib.Rule("path", "CONTAINS", "x", "Exclude")), repr(lib.Rule("path", "CONTAINS", "x", "Exclude"))))
    ctx.cover("first use: " + what)
    ctx.distinct("first use", what, t.where)


def configurations(ctx, r):
    conf = pmc.gconf(r)
    c = pmc.to_lib(conf, lib, r)
    blob = pp.dumps_configuration(c)
    if len(blob) > 30000:
        return
    ctx.eq("the options of a dump", [(n, v) for n, v in pmc.from_lib(pp.loads_configuration(blob))], conf)
    for _ in range(3):
        what = r.choice(["load", "load stream", "dump", "dump stream", "rule"])
        where = None
        if what == "load":
            where = ended(ctx, r, "load", lambda: pp.loads_configuration(blob), lambda x: pmc.from_lib(x) == conf)
        elif what == "load stream":
            s = Faulty(blob)

            def load():
                s.pos = 0
                return pp.load_configuration(s)
            where = ended(ctx, r, "load", load, lambda x: pmc.from_lib(x) == conf, s)
            ctx.eq("a configuration loaded from the stream again", pmc.from_lib(load()), conf)
        elif what == "dump":
            where = ended(ctx, r, "dump", lambda: pp.dumps_configuration(c), lambda x: x == blob)
        elif what == "dump stream":
            s = Failing()

            def dump():
                s.got = b""
                pp.dump_configuration(c, s)
                return s.got
            where = ended(ctx, r, "dump", dump, lambda x: x == blob, s)
            ctx.eq("what the stream took before it failed is the beginning of the dump", blob[:len(s.got)], s.got)
            ctx.eq("a dump to the stream again", dump(), blob)
        else:
            rule = r.choice([v for k, v in c.items() if k in ("FilterRules", "HighlightRules")] or [[lib.Rule()]])
            if not rule:
                continue
            rule = r.choice(list(rule))
            args = (rule.column.name.lower(), rule.relation.value, rule.value, rule.action)
            fn = lambda: lib.Rule(*args)
            where = ended(ctx, r, "rule", fn, lambda x: x == rule)
            ctx.true("a rule built again", fn() == rule and hash(fn()) == hash(rule))
            for f in (str, repr, hash):
                right = f(rule)
                ended(ctx, r, "rule", lambda: f(rule), lambda x: x == right)
        ctx.eq("the configuration after a %s was ended (%s)" % (what, where), pmc.from_lib(c), conf)
        ctx.eq("a dump after a %s was ended (%s)" % (what, where), pp.dumps_configuration(c), blob)
    ctx.eq("a configuration loaded in the end", pmc.from_lib(pp.loads_configuration(blob)), conf)


class Failing(Sink):
    """A sink that fails at one of the calls to it, having taken some of what it was given."""

    def __init__(self):
        super().__init__()
        self.calm()

    calm, arm = Faulty.calm, Faulty.arm

    def write(self, b):
        n, self.calls = self.calls, self.calls + 1
        if n == self.at:
            self.raised = True
            self.got += bytes(b)[:len(b) // 2 if self.late else 0]
            raise self.error("the stream failed")
        self.got += bytes(b)
        return len(b)
