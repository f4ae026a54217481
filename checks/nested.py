"""Calls of the library that are made while another one is at work, by what it calls or by what interrupts it."""
import contextlib
import gc
import io
import os
import signal
import time

from vlib import pmc
from vlib.monitor import CaseTimeout, check
from vlib.pml import short_dir, snap_event, snap_proc
from vlib.streams import Stream
from checks.faults import FRAMES, HERE, Interrupt
from checks.hosting import END, Sink, csv_of, data_of, look, outcome, quiet_log

import procmon_parser as pp
from procmon_parser import configuration as lib


class Nest(object):
    """The tasks of a case. Each is made anew by its maker: what it gives alone is known, or is found out in the end."""

    def __init__(self, r):
        self.r, self.makers, self.alone, self.wrong, self.depth, self.runs, self.deepest = r, [], {}, [], 0, 0, 0
        self.later = []
        self.quota = 0

    def add(self, name, maker):
        self.makers.append((name, maker))

    def inner(self, where):
        """Something that is called back uses the library."""
        if self.depth >= 3 or self.quota <= 0:
            return
        self.quota -= 1
        self.depth += 1
        try:
            k = self.r.randrange(len(self.makers))
            name, maker = self.makers[k]
            got = outcome(maker(self.depth < 3 and self.r.chance(.3)))
            self.runs += 1
            self.deepest = max(self.deepest, self.depth)
            self.later.append((k, name, where, got))
        finally:
            self.depth -= 1


class Calling(Stream):
    """A stream whose methods use the library."""

    def __init__(self, data, nest, p):
        super().__init__(data, record=False)
        self.nest, self.p = nest, p

    def _do(self, name, fn, *a):
        if self.nest.r.random() < self.p:
            self.nest.inner(name + " of a stream")
        res = fn(*a)
        if self.nest.r.random() < self.p / 3:
            self.nest.inner(name + " of a stream")
        return res

    def read(self, n=-1):
        return self._do("read", Stream.read, self, n)

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def seek(self, off, whence=0):
        return self._do("seek", Stream.seek, self, off, whence)

    def tell(self):
        return self._do("tell", Stream.tell, self)


class CallingSink(Sink):
    def __init__(self, nest, p):
        super().__init__()
        self.nest, self.p = nest, p

    def write(self, b):
        if self.nest.r.random() < self.p:
            self.nest.inner("write of a stream")
        return super().write(b)


class CallingList(list):
    def __init__(self, nest, items):
        super().__init__(items)
        self.nest = nest

    def __iter__(self):
        for x in list.__iter__(self):
            self.nest.inner("an iterable")
            yield x


class AtLine(Interrupt):
    """Uses the library when the nth line is reached, as a signal handler may, and again a few lines later."""

    def __init__(self, at, nest):
        super().__init__(at)
        self.nest, self.left = nest, nest.r.choice([1, 1, 2, 3])

    def _line(self, frame, event, arg):
        if event == "line" and self.left:
            self.lines += 1
            if self.lines > self.at:
                self.left -= 1
                self.at += self.nest.r.choice([1, 2, 5, 40])
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                self.nest.inner("line " + self.where)
        return self._line


@contextlib.contextmanager
def collecting(nest, p):
    """The garbage collector runs often, and what it calls uses the library."""
    def called(phase, info):
        if nest.r.random() < p:
            nest.inner("collection " + phase)
    old, on = gc.get_threshold(), gc.isenabled()
    gc.callbacks.append(called)
    gc.set_threshold(nest.r.choice([3, 20, 100]), 5, 50)
    gc.enable()
    try:
        yield
    finally:
        gc.callbacks.remove(called)
        gc.set_threshold(*old)
        if not on:
            gc.disable()


class Stuck(BaseException):
    pass


@contextlib.contextmanager
def watching(period=2.0, times=5):
    """Raises Stuck in a call that waits forever: look after look it is at the same instruction of the same frame, and
    no processor time was used. A slow machine can not look like this, as looks are made by the thread itself."""
    left, = signal.getitimer(signal.ITIMER_REAL)[:1]
    end, seen = time.monotonic() + (left or 60), [None, 0, 0]

    def tick(sig, frame):
        if time.monotonic() > end:
            raise CaseTimeout()
        now = frame, frame.f_lasti
        seen[:] = [now, seen[1] + 1 if seen[0] == now and time.process_time() - seen[2] < .01 * period else 0, time.process_time()]
        if seen[1] >= times:
            raise Stuck("%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
    old = signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, period, period)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(1, end - time.monotonic()))
        signal.signal(signal.SIGALRM, old)


def shown(e):
    """As look(), but for repr(): Python itself answers "..." to the repr() of a dict that is asked for inside its own."""
    out = [snap_event(e), str(e), e.date()]
    return out + [csv_of(e)] if e.date_filetime + e.duration < END else out


def everything(reader):
    return [outcome(lambda: look(reader[k])) for k in range(len(reader))], [snap_proc(p) for p in reader.processes()], \
        [repr(p) for p in reader.processes()], sorted(reader.system_details().items()), \
        [snap_event(e) for e in reader]


OUTER = ("log", "configuration", "dump", "iterable", "line: log", "line: event", "line: path", "line: export", "line: load", "line: dump", "line: rule",
         "collection: log", "collection: export", "collection: load", "collection: dump")


@check("H08", 3000, 40000,
       "a case makes calls (reading logs, loading and dumping configurations, exporting and printing events, building rules) of which the "
       "streams, the iterables, the lines or the garbage collections use the library themselves, and compares the outer and all inner calls "
       "with what they give alone; distinct by the sequence of nested calls", list(OUTER) + ["nested calls", "calls nested twice", "refused inside"],
       alarm=60)
def h08(ctx, i, r):
    try:
        with watching():
            nested(ctx, i, r)
    except Stuck as e:
        ctx.fail("a call inside another one waits forever, at %s" % e)


def nested(ctx, i, r):
    nest = Nest(r)
    logs = [quiet_log(r, r.choice([1, 2, 3]), nproc=2, nmod=1) for _ in range(2)]
    datas = [data_of(r, g) for g in logs]
    if max(map(len, datas)) > 100000:
        return
    confs = [pmc.gconf(r, 5) for _ in range(2)]
    libs = [pmc.to_lib(c, lib, r) for c in confs]
    blobs = [pmc.dump(c) for c in confs]
    readers = [pp.ProcmonLogsReader(Stream(d, record=False)) for d in datas]
    events = [e for x in readers for e in x]
    rules = [pmc.grule(r) for _ in range(4)]
    p = r.choice([.02, .1, .3])

    def stream(data, deep):
        return Calling(data, nest, p) if deep else Stream(data, record=False) if r.chance(.5) else io.BytesIO(data)

    def log_of(d):
        opts = r.choice([(True, True), (True, True), (False, True), (True, False)])
        return lambda deep: lambda: everything(pp.ProcmonLogsReader(stream(datas[d], deep), *opts))

    def event_of(d, k):
        def make(deep):
            reader = pp.ProcmonLogsReader(stream(datas[d], deep))
            return lambda: look(reader[k])
        return make

    def refused(d):
        cut = datas[d][:r.randrange(0x3a8)]
        return lambda deep: lambda: len(pp.ProcmonLogsReader(stream(cut, deep)))

    def export(e):
        return lambda deep: lambda: (shown(e), csv_of(e, events[0].date_filetime if e.date_filetime >= events[0].date_filetime else None))

    def load(c):
        def go(deep):
            if deep or r.chance(.5):
                return pmc.from_lib(pp.load_configuration(stream(blobs[c], deep)))
            return pmc.from_lib(pp.loads_configuration(blobs[c]))
        return lambda deep: lambda: go(deep)

    def dump(c):
        def go(deep):
            if not deep:
                return pp.dumps_configuration(libs[c])
            s = CallingSink(nest, p)
            pp.dump_configuration(libs[c], s)
            return s.got
        return lambda deep: lambda: go(deep)

    def bad_dump(deep):
        return lambda: pp.dumps_configuration({"AdvancedMode": "no number"})

    def rule(x):
        c, rel, v, a = x
        def go():
            y = pp.Rule(lib.Column(c).name.lower(), lib.RuleRelation(rel).name, v, a)
            return repr(y), str(y), pp.dumps_configuration({"FilterRules": [y]})
        return lambda deep: go

    for d in range(2):
        nest.add("log", log_of(d))
        for k in range(min(2, len(logs[d].events))):
            nest.add("event", event_of(d, k))
        nest.add("load", load(d))
        nest.add("dump", dump(d))
    nest.add("refused log", refused(r.randrange(2)))
    nest.add("refused dump", lambda deep: bad_dump(deep))
    for e in r.sample(events, min(3, len(events))):
        nest.add("export", export(e))
    for x in rules[:2]:
        nest.add("rule", rule(x))
    of = lambda *names: [k for k, (n, m) in enumerate(nest.makers) if n in names]
    alone = lambda k: outcome(nest.makers[k][1](False))
    want = {}
    if r.chance(.5):
        want = {k: alone(k) for k in range(len(nest.makers))}
    outer = []
    with short_dir() as d:
        for _ in range(3):
            nest.quota = r.choice([1, 3, 8])
            way = r.choice(["calls", "calls", "line", "line", "line", "collection"])
            if way == "calls":
                what = r.choice(["log", "configuration", "dump", "iterable"])
                if what == "iterable":
                    c = r.randrange(2)
                    given = [(n, CallingList(nest, v) if n.endswith("Rules") else v) for n, v in libs[c].items()]
                    if not any(n.endswith("Rules") for n in libs[c]):
                        continue
                    outer.append((of("dump")[c], what, outcome(lambda: pp.dumps_configuration(dict(given)))))
                else:
                    k = r.choice(of({"log": "log", "configuration": "load", "dump": "dump"}[what]))
                    outer.append((k, what, outcome(nest.makers[k][1](True))))
                ctx.cover(what)
                continue
            what = r.choice(["log", "event", "export", "load", "dump", "rule", "path"] if way == "line" else ["log", "export", "load", "dump"])
            k = r.choice(of("log" if what == "path" else what))
            fn = nest.makers[k][1](False)
            if what == "path":
                n = of("log").index(k)
                path = os.path.join(d, "l%d" % n)
                with open(path, "wb") as f:
                    f.write(datas[n])
                k = -1 - n
                fn = lambda: [look(e) for e in pp.read_all_events_from_pml(path)]
            if way == "line":
                with Interrupt() as t:
                    outcome(fn)
                if not t.lines:
                    continue
                with AtLine(t.point(r), nest) as a:
                    got = outcome(fn)
                ctx.distinct("line", what, a.where, len(nest.later))
                what = "line: " + what
            else:
                with collecting(nest, .3):
                    got = outcome(fn)
                what = "collection: " + what
            outer.append((k, what, got))
            ctx.cover(what)
    if not want:
        want = {k: alone(k) for k in range(len(nest.makers))}
    for n in range(2):
        want[-1 - n] = outcome(lambda: [look(e) for e in pp.read_all_events_from_pml(io.BytesIO(datas[n]))])
    for c in range(2):
        ctx.eq("what a dump alone holds", pmc.from_lib(pp.loads_configuration(want[of("dump")[c]][1])), confs[c])
        ctx.eq("a configuration loaded alone", want[of("load")[c]], ("result", confs[c]))
    for k, what, got in outer:
        ctx.eq("a call (%s) with others inside it" % what, got, want[k], inside=[(b, w) for a, b, w, g in nest.later])
    for k, name, where, got in nest.later:
        ctx.eq("a call (%s) inside another one" % name, got, want[k], at=where)
        if name.startswith("refused"):
            ctx.cover("refused inside")
    ctx.distinct([(k, where) for k, name, where, got in nest.later])
    ctx.cover("nested calls", nest.runs)
    if nest.deepest > 1:
        ctx.cover("calls nested twice")
    if i < 2:
        ctx.sample({"nested": [(name, where) for k, name, where, got in nest.later][:8]})
