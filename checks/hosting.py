"""How the library behaves inside the program that uses it: effects, threads, settings, memory, copies, streams."""
import builtins
import bz2
import codecs
import collections
import copy
import copyreg
import decimal
import gc
import gzip
import hashlib
import io
import json
import locale
import logging
import mmap
import os
import pickle
import random
import resource
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time
import tracemalloc
import types
import warnings
import weakref
import zipfile

from vlib import evgen, pmc, pml
from vlib.monitor import check, same, REPO, VERIF
from vlib.pml import Layout, short_dir, snap_event, snap_proc, write
from vlib.streams import Stream
from checks.logs import corpus, CORPORA, cover_log, check_event, check_processes

import procmon_parser as pp
from procmon_parser import configuration as lib

END = 1 << 61       # capture times before it can be printed


def csv_of(e, first=None):
    return list(e.get_compatible_csv_info(first).items())


def look(e, csv=True):
    """Everything an event shows."""
    out = [snap_event(e), repr(e)]
    if e.date_filetime < END:
        out += [str(e), e.date()]
        if csv and e.date_filetime + e.duration < END:
            out.append(csv_of(e))
    return out


def quiet_log(r, n, **k):
    """A log whose events can all be printed and exported."""
    log = evgen.make_log(r, n, **k)
    for e in log.events:
        e.date, e.duration = e.date % END, e.duration % (1 << 50)
    return log


def data_of(r, log):
    return write(log, Layout.random(r), r).bytes()


# ------------------------------------------------------------------ H01
HARMLESS = ("import", "compile", "exec", "marshal.loads", "object.__getattr__", "object.__setattr__", "object.__delattr__",
            "sys._getframe", "code.__new__", "function.__new__", "gc.get_objects", "gc.get_referrers", "gc.get_referents", "id",
            "builtins.id", "sys.unraisablehook", "sys.excepthook", "pickle.find_class", "mmap.__new__", "cpython._PySys_ClearAuditHooks",
            "ctypes.PyObj_FromPtr", "sys._current_frames", "array.__new__", "monitoring.register_callback", "sys.monitoring.register_callback")
_AUDIT = []


def _hook(event, args):
    if _AUDIT and threading.get_ident() == _AUDIT[0]:
        if event == "open" or event not in HARMLESS:
            _AUDIT[1].append((event, args))


def _install():
    if not getattr(_install, "done", None) == os.getpid():
        sys.addaudithook(_hook)
        _install.done = os.getpid()


def source_file(path):
    """Is this a module that is being imported?"""
    if not isinstance(path, (str, bytes)):
        return False
    p = os.fsdecode(path)
    return p.endswith((".py", ".pyc", ".so", ".pth", ".zip")) or ".pyc." in p or p.startswith((sys.prefix + os.sep, sys.base_prefix + "/lib/"))


def world():
    """The settings of the process that a library has no business changing."""
    return {
        "environment": dict(os.environ), "directory": os.getcwd(), "module path": list(sys.path), "recursion limit": sys.getrecursionlimit(),
        "locale": locale.setlocale(locale.LC_ALL), "decimal context": repr(decimal.getcontext()), "random state": random.getstate(),
        "warning filters": list(warnings.filters), "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "logging": (list(logging.getLogger().handlers), logging.getLogger().level, logging.root.manager.disable),
        "gc": (gc.isenabled(), gc.get_threshold()), "threads": sorted(t.name for t in threading.enumerate()),
        "switch interval": sys.getswitchinterval(), "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(),
                                                              threading.excepthook),
        "builtins": sorted(vars(__import__("builtins"))), "integer digits": sys.get_int_max_str_digits(),
        "time zone": (__import__("time").tzname, __import__("time").timezone), "default timeout": socket.getdefaulttimeout(),
        "open files": sorted(os.listdir("/proc/self/fd")), "trace of memory": tracemalloc.is_tracing(),
        "float info": (sys.float_repr_style, hash(0.5)), "ordered dictionaries": collections.OrderedDict.__name__,
        "signal handlers": [signal.getsignal(s) for s in sorted(signal.valid_signals())], "file mode mask": umask(),
        "error handlers of codecs": [codecs.lookup_error(n) for n in ("strict", "replace", "ignore", "backslashreplace", "namereplace",
                                                                     "surrogatepass", "surrogateescape", "xmlcharrefreplace")],
        "pickling functions": dict(copyreg.dispatch_table), "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "limits": [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CORE)],
        "collector": (gc.get_debug(), list(gc.callbacks), gc.get_freeze_count()), "stack size": threading.stack_size(),
        "import machinery": (list(sys.meta_path), list(sys.path_hooks), builtins.__import__),
        "warning functions": (warnings.showwarning, warnings.formatwarning, warnings.defaultaction),
        "profile of threads": (threading.getprofile(), threading.gettrace()), "other modules": others()}


def umask():
    old = os.umask(0o77)
    os.umask(old)
    return old


OTHERS = ("io", "struct", "datetime", "ipaddress", "enum", "codecs", "collections", "binascii", "copy", "warnings", "logging", "locale", "os",
          "time", "calendar", "six", "construct.core", "construct.lib", "encodings.utf_16_le", "math", "operator", "json", "pickle", "types")


def others():
    """The functions and classes of other modules, and what is in their classes."""
    out = {}
    for n in OTHERS:
        m = sys.modules.get(n)
        for k, v in list(vars(m).items()) if m else ():
            if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)):
                out[n, k] = id(v)
            elif isinstance(v, type) and v.__module__ == n:
                out[n, k] = id(v)
                for x, y in list(vars(v).items()):
                    if isinstance(y, (types.FunctionType, types.BuiltinFunctionType, property, staticmethod, classmethod)):
                        out[n, k, x] = id(y)
    return out


def watched(ctx, what, fn, allowed=()):
    """Run fn; nothing but reading the allowed files may be seen from outside."""
    _install()
    before = world()
    out, err = io.StringIO(), io.StringIO()
    keep = sys.stdout, sys.stderr
    seen = []
    sys.stdout, sys.stderr = out, err
    _AUDIT[:] = [threading.get_ident(), seen]
    try:
        try:
            res = fn()
        except Exception as e:
            res = e
    finally:
        _AUDIT.clear()
        sys.stdout, sys.stderr = keep
    after = world()
    old, new = before.pop("other modules"), after["other modules"]
    changed = [k for k in old if new.get(k) != old[k]]
    ctx.true("%s leaves the functions of other modules alone" % what, not changed, changed=changed)
    for k in before:
        ctx.true("%s leaves the %s of the process alone" % (what, k), before[k] == after[k], before=before[k], after=after[k])
    ctx.true("%s prints nothing" % what, not out.getvalue() and not err.getvalue(), out=out.getvalue(), err=err.getvalue())
    opened = 0
    for event, args in seen:
        if event == "open":
            path, mode, flags = (list(args) + [None] * 3)[:3]
            if isinstance(path, int) or (os.fspath(path) not in allowed and source_file(path)):
                continue
            ctx.true("%s opens only the given file" % what, os.fspath(path) in allowed, opened=path, given=allowed)
            ctx.true("%s opens the given file for reading only" % what,
                     not (isinstance(mode, str) and set(mode) & set("wax+")) and not (isinstance(flags, int) and flags & (
                         os.O_WRONLY | os.O_RDWR | os.O_TRUNC | os.O_CREAT | os.O_APPEND)), mode=mode, flags=flags)
            opened += 1
        elif event.startswith(("os.", "shutil.", "glob.", "pathlib.")) and args and source_file(args[0]):
            continue
        elif event in ("os.listdir", "os.scandir") and args and isinstance(args[0], str) and args[0] in sys.path:
            continue         # an import that looks for its module
        else:
            ctx.fail("%s has an effect outside its streams" % what, effect=event, arguments=args)
    ctx.ok(len(seen) + 1)
    ctx.cover("watched")
    return res, opened


def use_all(reader):
    for e in reader:
        str(e), repr(e), hash(e), e.date(), e.date(False), e.get_compatible_csv_info(), e == e
    for p in reader.processes():
        str(p), repr(p), hash(p), [(str(m), repr(m)) for m in p.modules]
    reader.system_details(), len(reader), reader[:2], reader[-1:]


@check("H01", 900, 9000,
       "a case watches (audit events, process settings, open files, output) every use of one log and one configuration, good ones and "
       "damaged ones, from streams and from a path, and that they are let go; distinct by log and configuration",
       ["watched", "from a stream", "from a path", "refused path", "unreadable path", "missing path", "damaged log", "configuration",
        "cut configuration", "failing dump", "failing rule", "let go", "let go after use", "let go after a failed read",
        "let go after a refusal", "configuration let go", "closed", "in a deep directory"])
def h01(ctx, i, r):
    unusual(r)
    try:
        h01_case(ctx, i, r)
    finally:
        unusual(None)


def unusual(r):
    """Settings that nobody would choose, so that a library that sets the usual ones is seen."""
    locale.setlocale(locale.LC_ALL, "C" if r is None else r.choice(["C", "C.utf8"]))
    decimal.setcontext(decimal.Context() if r is None else decimal.Context(prec=r.choice([5, 28, 77])))
    sys.setrecursionlimit(1000 if r is None else r.choice([1000, 1777, 3000]))
    sys.setswitchinterval(.005 if r is None else r.choice([.005, .003]))
    socket.setdefaulttimeout(None if r is None else r.choice([None, 17]))
    if r is None or r.chance(.5):
        gc.enable()
    else:
        gc.disable()
    gc.set_threshold(*(700, 10, 10) if r is None else r.choice([(700, 10, 10), (555, 9, 8)]))
    warnings.resetwarnings()
    if r is not None and r.chance(.5):
        warnings.filterwarnings("ignore", "nothing like this is ever said", UserWarning)
    warnings.simplefilter("ignore")
    os.umask(0o22 if r is None else r.choice([0o22, 0o77, 0o2]))
    signal.signal(signal.SIGINT, signal.default_int_handler if r is None or r.chance(.3) else lambda *a: None)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN if r is None or r.chance(.3) else lambda *a: None)
    os.environ["VERIF_UNUSUAL"] = str(r and r.random())
    os.environ["TZ"] = "UTC0" if r is None else r.choice(["UTC0", "America/New_York", "ABC-3:30"])
    time.tzset()
    if r is not None and r.chance(.3):
        os.environ["TZ"] = "DEF-7:10"         # not in force until somebody calls tzset


def watch(x):
    """Something that tells whether x is still there, for the objects that can be asked."""
    try:
        return weakref.ref(x)
    except TypeError:
        return lambda: None


def h01_case(ctx, i, r):
    log = quiet_log(r, r.choice([1, 3, 8]))
    data = data_of(r, log)
    ctx.distinct(len(data), [(e.kind, e.date) for e in log.events])

    def go():
        use_all(pp.ProcmonLogsReader(io.BytesIO(data), r.chance(.8), r.chance(.8)))
    res, _ = watched(ctx, "reading a log", go)
    ctx.true("reading a good log succeeds", res is None, raised=res)
    ctx.cover("from a stream")
    cut = bytearray(data[:r.randrange(len(data))] if r.chance(.5) else data)
    for _ in range(r.choice([0, 1, 4, 30])):
        if cut:
            cut[r.randrange(len(cut)) if r.chance(.5) else r.randrange(min(len(cut), 0x3a8))] = r.u8()
    if len(cut) < 2000000:
        watched(ctx, "reading a damaged log", lambda: use_all(pp.ProcmonLogsReader(Stream(bytes(cut), record=False))))
        ctx.cover("damaged log")
    # nothing is kept of a log that is let go
    class S(io.BytesIO):
        pass
    s = S(data)
    reader = pp.ProcmonLogsReader(s)
    e = next(reader)
    refs = [watch(s), watch(reader), watch(e), watch(reader.processes()[0])]
    if r.chance(.3):
        use_all(reader)
        ctx.cover("let go after use")
    del s, reader, e
    gc.collect()
    # nor of one that could not be opened or read
    s = S(bytes(cut))
    refs.append(watch(s))
    try:
        reader = pp.ProcmonLogsReader(s)
        refs.append(watch(reader))
        for k in range(min(len(reader), 50)):
            try:
                reader[k]
            except Exception:
                ctx.cover("let go after a failed read")
    except Exception:
        ctx.cover("let go after a refusal")
    s = reader = None
    gc.collect()
    for what, w in zip(("stream", "reader", "event", "process", "damaged stream", "damaged reader"), refs):
        ctx.true("nothing keeps the %s of a log that is no longer used" % what, w() is None)
    ctx.cover("let go")
    # paths
    with short_dir() as d:
        sub = d
        if r.chance(.3):
            sub = os.path.join(d, r.choice(["a b", "\u00e9", "{0}", "%s", "-x", "x" * 200]))
            os.mkdir(sub)
            ctx.cover("in a deep directory")
        p = os.path.join(sub, r.choice(["log.pml", "log", "l\u00f6g.PML", "-r", "a.pml.gz", "log.zip", "x.pmc"]))
        kind = r.choice(["good", "good", "refused", "unreadable", "missing"])
        body = data if kind == "good" else bytes(cut)[:r.randrange(0x3a8)] if kind == "refused" else data[:-1]
        if kind == "unreadable":
            bad = bytearray(data)
            bad[0:4] = r.choice([b"PML\0", b"\0\0\0\0", b"lmtp"])
            body = bytes(bad)
        if kind != "missing":
            with open(p, "wb") as f:
                f.write(body)
        stat = os.stat(p) if kind != "missing" else None
        given = r.choice([p, p, __import__("pathlib").Path(p)])
        res, opened = watched(ctx, "reading from a path", lambda: pp.read_all_events_from_pml(given), (p,))
        if kind == "good":
            ctx.true("reading a good file gives its events", isinstance(res, list) and len(res) == len(log.events), got=res)
            ctx.true("the file is opened", opened >= 1)
            ctx.cover("from a path")
        else:
            ctx.true("reading a %s file raises" % kind, isinstance(res, Exception) or kind == "refused", got=res)
            ctx.cover(kind + " path")
        del res
        ctx.eq("files in the directory afterwards", sorted(os.listdir(sub)), [os.path.basename(p)] if stat else [])
        if stat:
            now = os.stat(p)
            ctx.eq("the file's size and time", (now.st_size, now.st_mtime_ns, now.st_mode, now.st_ino),
                   (stat.st_size, stat.st_mtime_ns, stat.st_mode, stat.st_ino))
            with open(p, "rb") as f:
                ctx.true("the file's content", f.read() == body)
        ctx.cover("closed")
    # configurations
    conf = pmc.gconf(r)
    c = pmc.to_lib(conf, lib, r)
    res, _ = watched(ctx, "dumping a configuration", lambda: pp.dumps_configuration(c))
    ctx.true("dumping succeeds", isinstance(res, bytes), got=res)
    blob = res
    res, _ = watched(ctx, "loading a configuration", lambda: repr(pp.loads_configuration(blob)) and None)
    ctx.true("loading succeeds", res is None, raised=res)
    ctx.cover("configuration")
    junk = bytearray(blob[:r.randrange(len(blob) + 1)])
    for _ in range(r.choice([0, 1, 3])):
        if junk:
            junk[r.randrange(len(junk))] = r.u8()
    watched(ctx, "loading a damaged configuration", lambda: pp.loads_configuration(bytes(junk)))
    ctx.cover("cut configuration")
    watched(ctx, "a failing dump", lambda: pp.dumps_configuration({"AdvancedMode": r.choice(["x", -1, None, 1 << 32]), "z": 3}))
    ctx.cover("failing dump")
    c2 = pmc.to_lib(conf, lib, r)
    given = [w for v in c2.values() if isinstance(v, list) for w in v if isinstance(w, lib.Rule)] + \
        [v for v in c2.values() if isinstance(v, lib.Font)]
    src = io.BytesIO(blob) if r.chance(.5) else S(blob)
    refs = [watch(x) for x in given] + [watch(src)]
    got = pp.load_configuration(src)
    refs += [watch(w) for v in got.values() if isinstance(v, list) for w in v if isinstance(w, lib.Rule)]
    refs += [watch(v) for v in got.values() if isinstance(v, lib.Font)]
    try:
        pp.dumps_configuration(c2)
        pp.dumps_configuration(dict(list(got.items()) + [("AdvancedMode", None)]))
    except Exception:
        pass
    if refs[:-1]:
        ctx.cover("configuration let go")
    c2 = given = src = got = None
    gc.collect()
    ctx.eq("objects kept of configurations that are no longer used", sum(w() is not None for w in refs), 0, of=len(refs))
    watched(ctx, "a failing rule", lambda: pp.Rule(r.choice(["nothing", 7, None]), "is", "x", "include"))
    ctx.cover("failing rule")


# ------------------------------------------------------------------ H02
class Scheduler(object):
    """Runs tasks in threads of which one runs at a time, switching at lines (or instructions) of the code under test."""
    TOOL = 3

    def __init__(self, tasks, r, fine=False, p=.1, meet=False, spot=False):
        """meet: a thread that is stopped in a function goes on when another one has come to the same function and done a few
        steps of it, so that two threads are often in the middle of one function.
        spot: a thread that comes to one of a few lines waits there until another one has come to the same line."""
        self.tasks, self.r, self.fine, self.p = tasks, r, fine, p
        self.meet, self.meeting, self.met, self.chosen = meet, None, 0, {}
        self.spot = spot
        self.share = r.choice((.05, .15, .3, .5))
        self.steps = [0] * len(tasks)
        self.locks = [threading.Lock() for _ in tasks]
        for k in self.locks:
            k.acquire()
        self.live = set(range(len(tasks)))
        self.current = None
        self.results = [None] * len(tasks)
        self.ticks = self.switches = 0
        self.trace = hashlib.blake2b(digest_size=8)
        self.done = threading.Event()
        self.who = {}
        import construct
        self.prefixes = (os.path.join(REPO, "procmon_parser"), os.path.dirname(construct.__file__))

    def at(self, code, *a):
        if not code.co_filename.startswith(self.prefixes):
            return sys.monitoring.DISABLE
        me = self.who.get(threading.get_ident())
        if me is None or me != self.current:
            return
        self.ticks += 1
        if self.spot:
            return self.at_spot(me, (code, a[0]))
        if not self.meet:
            if len(self.live) > 1 and self.r.random() < self.p:
                self.switch(me)
            return
        m = self.meeting
        self.steps[me] += 1
        if m is None:
            want = self.chosen.get(code)
            if want is None:
                mine = code.co_filename.startswith(self.prefixes[0])
                want = self.chosen[code] = self.r.random() < self.share * (1 if mine else .1) and self.r.choice((.1, .25, .6))
            # the one that is behind goes on, or it would never come to where the others are
            if want and len(self.live) > 1 and self.steps[me] > min(self.steps[k] for k in self.live) and self.r.random() < want:
                self.meeting = [me, code, None, self.ticks, self.r.choice((40, 150, 500, 2000)), None]
                self.switch(me, min(self.live - {me}, key=lambda k: self.steps[k]))
        elif m[2] is None:
            if me == m[0]:
                self.meeting = None
            elif code is m[1]:
                m[2], m[5] = self.r.choice((0, 1, 2, 2, 3, 4, 5, 9, 30, 30)), me
                self.met += 1
                if self.r.random() < .5:
                    m[1], m[2] = None, 2 * m[2] + 10          # both go on in turns
            elif self.ticks - m[3] > m[4]:
                self.meeting = None
                if m[0] in self.live:
                    self.switch(me, m[0])
        elif m[1] is None:
            m[2] -= 1
            if m[2] < 0:
                self.meeting = None
            elif self.r.random() < .4:
                to = m[0] if me == m[5] else m[5]
                if to in self.live and me in (m[0], m[5]):
                    self.switch(me, to)
        elif me == m[0]:
            self.meeting = None
        elif code is m[1] or self.ticks - m[3] > 2 * m[4]:
            m[2] -= 1
            if m[2] < 0 or self.ticks - m[3] > 2 * m[4]:
                self.meeting = None
                if m[0] in self.live:
                    self.switch(me, m[0])

    def at_spot(self, me, spot):
        m = self.meeting
        if m is None:
            want = self.chosen.get(spot)
            if want is None:
                mine = spot[0].co_filename.startswith(self.prefixes[0])
                want = self.chosen[spot] = self.r.random() < self.share * (1 if mine else .03) and self.r.choice((.3, .7, 1))
            if want and len(self.live) > 1 and self.r.random() < want:
                self.meeting = [me, spot, self.ticks, self.r.choice((100, 300, 1000, 4000)), self.r.choice((0, 0, 0, 1, 2, 5))]
                self.switch(me)
        elif me == m[0]:
            self.meeting = None
        elif spot == m[1]:
            self.met += 1
            if m[4] == 0:
                self.meeting = None
                self.switch(me, m[0]) if m[0] in self.live else None
            else:
                m[1], m[3] = None, self.ticks - m[2] + m[4]    # it goes a few steps beyond
        elif self.ticks - m[2] > m[3]:
            self.meeting = None
            if m[0] in self.live:
                self.switch(me, m[0])

    def switch(self, me, to=None):
        to = self.r.choice(sorted(self.live - {me})) if to is None else to
        self.switches += 1
        self.trace.update(b"%d:%d," % (self.ticks, to))
        self.current = to
        self.locks[to].release()
        if me in self.live:
            self.locks[me].acquire()

    def body(self, k):
        self.who[threading.get_ident()] = k
        self.locks[k].acquire()
        try:
            self.results[k] = outcome(self.tasks[k])
        finally:
            self.live.discard(k)
            if self.live:
                if self.current == k:
                    self.switch(k)
            else:
                self.done.set()

    def run(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "verif-threads")
        event = m.events.INSTRUCTION if self.fine else m.events.LINE
        m.register_callback(self.TOOL, event, self.at)
        threads = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.tasks))]
        for t in threads:
            t.start()
        m.set_events(self.TOOL, event)
        m.restart_events()
        try:
            self.current = 0
            self.locks[0].release()
            last = -1
            while not self.done.wait(1):
                if self.ticks == last and self.live:
                    # the current thread waits for something that another one holds: let another one go on
                    others = sorted(self.live - {self.current})
                    if others:
                        self.current = self.r.choice(others)
                        try:
                            self.locks[self.current].release()
                        except RuntimeError:
                            pass
                last = self.ticks
            for t in threads:
                t.join(10)
        finally:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, event, None)
            m.free_tool_id(self.TOOL)
        return self.results


def outcome(fn):
    try:
        return "result", fn()
    except Exception as e:
        return "raised", type(e).__name__


def read_task(data, opts, opened=False):
    """opened: the thread gets a reader that is its own, but was opened before it started."""
    ready = [pp.ProcmonLogsReader(io.BytesIO(data), *opts) for _ in range(2 * opened)]

    def go():
        reader = ready.pop() if ready else pp.ProcmonLogsReader(io.BytesIO(data), *opts)
        out = []
        for k in range(len(reader)):
            out.append(outcome(lambda: look(reader[k])))
        return out, [snap_proc(p) for p in reader.processes()], [repr(p) for p in reader.processes()], sorted(reader.system_details().items())
    return go


def config_task(blob, conf):
    def go():
        a = pp.loads_configuration(blob)
        return pmc.from_lib(a), pp.dumps_configuration(a), pp.dumps_configuration(conf)
    return go


def shared_task(events, conf, procs):
    def go():
        return [csv_of(e, events[0].date_filetime if first else None) for e in events for first in (0, 1)
                if e.date_filetime >= events[0].date_filetime], [repr(e) for e in events], [repr(p) for p in procs], \
            [snap_event(e) for e in events], pp.dumps_configuration(conf)
    return go


def rule_task(rules):
    def go():
        out = []
        for c, rel, v, a in rules:
            x = pp.Rule(lib.Column(c).name.lower(), lib.RuleRelation(rel).name, v, a)
            out.append((repr(x), pp.dumps_configuration({"FilterRules": [x]})))
        return out
    return go


@check("H02", 6000, 60000,
       "a case runs 2-4 tasks (reading logs, loading and dumping configurations, exporting the same events, building rules) in threads "
       "that are switched at random lines or instructions of the library (or so that they meet in the middle of one function), and compares each with what it gives alone; distinct by "
       "interleaving (the sequence of switch points)",
       ["reading", "same log", "configurations", "same events", "rules", "2 threads", "3 threads", "4 threads", "switches", "by line",
        "by instruction", "alone first", "alone last", "one operation", "meetings", "meetings at a line"], alarm=200)
def h02(ctx, i, r):
    way = r.choice(["meet", "meet", "spot", "spot", "spot", "spot", "random", "random"])
    fine = way != "spot" and r.chance(.3)
    n = r.choice([2, 2, 2, 3, 4])
    gens = [r.choice(r.choice(sorted(evgen.GENS.items()))[1])] if r.chance(.9 if way == "spot" else .6) else None
    if gens:
        ctx.cover("one operation")
    logs = [quiet_log(r, r.choice([2, 4]) if not fine else 2, nproc=2, nmod=1, gens=gens) for _ in range(2)]
    datas = [data_of(r, g) for g in logs]
    confs = [pmc.gconf(r, 4 if fine else 8) for _ in range(2)]
    conf = pmc.to_lib(confs[0], lib, r)
    events = list(pp.ProcmonLogsReader(io.BytesIO(datas[0])))
    procs = pp.ProcmonLogsReader(io.BytesIO(datas[0])).processes()
    tasks = []
    opened = r.chance(.6)
    theme = r.choice(["mixed", "reading", "reading", "reading", "reading", "same log", "configurations", "same events", "same events", "rules"])
    for k in range(n):
        what = theme if theme != "mixed" else r.choice(["reading", "configurations", "same events", "rules"])
        if what == "reading":
            tasks.append(read_task(datas[k % 2], r.choice([(True, True), (True, True), (False, True), (True, False)]), opened))
        elif what == "same log":
            tasks.append(read_task(datas[0], (True, True), opened))
        elif what == "configurations":
            tasks.append(config_task(pmc.dump(confs[k % 2]), conf))
        elif what == "same events":
            tasks.append(shared_task(events, conf, procs))
        else:
            tasks.append(rule_task([pmc.grule(r) for _ in range(3)]))
        ctx.cover(what)
    first = r.chance(.5)
    want = [outcome(t) for t in tasks] if first else None
    meet = way == "meet"
    s = Scheduler(tasks, r, fine, r.choice([.5, .3, .1] if meet else [.5, .1, .1, .02, .005]) * (.3 if fine else 1), meet, way == "spot")
    got = s.run()
    if want is None:
        want = [outcome(t) for t in tasks]
    for k, (a, b) in enumerate(zip(got, want)):
        ctx.eq("kind of outcome in a thread", a[0], b[0], thread=k, theme=theme, outcome=a[1])
        if a[1] != b[1]:
            ctx.fail("a thread's result differs from what the task gives alone", thread=k, of=n, theme=theme, switches=s.switches,
                     **first_difference(a[1], b[1]))
        ctx.ok()
    if theme == "same log":
        for ev, o in zip(logs[0].events, events):
            check_event(ctx, logs[0], ev, o)
    ctx.cover("alone first" if first else "alone last")
    ctx.cover("by instruction" if fine else "by line")
    ctx.cover("%d threads" % n)
    ctx.cover("switches", s.switches)
    if way != "random":
        ctx.cover("meetings" if meet else "meetings at a line", s.met)
    ctx.cover("switch points seen", s.ticks)
    ctx.distinct(s.trace.hexdigest())
    if i < 2:
        ctx.sample({"theme": theme, "threads": n, "switches": s.switches, "switch points": s.ticks})


def first_difference(a, b):
    while isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                a, b = x, y
                break
        else:
            break
    return {"got": a, "alone": b}


# ------------------------------------------------------------------ H03
SETTINGS = {
    "hash seed 1": ([], {"PYTHONHASHSEED": "1"}), "hash seed 77": ([], {"PYTHONHASHSEED": "77"}),
    "hash seed random": ([], {"PYTHONHASHSEED": "random"}),
    "-O": (["-O"], {}), "-OO": (["-OO"], {}), "-bb": (["-bb"], {}), "-X dev": (["-X", "dev"], {}), "-I": (["-I"], {}),
    "C locale": (["-X", "utf8=0"], {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0"}), "UTF-8 mode": (["-X", "utf8=1"], {}),
    "ascii output": ([], {"PYTHONIOENCODING": "ascii"}),
    "time zone": ([], {"TZ": "America/New_York"}), "far time zone": ([], {"TZ": "Pacific/Chatham"}), "odd time zone": ([], {"TZ": "XYZ-5:43"}),
    "no environment": ([], None), "short integers": (["-X", "int_max_str_digits=640"], {}),
    "decimal": ([], {"H03": "decimal"}), "busy gc": ([], {"H03": "gc"}), "no gc": ([], {"H03": "nogc"}), "no output": ([], {"H03": "closed"}),
    "trace": ([], {"H03": "trace"}), "profile": ([], {"H03": "profile"}), "warnings": ([], {"H03": "warnings"}),
    "submodule first": ([], {"H03": "logs"}), "configuration first": ([], {"H03": "configuration"}), "random": ([], {"H03": "random"}),
    "thread": ([], {"H03": "thread"}),
    "locale de_DE": ([], {"H03": "locale"}), "locale ja_JP": ([], {"H03": "locale"}), "locale tr_TR": ([], {"H03": "locale"}),
    "locale fa_IR": ([], {"H03": "locale"}), "locale hi_IN": ([], {"H03": "locale"})}


def make_locale(name):
    """Compile a locale into the scratch directory; -> its directory, or None where that is not possible."""
    d = os.path.join(os.environ["VERIF_SCRATCH"], "locales")
    os.makedirs(d, exist_ok=True)
    to = os.path.join(d, name + ".UTF-8")
    if not os.path.isdir(to):
        tmp = tempfile.mkdtemp(prefix="new-", dir=d)
        try:
            subprocess.run(["localedef", "-c", "-i", name, "-f", "UTF-8", os.path.join(tmp, "l")], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=120)
            os.rename(os.path.join(tmp, "l"), to)
        except (OSError, subprocess.SubprocessError):
            pass
    return d if os.path.isdir(to) else None


def damaged(r, img):
    """The log with something wrong in most of its events."""
    b = bytearray(img.bytes())
    for lo, hi in img.ev_spans:
        how = r.random()
        if how < .4:
            letters = [k for k in range(lo + 0x34, hi) if 0x20 <= b[k] < 0x7f]
            for k in letters and r.sample(letters, min(len(letters), r.choice([1, 3]))):
                b[k] |= 0x80
        elif how < .6:
            b[lo + 0x30:lo + 0x34] = r.choice([1, 2, 0x33, 0x34, 0x40, r.randrange(1, hi - lo + 8)]).to_bytes(4, "little")
        elif how < .9:
            for _ in range(r.choice([1, 4])):
                b[r.randrange(lo, hi)] = r.u8()
    return bytes(b)


@check("H03", 40, 400,
       "a case computes everything that logs and configurations give in fresh interpreters with other settings (optimisation, hash seed, "
       "encodings, time zone, gc, tracing, decimal context...) and compares it item by item; distinct by inputs",
       ["setting: " + k for k in SETTINGS if not k.startswith("locale ")] + ["events", "configurations", "capture", "far extra details"], alarm=400, mem=None)
def h03(ctx, i, r):
    with short_dir() as d:
        names = []
        for k in range(6):
            log = quiet_log(r, r.choice([10, 30]))
            cover_log(ctx, log)
            ctx.cover("events", len(log.events))
            lay = Layout.random(r)
            if r.chance(.3):
                lay.extra_mode, lay.extra_base = "far", r.choice([70000, 200000])
                ctx.cover("far extra details")
            img = write(log, lay, r)
            with open(os.path.join(d, "%d.pml" % k), "wb") as f:
                f.write(img.bytes())
            names.append("%d.pml" % k)
            with open(os.path.join(d, "%d.damaged" % k), "wb") as f:
                f.write(damaged(r, img))
        for k in range(12):
            with open(os.path.join(d, "%d.pmc" % k), "wb") as f:
                f.write(pmc.dump(pmc.gconf(r)))
            names.append("%d.pmc" % k)
            ctx.cover("configurations")
        ref = None
        kinds = sorted(SETTINGS)
        per = 4
        chosen = [kinds[(i * per + j) % len(kinds)] for j in range(per)]
        capture = None
        if i % 6 == 0:
            capture = r.choice(CORPORA)
            with open(os.path.join(d, "capture"), "w") as f:
                f.write("%s\n%d" % (os.path.join(REPO, "tests", "resources", capture), r.randrange(1 << 30)))
            ctx.cover("capture")
        for what in ["reference"] + chosen:
            flags, env = SETTINGS.get(what, ([], {}))
            base = {"PATH": os.environ.get("PATH", ""), "TZ": "UTC0", "PYTHONHASHSEED": "0"}
            if env is None:
                env = {}
                base = {}
            base.update(env)
            if what.startswith("locale "):
                where = make_locale(what[7:])
                if not where:
                    ctx.cover("locale that cannot be made")
                    continue
                base.update(LOCPATH=where, H03_LOCALE=what[7:] + ".UTF-8")
            cmd = [sys.executable, "-B", "-X", "pycache_prefix=" + os.path.join(d, "pyc" + str(abs(hash(what)) % 1000))] + flags + \
                [os.path.join(VERIF, "vlib", "envrun.py"), os.path.abspath(REPO), d]
            p = subprocess.run(cmd, env=base, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=300)
            try:
                with open(os.path.join(d, "out.json")) as f:
                    got = json.load(f)
            except (OSError, ValueError):
                ctx.fail("nothing was computed under the setting %s" % what, code=p.returncode, err=p.stderr[-600:])
            os.remove(os.path.join(d, "out.json"))
            if ref is None:
                ref = got
                continue
            ctx.eq("number of results", len(got), len(ref), setting=what)
            for (k, a), (k2, b) in zip(ref, got):
                ctx.true("%s is the same under the setting %s" % (k, what), (k, a) == (k2, b), without=a, got=b, file=k)
            ctx.cover("setting: " + what)
        ctx.distinct(i, names, [x for x, _ in ref][:3], ref[0][1])


# ------------------------------------------------------------------ H04
def traced():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


@check("H04", 64, 640,
       "a case reads a log of large events in several ways, dropping what is read, and measures (allocations, live objects) what remains; "
       "distinct by log", ["iterated", "indexed", "exported", "failing reads", "sliced", "reopened", "configurations", "most KB per case"] + ["long: " + x for x in ("iterated", "indexed", "exported", "failing reads", "sliced", "reopened",
                                                                     "loaded", "dumped")], alarm=300)
def h04(ctx, i, r):
    if i % 2:
        return h04_long(ctx, i // 2, r)
    n = 240
    log = evgen.base_log(r, nproc=3, nmod=2)
    for k in range(n):
        e = evgen.finish(r, log, r.choice(evgen.ALL)(r, log, {}))
        e.date, e.duration = (e.date + k) % END, e.duration % (1 << 50)
        e.stack = [r.pvoid(log.is64) if hasattr(r, "pvoid") else r.u32() for _ in range(500)]
        log.events.append(e)
    evgen.settle_log(log)
    img = write(log, Layout(), r)
    data = img.bytes()
    size = sum(a[1] - a[0] if isinstance(a, (tuple, list)) else 0 for a in img.ev_spans)
    bad = bytearray(data)
    for k in range(0, n, 3):
        bad[img.ev_offsets[k] + 8:img.ev_offsets[k] + 12] = b"\x4d\0\0\0"
    bad = bytes(bad)
    ctx.distinct(len(data), log.is64, [e.kind for e in log.events[:20]])
    f = io.BytesIO(data)
    reader = pp.ProcmonLogsReader(f)
    broken = pp.ProcmonLogsReader(io.BytesIO(bad))
    live = []

    def seen(e):
        live.append(watch(e))
        return e

    def iterate(lo, hi):
        for k in range(lo, hi):
            seen(next(reader))

    def index(lo, hi):
        for k in range(lo, hi):
            seen(reader[k]), seen(reader[k - n])

    def export(lo, hi):
        for k in range(lo, hi):
            e = seen(reader[k])
            if e.date_filetime < END:
                e.get_compatible_csv_info(), str(e), repr(e), hash(e), e.date()

    def fail(lo, hi):
        for k in range(lo, hi):
            try:
                seen(broken[k])
            except Exception:
                ctx.cover("failing reads")

    def cut(lo, hi):
        for e in reader[lo:hi]:
            seen(e)

    tracemalloc.start(1)
    try:
        for what, fn in (("iterated", iterate), ("indexed", index), ("exported", export), ("failing reads", fail), ("sliced", cut)):
            del live[:]
            fn(0, 40)
            del live[:]
            a = traced()
            for lo in range(40, n, 50):
                fn(lo, min(n, lo + 50))
            alive = sum(w() is not None for w in live)
            reads = len(live)
            del live[:]
            grown = traced() - a
            ctx.cover("most KB per case", size >> 10)
            ctx.true("events that were %s and dropped are not kept" % what, alive <= max(8, reads // 4), alive=alive, read=reads)
            ctx.true("memory held does not grow with the events that were %s" % what, grown < max(100000, size // 4), grown=grown,
                     read=size, events=reads)
            ctx.cover(what)
    finally:
        tracemalloc.stop()
    # opening many logs
    k = 24
    small = []
    for j in range(k + 4):
        g = evgen.make_log(r, 3, nproc=8, nmod=6)
        for p in g.procs:
            p.command_line = p.command_line[:200] + r.word() * 300
        evgen.settle_log(g)
        small.append(write(g, Layout(), r).bytes())
    confs = [pmc.dump([("SymbolPath", "s" + r.word() * 900), ("x%d" % j, r.randbytes(8000))]) for j in range(k + 4)]
    tracemalloc.start(1)
    try:
        for what, items, fn in (("reopened", small, lambda b: [len(repr(p)) for p in pp.ProcmonLogsReader(io.BytesIO(b)).processes()]),
                                ("configurations", confs, lambda b: pp.dumps_configuration(pp.loads_configuration(b)))):
            for b in items[:4]:
                fn(b)
            a = traced()
            for b in items[4:]:
                fn(b)
            grown, size = traced() - a, sum(map(len, items[4:]))
            ctx.true("memory held does not grow with what was %s" % what, grown < max(60000, size // 4), grown=grown, size=size)
            ctx.cover(what)
    finally:
        tracemalloc.stop()


def long_run(ctx, what, items, fn, reset=None):
    """Doing the same small things again and again leaves nothing at all, and doing many different ones leaves no more than a
    cache of a reasonable size may hold."""
    some = items[:max(20, len(items) // 20)]
    warm = len(items) // 6
    tracemalloc.start(1)
    try:
        for k in range(18):
            if k == 2:
                a = traced()
            for x in some:
                fn(x)
            if reset:
                reset()
        again, n = traced() - a, len(some) * 16
        for x in items[:warm]:
            fn(x)
        a = traced()
        for x in items[warm:]:
            fn(x)
        grown = traced() - a
    finally:
        tracemalloc.stop()
    ctx.cover("long: " + what, n + len(items) - warm)
    ctx.cover("repeated runs, most bytes left of a run", max(0, again))
    ctx.cover("long runs, most bytes left of a run", max(0, grown))
    ctx.true("memory held does not grow with the times that the same things were %s" % what, again < 40000 + n // 2, grown=again, times=n)
    ctx.true("memory held does not grow with the number of things that were %s" % what, grown < 250000, grown=grown, number=len(items) - warm)


LONG = ["iterated", "indexed", "exported", "failing reads", "sliced", "reopened", "loaded", "dumped"]


def h04_long(ctx, k, r):
    what = LONG[k % len(LONG)]
    if k % len(LONG) < 5:
        if k % 16 >= 8:
            # many events of one kind, for what only a few kinds of event leave behind
            kinds = random.Random("kinds %s" % ctx.seed).sample(evgen.ALL, len(evgen.ALL))
            at = (k // 16 * 5 + k % 8) * 3
            for g in (kinds + kinds)[at % len(kinds):][:3]:
                h04_events(ctx, what, r, 10000, [g])
            ctx.cover("long: one kind of event")
        else:
            h04_events(ctx, what, r, 12000, list(evgen.ALL))
    elif what == "reopened":
        logs = []
        for j in range(400):
            g = evgen.make_log(r, 2, nproc=2, nmod=1)
            logs.append(write(g, Layout(), r).bytes())
        ctx.distinct(k, len(logs[0]))

        def reopen(b):
            try:
                reader = pp.ProcmonLogsReader(io.BytesIO(b))
                list(reader), reader.processes(), reader.system_details(), len(reader)
                if len(b) % 3 == 0:
                    pp.read_all_events_from_pml(io.BytesIO(b[:-1 - len(b) % 800]))
            except Exception:
                pass
        long_run(ctx, what, logs, reopen)
    else:
        confs = [[("FilterRules", [pmc.grule(r) for _ in range(8)]), ("HighlightRules", [pmc.grule(r)]), ("x%d" % j, r.randbytes(9)),
                  ("LogFont", pmc.gvalue(r, "LogFont")), ("SymbolPath", r.uni(9)), ("AdvancedMode", r.u32())] for j in range(500)]
        ctx.distinct(k, confs[0][0])
        if what == "loaded":
            def use(b):
                pp.loads_configuration(b)
                try:
                    pp.loads_configuration(b[:-2] + b"\0\xd8")
                except Exception:
                    pass
            items = [pmc.dump(c) for c in confs]
        else:
            def use(c):
                c = pmc.to_lib(c, lib)
                pp.dumps_configuration(c)
                [(str(x), repr(x), hash(x)) for x in c["FilterRules"]]
                try:
                    pp.dumps_configuration(dict(c, AdvancedMode=None))
                except Exception:
                    pass
            items = confs
        long_run(ctx, what, items, use)


def h04_events(ctx, what, r, n, gens):
    log = evgen.base_log(r, nproc=3, nmod=2)
    for _ in range(3 * n):
        if len(log.events) == n:
            break
        e = evgen.finish(r, log, r.choice(gens)(r, log, {}))
        if len(e.details) + len(e.extra or b"") > 3000:
            continue
        e.date, e.duration, e.stack = (e.date + len(log.events)) % END, e.duration % (1 << 50), []
        e.result = r.u32() if r.chance(.5) else e.result
        log.events.append(e)
    n = len(log.events)
    evgen.settle_log(log)
    img = write(log, Layout(), r)
    data = bytearray(img.bytes())
    ctx.distinct(len(data), log.is64, [e.kind for e in log.events[:20]])
    if what == "failing reads":
        for k in range(n):
            at = img.ev_offsets[k]
            if k % 3 == 0:
                data[at + 8:at + 12] = b"\x4d\0\0" + bytes([r.u8() & 127])
            elif k % 3 == 1:
                data[at:at + 4] = struct.pack("<I", 0x80000000 + r.randrange(1 << 30))
    box = [pp.ProcmonLogsReader(io.BytesIO(bytes(data)))]
    reader = box[0]

    def step(k):
        try:
            return next(box[0])
        except StopIteration:
            box[0] = pp.ProcmonLogsReader(io.BytesIO(bytes(data)))

    def export(e):
        if e.date_filetime < END:
            e.get_compatible_csv_info(1), str(e), repr(e), hash(e), e.date(), e == e

    def fail(k):
        try:
            reader[k]
        except Exception:
            pass
    order = list(range(n))
    if what != "iterated":
        r.shuffle(order)
    fn = {"iterated": step, "indexed": lambda k: reader[k], "exported": lambda k: export(reader[k]),
          "failing reads": fail, "sliced": lambda k: reader[k:k + 1]}[what]

    def again():
        box[0] = pp.ProcmonLogsReader(io.BytesIO(bytes(data)))
    long_run(ctx, what, order, fn, again)


# ------------------------------------------------------------------ H05
def copies(r, x):
    yield "copy", copy.copy(x)
    yield "deep copy", copy.deepcopy(x)
    p = r.randint(2, pickle.HIGHEST_PROTOCOL)
    yield "pickle", pickle.loads(pickle.dumps(x, p))


def spoil(r, e):
    """Change a copy in every way."""
    for f in ("tid", "duration", "result", "path", "category", "operation", "date_filetime"):
        if r.chance(.6):
            setattr(e, f, r.choice([0, "x", 7]))
    if e.details:
        for k in list(e.details):
            if isinstance(e.details[k], list):
                e.details[k].append("x")
        e.details.clear()
    if isinstance(e.stacktrace, list):
        e.stacktrace.append(1)
    p = e.process
    if p is not None:
        p.pid, p.user = 1, "x"
        for m in p.modules:
            m.path = "x"
        if isinstance(p.modules, list):
            p.modules.append(None)


OTHER = """
import sys; sys.path[:0] = sys.argv[1:3]
import pickle, io, warnings
warnings.simplefilter("ignore")
import procmon_parser as pp
data, events, procs, conf, blob = pickle.load(sys.stdin.buffer)
reader = pp.ProcmonLogsReader(io.BytesIO(data))
fresh = list(reader)
assert events == fresh and [hash(e) for e in events] == [hash(e) for e in fresh] and set(events) == set(fresh), "events"
assert [e.get_compatible_csv_info() for e in events] == [e.get_compatible_csv_info() for e in fresh], "csv"
assert [repr(e) for e in events] == [repr(e) for e in fresh], "repr"
assert procs == reader.processes() and set(procs) == set(reader.processes()), "processes"
assert {p: 1 for p in procs} == {p: 1 for p in reader.processes()}, "processes as keys"
mods = [m for p in procs for m in p.modules]
assert {m: 1 for m in mods} == {m: 1 for p in reader.processes() for m in p.modules}, "modules as keys"
assert pp.dumps_configuration(conf) == blob, "dump"
rules = pp.loads_configuration(blob)["FilterRules"]
assert conf["FilterRules"] == rules and set(rules) == set(conf["FilterRules"]), "rules"
sys.stdout.buffer.write(pickle.dumps((events, procs, conf)))
"""


def other_process(ctx, r, data, events, procs, conf):
    """What is pickled here is used there (with another hash seed), and comes back."""
    for x in events + procs + [m for p in procs for m in p.modules] + conf["FilterRules"]:
        hash(x)
    blob = pp.dumps_configuration(conf)
    conf = pp.loads_configuration(blob)
    for x in conf["FilterRules"]:
        hash(x)
    p = subprocess.run([sys.executable, "-B", "-X", "pycache_prefix=" + os.environ["VERIF_SCRATCH"] + "/pyc", "-c", OTHER, REPO, VERIF],
                       input=pickle.dumps((data, events, procs, conf, blob), r.randint(2, pickle.HIGHEST_PROTOCOL)),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=str(r.randint(1, 1000))))
    ctx.eq("what was pickled can be used in another process like what is read there", (p.returncode, p.stderr[-300:]), (0, b""))
    a, b, c = pickle.loads(p.stdout)
    ctx.true("what comes back equals what was sent", a == events and b == procs and [hash(x) for x in a] == [hash(x) for x in events]
             and [hash(x) for x in b] == [hash(x) for x in procs])
    ctx.true("the configuration that comes back", pmc.from_lib(c) == pmc.from_lib(conf) and pp.dumps_configuration(c) == blob)
    ctx.cover("other process")


@check("H05", 1500, 15000,
       "a case copies, deep-copies and pickles (protocols 2 to the highest) events, processes, modules, system details, rules, fonts and whole "
       "configurations, compares what the copies show, export and dump, and changes the detached ones; distinct by log and configuration",
       ["copy", "deep copy", "pickle", "event", "process", "module", "system", "rule", "font", "configuration", "detached", "together", "other process"])
def h05(ctx, i, r):
    log = quiet_log(r, r.choice([2, 5]), nmod=r.choice([0, 1, 3]))
    data = data_of(r, log)
    cover_log(ctx, log)
    reader = pp.ProcmonLogsReader(io.BytesIO(data))
    events = list(reader)
    for ev, e in zip(log.events, events):
        was = look(e)
        for how, c in copies(r, e):
            ctx.true("a %s of an event is an event" % how, type(c) is type(e))
            ctx.eq("what a %s of an event shows" % how, look(c), was)
            ctx.true("a %s equals the event" % how, c == e and not c != e and hash(c) == hash(e))
            check_event(ctx, log, ev, c)
            ctx.cover(how)
            if how != "copy":
                spoil(r, c)
                ctx.cover("detached")
                ctx.eq("the event after its %s was changed" % how, look(e), was)
        ctx.cover("event")
    for p in reader.processes()[:6]:
        was = snap_proc(p), repr(p), str(p)
        for how, c in copies(r, p):
            ctx.eq("what a %s of a process shows" % how, (snap_proc(c), repr(c), str(c)), was)
            ctx.true("a %s equals the process" % how, type(c) is type(p) and c == p and hash(c) == hash(p))
        for m in p.modules[:3]:
            for how, c in copies(r, m):
                ctx.eq("what a %s of a module shows" % how, (repr(c), str(c), pml.snap_mod(c)), (repr(m), str(m), pml.snap_mod(m)))
                ctx.true("a %s equals the module" % how, type(c) is type(m) and c == m and hash(c) == hash(m))
            ctx.cover("module")
        ctx.cover("process")
    d = reader.system_details()
    for how, c in copies(r, d):
        ctx.eq("a %s of the system details" % how, sorted(c.items()), sorted(d.items()))
    ctx.cover("system")
    for how, c in copies(r, events):        # together: processes are shared
        ctx.eq("a %s of all events" % how, [look(e) for e in c], [look(e) for e in events])
        ctx.true("a %s of all events equals them" % how, c == events)
        ctx.cover("together")
    for how, c in copies(r, reader.processes()):
        check_processes(ctx, log, c)
    if i % 25 == 0:
        conf = pmc.gconf(r, names=["FilterRules", "LogFont", "Columns"])
        other_process(ctx, r, data, events, reader.processes(), pmc.to_lib(conf, lib, r))
    # configurations
    conf = pmc.gconf(r)
    c = pmc.to_lib(conf, lib, r)
    blob = pp.dumps_configuration(c)
    for src in (c, pp.loads_configuration(blob)):
        want = pmc.from_lib(src)
        for how, y in copies(r, src):
            ctx.eq("a %s of a configuration" % how, pmc.from_lib(y), want)
            ctx.true("dump of a %s of a configuration" % how, pp.dumps_configuration(y) == blob)
            if how != "copy":
                for n, v in y.items():
                    if isinstance(v, list):
                        for x in v:
                            if isinstance(x, lib.Rule):
                                x.value, x.column = "changed", lib.Column.PATH
                        v.append(v[0] if v else 1)
                    elif isinstance(v, lib.Font):
                        v.face_name, v.height = "changed", 99
                ctx.eq("the configuration after its %s was changed" % how, pmc.from_lib(src), want)
                ctx.true("its dump", pp.dumps_configuration(src) == blob)
        ctx.cover("configuration")
        for n, v in src.items():
            for x in v if isinstance(v, list) and pmc.KINDS.get(n) == "rules" else []:
                for how, y in copies(r, x):
                    ctx.true("a %s equals the rule" % how, y == x and not y != x and hash(y) == hash(x) and repr(y) == repr(x))
                ctx.cover("rule")
            if isinstance(v, lib.Font):
                for how, y in copies(r, v):
                    ctx.eq("a %s of a font" % how, [getattr(y, f) for f in pmc.FONT], [getattr(v, f) for f in pmc.FONT])
                ctx.cover("font")


# ------------------------------------------------------------------ H06
class Least(object):
    """The least stream that can be read at places."""

    def __init__(self, data):
        self._f = io.BytesIO(data)

    def read(self, n=-1):
        return self._f.read(n)

    def seek(self, off, whence=0):
        return self._f.seek(off, whence)

    def tell(self):
        return self._f.tell()


class Silent(Least):
    """seek() need not return anything."""

    def seek(self, off, whence=0):
        self._f.seek(off, whence)


class Source(object):
    """Can only be read."""

    def __init__(self, data):
        self._f = io.BytesIO(data)

    def read(self, n=-1):
        return self._f.read(n)


class Sink(object):
    """Can only be written, at its end."""

    def __init__(self):
        self.got = b""

    def write(self, b):
        self.got += bytes(b)
        return len(b)


class Drip(io.RawIOBase):
    """A raw stream that gives a few bytes at a time, and cannot seek."""

    def __init__(self, data, r):
        self._f, self._r = io.BytesIO(data), r

    def readable(self):
        return True

    def readinto(self, b):
        return self._f.readinto(memoryview(b)[:self._r.randint(1, 9)])


def pml_streams(r, d, data):
    p = os.path.join(d, "log")
    with open(p, "wb") as f:
        f.write(data)
    yield "buffered file", open(p, "rb")
    yield "raw file", open(p, "rb", buffering=0)
    yield "small buffer", open(p, "rb", buffering=r.choice([2, 16, 100]))
    yield "read-write file", open(p, "r+b")
    f = open(p, "rb")
    yield "mapped file", mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
    f.close()
    yield "BytesIO", io.BytesIO(data)
    yield "least stream", Least(data)
    yield "silent seek", Silent(data)
    yield "buffered reader", io.BufferedReader(io.BytesIO(data))
    yield "buffered random", io.BufferedRandom(io.BytesIO(data))
    with gzip.open(p + ".gz", "wb", 1) as g:
        g.write(data)
    yield "gzip", gzip.open(p + ".gz")
    with bz2.open(p + ".bz2", "wb", compresslevel=1) as g:
        g.write(data)
    yield "bz2", bz2.open(p + ".bz2")
    with zipfile.ZipFile(p + ".zip", "w") as z:
        z.writestr("log", data)
    yield "zip member", zipfile.ZipFile(p + ".zip").open("log")
    s = tempfile.SpooledTemporaryFile(max_size=r.choice([1 << 30, 10]), dir=d)
    s.write(data)
    s.seek(0)
    yield "spooled file", s
    t = tempfile.NamedTemporaryFile(dir=d)
    t.write(data)
    t.seek(0)
    yield "wrapped file", t


PML_STREAMS = ("buffered file", "raw file", "small buffer", "read-write file", "mapped file", "BytesIO", "least stream", "silent seek",
               "buffered reader", "buffered random", "gzip", "bz2", "zip member", "spooled file", "wrapped file")
SOURCES = ("read only", "pipe", "drip", "buffered drip", "socket", "gzip source", "raw file source", "least source")
SINKS = ("write only", "pipe sink", "append", "raw append", "socket sink", "gzip sink", "buffered sink", "raw sink", "refusing sink", "full pipe")


def feed(write_all, data):
    t = threading.Thread(target=write_all, args=(data,), daemon=True)
    t.start()
    return t


@check("H06", 600, 6000,
       "a case reads one log through 15 kinds of seekable stream, loads a configuration from 8 kinds of source, some not seekable, and "
       "dumps one to 10 kinds of sink; distinct by log and configuration",
       list(PML_STREAMS + SOURCES + SINKS))
def h06(ctx, i, r):
    log = quiet_log(r, r.choice([1, 3]), nproc=2)
    data = data_of(r, log)
    ctx.distinct(len(data), [(e.kind, e.date) for e in log.events])
    if len(data) > 3000000:
        return
    want = None
    conf = pmc.gconf(r)
    blob = pmc.dump(conf)
    c = pmc.to_lib(conf, lib, r)
    ctx.distinct(len(blob), [n for n, _ in conf])
    with short_dir() as d:
        for kind, s in pml_streams(r, d, data):
            try:
                reader = pp.ProcmonLogsReader(s)
                got = [len(reader), [look(e, False) for e in reader], [snap_proc(p) for p in reader.processes()],
                       sorted(reader.system_details().items()), snap_event(reader[-1])]
                if want is None:
                    for ev, e in zip(log.events, reader[:]):
                        check_event(ctx, log, ev, e)
                    want = got
                ctx.eq("a log read through a %s" % kind, got, want)
                if r.chance(.3):
                    s.seek(0)
                    ctx.eq("all events read through a %s" % kind, [snap_event(e) for e in pp.read_all_events_from_pml(s)], [x[0] for x in want[1]])
                if hasattr(s, "closed"):
                    ctx.true("the %s is left open" % kind, not s.closed)
                ctx.cover(kind)
            finally:
                if hasattr(s, "close"):
                    s.close()
        # sources
        for kind in SOURCES:
            end = thread = None
            if kind == "read only":
                s = Source(blob)
            elif kind == "least source":
                s = Least(blob)
            elif kind == "pipe":
                a, b = os.pipe()
                s = os.fdopen(a, "rb", r.choice([0, -1]))

                def push(x, b=b):
                    with os.fdopen(b, "wb") as f:
                        f.write(x)
                thread = feed(push, blob)
            elif kind == "socket":
                a, end = socket.socketpair()
                s = a.makefile("rb")
                a.close()

                def push(x, end=end):
                    end.sendall(x)
                    end.shutdown(socket.SHUT_WR)
                thread = feed(push, blob)
            elif kind == "drip":
                s = Drip(blob, r)
            elif kind == "buffered drip":
                s = io.BufferedReader(Drip(blob, r), r.choice([1, 7, 8192]))
            elif kind == "gzip source":
                s = gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(blob, 1)))
            else:
                with open(os.path.join(d, "c"), "wb") as f:
                    f.write(blob)
                s = open(os.path.join(d, "c"), "rb", buffering=0)
            got = pp.load_configuration(s)
            ctx.eq("a configuration loaded from a %s" % kind, pmc.from_lib(got), conf)
            ctx.cover(kind)
            if thread:
                thread.join()
            for x in (s, end):
                if hasattr(x, "close"):
                    x.close()
        # sinks
        blob = pp.dumps_configuration(c)
        for kind in SINKS:
            before = b""
            if kind == "write only":
                s = Sink()
                pp.dump_configuration(c, s)
                got = s.got
            elif kind in ("pipe sink", "socket sink"):
                parts = []
                if kind == "pipe sink":
                    a, b = os.pipe()
                    src, s = os.fdopen(a, "rb"), os.fdopen(b, "wb")
                else:
                    x, y = socket.socketpair()
                    src, s = x.makefile("rb"), y.makefile("wb")
                    x.close(), y.close()
                thread = feed(lambda _: parts.append(src.read()), None)
                pp.dump_configuration(c, s)
                s.close()
                thread.join()
                src.close()
                got = parts[0]
            elif kind in ("append", "raw append", "raw sink"):
                p = os.path.join(d, kind)
                before = r.choice([b"", blob, r.randbytes(9)]) if kind != "raw sink" else b""
                with open(p, "wb") as f:
                    f.write(before)
                with open(p, "wb" if kind == "raw sink" else "ab", **({} if kind == "append" else {"buffering": 0})) as s:
                    pp.dump_configuration(c, s)
                with open(p, "rb") as f:
                    got = f.read()
            elif kind == "gzip sink":
                g = io.BytesIO()
                with gzip.GzipFile(fileobj=g, mode="wb", compresslevel=1) as s:
                    pp.dump_configuration(c, s)
                got = gzip.decompress(g.getvalue())
            elif kind == "buffered sink":
                g = io.BytesIO()
                s = io.BufferedWriter(g, r.choice([1, 16, 8192]))
                pp.dump_configuration(c, s)
                s.flush()
                got = g.getvalue()
            elif kind == "full pipe":
                a, b = os.pipe()
                os.set_blocking(b, False)
                with os.fdopen(a, "rb") as src, os.fdopen(b, "wb", 0) as s:
                    while s.write(b"x" * 4096) is not None:
                        pass
                    if blob:
                        ctx.raises("dumping to a pipe that takes nothing now", Exception, pp.dump_configuration, c, s)
                ctx.cover(kind)
                continue
            else:
                room = r.randrange(len(blob)) if blob else 0
                s = Sink()
                take = s.write

                def refuse(b, s=s, take=take, room=room):
                    left = room - len(s.got)
                    return take(b[:max(0, left)])
                s.write = refuse
                if blob:
                    e = ctx.raises("dumping to a sink that does not take everything", Exception, pp.dump_configuration, c, s)
                    ctx.true("what it took is the beginning of the dump", blob.startswith(s.got))
                    del e
                ctx.cover(kind)
                continue
            ctx.true("a configuration dumped to a %s" % kind, got == before + blob, want=before + blob, got=got)
            ctx.cover(kind)
