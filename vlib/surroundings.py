"""What a library must leave alone: everything a caller can see of its own process.  A Watch
redirects what is written to the terminal (also by worker processes), notes files that are
written, and compares the settings of the process before and after."""
import builtins
import decimal
import faulthandler
import gc
import locale
import logging
import multiprocessing
import multiprocessing.spawn
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

_EVENTS = ("os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate",
           "os.utime", "os.system", "os.exec", "socket.bind", "socket.connect", "socket.sendto", "subprocess.Popen",
           "shutil.rmtree", "shutil.move", "shutil.copyfile", "os.kill", "os.chdir")
_THREADS = ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS", "PYTHONHASHSEED")
_active = None
_hooked = False
_MODULES = ("math", "cmath", "random", "itertools", "copy", "collections", "operator", "functools", "time", "json", "pickle",
            "numpy", "numpy.linalg", "numpy.random", "scipy.special", "scipy.linalg", "multiprocessing", "os", "os.path",
            "sys", "threading", "concurrent.futures", "typing", "dataclasses", "enum", "abc", "warnings")


def _hook(event, args):
    w = _active
    if w is None:
        return
    try:
        if event == "open":
            path, mode, flags = args
            if not isinstance(path, (str, bytes)):
                return
            if not (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                return
        elif event in _EVENTS:
            path = args[0] if args else ""
            if event.startswith("socket"):
                path = args[-1]
                if isinstance(path, (str, bytes)):  # within the machine, as between processes of one program
                    return
            if event == "os.kill":
                return
        else:
            return
        path = os.fsdecode(path) if isinstance(path, (str, bytes)) else repr(path)
        full = os.path.abspath(path)
        if full.startswith(("/dev/", "/proc/")) or path.startswith(w.scratch + "/tmp"):
            return  # what stays behind in TMPDIR is looked at afterwards
        os.write(w.log, ("%s %s\n" % (event, path)).encode("utf-8", "replace"))
    except Exception:
        pass


def random_state():
    s = np.random.get_state()
    return random.getstate(), (s[0], s[1].tobytes(), s[2], s[3], s[4])


def snapshot():
    d = {}
    d["environment variables"] = dict(os.environ)
    d["working directory"] = os.getcwd()
    mask = os.umask(0)
    os.umask(mask)
    d["umask"] = mask
    d["numpy error handling"] = (np.geterr(), id(np.geterrcall()), np.getbufsize())
    d["numpy print options"] = {k: v for k, v in np.get_printoptions().items() if k != "formatter"}
    d["warning filters"] = [str(f) for f in warnings.filters]
    d["warning display"] = id(warnings.showwarning)
    d["signal handlers"] = {int(s): id(signal.getsignal(s)) for s in signal.valid_signals()}
    d["recursion limit"] = sys.getrecursionlimit()
    d["switch interval"] = sys.getswitchinterval()
    d["integer digits limit"] = sys.get_int_max_str_digits()
    d["import path"] = list(sys.path)
    d["importers"] = [id(q) for q in sys.meta_path]
    d["arguments"] = list(sys.argv)
    d["standard streams"] = [id(q) for q in (sys.stdin, sys.stdout, sys.stderr, sys.excepthook, sys.displayhook,
                                             sys.unraisablehook, threading.excepthook)]
    d["trace functions"] = (id(sys.gettrace()), id(sys.getprofile()))
    d["start method"] = (multiprocessing.get_start_method(), multiprocessing.spawn.get_executable())
    root = logging.getLogger()
    d["logging"] = (root.level, [id(h) for h in root.handlers], root.manager.disable)
    d["garbage collection"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count())
    d["locale"] = locale.setlocale(locale.LC_ALL)
    c = decimal.getcontext()
    d["decimal context"] = (c.prec, c.rounding, c.Emin, c.Emax)
    d["fault handler"] = faulthandler.is_enabled()
    d["limits"] = {k: resource.getrlimit(k) for k in
                   (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CPU, resource.RLIMIT_CORE)}
    d["priority"] = (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0)))
    d["timers"] = [bool(signal.getitimer(k)[0]) for k in (signal.ITIMER_REAL, signal.ITIMER_PROF, signal.ITIMER_VIRTUAL)]
    d["built-in functions"] = {k: id(v) for k, v in vars(builtins).items() if k != "_"}
    d["stack size of threads"] = threading.stack_size()
    for name in _MODULES:
        mod = sys.modules.get(name)
        if mod is not None:
            d["module " + name] = {k: id(v) for k, v in vars(mod).items()
                                   if not k.startswith("_") and (callable(v) or isinstance(v, (int, float, str)))}
    return d


def _differences(a, b):
    for k in a:
        if k.startswith("module "):
            if k in b:
                gone = [n for n in a[k] if n in b[k] and b[k][n] != a[k][n]] + [n for n in a[k] if n not in b[k]]
                if gone and k != "module sys":
                    yield k, "changed: %s" % gone[:5]
                elif gone and set(gone) - {"last_type", "last_value", "last_traceback", "last_exc"}:
                    yield k, "changed: %s" % gone[:5]
        elif k == "built-in functions":
            gone = sorted(n for n in set(a[k]) | set(b[k]) if a[k].get(n) != b[k].get(n))
            if gone:
                yield k, "changed: %s" % gone[:5]
        elif k == "environment variables":
            gone = sorted(n for n in set(a[k]) | set(b[k]) if a[k].get(n) != b[k].get(n))
            if gone:
                yield k, "changed: %s" % [(n, a[k].get(n), b[k].get(n)) for n in gone[:3]]
        elif a[k] != b[k]:
            yield k, "%s -> %s" % (str(a[k])[:200], str(b[k])[:200])


class Watch:
    """with Watch(mon, what): requests"""

    def __init__(self, mon, what, deterministic=False):
        self.mon, self.what, self.deterministic = mon, what, deterministic

    def __enter__(self):
        global _active, _hooked
        if not _hooked:
            sys.addaudithook(_hook)
            _hooked = True
        self.scratch = tempfile.mkdtemp(prefix="verif-surroundings-")
        for d in ("cwd", "tmp", "home"):
            os.mkdir(os.path.join(self.scratch, d))
        self.log = os.open(os.path.join(self.scratch, "log"), os.O_RDWR | os.O_CREAT | os.O_APPEND)
        self.out = os.open(os.path.join(self.scratch, "out"), os.O_RDWR | os.O_CREAT | os.O_APPEND)
        # the harness sets some of these itself; a value that equals the one which was set would not be noticed
        self.old = {k: os.environ.get(k) for k in ("TMPDIR", "HOME", "PYTHONWARNINGS") + _THREADS}
        self.cwd, self.tempdir = os.getcwd(), tempfile.tempdir
        self.filters = warnings.catch_warnings()
        self.filters.__enter__()
        warnings.simplefilter("ignore")
        os.environ.update(TMPDIR=self.scratch + "/tmp", HOME=self.scratch + "/home", PYTHONWARNINGS="ignore")
        for k in _THREADS:
            os.environ.pop(k, None)
        tempfile.tempdir = None
        os.chdir(self.scratch + "/cwd")
        sys.stdout.flush()
        sys.stderr.flush()
        self.saved = os.dup(1), os.dup(2)
        os.dup2(self.out, 1)
        os.dup2(self.out, 2)
        multiprocessing.get_start_method()
        self.before, self.random = snapshot(), random_state()
        _active = self
        return self

    def __exit__(self, kind, value, tb):
        global _active
        _active = None
        problem = []
        try:
            try:
                for s in (sys.stdout, sys.stderr):
                    if s is not None:
                        s.flush()
            except Exception:
                pass
            after, rnd = snapshot(), random_state()
            problem += list(_differences(self.before, after))
            if self.deterministic and rnd != self.random:
                problem.append(("random numbers", "the state of the random number generators changed"))
        finally:
            os.dup2(self.saved[0], 1)
            os.dup2(self.saved[1], 2)
            for f in self.saved:
                os.close(f)
            os.chdir(self.cwd)
            for k, v in self.old.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            tempfile.tempdir = self.tempdir
            self.filters.__exit__()
        with open(self.scratch + "/out", errors="replace") as f:
            text = f.read()
        with open(self.scratch + "/log", errors="replace") as f:
            log = f.read().splitlines()
        files = [os.path.join(d, n) for q in ("cwd", "tmp", "home") for d, ds, ns in os.walk(os.path.join(self.scratch, q))
                 for n in ds + ns]
        os.close(self.log)
        os.close(self.out)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if text:
            problem.append(("output", "was written: %r" % text[:300]))
        if files or log:
            problem.append(("files", "touched: %s" % (files + log)[:5]))
        if kind is not None:
            return False  # judged elsewhere
        self.mon.count("settings_compared", len(self.before))
        for what, how in problem:
            self.mon.check(False, "%s:%s" % (what.replace(" ", "-"), self.what), "%s: %s %s" % (self.what, what, how))
        self.mon.check(True, "surroundings", "")
        return False
