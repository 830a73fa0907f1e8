"""Fault injection: a request is made to fail at a chosen line of the code under test, as an
interrupt by the user or an error in a part supplied by the caller would do."""
import os
import sys


class Interrupt(KeyboardInterrupt):
    """The user pressed Ctrl-C."""


class Failure(RuntimeError):
    """Something the code relies on failed."""


class Full(MemoryError):
    pass


class Wrong(ValueError):
    pass


class Missing(KeyError):
    pass


class Outside(IndexError):
    pass


class Undefined(ZeroDivisionError):
    pass


class Broken(OSError):
    pass


class Odd(TypeError):
    pass


FAILURES = (Failure, Full, Wrong, Missing, Outside, Undefined, Broken, Odd)


class _Points:
    def __init__(self, root, target=None, error=None, everywhere=False):
        self.root, self.target, self.error = root + os.sep, target, error
        self.seen, self.where, self.pid, self.everywhere = 0, None, os.getpid(), everywhere

    def outer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.root) and (self.everywhere or os.getpid() == self.pid):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.seen += 1
            if self.target is not None and self.seen == self.target + 1:
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.error("injected at " + self.where)
        return self.local


def _root():
    import theboss

    return os.path.realpath(theboss.__path__[0])


def lines(fn):
    """Number of lines of the code under test that fn() executes."""
    p = _Points(_root())
    sys.settrace(p.outer)
    try:
        fn()
    finally:
        sys.settrace(None)
    return p.seen


def strike(fn, target, error, everywhere=False):
    """Runs fn() and makes the target-th executed line fail.  Returns (failed, result, where);
    the result of a request that ended all the same is returned for the monitors to judge."""
    p = _Points(_root(), target, error, everywhere)
    sys.settrace(p.outer)
    try:
        got = fn()
    except (Interrupt,) + FAILURES as e:
        return True, None, p.where or str(e)
    except Exception:
        if p.where is None:
            raise
        return True, None, p.where  # reported as another exception
    finally:
        sys.settrace(None)
    return False, got, p.where


def children(exclude=()):
    """Processes whose parent is this one (helpers of the multiprocessing module excluded)."""
    me, out = os.getpid(), set()
    for name in os.listdir("/proc"):
        if not name.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % name) as f:
                rest = f.read().rpartition(")")[2].split()
            if int(rest[1]) != me or rest[0] in "ZX":
                continue
            with open("/proc/%s/cmdline" % name, "rb") as f:
                cmd = f.read()
        except (OSError, IndexError, ValueError):
            continue
        if b"resource_tracker" in cmd or b"semaphore_tracker" in cmd or b"forkserver" in cmd:
            continue
        out.add(int(name))
    return out - set(exclude)
