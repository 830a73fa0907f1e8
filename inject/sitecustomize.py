"""Loaded by the worker processes that the code under test starts while one of the variables
below is set.  VERIF_EXTREME: the fresh process begins with crafted random draws (see
vlib/extreme.py).  VERIF_FAULT=k: the k-th line of theboss that the process executes fails.
Both say so in a log file, so that the check knows that the injection took place."""
import os

if os.environ.get("VERIF_EXTREME") or os.environ.get("VERIF_FAULT"):
    import sys

    _root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, _root)
    if os.environ.get("VERIF_EXTREME"):
        from vlib import extreme

        extreme.arm(os.environ["VERIF_EXTREME"])
        with open(os.environ["VERIF_EXTREME_LOG"], "a") as _f:
            _f.write("%d\n" % os.getpid())
    if os.environ.get("VERIF_FAULT"):
        from vlib import crash

        _kind = crash.FAILURES[int(os.environ["VERIF_FAULT_KIND"])]

        class _Logged(_kind):
            def __init__(self, *a):
                super().__init__(*a)
                with open(os.environ["VERIF_FAULT_LOG"], "a") as f:
                    f.write("%d\n" % os.getpid())

            def __reduce__(self):
                return _kind, self.args

        _p = crash._Points(os.environ["VERIF_FAULT_ROOT"], int(os.environ["VERIF_FAULT"]), _Logged)
        sys.settrace(_p.outer)
    sys.path.remove(_root)
