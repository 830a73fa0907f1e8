"""C26: copies of objects, also in other processes, answer like the original and independently."""
import copy
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from vlib import crash, zoo

PROPERTY = "C26"
REQUIRED = tuple("copies:" + k for k in zoo.KINDS) + tuple("elsewhere:" + k for k in zoo.KINDS) + (
    "deepcopies", "pickles", "altered_originals", "altered_copies", "copies_of_copies", "used_before")
RULE = (
    "objects of every kind, fresh or used, are deep-copied or pickled and restored (here and in a new process), "
    "the original or the copy is altered, and both are asked; answers are compared with the independent ones; "
    "non-trivial: one of the two was altered or the object was used before; distinct by kind, way and history"
)
ASSUMPTIONS = ("shallow copies share their parts",)
CASE_TIMEOUT = 90
TIMER = "real"
BUDGET = {"quick": 300, "thorough": 2400}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(rng, tier):
    k = 1 if tier == "quick" else 15
    out = []
    for kind in zoo.KINDS:
        for j in range((16 if kind in zoo.WORKERS[:2] else 40) * k):
            out.append({"k": "here", "kind": kind, "way": ("deepcopy", "pickle")[j % 2], "used": bool(j // 2 % 2),
                        "alter": ("original", "copy", "none")[j % 3], "again": bool(rng.random() < .3)})
    for j in range(8 * k):
        out.append({"k": "elsewhere", "used": bool(j % 2)})
    return out


def run_case(case, mon):
    globals()["_" + case["k"]](case, mon, np.random.default_rng(case["seed"]))


def _copy(mon, way, x, kind, rng):
    with mon.code("%s of %s" % (way, kind)):
        if way == "deepcopy":
            mon.count("deepcopies")
            return copy.deepcopy(x)
        mon.count("pickles")
        return pickle.loads(pickle.dumps(x, int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))))


def _here(case, mon, rng):
    kind = case["kind"]
    with mon.code("construct " + kind):
        t = zoo.make(kind, rng)
    if case["used"]:
        with mon.code(kind):
            got = t.ask(t.obj)
        t.judge(mon, got, "before copying")
        mon.count("used_before")
    other = _copy(mon, case["way"], t.obj, kind, rng)
    if case["again"]:
        other = _copy(mon, case["way"], other, kind, rng)
        mon.count("copies_of_copies")
    checked = [other, t.obj]
    if t.alter is not None and case["alter"] != "none":
        changed = t.obj if case["alter"] == "original" else other
        with mon.code("altering " + kind):
            t.alter(changed)
        mon.count("altered_originals" if changed is t.obj else "altered_copies")
        checked = [x for x in checked if x is not changed]
    elif rng.random() < .5:
        checked.reverse()
    for x in checked:
        with mon.code(kind + " after copying"):
            got = t.ask(x)
        t.judge(mon, got, "%s %s, altered: %s" % (case["way"], "copy" if x is other else "original", case["alter"]))
    mon.count("copies:" + kind)
    if case["used"] or case["alter"] != "none":
        mon.see("nontrivial", [kind, case["way"], case["alter"], case["used"], case["seed"]])
    mon.sample({"kind": kind, "way": case["way"], "altered": case["alter"], "used_before": case["used"]})


CHILD = """
import pickle, sys
import numpy as np
sys.path[:0] = sys.argv[1].split(%r)
from vlib import zoo
if __name__ == "__main__":
    out = {}
    for kind, seed, blob in pickle.load(open(sys.argv[2], "rb")):
        try:
            t = zoo.make(kind, np.random.default_rng(seed))
            out[kind] = ("ok", t.ask(pickle.loads(blob)))
        except Exception as e:
            out[kind] = ("failed", repr(e))
    pickle.dump(out, open(sys.argv[3], "wb"))
""" % os.pathsep


def _elsewhere(case, mon, rng):
    """Objects are sent to a process of their own and asked there."""
    things, blobs = [], []
    for kind in zoo.KINDS:
        seed = int(rng.integers(1 << 30))
        with mon.code("construct " + kind):
            t = zoo.make(kind, np.random.default_rng(seed))
        with mon.code("pickle of " + kind):
            if case["used"] and kind not in zoo.WORKERS:
                t.ask(t.obj)
            # only what is sent may differ from a new object
            blobs.append((kind, seed, pickle.dumps(t.obj)))
        things.append(t)
    with tempfile.TemporaryDirectory(prefix="verif-c26-") as d:
        paths = [os.path.join(d, n) for n in ("child.py", "in", "out")]
        with open(paths[0], "w") as f:
            f.write(CHILD)
        with open(paths[1], "wb") as f:
            pickle.dump(blobs, f)
        repo = os.path.dirname(crash._root())
        r = subprocess.run([sys.executable, paths[0], os.pathsep.join([repo, HERE])] + paths[1:], capture_output=True,
                           text=True, timeout=80, env=dict(os.environ, PYTHONPATH=os.pathsep.join([repo, HERE])))
        if r.returncode or not os.path.exists(paths[2]):
            raise RuntimeError(r.stderr[-2000:])
        with open(paths[2], "rb") as f:
            got = pickle.load(f)
    for t in things:
        state, value = got[t.kind]
        mon.check(state == "ok", "exception:elsewhere:" + t.kind, "%s sent to another process: %s" % (t.kind, value))
        t.judge(mon, value, "in another process")
        mon.count("elsewhere:" + t.kind)
        mon.see("nontrivial", [t.kind, "elsewhere", case["seed"]])
