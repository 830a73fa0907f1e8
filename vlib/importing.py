"""Run in a fresh process: imports every module of the package and says what that changed.
Input {"before": names of other modules to import first}."""
import importlib
import json
import os
import pkgutil
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ["VERIF_REPO"]


class Quiet:
    def __init__(self):
        self.problems = []

    def check(self, ok, key, message, **more):
        if not ok:
            self.problems.append([key, message])

    def count(self, *a):
        pass


def main():
    ask = json.loads(sys.stdin.read())
    sys.path.insert(0, HERE)
    from vlib import surroundings

    sys.path.remove(HERE)
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    for name in ask["before"]:
        try:
            importlib.import_module(name)
        except Exception:
            pass
    had = set(sys.modules)
    mon, done = Quiet(), 0
    with surroundings.Watch(mon, "import", True):
        import theboss

        for info in pkgutil.walk_packages(theboss.__path__, "theboss.", onerror=lambda n: None):
            try:
                importlib.import_module(info.name)
                done += 1
            except ImportError:
                pass  # optional dependencies
    others = [m for m in sys.modules if m not in had and not m.startswith("theboss")]
    print(json.dumps({"modules": done, "others": others, "problems": mon.problems}))


if __name__ == "__main__":
    main()
