import importlib, os
REGISTRY = {}


def prop(pid, level="other"):
    def d(f):
        if pid in REGISTRY:
            first = REGISTRY[pid]["fn"]
            REGISTRY[pid]["fn"] = lambda rep: (first(rep), f(rep))
        else:
            REGISTRY[pid] = {"fn": f, "level": level}
        return f
    return d


def load():
    here = os.path.dirname(__file__)
    for n in sorted(os.listdir(here)):
        if n.endswith(".py") and not n.startswith("_"):
            importlib.import_module("rules." + n[:-3])
