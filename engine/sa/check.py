"""Check framework: obligations, reporting, evidence."""
import json, os, sys, time, traceback
from . import facts, mir, ip
from .mir import short, show, walk, unmut, E

VERIF = facts.VERIF


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obs = []
        self.fns = set()
        self.rules = {}
        self.dbs = {}
        self.t0 = time.time()
        self.steps = 0
        self.reanalysed = []
        self.nsites = 0

    def db(self, *crates):
        key = tuple(sorted(crates))
        if key not in self.dbs:
            d = mir.DB(list(key))
            self.dbs[key] = d
            self.reanalysed = sorted(set(self.reanalysed) | set(d.reanalysed))
        return self.dbs[key]

    # ---- obligations
    def rule(self, rid, text):
        """declare a rule (for the evidence)"""
        self.rules[rid] = text
        self.cur = rid

    def ob(self, key, ok, msg="", where=""):
        """one proof obligation; key must be stable (no line numbers)"""
        self.obs.append((self.cur, key, bool(ok), msg if len(msg) < 400 else msg[:400] + "…", where))
        return bool(ok)

    def floor(self, what, n, least):
        """vacuity guard: at least `least` instances must have been matched"""
        return self.ob("floor:" + what, n >= least, f"expected at least {least} instance(s) of {what}, found {n}; the anchor of the rule is gone")

    def need(self, x, what):
        """an anchor that must exist"""
        ok = bool(x)
        self.ob("anchor:" + what, ok, f"anchor not found: {what}")
        return ok

    # ---- analysis helpers
    def analyse(self, db, fn, **kw):
        entry = kw.pop("entry", None)
        args = kw.pop("args", None)
        attrs = {k: kw.pop(k) for k in ("assign_fields", "adt_watch", "adt_event", "event_watch", "nonempty", "mixed", "steady") if k in kw}
        an = ip.Analyzer(db, **kw)
        for k, v in attrs.items():
            setattr(an, k, v)
        t0 = time.time()
        an.analyse(fn, entry, args)
        if os.environ.get("SA_PROF") and time.time() - t0 > 1:
            print(f"  prof {time.time() - t0:.1f}s {fn.short}", file=sys.stderr)
        self.fns |= an.visited
        self.steps += an.steps
        self.nsites += len(an.sites)
        if an.capped:
            self.ob("budget:" + fn.short, False, f"analysis of {fn.short} exceeded its budget", fn.loc())
        return an


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return {}
    return {k["key"]: k for k in json.load(open(p)).get("findings", []) if k["property"] == pid}


def finish(rep, spec):
    known = load_known(rep.pid)
    viol, kn = [], []
    seen = {}
    for rid, key, ok, msg, where in rep.obs:
        full = f"{rid}/{key}"
        if not ok:
            if full in seen:
                continue
            seen[full] = 1
            (kn if full in known else viol).append((full, msg, where))
    n = len(rep.obs)
    bad = sum(1 for o in rep.obs if not o[2])
    if n == 0:
        viol.append(("vacuous", "no obligation was generated", ""))
    by = {}
    for rid, key, ok, msg, where in rep.obs:
        d = by.setdefault(rid, {"rule": rep.rules.get(rid, ""), "obligations": 0, "failed": 0, "instances": []})
        d["obligations"] += 1
        d["failed"] += 0 if ok else 1
        if len(d["instances"]) < 25:
            d["instances"].append(key + (f" @ {where}" if where else ""))
    ev = {
        "property": rep.pid, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": spec.get("level", "other"),
        "coverage": {
            "explanation": "Static dataflow over the compiler's MIR of /repo's current source: %d obligations over %d functions (%d effect sites inlined along the call graph), rules below; every obligation was decided on all paths of the analysed functions." % (n, len(rep.fns), rep.nsites),
            "obligations": n, "discharged": n - bad, "functions_analysed": len(rep.fns), "effect_sites": rep.nsites, "dataflow_steps": rep.steps,
            "functions": sorted({short(k) for k in rep.fns})[:120],
            "crates": sorted({c for k in rep.dbs for c in k}), "crates_reanalysed_from_source": rep.reanalysed,
            "rules": by,
        },
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": [{"key": k, "what": m, "where": w} for k, m, w in viol],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, m, w in kn:
        print(f"KNOWN-FINDING: property={rep.pid} {k}: {known[k]['what']}")
    print(f"{rep.pid}: {n} obligations, {bad} failed, {len(rep.fns)} functions analysed, {ev['wall_s']}s")
    if viol:
        d = os.path.join(VERIF, "target", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, rep.pid + ".json")
        with open(rp, "w") as f:
            json.dump({"property": rep.pid, "violations": ev["violations"], "rerun": f"python3 {VERIF}/check.py {rep.pid}"}, f, indent=1)
        for k, m, w in viol[:20]:
            print(f"  violated {k}: {m}" + (f" [{w}]" if w else ""))
        print(f"VIOLATION property={rep.pid} replay={rp}")
        return 1
    return 0


def main(argv):
    sys.path.insert(0, os.path.join(VERIF, "engine"))
    pids = [a for a in argv if not a.startswith("-")]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick") or "quick"
    facts.FRESH = tier == "thorough"
    from rules import REGISTRY, load
    load()
    rc = 0
    if pids == ["all"]:
        pids = sorted(REGISTRY)
    for pid in pids:
        spec = REGISTRY[pid]
        rep = Report(pid, tier)
        try:
            spec["fn"](rep)
        except facts.FactsError as e:
            # the program under analysis does not compile: nothing was decided
            print(str(e)[-3000:], file=sys.stderr)
            return 2
        except Exception as e:
            traceback.print_exc()
            rep.rule("internal", "the rule's anchors could be interpreted")
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.ob(f"exception:{type(e).__name__}", False, f"the rule could not be evaluated on this source: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
        rc |= finish(rep, spec)
    return rc
