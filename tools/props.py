"""Property definitions: the source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over.split(), text=" ".join(text.split())),
                      why_tests_cant=" ".join(why.split()),
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA.append(dict(property=id, reason=" ".join(na.split())))
    else:
        PROPS[-1]["_tech"] = technique
        PROPS[-1]["_note"] = note


BASE_NOTE = ("Sound for the listed obligations up to the analyser's abstraction of MIR (opaque calls into other crates, no aliasing "
             "through shared interior state beyond field names); trusts rustc's MIR and the rule's reading of the property. ")
exec(open(os.path.join(ROOT, "tools", "props_exec.py")).read())
for n in ("delta", "iceberg", "session", "catalog", "query", "io", "na"):
    p = os.path.join(ROOT, "tools", f"props_{n}.py")
    if os.path.exists(p):
        exec(open(p).read())


def design(na):
    out = open(os.path.join(ROOT, "tools", "design_head.md")).read()
    for p in PROPS:
        out += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
        if p["id"] in na:
            out += "Not applicable: " + [x["reason"] for x in NA if x["property"] == p["id"]][0] + "\n\n"
            continue
        out += f"*Decided by* {p['_tech']}. {p['_note'] or ''}\n\n"
        ev = os.path.join(ROOT, "evidence", p["id"] + ".json")
        if os.path.exists(ev):
            e = json.load(open(ev))
            for r, d in e["coverage"]["rules"].items():
                if d["rule"]:
                    out += f"- `{r}`: {d['rule']} ({d['obligations']} obligations)\n"
            out += f"\n*Cost* {e['wall_s']:.0f} s, {e['coverage']['functions_analysed']} functions. "
        out += f"*Beyond tests:* {p['why_tests_cant']}\n\n"
    sd = os.path.join(ROOT, "seeded")
    out += "## Planted bugs (`seeded/`)\n\n| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
    miss = json.load(open(os.path.join(ROOT, "tools", "missed.json"))) if os.path.exists(os.path.join(ROOT, "tools", "missed.json")) else {}
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        out += f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {miss.get(d, m['property'])} |\n"
    out += "\n" + open(os.path.join(ROOT, "tools", "design_tail.md")).read()
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(out)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    na = {x["property"] for x in NA}
    m = dict(version=1, setup_cmd="bash setup.sh",
             checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --thorough",
                          technique=p["_tech"], level="other", level_note=BASE_NOTE + (p["_note"] or "")) for p in PROPS if p["id"] not in na],
             not_applicable=NA,
             notes="Static analysis of the MIR of /repo's workspace crates (engine/driver extracts it with the nightly compiler, engine/sa analyses it, engine/rules holds the rules). No hooks in /repo.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design(na)
    print(len(PROPS), "properties,", len(m["checks"]), "checks,", len(NA), "n/a")


main()
