#!/usr/bin/env python3
"""Create /verif/seeded/<id> from a spec file: python3 tools/mkseed.py SPEC [--run]
SPEC is a python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], and either
INJECT=(test filter, [(path, module source), ...]) for a Rust unit-level demo, or SCRIPT=(name, python source) for one over pysail."""
import json, os, subprocess, sys
R = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUST = '''#!/bin/bash
# runs a unit test (inject.rs) compiled into the crate under test
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo
FILES="%(file)s"
for F in $FILES; do cp -p "$F" "$F.demo-orig"; done
trap 'for F in $FILES; do mv -f "$F.demo-orig" "$F"; touch "$F"; done' EXIT
i=0
for F in $FILES; do cat "$HERE/inject$i.rs" >> "$F"; i=$((i+1)); done
timeout 280 cargo test --workspace --lib --offline --locked %(filter)s -- --test-threads 1 > /tmp/demo-%(id)s.log 2>&1
rc=$?
grep -E "test .*%(filter)s.*|panicked|^error" /tmp/demo-%(id)s.log | head -20
grep -qE "test .*%(filter)s.* \\.\\.\\. ok" /tmp/demo-%(id)s.log || { [ $rc = 0 ] && rc=3; }
exit $rc
'''
PY = '''#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo/python PYTHONDONTWRITEBYTECODE=1
W=$(mktemp -d /tmp/demo-%(id)s.XXXXXX)
trap 'case "$W" in /tmp/demo-*) rm -rf "$W";; esac' EXIT
cd "$W"
timeout 250 /opt/vp/venv/bin/python "$HERE/demo.py" "$W" 2>&1 | tail -n 30
exit ${PIPESTATUS[0]}
'''


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    d = os.path.join(HERE, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", R, "status", "--short"], capture_output=True, text=True).stdout.strip(), "/repo is dirty"
    try:
        for p, old, new in g["EDITS"]:
            s = open(f"{R}/{p}").read()
            assert s.count(old) == 1, (p, old, s.count(old))
            open(f"{R}/{p}", "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    if "INJECT" in g:
        flt, mods = g["INJECT"]
        for i, (_, src) in enumerate(mods):
            open(f"{d}/inject{i}.rs", "w").write(src)
        f = " ".join(x for x, _ in mods)
        open(f"{d}/demo.sh", "w").write(RUST % dict(file=f, filter=flt, id=g["ID"]))
    else:
        open(f"{d}/demo.py", "w").write(g["SCRIPT"])
        open(f"{d}/demo.sh", "w").write(PY % dict(id=g["ID"]))
    os.chmod(f"{d}/demo.sh", 0o755)
    if "--run" in sys.argv:
        def demo():
            r = subprocess.run(["bash", f"{d}/demo.sh"], cwd=R, capture_output=True, text=True)
            return r.returncode, r.stdout[-600:]
        build = "INJECT" not in g
        a = demo()
        subprocess.run(["git", "-C", R, "apply", f"{d}/patch.diff"], check=True)
        try:
            if build:
                b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
                print("build", b.returncode)
            c = demo()
            k = subprocess.run(["python3", f"{HERE}/check.py", g["PROPERTY"]], capture_output=True, text=True)
        finally:
            subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
        if build:
            subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
        print(g["ID"], "demo clean", a[0], "patched", c[0], "check", k.returncode)
        if a[0] or not c[0] or k.returncode != 1:
            print(a[1], "\n--", c[1], "\n--", k.stdout[-500:])


main()
