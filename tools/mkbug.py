"""Make, validate and try planted bugs.

  mkbug.py make SPEC.py     SPEC defines BUGS = [dict(id, property, file, old, new (or edits=[(file, old, new)]), needs, breaks, demo)]
  mkbug.py validate ID...   build + tests + demo with the patch, demo without it
  mkbug.py try [ID...]      run the property's quick check with the patch applied in /repo
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work"
export PYTHONPATH=/repo:/repo/_build:$here PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
timeout 250 /opt/macposts-venv/bin/python "$here/demo.py" "$work" >"$work/out.txt" 2>&1
rc=$?
tail -n 5 "$work/out.txt"
exit $rc
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(spec):
    sp = importlib.util.spec_from_file_location("spec", spec)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    ids = []
    for b in m.BUGS:
        d = os.path.join(S, b["id"])
        os.makedirs(d, exist_ok=True)
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        w = "/tmp/mkbug"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        sh("git -C /repo archive HEAD | tar x -C %s && git -C %s init -q && git -C %s add -A && git -C %s -c user.name=x -c user.email=x commit -qm x" % (w, w, w, w))
        for f, old, new in edits:
            p = os.path.join(w, f)
            t = open(p).read()
            n = b.get("nth", 0)
            c = t.count(old)
            if c == 0 or (c > 1 and "nth" not in b):
                print(b["id"], "pattern occurs", c, "times in", f)
                break
            parts = t.split(old)
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w").write(t)
        else:
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % w).stdout)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            shutil.copy(os.path.join(V, "lib", "net.py"), os.path.join(d, "net.py"))
            shutil.copy(os.path.join(V, "tools", "mini.py"), os.path.join(d, "mini.py"))
            open(os.path.join(d, "demo.py"), "w").write(b["demo"])
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            ids.append(b["id"])
        shutil.rmtree(w, ignore_errors=True)
    return ids


def clean():
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json"))["stable"])


def validate(ids):
    clean()
    bad = []
    sh("bash /opt/vp/build.sh")
    for i in ids:
        r = sh("bash %s/%s/demo.sh" % (S, i), cwd="/repo")
        if r.returncode:
            print(i, "DEMO FAILS ON CLEAN TREE\n", r.stdout[-1500:])
            bad.append(i)
    for i in ids:
        r = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
        if r.returncode:
            print(i, "does not apply", r.stderr)
            bad.append(i)
            continue
        try:
            r = sh("bash /opt/vp/test.sh /tmp/mk.json")
            res = json.load(open("/tmp/mk.json"))
            if len(res["passed"]) < 23:
                print(i, "TESTS FAIL", res["failed"], r.stderr[-800:] if not res["passed"] else "")
                bad.append(i)
            r = sh("bash %s/%s/demo.sh" % (S, i), cwd="/repo")
            print(i, "demo with patch:", r.returncode, r.stdout.strip()[-200:])
            if r.returncode == 0:
                bad.append(i)
        finally:
            sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    print("BAD:", bad)


def attempt(ids):
    clean()
    miss = []
    for i in ids:
        p = json.load(open("%s/%s/meta.json" % (S, i)))["property"]
        r = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
        if r.returncode:
            print(i, "does not apply")
            continue
        try:
            r = sh("/opt/macposts-venv/bin/python lib/driver.py %s --tier quick" % p, cwd=V)
            ok = r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout
            print(i, p, "caught" if ok else "MISSED rc=%d" % r.returncode, [l for l in r.stdout.splitlines() if l.startswith("  ")][:1] or r.stdout[-300:] + r.stderr[-300:])
            if not ok:
                miss.append(i)
        finally:
            sh("git -C /repo checkout -- .")
        sys.stdout.flush()
    print("MISSED:", miss)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        print(make(args[0]))
    elif cmd == "validate":
        validate(args)
    elif cmd == "try":
        attempt(args or sorted(os.listdir(S)))
    elif cmd == "all":
        ids = make(args[0])
        validate(ids)
        attempt(ids)
