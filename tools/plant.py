"""Plant a bug: python3 tools/plant.py SPEC.py   (SPEC defines id, prop, edits=[(file,old,new)], demo, needs, breaks)

Applies it to /repo, builds, runs the stable tests and the demonstration, runs the property's check,
undoes it, runs the demonstration again, and keeps it under seeded/<id>/ when it counts."""
import json, os, subprocess, sys, shutil
from pathlib import Path
V = Path(__file__).resolve().parent.parent
R = Path("/repo")


def sh(cmd, t=600, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t, **kw)


def go(spec, keep=True):
    ns = {}
    exec(Path(spec).read_text(), ns)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    d = V / "seeded" / ns["id"]
    work = Path("/tmp/plantwork") / ns["id"]
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    (work / "demo.py").write_text(ns["demo"].lstrip("\n"))
    jit = "" if ns.get("jit") else "export NUMBA_DISABLE_JIT=1\n"
    (work / "demo.sh").write_text(f'#!/bin/bash\n{jit}export PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (work / "meta.json").write_text(json.dumps({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, indent=1) + "\n")
    r = sh(f"bash {work}/demo.sh", cwd=R)
    print(ns["id"], "demo clean:", r.returncode, (r.stdout + r.stderr)[-300:].strip() if r.returncode else "")
    ok = r.returncode == 0
    try:
        for f, old, new in ns["edits"]:
            p = R / f
            s = p.read_text()
            assert s.count(old) == 1, (ns["id"], f, s.count(old), old)
            p.write_text(s.replace(old, new))
        (work / "patch.diff").write_text(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        print("  build:", b.returncode)
        r = sh(f"bash {work}/demo.sh", cwd=R)
        print("  demo patched:", r.returncode, (r.stdout + r.stderr)[-200:].strip().replace("\n", " | "))
        ok &= b.returncode == 0 and r.returncode != 0
        if ok:
            t = sh("bash /opt/vp/test.sh /tmp/plant_out.json", 900)
            base = json.load(open("/opt/vp/BASELINE.json"))
            o = json.load(open("/tmp/plant_out.json"))
            print("  tests:", t.stdout.strip().splitlines()[-1:] )
            ok &= "0 failed" in t.stdout
        props = [ns["prop"]] + ns.get("also", [])
        for c in props:
            t = sh(f"python3 {V}/check.py {c}", 900)
            v = [l for l in t.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"  check {c}: rc {t.returncode}", "CAUGHT" if t.returncode == 1 else "MISSED")
            print("   ", "\n    ".join([l[:260] for l in t.stdout.splitlines() if not l.startswith("KNOWN")][:4]))
    finally:
        sh("git -C /repo checkout -- .")
    if ok and keep:
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(work, d)
        print("  KEPT")
    else:
        print("  NOT KEPT")
    shutil.rmtree(work)


for s in sys.argv[1:]:
    go(s)
