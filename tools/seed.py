"""Plant bugs:  seed.py make [ids]   writes /verif/seeded/<id>/ from tools/seeds/*.py
               seed.py verify [ids] applies each to /repo, builds, tests, runs demo and the property's check, undoes it
               seed.py checks ID    runs every check against one planted bug"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

V = "/verif"
PY = "/opt/venv/bin/python"


def specs():
    out = {}
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            out[s["id"]] = s
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"


def undo():
    sh("git -C /repo checkout -- .")


def make(ids):
    for i, s in specs().items():
        if ids and i not in ids:
            continue
        clean()
        try:
            for f, old, new in s["edits"]:
                p = "/repo/" + f
                t = open(p).read()
                assert t.count(old) == 1, (i, f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            d = f"{V}/seeded/{i}"
            os.makedirs(d, exist_ok=True)
            diff = sh("git -C /repo diff").stdout
            open(d + "/patch.diff", "w").write(diff)
        finally:
            undo()
        open(d + "/demo.py", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        shutil.copy(V + "/tools/demo_lib.py", d + "/demo_lib.py")
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(d + "/meta.json", "w"), indent=1)
        print("made", i)


def verify(ids, test=True):
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_passing") or [])
    for i in ids or sorted(os.listdir(V + "/seeded")):
        clean()
        d = f"{V}/seeded/{i}"
        pid = json.load(open(d + "/meta.json"))["property"]
        r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        try:
            a = sh(f"git -C /repo apply {d}/patch.diff")
            assert a.returncode == 0, a.stderr
            r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
            t = "-"
            if test:
                b = sh("bash /opt/vp/build.sh")
                sh("bash /opt/vp/test.sh /tmp/seedtest.json")
                t = "build ok" if b.returncode == 0 else "BUILD FAILED"
                j = json.load(open("/tmp/seedtest.json"))
                t += f" passed={len(j['passed']) if isinstance(j.get('passed'), list) else j.get('passed')}"
            c = sh(f"{PY} check.py {pid}", cwd=V) if os.path.exists(f"{V}/checks/{pid.lower()}.py") else None
        finally:
            undo()
        cs = "no check" if c is None else ("CAUGHT" if c.returncode == 1 else f"MISSED rc={c.returncode}")
        print(f"{i} {pid}: demo clean={r0.returncode} bug={r1.returncode} {t} check={cs}", flush=True)
        if r0.returncode:
            print("   clean demo:", (r0.stdout + r0.stderr)[-800:])
        if not r1.returncode:
            print("   demo does not fail:", r1.stdout[-400:])
        elif "--show" in sys.argv:
            print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1:])
        if c is not None and c.returncode != 1:
            print("   ", "\n    ".join((c.stdout + c.stderr).strip().splitlines()[-5:]))
        elif c is not None:
            print("   ", "\n    ".join((c.stdout).strip().splitlines()[:3]))


def checks(i):
    clean()
    d = f"{V}/seeded/{i}"
    try:
        assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
        for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
            r = sh(c["quick_cmd"], cwd=V)
            print(i, c["property"], r.returncode, [l for l in r.stdout.splitlines() if "[" in l and r.returncode == 1][:3])
    finally:
        undo()


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    {"make": make, "verify": lambda x: verify(x, "--notest" not in sys.argv)}.get(sys.argv[1], lambda x: checks(x[0]))(a)
