#!/usr/bin/env python3
"""Plants bugs in /repo, one at a time, and undoes them: seedtool.py verify <id>... | catch <id>...

verify: patch applies, builds, passes the baseline tests, demo 0 without and nonzero with it.
catch: runs the check of the bug's property (or the ones given with --checks=C01,C02) against it."""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean():
    return sh(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout.strip() == ""

def build():
    return sh(["bash", "/opt/vp/build.sh"]).returncode == 0

def stable():
    out = "/tmp/seedtool.out.json"
    sh(["bash", "/opt/vp/test.sh", out])
    got = set(json.load(open(out))["passed"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base["stable"]
    return [t for t in base if t not in got]

def demo(i):
    return sh(["bash", os.path.join(SEED, i, "demo.sh")], cwd="/repo", timeout=300)

def verify(ids):
    assert clean()
    if not build():
        print("clean build failed"); return
    for i in ids:
        d = demo(i)
        if d.returncode != 0:
            print(f"{i}: demo fails on the clean tree\n{d.stdout[-1500:]}")
    for i in ids:
        p = os.path.join(SEED, i, "patch.diff")
        a = sh(["git", "-C", "/repo", "apply", p])
        if a.returncode:
            print(f"{i}: does not apply {a.stdout}"); continue
        try:
            if not build():
                print(f"{i}: does not build"); print(sh(["bash", "/opt/vp/build.sh"]).stdout[-1500:]); continue
            bad = stable()
            if bad:
                print(f"{i}: breaks tests {bad[:3]}"); continue
            d = demo(i)
            print(f"{i}: " + ("ok" if d.returncode else "DEMO PASSES WITH THE PATCH"))
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
    build()

def catch(ids, checks):
    assert clean()
    for i in ids:
        meta = json.load(open(os.path.join(SEED, i, "meta.json")))
        a = sh(["git", "-C", "/repo", "apply", os.path.join(SEED, i, "patch.diff")])
        if a.returncode:
            print(f"{i}: does not apply {a.stdout}"); continue
        try:
            for c in checks or [meta["property"]]:
                r = sh(["python3", os.path.join(VERIF, "bin", "check.py"), c], cwd=VERIF)
                v = f"VIOLATION property={c}" in r.stdout
                print(f"{i} {c}: " + ("caught" if r.returncode == 1 and v else f"MISSED rc={r.returncode} " + (r.stdout[-600:] if r.returncode else "")))
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])

if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(os.listdir(SEED))
    checks = [c for a in sys.argv if a.startswith("--checks=") for c in a[9:].split(",")]
    verify(ids) if sys.argv[1] == "verify" else catch(ids, checks)
