#!/usr/bin/env python3
"""Plants a bug in /repo for as long as it takes to try it.

    plant.py make SPEC.py        write seeded/<id>/ from edits in a spec file
    plant.py try ID [CHECK...]   confirm it and run the checks against it
    plant.py demo ID             only the demonstration, on the tree as it is

Nothing a check runs reads this file or seeded/.
"""
import json, os, subprocess, sys, shutil, time, importlib.util

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = {k: v for k, v in os.environ.items()}


def sh(cmd, cwd=REPO, timeout=1200, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def clean():
    rc, out = sh("git status --porcelain")
    return out.strip() == ""


def revert():
    sh("git checkout -- .")


def make(path):
    spec = importlib.util.spec_from_file_location("spec", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    assert clean(), "repo not clean"
    for b in m.BUGS:
        d = os.path.join(VERIF, "seeded", b["id"])
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p, encoding="utf-8").read()
                n = s.count(old)
                if n != 1:
                    raise SystemExit(f"{b['id']}: {f}: {n} matches for {old!r}")
                open(p, "w", encoding="utf-8").write(s.replace(old, new))
            rc, diff = sh("git diff")
        finally:
            revert()
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w", encoding="utf-8").write(diff)
        for name, text in b["files"].items():
            open(os.path.join(d, name), "w", encoding="utf-8").write(text)
        for src in b.get("copies", []):
            shutil.copy(src, d)
        json.dump({"property": b["property"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])


def build():
    rc, out = sh("bash /opt/vp/build.sh")
    if rc != 0:
        print(out[-3000:])
    return rc == 0


def demo(i):
    rc, out = sh(f"bash {VERIF}/seeded/{i}/demo.sh", timeout=300)
    return rc, out


def stable_ok():
    o = "/tmp/plant-test.json"
    sh(f"bash /opt/vp/test.sh {o}")
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base
    got = json.load(open(o))
    passed = set(got.get("passed") or [])
    want = set(want if isinstance(want, list) else want.keys())
    missing = want - passed
    return not missing, sorted(missing)


def tryit(i, checks):
    meta = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))
    checks = checks or [meta["property"]]
    assert clean(), "repo not clean"
    res = {"id": i}
    try:
        rc, out = sh(f"git apply {VERIF}/seeded/{i}/patch.diff")
        if rc != 0:
            print(i, "patch does not apply", out); return
        if not build():
            print(i, "BUILD FAILS"); return
        ok, missing = stable_ok()
        if not ok:
            print(i, "TESTS FAIL", missing); return
        rc, out = demo(i)
        res["demo_patched"] = rc
        if rc == 0:
            print(i, "DEMO PASSES WITH PATCH", out[-1500:])
        t = time.time()
        for c in checks:
            e = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            t = time.time()
            rc, out = sh(f"bash {VERIF}/check.sh {c} quick", cwd=VERIF, env=e)
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            res[c] = (rc, v[:1], round(time.time() - t, 1))
            if rc not in (0, 1) or (rc == 1 and not v):
                print(out[-2500:])
    finally:
        revert()
    if not build():
        print("CLEAN BUILD FAILS")
    rc, out = demo(i)
    res["demo_clean"] = rc
    if rc != 0:
        print(i, "DEMO FAILS ON CLEAN TREE", out[-1500:])
    good = res.get("demo_patched", 0) != 0 and rc == 0
    print(("OK  " if good else "BAD ") + json.dumps(res), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for p in sys.argv[2:]:
            make(p)
    elif sys.argv[1] == "try":
        ids = sys.argv[2].split(",")
        for i in ids:
            tryit(i, sys.argv[3:])
    elif sys.argv[1] == "demo":
        print(*demo(sys.argv[2]))
