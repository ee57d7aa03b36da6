"""Development only: build and confirm planted bugs.
  plant.py make FILE.py      FILE defines BUGS = [dict(id, property, file, edits=[(old, new)...] or files={path: edits}, demo=python text, needs, breaks)]
  plant.py test ID...        in a scratch copy: patch applies, stable tests pass, demo 0 without / nonzero with
  plant.py check ID...       run the property's quick check against the patched copy
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = ROOT + "/seeded"
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
export NUMBA_CACHE_DIR=$(mktemp -d) MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1
timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
rc=$?
rm -rf "$NUMBA_CACHE_DIR"
exit $rc
"""

def copy(tag):
    d = "/tmp/pl/" + tag
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/pl", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d

def make(f):
    ns = {}
    exec(open(f).read(), ns)
    for b in ns["BUGS"]:
        d = copy("mk_" + b["id"])
        try:
            bad = [(p, old) for p, edits in (b.get("files") or {b["file"]: b["edits"]}).items() for old, new in edits if open(d + "/src/sigmaepsilon/math/" + p).read().count(old) != 1]
            if bad:
                print("NOT MADE", b["id"], bad)
                continue
            files = b.get("files") or {b["file"]: b["edits"]}
            for p, edits in files.items():
                q = d + "/src/sigmaepsilon/math/" + p
                s = open(q).read()
                for old, new in edits:
                    assert s.count(old) == 1, (b["id"], p, s.count(old), old)
                    s = s.replace(old, new)
                open(q, "w").write(s)
            diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
            ours = []
            for p, edits in files.items():
                base = subprocess.run(["git", "-C", "/repo", "show", "1a0323a:src/sigmaepsilon/math/" + p], capture_output=True, text=True).stdout.splitlines()
                for l in diff.splitlines():
                    if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in base:
                        ours.append(l)
            if ours:
                print("CHANGES LINES OF OUR COMMITS", b["id"], ours)
            o = SD + "/" + b["id"]
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(diff)
            open(o + "/demo.py", "w").write(b["demo"].strip() + "\n")
            open(o + "/demo.sh", "w").write(DEMO)
            os.chmod(o + "/demo.sh", 0o755)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(o + "/meta.json", "w"), indent=1)
            print("made", b["id"])
        finally:
            shutil.rmtree(d, ignore_errors=True)

def env(d, extra=None):
    e = dict(os.environ)
    e["PYTHONPATH"] = d + "/src:/opt/vp/env"
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg")
    return e

def test(i):
    o = SD + "/" + i
    d = copy("t_" + i)
    tmp = tempfile.mkdtemp(dir="/tmp/pl")
    msg = []
    try:
        r0 = subprocess.run(["bash", o + "/demo.sh"], cwd=d, env=env(d), capture_output=True, text=True)
        a = subprocess.run(["git", "-C", d, "apply", o + "/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            return i + " DOES NOT APPLY " + a.stderr
        r1 = subprocess.run(["bash", o + "/demo.sh"], cwd=d, env=env(d), capture_output=True, text=True)
        e = env(d)
        e["NUMBA_CACHE_DIR"] = tmp + "/nc"
        j = tmp + "/j.xml"
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + j, "tests"],
                       cwd=d, env=e, capture_output=True)
        subprocess.run(["python3", "/opt/vp/results.py", tmp + "/o.json", "junit:" + j], capture_output=True)
        got = json.load(open(tmp + "/o.json"))
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [t for t in st if t not in got["passed"]]
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss
        return "%s %s demo0=%d demo1=%d missing=%s %s %s" % ("OK  " if ok else "BAD ", i, r0.returncode, r1.returncode, miss[:4], r0.stderr[-300:] if r0.returncode else "", r1.stderr[-200:].replace("\n", " | "))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)

def check(i):
    o = SD + "/" + i
    p = json.load(open(o + "/meta.json"))["property"]
    d = copy("c_" + i)
    ev = tempfile.mkdtemp(dir="/tmp/pl")
    try:
        subprocess.run(["git", "-C", d, "apply", o + "/patch.diff"], check=True)
        e = dict(os.environ)
        e.update(VERIF_REPO=d, VERIF_EVIDENCE=ev, VERIF_SEED="1")
        r = subprocess.run(["python3", ROOT + "/check.py", p, "quick"], env=e, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        why = ""
        rp = ev + "/replay_%s.json" % p
        if os.path.exists(rp):
            why = open(rp).read()[:700]
        return "%s %s rc=%d %s\n      %s" % ("CAUGHT" if r.returncode == 1 and v else "MISSED", i, r.returncode, v[:1], why.replace("\n", " "))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(ev, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in sys.argv[2:]:
            make(f)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SD))
        with ThreadPoolExecutor(4 if sys.argv[1] == "test" else 2) as ex:
            for r in ex.map(test if sys.argv[1] == "test" else check, ids):
                print(r, flush=True)
