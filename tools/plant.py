"""Developer tool: build and validate planted bugs. Usage: plant.py SPEC.py [NAME...]

SPEC.py holds a list BUGS of dict(name, prop, edits=[(file, old, new)], demo, needs, breaks). For each: the change is made in a
scratch copy of /repo (removed lines must come from the original repository), must pass the whole test suite, and its demo must
fail with it and pass without it; then the check of the property is run on the copy. Nothing is changed in /repo; vcheck --bug runs the change there."""

import json, os, shutil, subprocess, sys

V = "/verif"
BASE = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[0]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    for b in spec["BUGS"]:
        if only and b["name"] not in only:
            continue
        print(f"{b['name']} [{b['prop']}]:", one(b), flush=True)


def one(b):
    d = f"{V}/seeded/{b['name']}"
    s = f"/tmp/plant{os.getpid()}"
    shutil.rmtree(s, ignore_errors=True)
    sh(f"git clone -q /repo {s}")
    for f, old, new in b["edits"]:
        p = f"{s}/src/komm/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            return f"EDIT matches {t.count(old)} times in {f}: {old[:50]!r}"
        open(p, "w").write(t.replace(old, new))
    diff = sh(f"git -C {s} diff").stdout
    # removed lines must be the original ones
    for f, old, new in b["edits"]:
        cur = None
        rem = []
        for l in sh(f"git -C {s} diff -U0 -- src/komm/{f}").stdout.split("\n"):
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                rem += range(st, st + n)
        bl = sh(f"git -C /repo blame -s -l HEAD -- src/komm/{f}").stdout.split("\n")
        orig = [i for i in rem if bl[i - 1].lstrip("^").startswith(BASE[:39])]
        if not orig and not os.environ.get("FORCE"):
            return f"NOT ORIGINAL LINES in {f}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.py", "w").write(b["demo"].strip() + "\n")
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    env = f"PYTHONPATH={s}/src PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1"
    try:
        r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
        if r.returncode != 0:
            bad = "DEMO FAILS UNPATCHED " + (r.stderr + r.stdout)[-300:]
        else:
            t = sh(f"{env} PYTHONHASHSEED=0 HOME=/root LANG=C.UTF-8 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 -n {os.environ.get('J', '8')} --benchmark-disable --randomly-seed=42 --randomly-dont-reorganize 2>&1 | tail -8", cwd=s).stdout
            r = sh(f"{env} bash {d}/demo.sh", cwd=s, timeout=300)
            if not ("6565 passed" in t.split("\n")[-2] and "failed" not in t.split("\n")[-2]):
                bad = "TESTS " + t[-600:]
            elif r.returncode == 0:
                bad = "DEMO PASSES PATCHED"
            else:
                c = sh(f"KOMM_REPO={s} timeout 900 /opt/venv/bin/python check.py {b['prop']}", cwd=V)
                viol = [l for l in c.stdout.split("\n") if l.startswith(f"VIOLATION property={b['prop']}")]
                res = "CAUGHT" if c.returncode == 1 and viol else f"MISSED rc={c.returncode}"
                if os.environ.get("FORCE"):
                    shutil.rmtree(d, ignore_errors=True)
                return res + " | " + c.stdout.strip().split("\n")[-1][:150] + " | demo: " + (r.stderr.strip().split("\n") or [""])[-1][:120]
    finally:
        shutil.rmtree(s, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    return bad


main()
