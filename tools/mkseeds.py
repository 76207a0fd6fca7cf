import json, os, subprocess, sys, shutil, tempfile
BUGS = []
def bug(id, prop, edits, demo, needs, what):
    BUGS.append((id, prop, edits, demo, needs, what))
exec(open("/verif/tools/seeds.py").read())
only = sys.argv[1:]
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
def stable():
    return set(base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests"))
for id, prop, edits, demo, needs, what in BUGS:
    if only and id not in only: continue
    wt = "/tmp/wt/" + id
    shutil.rmtree(wt, ignore_errors=True); os.makedirs(wt)
    sh("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % (wt, wt))
    out = "/verif/seeded/" + id
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.py", "w").write(demo.lstrip("\n"))
    open(out + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository: 0 if the property holds for the case shown\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(out + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % out, cwd=wt)
    for f, a, b in edits:
        p = wt + "/src/age/" + f
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    d = sh("git diff", cwd=wt).stdout
    open(out + "/patch.diff", "w").write(d)
    r1 = sh("bash %s/demo.sh" % out, cwd=wt)
    t = sh("cd %s && PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=300 2>&1 | tail -8" % (wt, wt))
    ap = sh("git -C /repo apply --check %s/patch.diff" % out)
    ok = r0.returncode == 0 and r1.returncode != 0 and ap.returncode == 0
    print(id, "demo clean", r0.returncode, "bug", r1.returncode, "apply", ap.returncode, "OK" if ok else "*** NOT OK", t.stdout.strip().splitlines()[-1])
    if not ok: print(r0.stdout, r0.stderr[-800:], r1.stdout[-500:], r1.stderr[-300:])
    fails = [l for l in t.stdout.splitlines() if l.startswith("FAILED")]
    print("    ", [f.split("::")[-1][:60] for f in fails])
    shutil.rmtree(wt)
