"""Plant bugs: python3 tools/plant.py make|verify|check [ids...]

Definitions live in tools/bugs*.py: B(id, property, [(file, old, new, count?)], demo, needs, breaks).
make: write seeded/<id>/ from the definitions and verify them; check: run the property's check against a patched copy."""
import glob, json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BUGS = {}
def B(id, prop, edits, demo, needs, breaks):
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)
for f in sorted(glob.glob(os.path.join(V, "tools", "bugs*.py"))):
    exec(open(f).read())
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def copy(id):
    d = f"/tmp/plant/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True)
    return d
def demo(d, id):
    return sh(["bash", os.path.join(V, "seeded", id, "demo.sh")], d, env=ENV, timeout=300)
def make(id):
    b = BUGS[id]
    d = copy(id)
    try:
        for f, old, new, *n in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            want = n[0] if n else 1
            if s.count(old) != want and want > 0:
                return f"{id}: EDIT {f}: {s.count(old)} occurrences of {old!r}"
            if want < 0:      # the -want-th occurrence only
                parts = s.split(old); k = -want
                s = old.join(parts[:k]) + new + old.join(parts[k:])
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = sh(["git", "diff"], d).stdout
        sd = os.path.join(V, "seeded", id)
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        open(os.path.join(sd, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(sd, "demo.sh"), "w").write('#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(sd, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(sd, "meta.json"), "w"), indent=1)
        r1 = demo("/repo", id)
        r2 = demo(d, id)
        t = sh([PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "-x", "tests"], d, env=dict(ENV, PYTHONPATH=d))
        msg = f"{id}: demo clean rc {r1.returncode}, patched rc {r2.returncode}; tests {'pass' if t.returncode == 0 else 'FAIL'}"
        ok = r1.returncode == 0 and r2.returncode != 0 and t.returncode == 0
        if not ok:
            msg += "\n   " + "\n   ".join((r1.stdout[-600:] + "\n--\n" + r2.stdout[-300:] + "\n--\n" + t.stdout[-700:]).split("\n"))
            shutil.rmtree(sd)
        return ("ok   " if ok else "BAD  ") + msg
    finally:
        shutil.rmtree(d, ignore_errors=True)
def check(id, props=None):
    meta = json.load(open(os.path.join(V, "seeded", id, "meta.json")))
    d = copy(id + ".chk")
    out = []
    try:
        a = sh(["git", "apply", os.path.join(V, "seeded", id, "patch.diff")], d)
        if a.returncode:
            return f"{id}: patch does not apply: {a.stdout}"
        for p in props or [meta["property"]]:
            ev = dict(ENV, VERIF_REPO=d, VERIF_CACHE=os.environ.get("VERIF_CACHE", "/tmp/vc"), VERIF_EVIDENCE="/tmp/plant/ev")
            r = sh([os.path.join(V, "check"), p], V, env=ev)
            first = [l for l in r.stdout.split("\n") if l.strip()][1:2]
            out.append(f"{p}:{'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'missed' if r.returncode == 0 else 'ERROR rc %d %s' % (r.returncode, r.stdout[-600:])}" + (" " + first[0].strip()[:110] if r.returncode == 1 and first else ""))
        return f"{id} [{meta['property']}] " + " | ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    props = [a[2:] for a in sys.argv[2:] if a.startswith("--")]
    if cmd == "make":
        with cf.ThreadPoolExecutor(3) as ex:
            for m in ex.map(make, ids or list(BUGS)):
                print(m, flush=True)
    else:
        ids = ids or sorted(os.listdir(os.path.join(V, "seeded")))
        for i in ids:
            print(check(i, props), flush=True)
