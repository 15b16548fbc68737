"""Plant a bug: python3 tools/plant.py ID SPEC.json   (spec: property, edits [[file, old, new]],
needs, breaks, demo) -> seeded/ID, verified in a scratch copy of /repo; or
python3 tools/plant.py --verify ID...  [--checks C01,C02] to re-verify and see what catches it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout


def demo(sid, repo):
    t = tempfile.mkdtemp()
    d = os.path.join(t, "d")
    shutil.copytree(os.path.join(V, "seeded", sid), d,
                    ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    rc = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo, env=env, timeout=300)
    shutil.rmtree(t)
    return rc


def verify(sid, checks=None, tests=True):
    d = os.path.join(V, "seeded", sid)
    t = tempfile.mkdtemp(prefix="seed_")
    repo = os.path.join(t, "repo")
    sh(["cp", "-a", "/repo", repo])
    ok = True
    try:
        a = demo(sid, repo)
        if a[0] != 0:
            ok = False
            print(sid, "demo fails unpatched:", a[1][-800:])
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo)
        if rc:
            print(sid, "patch does not apply", o)
            return False
        b = demo(sid, repo)
        if b[0] == 0:
            ok = False
            print(sid, "demo passes patched:", b[1][-800:])
        else:
            print(sid, "demo:", b[1].strip().splitlines()[-1][:150] if b[1].strip() else "")
        if tests:
            w = os.path.join(t, "cwd")
            os.mkdir(w)
            env = dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1")
            rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                        "--rootdir=" + repo, "-p", "no:xdist", "--randomly-seed=1",
                        "--randomly-dont-reorganize", repo + "/tests"], cwd=w, env=env)
            print(sid, "tests:", o.strip().splitlines()[-1])
            if "failed" in o.strip().splitlines()[-1] or rc:
                ok = False
                print("\n".join(x for x in o.splitlines() if x.startswith("FAILED")))
        caught = []
        meta = json.load(open(os.path.join(d, "meta.json")))
        for c in checks if checks is not None else [meta["property"]]:
            env = dict(os.environ, VERIF_REPO=repo)
            rc, o = sh([PY, os.path.join(V, "harness", "check.py"), c], cwd=V, env=env)
            print(sid, c, "rc", rc, "|", o.strip().splitlines()[-1][:150] if o.strip() else "")
            if rc == 1:
                print("     ", [x for x in o.splitlines() if "clause" in x][:2])
                caught.append(c)
        p = os.path.join(V, "doc", "caught.json")
        C = json.load(open(p)) if os.path.exists(p) else {}
        if checks is None:
            C[sid] = sorted(set(caught))
        else:
            C[sid] = sorted(set(C.get(sid, [])) - set(checks) | set(caught))
        json.dump(C, open(p, "w"), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(t)
    print(sid, "KEEP" if ok else "BAD", "caught by", caught)
    return ok


def plant(sid, S):
    d = os.path.join(V, "seeded", sid)
    t = tempfile.mkdtemp(prefix="seed_")
    repo = os.path.join(t, "repo")
    sh(["cp", "-a", "/repo", repo])
    for f, o, n in S["edits"]:
        p = os.path.join(repo, "src/naima", f)
        s = open(p).read()
        if s.count(o) != 1:
            print(sid, "edit matches", s.count(o), "times:", o[:80])
            shutil.rmtree(t)
            return False
        open(p, "w").write(s.replace(o, n))
    rc, o = sh(["git", "diff"], cwd=repo)
    # lines removed must be lines of the original
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(o)
    shutil.rmtree(t)
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# run with cwd /repo\nhere=$(cd "$(dirname "$0")" && pwd)\n'
        'export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\n'
        'w=$(mktemp -d)\ntrap \'rm -rf "$w"\' EXIT\ncd "$w"\n'
        '/opt/venv/bin/python -W ignore "$here/demo.py"\n')
    open(os.path.join(d, "demo.py"), "w").write(S["demo"].strip() + "\n")
    json.dump(dict(property=S["property"], needs=S["needs"], what_it_breaks=S["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    return True


if __name__ == "__main__":
    a = sys.argv[1:]
    checks = None
    if "--checks" in a:
        i = a.index("--checks")
        checks = [x for x in a[i + 1].split(",") if x]
        a[i:i + 2] = []
    tests = "--notests" not in a
    a = [x for x in a if x != "--notests"]
    if a[0] == "--verify":
        for s in a[1:]:
            verify(s, checks, tests)
    else:
        ns = {}
        exec(open(a[0]).read(), ns)        # a file defining BUGS = {id: spec}
        for sid, S in ns["BUGS"].items():
            if len(a) > 1 and sid not in a[1:]:
                continue
            if plant(sid, S):
                verify(sid, checks, tests)
