"""Development aid: verifies seeded changes (seedcheck.py ID... [--no-tests] [--checks C01,C02]).

new: seedcheck.py --new ID PROPERTY FILE OLD NEW NEEDS BREAKS   (demo.py on stdin)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, "seeded")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    sh(["cp", "-a", "/repo", d + "/repo"])
    return d


def new(i, prop, path, old, new_, needs, breaks, demo):
    d = scratch()
    r = d + "/repo"
    edits = [(path, old, new_)] if isinstance(path, str) else path
    for f, o, n in edits:
        p = r + "/" + f
        s = open(p).read()
        assert s.count(o) == 1, (f, s.count(o))
        open(p, "w").write(s.replace(o, n))
    diff = sh(["git", "-C", r, "diff"]).stdout
    out = os.path.join(SD, i)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(demo)
    open(out + "/demo.sh", "w").write('#!/bin/sh\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)


def verify(i, tests=True, checks=None):
    d = scratch()
    r = d + "/repo"
    src = os.path.join(SD, i)
    meta = json.load(open(src + "/meta.json"))
    try:
        a = sh(["sh", src + "/demo.sh"], cwd=r)
        ap = sh(["git", "-C", r, "apply", src + "/patch.diff"])
        b = sh(["sh", src + "/demo.sh"], cwd=r)
        line = "%s: demo clean %d patched %d" % (i, a.returncode, b.returncode)
        if a.returncode or ap.returncode or not b.returncode:
            line += "  *** BAD " + (ap.stderr + a.stderr[-500:] + b.stderr[-300:])
        if tests:
            rep = d + "/rep"
            os.mkdir(rep)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TZ="UTC", LC_ALL="C.UTF-8", PYTHONPATH=r)
            sh("/opt/venv/bin/python -m pytest tests -q -n 4 -p no:cacheprovider -p vp_seed -o 'python_files=test_*.py *_test.py custom_obs_space.py' --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/junit.xml" % rep, cwd=r, env=env)
            sh(["/usr/bin/python3", "/opt/vp/results.py", d + "/o.json", "junit:%s/*.xml" % rep])
            o = json.load(open(d + "/o.json"))
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            passed = set(o.get("passed", []))
            line += "  tests missing %s" % sorted(stable - passed)[:3]
        for c in (checks if checks is not None else [meta["property"]]):
            if os.path.exists(os.path.join(V, "harness", c + ".py")):
                k = sh([V + "/check", c], env=dict(os.environ, VP_REPO=r))
                line += "  %s=%d" % (c, k.returncode)
                if k.returncode != 1:
                    line += " (" + "; ".join(k.stdout.splitlines()[-3:]) + ")"
        print(line, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--new":
        new(*a[1:8], sys.stdin.read())
        verify(a[1])
    else:
        tests = "--no-tests" not in a
        ch = [x[9:].split(",") for x in a if x.startswith("--checks=")]
        ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(SD))
        for i in ids:
            verify(i, tests, ch[0] if ch else None)
