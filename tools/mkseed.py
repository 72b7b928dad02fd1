"""mkseed.py SPEC.py -- build and confirm planted bugs.  SPEC.py defines SEEDS: a list of dicts with id, property,
edits [(file, old, new)...], needs, what_it_breaks, demo (python source; it runs with the cwd in a scratch directory,
the repository on sys.path and REPO set)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, shutil, sys, tempfile
REPO = os.getcwd()
sys.path.insert(0, REPO)
D = tempfile.mkdtemp()
os.chdir(D)
os.environ["HOME"] = D
try:
%s
finally:
    os.chdir("/")
    shutil.rmtree(D, ignore_errors=True)
'''
def run(cmd, cwd, t=280):
    try:
        return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, start_new_session=True)
    except subprocess.TimeoutExpired as e:
        class R: returncode, stdout = -9, b"timeout"
        return R
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    stable = json.load(open("/opt/vp/BASELINE.json"))
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        out = os.path.join(HERE, "seeded", s["id"])
        w = tempfile.mkdtemp(prefix="seed")
        r = os.path.join(w, "repo")
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", r])
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            demo = "".join("    " + l + "\n" if l.strip() else "\n" for l in s["demo"].strip("\n").split("\n"))
            open(os.path.join(out, "demo.py"), "w").write(PRE % demo.rstrip("\n"))
            open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            a = run([os.path.join(out, "demo.sh")], r)
            for f, old, new in s["edits"]:
                p = os.path.join(r, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            d = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE).stdout
            open(os.path.join(out, "patch.diff"), "wb").write(d)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what_it_breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
            b = run([os.path.join(out, "demo.sh")], r)
            # the tests, on the changed copy
            t = run(["env", "PYTEST_ADDOPTS=-q -p no:cacheprovider --timeout=30 --continue-on-collection-errors -o testpaths=tests",
                     "flock", "/opt/vp/test.sh", "/opt/venv/bin/python", "-m", "pytest"], r)
            ok = a.returncode == 0 and b.returncode != 0
            tests = (t.stdout or b"").decode(errors="replace").strip().split("\n")[-1]
            print("%-28s %s  clean=%d patched=%d  tests: %s" % (s["id"], "OK" if ok else "BAD", a.returncode, b.returncode, tests))
            if not ok:
                print((a.stdout or b"").decode(errors="replace")[-800:])
                print((b.stdout or b"").decode(errors="replace")[-300:])
        finally:
            shutil.rmtree(w, ignore_errors=True)
main()
