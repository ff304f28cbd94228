"""Development tool: turns specs (python files defining BUGS) into seeded/<id>/ after confirming them in a scratch copy.
   python3 tools/plant.py specs.py [id ...]"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SC = "/tmp/plant"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
SH = """#!/bin/bash
# runs in the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
"""


def tests():
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "nose_compat", "--tb=no", "rankeval"], cwd=SC,
                       env=dict(ENV, PYTHONPATH=SC + ":/opt/vp/compat"), capture_output=True, text=True)
    return r.stdout.strip().splitlines()[-1]


def demo(d):
    return subprocess.run(["bash", d + "/demo.sh"], cwd=SC, env=ENV, capture_output=True, text=True, timeout=300)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(SH)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        shutil.rmtree(SC, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", SC])
        base = tests()
        r0 = demo(d)
        exts = False
        for f, old, new in b["edits"]:
            p = os.path.join(SC, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
            exts = exts or f.endswith((".pyx", ".cpp", ".h"))
        patch = subprocess.run(["git", "diff"], cwd=SC, capture_output=True, text=True).stdout
        ok = True
        if exts:
            for dd in ("dataset", "scoring", "analysis"):
                for x in os.listdir(SC + "/rankeval/" + dd):
                    q = os.path.join(SC, "rankeval", dd, x)
                    if x.endswith(".so") or (x.endswith((".c", ".cpp")) and os.path.exists(os.path.splitext(q)[0] + ".pyx")):
                        os.remove(q)
            shutil.rmtree(SC + "/build", ignore_errors=True)
            r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=SC, env=ENV, capture_output=True, text=True)
            ok = r.returncode == 0
            if not ok:
                print(r.stderr[-2000:])
        r1 = demo(d)
        mut = tests()
        cnt = lambda t: re.findall(r"(\d+) (passed|failed|error)", t)
        good = ok and r0.returncode == 0 and r1.returncode != 0 and cnt(base) == cnt(mut)
        print(b["id"], "OK" if good else "BAD", "clean", r0.returncode, "patched", r1.returncode, "|", base, "|", mut)
        print("    ", (r1.stderr.strip().splitlines() or ["-"])[-1][:150])
        if r0.returncode:
            print(r0.stderr[-1500:])
        if good:
            open(d + "/patch.diff", "w").write(patch)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        else:
            shutil.rmtree(d)
        shutil.rmtree(SC, ignore_errors=True)


main()
