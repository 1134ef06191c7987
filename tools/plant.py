#!/opt/veriftools/pyvenv/bin/python
"""Development aid: confirm planted changes. usage: plant.py ID... (directories of /verif/seeded); -n: no test run"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IGN = ["test_demo_chunking", "test_demo_command_line", "test_demo_end2end", "test_sorcha_copy_demo_files"]
notest = "-n" in sys.argv
ids = [a for a in sys.argv[1:] if a != "-n"]
base = json.load(open("/opt/vp/BASELINE.json"))
base = set(base["stable"])
props = [c["property"] for c in json.load(open(os.path.join(H, "MANIFEST.json")))["checks"]]


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=t)


for i in ids:
    d = os.path.join(H, "seeded", i)
    W = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    R = W + "/repo"
    try:
        shutil.copytree("/repo", R, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        a = sh(["git", "apply", "--whitespace=nowarn", d + "/patch.diff"], R)
        if a.returncode:
            print(i, "PATCH FAILS", a.stderr); continue
        demo = W + "/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        env = {"PYTHONPATH": R + "/src", "PYTHONDONTWRITEBYTECODE": "1"}
        d0 = sh(["bash", demo + "/demo.sh"], "/repo", {"PYTHONDONTWRITEBYTECODE": "1"})
        d1 = sh(["bash", demo + "/demo.sh"], R, env)
        miss = "-"
        if not notest:
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "--timeout=300", "--continue-on-collection-errors", "--basetemp=" + W + "/pt"]
                   + ["--ignore=tests/sorcha/%s.py" % x for x in IGN] + ["--ignore=tests/ephemeris/test_pixdict.py", "-o", "junit_family=xunit2", "--junitxml=" + W + "/j.xml"], R, env)
            sh(["/usr/bin/python3", "/opt/vp/results.py", W + "/o.json", "junit:" + W + "/j.xml"], R)
            o = json.load(open(W + "/o.json"))
            miss = sorted(base - set(o["passed"]))
        def run(p):
            r = sh([H + "/check.py", "--property", p, "--root", R], H)
            return p, r.returncode, [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(run, props))
        meta = json.load(open(d + "/meta.json"))
        hit = [p for p, c, v in res if c == 1]
        err = [p for p, c, v in res if c not in (0, 1)]
        ok = d0.returncode == 0 and d1.returncode != 0 and not miss or miss == "-"
        print(i, "OK" if ok else "BAD", "demo %d/%d" % (d0.returncode, d1.returncode), "missing", miss, "| property", meta["property"],
              "CAUGHT" if meta["property"] in hit else "other" if hit else "MISSED", hit, "errors", err, flush=True)
        if d0.returncode or not d1.returncode:
            print(d0.stdout[-600:], d0.stderr[-1500:], "-----", d1.stdout[-600:], d1.stderr[-600:])
    finally:
        shutil.rmtree(W, ignore_errors=True)
