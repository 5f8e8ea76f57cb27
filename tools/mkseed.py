"""Makes and verifies planted bugs.  mkseed.py FILE: FILE defines SEEDS, a
list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo).
For each: writes seeded/<id>, then checks in a scratch copy of /repo that it
builds, passes the stable tests, and that the demonstration is right."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def sh(c, cwd=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)


w = tempfile.mkdtemp(prefix="seed-")
try:
    sh("cp -a /repo %s/repo" % w)
    r = w + "/repo"
    for a, b in (("yrmcds_build.sh", "build.sh"), ("yrmcds_tests.py", "tests.py")):
        open(w + "/" + b, "w").write(open("/opt/vp/" + a).read().replace("cd /repo", "cd " + r)
                                     .replace("/repo/", r + "/").replace("S=/repo", "S=" + r))
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        sh("git checkout -q -- .", r)
        ok = True
        for f, a, b in s["edits"]:
            p = os.path.join(r, f)
            x = open(p).read()
            if x.count(a) != s.get("count", 1):
                print(s["id"], "edit found %d times in %s: %r" % (x.count(a), f, a))
                ok = False
                break
            open(p, "w").write(x.replace(a, b))
        if not ok:
            continue
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "wb").write(sh("git diff", r).stdout)
        open(d + "/meta.json", "w").write(json.dumps({"property": s["property"], "needs": s["needs"],
                                                       "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        open(d + "/demo.sh", "w").write("#!/bin/bash\nexec python3 -B \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
                                        "from lib import *\n" + s["demo"].lstrip("\n"))
        shutil.copyfile(V + "/tools/demolib.py", d + "/lib.py")
        for f, c in (s.get("files") or {}).items():
            open(d + "/" + f, "w").write(c)

        def demo():
            x = tempfile.mkdtemp(dir=w)
            for f in os.listdir(d):
                if not f.endswith((".diff", "meta.json")):
                    shutil.copy(d + "/" + f, x)
            q = sh("timeout 280 bash %s/demo.sh" % x, r)
            return q.returncode, q.stdout.decode(errors="replace")[-600:]

        b = sh("bash %s/build.sh 2>&1 | tail -5" % w, r)
        bad = demo()
        t = sh("mkdir -p _build/results; bash %s/build.sh >/dev/null 2>&1; python3 %s/tests.py %s/_build/results; "
               "python3 /opt/vp/results.py %s/o.json lines:_build/results/results.txt" % (w, w, r, w), r)
        o = json.load(open(w + "/o.json"))
        lost = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"]))
        tests = ["PASS"] if not lost else lost[:5]
        sh("git checkout -q -- . && bash %s/build.sh" % w, r)
        good = demo()
        v = "OK" if bad[0] not in (0, 124) and good[0] == 0 and tests == ["PASS"] else "REJECTED"
        print(s["id"], v, "patched:", bad[0], "clean:", good[0], "tests:", tests,
              "" if v == "OK" else (bad, good, b.stdout.decode()[-300:] if bad[0] == 0 else ""), flush=True)
finally:
    shutil.rmtree(w, ignore_errors=True)
