"""Runs the check of each planted bug's property against a scratch copy of
/repo with the bug.  trybugs.py [ids...]"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
w = tempfile.mkdtemp(prefix="try-")
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/repo"])
    for i in ids:
        i, _, pr = i.partition(":")
        d = "%s/seeded/%s" % (V, i)
        prop = pr or json.load(open(d + "/meta.json"))["property"]
        subprocess.check_call("git checkout -q -- . && git apply %s/patch.diff" % d, shell=True, cwd=w + "/repo")
        t = time.time()
        ev = w + "/ev"
        r = subprocess.run([sys.executable, V + "/checks/run.py", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_EVIDENCE=ev))
        out = r.stdout.decode(errors="replace")
        v = [l for l in out.splitlines() if l.startswith(("VIOLATION", "  "))][:2]
        print("%-24s %s rc=%d %.0fs %s" % (i, prop, r.returncode, time.time() - t, " | ".join(v)[:260]), flush=True)
finally:
    shutil.rmtree(w, ignore_errors=True)
