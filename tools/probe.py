#!/usr/bin/env python3
"""Development tool: try bugs quickly. usage: probe.py FILE.py [-j N] [ids...]
FILE.py calls P(id, "C22", "output/core.py", old, new[, old, new...][, checks="C22,C25"]); each is applied to a scratch copy and its check run."""
import sys, os, runpy, subprocess, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
probes = []


def P(pid, checks, *edits):
    probes.append((pid, checks.split(","), edits))


def work(p):
    pid, checks, edits = p
    d = "/tmp/probe.%d/%s" % (os.getpid(), pid)
    repo, ver = d + "/repo", d + "/verif"
    shutil.copytree("/repo/litevideo", repo + "/litevideo", ignore=shutil.ignore_patterns("__pycache__"))
    for n in ("lib", "checks", "data"):
        if os.path.isdir(V + "/" + n):
            shutil.copytree(V + "/" + n, ver + "/" + n, ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy(V + "/known_findings.jsonl", ver)
    t = open(ver + "/lib/fw.py").read().replace('REPO = "/repo"', 'REPO = "%s"' % repo)
    open(ver + "/lib/fw.py", "w").write(t)
    i = 0
    while i < len(edits):
        f, a, b = edits[i:i + 3]
        i += 3
        s = open(repo + "/litevideo/" + f).read()
        if s.count(a) != 1:
            return pid, "BAD EDIT ({} matches): {}".format(s.count(a), a), ""
        open(repo + "/litevideo/" + f, "w").write(s.replace(a, b))
    env = dict(os.environ, PYTHONPATH="%s/lib:%s/checks:%s" % (ver, ver, repo), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               VERIF_PROCS=os.environ.get("VERIF_PROCS", "3"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", TMPDIR=d)
    env.pop("VERIF_VERBOSE", None)
    r = []
    for c in checks:
        t0 = time.time()
        q = subprocess.run(["/opt/venv/bin/python", ver + "/lib/fw.py", c, "quick"], cwd=ver, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1800)
        ls = [l for l in q.stdout.split("\n") if l.startswith("  ")]
        r.append("{} rc={} {:.0f}s {}".format(c, q.returncode, time.time() - t0, ls[0][:230] if ls else q.stdout[-300:] if q.returncode else ""))
        ok = q.returncode == 1
    shutil.rmtree(d, ignore_errors=True)
    return pid, "caught" if ok else "MISSED", " | ".join(r)


j = 3
a = sys.argv[1:]
if "-j" in a:
    k = a.index("-j")
    j = int(a[k + 1])
    del a[k:k + 2]
runpy.run_path(a[0], dict(P=P))
if a[1:]:
    probes = [p for p in probes if any(x in p[0] for x in a[1:])]
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(work, probes):
        print(*r, flush=True)
shutil.rmtree("/tmp/probe.%d" % os.getpid(), ignore_errors=True)
