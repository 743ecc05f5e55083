"""tools/mut.py CHECK FILE 'old' 'new' [n]: run a check against a scratch copy of /repo with one textual change"""
import os, shutil, subprocess, sys, tempfile
chk, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
try:
    subprocess.run(["cp", "-a", os.environ.get("MUTSRC", "/repo") + "/pyebsdindex", d + "/pyebsdindex"], check=True)
    p = os.path.join(d, "pyebsdindex", f)
    s = open(p).read()
    assert s.count(old) >= 1, "text not found"
    s = s.replace(old, new, 1)
    open(p, "w").write(s)
    e = dict(os.environ, VERIF_REPO=d)
    r = subprocess.run(["./check", chk], cwd="/verif", env=e, capture_output=True, text=True)
    L = [l for l in r.stdout.splitlines() if l.startswith(("VIOL", "  violated", "UNCONF", "ERROR", "INCONC", chk))]
    print("rc", r.returncode, *[l[:300] for l in L[-8:]], r.stderr[-300:], sep="\n")
finally:
    shutil.rmtree(d)
