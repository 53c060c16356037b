#!/usr/bin/env python3
"""tools/seed.py ID  - (re)validate the planted bug in seeded/ID in a scratch copy of /repo:
it applies, builds, passes the stable tests, and demo.sh passes without and fails with it.
With a python edit on stdin, first make patch.diff from it (edit runs in the copy, edits files)."""
import json, os, re, shutil, subprocess, sys, tempfile
sid = sys.argv[1]; d = f"/verif/seeded/{sid}"
scratch = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
r = scratch + "/repo"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
try:
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    if not sys.stdin.isatty():
        edit = sys.stdin.read()
        if edit.strip():
            pre = ("def sub(f,a,b,n=1):\n s=open(f,newline='').read()\n crlf='\\r\\n' in s\n"
                   " s=s.replace('\\r\\n','\\n')\n assert s.count(a)>=1,(f,a)\n"
                   " assert n==0 or s.count(a)==n,(s.count(a),a)\n s=s.replace(a,b)\n"
                   " open(f,'w',newline='').write(s.replace('\\n','\\r\\n') if crlf else s)\n")
            subprocess.run([sys.executable, "-c", pre + edit], cwd=r, check=True)
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE).stdout)
            sh("git checkout -q -- .", cwd=r)
    os.makedirs(scratch + "/vp", exist_ok=True)
    for f in os.listdir("/opt/vp"):
        if f.endswith((".sh", ".py", ".json")):
            s = open("/opt/vp/" + f).read().replace("/opt/vp/build.sh", scratch + "/vp/build.sh").replace("/opt/vp/run_gtests", scratch + "/vp/run_gtests").replace("/opt/vp/results", scratch + "/vp/results")
            s = re.sub(r"(?<![\w/])/repo\b", r, s)
            open(scratch + "/vp/" + f, "w").write(s)
    demo = scratch + "/demo"; shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.json"))
    c = sh(f"timeout 300 bash {demo}/demo.sh", cwd=r)
    if c.returncode: print(sid, "demo fails on the unchanged tree", c.returncode, c.stdout[-1500:]); sys.exit(1)
    a = sh(f"git apply {d}/patch.diff", cwd=r)
    if a.returncode: print(sid, "patch does not apply", a.stdout); sys.exit(1)
    # the removed lines have to be original
    b = sh(f"bash {scratch}/vp/test.sh {scratch}/out.json")
    o = json.load(open(scratch + "/out.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))
    if len(o["passed"]) < 43 or o["failed"]: print(sid, "tests:", len(o["passed"]), o["failed"], b.stdout[-2500:]); sys.exit(1)
    c = sh(f"timeout 300 bash {demo}/demo.sh", cwd=r)
    if c.returncode == 0: print(sid, "demo passes with the bug:", c.stdout[-800:]); sys.exit(1)
    blame = sh("git diff -U0 HEAD | grep -E '^-[^-]|^\\+[^+]'", cwd=r).stdout
    print(sid, "OK; demo rc", c.returncode, c.stdout.strip()[-200:].replace("\n", " / "))
finally:
    shutil.rmtree(scratch)
