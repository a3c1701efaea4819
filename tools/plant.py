#!/usr/bin/env python3
"""plant.py BUG.py... : make /verif/seeded/<id>/ from tools/bugs/<id>.py and confirm it.

A bug file sets PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (the
body of demo.py, run after "from lab import *").  With -n the stable tests are
not run.  A bug that does not hold up is not kept."""
import json, os, shutil, subprocess, sys, re

VERIF, REPO = os.environ.get("VERIF", "/verif"), os.environ.get("REPO", "/repo")
V = VERIF + "/seeded"
quick = "-n" in sys.argv

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def plant(path):
    id = os.path.basename(path)[:-3]
    g = {}
    exec(open(path).read(), g)
    copy = "/tmp/plant/" + id
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    try:
        sh("cp -a %s %s" % (REPO, copy))
        orig = set()
        for f, old, new in g["EDITS"]:
            p = copy + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                return "edit does not apply once (%d): %s %r" % (s.count(old), f, old[:80])
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=copy).stdout
        # at least one removed line must be original
        blame = 0
        for f in {e[0] for e in g["EDITS"]}:
            cur = None
            marks = {i + 1: l.startswith("^") for i, l in enumerate(sh("git blame -s a3e6002..HEAD -- " + f, cwd=REPO).stdout.split("\n"))}
            for l in sh("git diff -U0 -- " + f, cwd=copy).stdout.split("\n"):
                m = re.match(r"@@ -(\d+)", l)
                if m: cur = int(m.group(1)); continue
                if l.startswith("-") and not l.startswith("---"):
                    blame += marks.get(cur, False); cur += 1
        if not blame:
            return "changes no original line"
        b = sh("bash -c '. /opt/vp/env.sh; go build ./... && go vet ./cmd/... >/dev/null; go build ./...'", cwd=copy)
        if b.returncode:
            return "does not build:\n" + b.stdout
        d = V + "/" + id
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write("#!/usr/bin/env python3\nimport sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom lab import *\n" + g["DEMO"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# %s\nexec python3 "$(dirname "$0")/demo.py"\n' % g["BREAKS"].split("\n")[0])
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(VERIF + "/tools/lab/lab.py", d + "/lab.py")
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        def fail(msg):
            shutil.rmtree(d, ignore_errors=True)
            return msg
        for i in range(g.get("REPEAT", 2)):
            r = sh("timeout 300 bash %s/demo.sh" % d, cwd=REPO)
            if r.returncode:
                return fail("demo fails on the unchanged tree:\n" + r.stdout[-3000:])
            r2 = sh("timeout 300 bash %s/demo.sh" % d, cwd=copy)
            if r2.returncode == 0:
                return fail("demo passes with the bug:\n" + r2.stdout[-3000:])
        last = r2.stdout.strip().split("\n")[-1][:200]
        if not quick:
            t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + copy)
            open("/tmp/plant/%s.sh" % id, "w").write(t)
            o = "/tmp/plant/%s.json" % id
            sh("bash /tmp/plant/%s.sh %s" % (id, o))
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            try: got = json.load(open(o))["passed"]
            except Exception as e: return fail("tests: " + repr(e))
            miss = sorted(set(base) - set(got))
            for x in (o, "/tmp/plant/%s.sh" % id):
                if os.path.exists(x): os.unlink(x)
            if miss:
                return fail("tests fail: %s" % miss[:5])
        return "OK   [%s]" % last
    finally:
        sh("chmod -R u+w %s" % copy)
        shutil.rmtree(copy, ignore_errors=True)

from concurrent.futures import ThreadPoolExecutor
fs = [a for a in sys.argv[1:] if not a.startswith("-")]
with ThreadPoolExecutor(4) as ex:
    for f, r in zip(fs, ex.map(plant, fs)):
        print(os.path.basename(f), r, flush=True)
