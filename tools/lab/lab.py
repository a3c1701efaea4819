#!/usr/bin/env python3
"""A scratch world for pkgr: repositories, a stand-in for R, a configuration.

Everything happens below one temporary directory.  Run as a program called R
(through the wrapper this module writes) it behaves like R CMD INSTALL."""
import gzip, hashlib, http.server, io, json, os, re, shutil, signal, socketserver, subprocess, sys, tarfile, tempfile, threading, time

ME = os.path.abspath(__file__)
PLATFORM = "x86_64-pc-linux-gnu"

def description(p, built=False):
    s = "Package: %s\nVersion: %s\n" % (p["name"], p["version"])
    for k in ("Depends", "Imports", "LinkingTo", "Suggests"):
        if p.get(k):
            s += "%s: %s\n" % (k, ", ".join(p[k]))
    s += "License: GPL\nTitle: %s\n" % p.get("title", "x")
    for k, v in p.get("extra", {}).items():
        s += "%s: %s\n" % (k, v)
    return s

def tgz(files):
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode="wb", mtime=0) as g:
        with tarfile.open(fileobj=g, mode="w") as t:
            dirs = set()
            for n in sorted(files):
                d = os.path.dirname(n)
                todo = []
                while d and d not in dirs:
                    todo.append(d); dirs.add(d); d = os.path.dirname(d)
                for d in reversed(todo):
                    ti = tarfile.TarInfo(d); ti.type = tarfile.DIRTYPE; ti.mode = 0o755
                    t.addfile(ti)
                ti = tarfile.TarInfo(n); ti.size = len(files[n]); ti.mode = 0o644
                t.addfile(ti, io.BytesIO(files[n]))
    return b.getvalue()

def source(p):
    n = p["name"]
    body = p.get("body", "%s %s" % (n, p["version"]))
    return tgz({n + "/DESCRIPTION": description(p).encode(), n + "/NAMESPACE": b"", n + "/R/code.R": body.encode()})

def pkg(name, version="1.0", **kw):
    return dict(name=name, version=version, **kw)

class World:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="pkgrlab-")
        self.proj = self.path("p"); os.makedirs(self.proj)
        for d in ("home", "tmp", "bin", "srv", "r"):
            os.makedirs(self.path(d))
        self.repos = []          # (name, url)
        self.conf = {}
        self.beh = {}
        self.requests = []
        self.hook = None         # hook(handler) -> True when it answered
        self.server = None
        self.env = {}
        self.program("bin", "R")
        self.bin = self.path("pkgr")
        e = dict(os.environ)
        subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd %s && go build -o %s ./cmd/pkgr" % (os.getcwd(), self.bin)], check=True, env=e)

    def program(self, *a):
        """an executable that stands in for R or Rscript"""
        p = self.path(*a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("#!/bin/sh\nexec env LABPROG=%s python3 %s --as-R %s \"$@\"\n" % (p, ME, self.path("r")))
        os.chmod(p, 0o755)
        return p

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        if self.server:
            self.server.shutdown(); self.server.server_close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def serve(self):
        if self.server:
            return
        w = self
        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            def log_message(self, *a): pass
            def do_GET(self):
                w.requests.append(self.path)
                if w.hook and w.hook(self):
                    return
                f = w.path("srv") + self.path
                try:
                    b = open(f, "rb").read()
                except OSError:
                    self.send_response(404); self.send_header("Content-Length", "2"); self.end_headers(); self.wfile.write(b"no"); return
                self.send_response(200); self.send_header("Content-Length", str(len(b))); self.end_headers(); self.wfile.write(b)
        class S(socketserver.ThreadingMixIn, http.server.HTTPServer):
            daemon_threads = True
        self.server = S(("127.0.0.1", 0), H)
        threading.Thread(target=self.server.serve_forever, daemon=True).start()

    def repo(self, name, pkgs, http=False, sub=None, list=True):
        sub = sub or name
        root = self.path("srv", sub)
        os.makedirs(root + "/src/contrib", exist_ok=True)
        idx = []
        for p in pkgs:
            with open(root + "/src/contrib/%s_%s.tar.gz" % (p["name"], p["version"]), "wb") as f:
                f.write(source(p))
            s = "Package: %s\nVersion: %s\n" % (p["name"], p["version"])
            for k in ("Depends", "Imports", "LinkingTo", "Suggests"):
                if p.get(k):
                    s += "%s: %s\n" % (k, ", ".join(p[k]))
            idx.append(s)
        with open(root + "/src/contrib/PACKAGES", "w") as f:
            f.write("\n".join(idx))
        if http:
            self.serve()
            url = "http://127.0.0.1:%d/%s" % (self.server.server_port, sub)
        else:
            url = root
        if list:
            self.repos.append((name, url))
        return url

    def tarball(self, p, file=None):
        f = self.path(file or "%s_%s.tar.gz" % (p["name"], p["version"]))
        with open(f, "wb") as h:
            h.write(source(p))
        return f

    def installed(self, p, lib="lib"):
        d = os.path.join(self.proj, lib, p["name"])
        os.makedirs(d + "/Meta"); os.makedirs(d + "/R")
        open(d + "/DESCRIPTION", "w").write(description(p) + "Built: R 4.3.1\n")
        open(d + "/NAMESPACE", "w").write("")
        open(d + "/R/code.R", "w").write(p.get("body", "%s %s" % (p["name"], p["version"])))
        open(d + "/Meta/package.rds", "w").write("meta")

    def yml(self, packages, lib="lib", threads=4, extra="", cache="cache", file="pkgr.yml"):
        s = "Version: 1\nPackages:\n" + "".join("  - %s\n" % p for p in packages)
        s += "Repos:\n" + "".join("  - %s: \"%s\"\n" % r for r in self.repos)
        s += "Library: \"%s\"\nRPath: %s\n" % (lib, self.path("bin", "R"))
        if cache: s += "Cache: \"%s\"\n" % (cache if os.path.isabs(cache) else self.path(cache))
        if threads: s += "Threads: %d\n" % threads
        s += extra
        open(os.path.join(self.proj, file), "w").write(s)

    def command(self, *args, prefix=()):
        open(self.path("r", "beh.json"), "w").write(json.dumps(self.beh))
        env = {"HOME": self.path("home"), "TMPDIR": self.path("tmp"), "PATH": self.path("bin") + ":/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8"}
        env.update(self.env)
        return dict(args=list(prefix) + [self.bin] + list(args), cwd=self.proj, env=env)

    def run(self, *args, timeout=60, prefix=()):
        c = self.command(*args, prefix=prefix)
        p = subprocess.Popen(c["args"], cwd=c["cwd"], env=c["env"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = "timeout"
        return rc, out.decode(errors="replace")

    def log(self):
        try:
            return [json.loads(l) for l in open(self.path("r", "log"))]
        except OSError:
            return []

    def clearlog(self):
        try: os.unlink(self.path("r", "log"))
        except OSError: pass

    def lib(self, lib="lib"):
        return tree(os.path.join(self.proj, lib))

    def version(self, name, lib="lib"):
        try:
            for l in open(os.path.join(self.proj, lib, name, "DESCRIPTION")):
                if l.startswith("Version: "):
                    return l[9:].strip()
        except OSError:
            return None

def tree(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), top)] = None
        for x in fs:
            p = os.path.join(d, x)
            out[os.path.relpath(p, top)] = open(p, "rb").read() if not os.path.islink(p) else os.readlink(p)
    return out

def check(ok, msg):
    if not ok:
        print("FAILED:", msg)
        sys.stdout.flush()
        raise SystemExit(1)

# ---------------------------------------------------------------- the fake R

def as_r(state, argv):
    def log(**kw):
        kw["t"] = time.time()
        with open(os.path.join(state, "log"), "a") as f:
            f.write(json.dumps(kw) + "\n")
    try:
        beh = json.load(open(os.path.join(state, "beh.json")))
    except OSError:
        beh = {}
    if "--version" in argv:
        print("R version %s (2023-06-16) -- \"x\"\nPlatform: %s (64-bit)\n" % (beh.get("R", "4.3.1"), PLATFORM))
        return 0
    expr = argv[argv.index("-e") + 1] if "-e" in argv else ""
    if "renv::paths" in expr:
        b = beh.get("renv", {})
        log(ev="renv", prog=os.environ["LABPROG"], cwd=os.getcwd())
        sys.stdout.write(b.get("out", "\n_pkgr_%s_pkgr_\n" % b.get(os.environ["LABPROG"], "")))
        sys.stdout.flush()
        if b.get("kill"):
            os.kill(os.getpid(), 9)
        return b.get("rc", 0)
    if expr:
        m = re.search(r"'([^']+)'", expr)
        name = m.group(1) if m else ""
        b = beh.get(name, {})
        ph = "load" if expr.startswith("library(") else "info" if expr.startswith("find.package") else "expr"
        log(ev="start", phase=ph, pkg=name, pid=os.getpid(), env=dict(os.environ), cwd=os.getcwd())
        time.sleep(b.get("sleep", 0.02))
        if b.get("kill") == ph:
            os.kill(os.getpid(), 9)
        rc = 1 if b.get("fail") == ph else 0
        if ph == "info" and not rc:
            print("[1] \"/lib/%s\"\n[1] \"1.0\"" % name)
        log(ev="end", phase=ph, pkg=name, pid=os.getpid(), rc=rc)
        return rc
    if "INSTALL" not in argv:
        return 0
    src = argv[-1]
    build = "--build" in argv
    lib = [a for a in argv if a.startswith("--library=")][0][10:]
    if os.path.isdir(src):
        files = {os.path.basename(src.rstrip("/")) + "/" + k: v for k, v in tree(src).items() if v is not None}
    else:
        files = {}
        try:
            with tarfile.open(src) as t:
                for m in t.getmembers():
                    if m.isfile():
                        files[m.name] = t.extractfile(m).read()
        except Exception as e:
            print("ERROR: cannot extract package from %s: %s" % (src, e), file=sys.stderr)
            return 1
    name = sorted(files)[0].split("/")[0]
    phase = "build" if build else "install"
    b = beh.get(name, {})
    log(ev="start", phase=phase, pkg=name, pid=os.getpid(), lib=lib, src=src, env=dict(os.environ), cwd=os.getcwd())
    def end(rc):
        log(ev="end", phase=phase, pkg=name, pid=os.getpid(), rc=rc)
        return rc
    d = files[name + "/DESCRIPTION"].decode()
    path = [lib] + [p for v in ("R_LIBS", "R_LIBS_USER", "R_LIBS_SITE") for p in os.environ.get(v, "").split(":") if p]
    time.sleep(b.get("sleep", 0.05))
    need = []
    for l in d.split("\n"):
        m = re.match(r"(Depends|Imports|LinkingTo): (.*)", l)
        if m:
            need += [re.split(r"[ (]", x.strip())[0] for x in m.group(2).split(",")]
    missing = [n for n in need if n not in ("R", "methods", "stats", "utils", "tools") and not any(os.path.exists(os.path.join(p, n, "Meta/package.rds")) for p in path)]
    if missing:
        log(ev="missing", pkg=name, missing=missing)
        print("ERROR: dependencies %s are not available for package ‘%s’" % (missing, name), file=sys.stderr)
        return end(1)
    cmd = b.get("shell")
    if cmd and b.get("phase", phase) == phase:
        subprocess.run(["bash", "-c", cmd], env=dict(os.environ, PKGR_PID=str(os.getppid()), RLIB=lib))
    if b.get("fail") == phase:
        print("ERROR: injected", file=sys.stderr)
        return end(b.get("rc", 1))
    dst = os.path.join(lib, name)
    shutil.rmtree(dst, ignore_errors=True)
    for f, v in files.items():
        p = os.path.join(lib, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(v)
    if "Built:" not in d:
        open(os.path.join(dst, "DESCRIPTION"), "a").write("Built: R 4.3.1\n")
    os.makedirs(dst + "/Meta", exist_ok=True)
    open(dst + "/Meta/package.rds", "w").write("meta")
    if build and not b.get("nobinary"):
        out = tgz({name + "/" + k: v for k, v in tree(dst).items() if v is not None})
        v = re.search(r"^Version: (.*)$", d, re.M).group(1)
        open("%s_%s_R_%s.tar.gz" % (name, v, PLATFORM), "wb").write(out)
    return end(0)

if __name__ == "__main__" and len(sys.argv) > 2 and sys.argv[1] == "--as-R":
    sys.exit(as_r(sys.argv[2], sys.argv[3:]))
