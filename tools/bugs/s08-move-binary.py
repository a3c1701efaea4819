PROPERTY = "S08"
NEEDS = "a temporary directory on another file system than the package cache, and a crash or a full disk while a built package is copied there"
BREAKS = "A built package is moved into the cache by copying its content straight to its final name, so a crash leaves a part of it that later installs take for the package."
EDITS = [("rcmd/install.go", """					err := copyFile(fs, iu.BinaryPath, bpath)
					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
					if err != nil {
						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error copying binary")
						return
					}
					// want to delete binaries from the existing tmpdir
""", """					err := fs.Rename(iu.BinaryPath, bpath)
					if errors.Is(err, syscall.EXDEV) {
						var content []byte
						content, err = afero.ReadFile(fs, iu.BinaryPath)
						if err == nil {
							err = afero.WriteFile(fs, bpath, content, 0666)
						}
					}
					if err != nil {
						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error moving binary")
						return
					}
					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("moved binary")
					// want to delete binaries from the existing tmpdir
"""), ("rcmd/install.go", """// copyFile copies a file such that to is never just a part of from
func copyFile(fs afero.Fs, from, to string) error {
	src, err := fs.Open(from)
	if err != nil {
		return err
	}
	defer src.Close()
	return atomicfile.Write(fs, to, 0666, func(dst io.Writer) error {
		_, err := io.Copy(dst, src)
		return err
	})
}
""", "")]
DEMO = '''
# /dev/shm and /tmp may or may not be one file system: rename is made to fail
# as it does between two, and pkgr is killed when the file has been created
w = World()
try:
    w.repo("R1", [pkg("a", body="x" * 20000)])
    w.yml(["a"])
    trace = ["strace", "-f", "-qq", "-o", "/dev/null", "-P", "?"]
    # find out the name of the binary in the cache
    rc, out = w.run("install")
    check(rc == 0, out)
    b = [os.path.join(d, f) for d, _, fs in os.walk(w.path("cache")) for f in fs if "_R_" in f]
    check(len(b) == 1, str(b))
    whole = open(b[0], "rb").read()
    for what in (["rename,renameat,renameat2:error=EXDEV"], ["rename,renameat,renameat2:error=EXDEV", "write:signal=KILL:when=1"]):
        shutil.rmtree(w.path("cache")); shutil.rmtree(w.path("p", "lib"))
        args = ["strace", "-f", "-qq", "-o", "/dev/null", "-P", b[0]] + [y for x in what for y in ("-e", "inject=" + x)]
        rc, out = w.run("install", prefix=args)
        if os.path.exists(b[0]):
            check(open(b[0], "rb").read() == whole, "a part of the built package is in the cache under its final name")
    shutil.rmtree(w.path("p", "lib"), ignore_errors=True)
    rc, out = w.run("install")
    check(rc == 0 and w.version("a") == "1.0", "a later install fails: " + out)
finally:
    w.close()
'''
