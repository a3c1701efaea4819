PROPERTY = "S05"
NEEDS = "directories that cannot be renamed (an overlay file system answers EXDEV), and a crash while the old version of a package is copied to its backup"
BREAKS = "The old version of a package is copied to its backup directory where it cannot be renamed, so after a crash in between the next install restores the incomplete copy over the complete package."
EDITS = [("rollback/operations.go", """	err := fileSystem.Rename(packageDir, taggedPackageDir)
	//err := RenameDirRecursive(fileSystem, packageDir, taggedPackageDir)

	if err != nil {
""", """	err := fileSystem.Rename(packageDir, taggedPackageDir)
	if err != nil && errors.Is(err, syscall.EXDEV) {
		// directories of a lower layer can't be renamed in an overlay file system
		err = moveDir(fileSystem, packageDir, taggedPackageDir)
	}

	if err != nil {
"""), ("rollback/operations.go", """func tagOldInstallation(""", """func moveDir(fileSystem afero.Fs, from, to string) error {
	err := afero.Walk(fileSystem, from, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(from, path)
		if err != nil {
			return err
		}
		if info.IsDir() {
			return fileSystem.MkdirAll(filepath.Join(to, rel), 0755)
		}
		content, err := afero.ReadFile(fileSystem, path)
		if err != nil {
			return err
		}
		return afero.WriteFile(fileSystem, filepath.Join(to, rel), content, info.Mode())
	})
	if err != nil {
		fileSystem.RemoveAll(to)
		return err
	}
	return fileSystem.RemoveAll(from)
}

func tagOldInstallation("""), ("rollback/operations.go", '	"path/filepath"\n', '	"errors"\n	"path/filepath"\n	"syscall"\n')]
DEMO = '''
w = World()
try:
    w.repo("R1", [pkg("a", "2.0")])
    old = pkg("a", "1.0", body="y" * 5000)
    w.installed(old)
    before = w.lib()
    w.yml(["a"])
    back = w.path("p", "lib", "__OLD__a")
    # the directory cannot be renamed, and pkgr is killed when it has begun to copy it
    ins = ["-e", "inject=rename,renameat,renameat2:error=EXDEV:when=1", "-e", "inject=write:signal=KILL:when=1"]
    ps = [y for p in ("lib/a", "lib/__OLD__a", back + "/DESCRIPTION", back + "/R/code.R", back + "/NAMESPACE", w.path("p", "lib", "a"),
        "lib/__OLD__a/DESCRIPTION", "lib/__OLD__a/NAMESPACE", "lib/__OLD__a/R/code.R") for y in ("-P", p)]
    rc, out = w.run("install", "--update", prefix=["strace", "-f", "-qq", "-o", "/dev/null"] + ps + ins)
    rc, out = w.run("install", "--update")
    check(rc == 0, out)
    v = w.version("a")
    check(v == "2.0", "after another install version %s is there" % v)
    # the update is undone because it fails: the old version comes back complete
    shutil.rmtree(w.path("p", "lib")); w.installed(old); shutil.rmtree(w.path("cache"))
    rc, out = w.run("install", "--update", prefix=["strace", "-f", "-qq", "-o", "/dev/null"] + ps + ins)
    w.beh = {"a": {"fail": "build"}}
    rc, out = w.run("install", "--update")
    check(w.lib() == before, "the package that was installed is damaged: %s" % sorted(k for k in before if w.lib().get(k, 0) != before[k]))
finally:
    w.close()
'''
