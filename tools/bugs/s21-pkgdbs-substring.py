PROPERTY = "S21"
NEEDS = "clean pkgdbs --repos with a repository whose name contains that of another configured one"
BREAKS = "clean pkgdbs also removes the cached index of a repository whose name is part of a selected name."
EDITS = [("cmd/cleanPkgdb.go", "			if repoDatabase.Repo.Name == dbToClear {\n", "			if strings.Contains(dbToClear, repoDatabase.Repo.Name) {\n")]
DEMO = '''
w = World()
try:
    w.repo("CRAN", [pkg("a")])
    w.repo("CRAN-old", [pkg("b")])
    w.yml(["a", "b"])
    w.run("plan")
    d = w.path("home", ".cache/pkgr/r_packagedb_caches")
    check(len(os.listdir(d)) == 2, "no two indexes cached")
    rc, out = w.run("clean", "pkgdbs", "--repos=CRAN-old")
    check(len(os.listdir(d)) == 1, "%d cached indexes left instead of 1: %s" % (len(os.listdir(d)), out))
finally:
    w.close()
'''
