PROPERTY = "S11"
NEEDS = "a second run within the hour with another patch release of R, and a package that is offered for only one of the two"
BREAKS = "The cached index is shared between patch releases of R, although which packages it lists depends on the full R version."
EDITS = [("cran/repodb.go", "repoDb.GetRepoDbCacheFilePath(rVersion.ToFullString())\n", "repoDb.GetRepoDbCacheFilePath(rVersion.ToString())\n"),
         ("cmd/cleanPkgdb.go", "repoDatabase.GetRepoDbCacheFilePath(rs.Version.ToFullString())", "repoDatabase.GetRepoDbCacheFilePath(rs.Version.ToString())")]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("b"), pkg("a", "1.0", Depends=["R (>= 4.3.2)"])])
    w.yml(["b"])
    w.beh = {"R": "4.3.1"}
    rc, out = w.run("plan")
    check(rc == 0, out)
    w.yml(["a", "b"])
    w.beh = {"R": "4.3.2"}
    rc, out = w.run("install")
    check(w.version("a") == "1.0", "a is not offered to R 4.3.2: " + out)
finally:
    w.close()
'''
