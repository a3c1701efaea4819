PROPERTY = "S10"
NEEDS = "two repositories that offer the same package, and the index of the first one arriving after that of the second"
BREAKS = "Repositories are searched in the order in which their indexes arrive instead of the listed order."
EDITS = [("cran/pkg_nexus.go", "			pkgNexus.Db[result.repoIndex] = result.Rdb\n", "			pkgNexus.Db[i] = result.Rdb\n")]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a", "1.0")], http=True)
    w.repo("Second", [pkg("a", "2.0")], http=True)
    def slow(h):
        if h.path == "/First/src/contrib/PACKAGES":
            time.sleep(1)
    w.hook = slow
    w.yml(["a"])
    rc, out = w.run("install")
    check(w.version("a") == "1.0", "a comes from the second repository: %s" % w.version("a"))
finally:
    w.close()
'''
