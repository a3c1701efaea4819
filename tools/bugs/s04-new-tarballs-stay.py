PROPERTY = "S04"
NEEDS = "an install with several tarball packages that are new to the library, one of which fails after others succeeded"
BREAKS = "Rolling back forgets the tarball packages that were new, so they stay in the library after a failed install."
EDITS = [("rollback/types.go", """	np := discernNewPackages(ap, preinstalledPackages)
""", """	var repoPackages []string
	for _, pkg := range ap {
		if _, isTarball := installPlan.AdditionalPackageSources[pkg]; !isTarball {
			repoPackages = append(repoPackages, pkg)
		}
	}
	np := discernNewPackages(repoPackages, preinstalledPackages)
""")]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a")])
    w.installed(pkg("old"))
    before = w.lib()
    ts = [w.tarball(pkg("t%d" % i)) for i in range(4)]
    w.beh = {"t2": {"fail": "build"}}
    w.yml(["a"], extra="Tarballs:\\n" + "".join("  - %s\\n" % t for t in ts))
    rc, out = w.run("install")
    check(any(x["pkg"] == "t2" for x in w.log()), "t2 was not attempted: " + out)
    check(w.lib() == before, "left in the library: %s" % sorted(set(w.lib()) - set(before)))
finally:
    w.close()
'''
