PROPERTY = "S10"
NEEDS = "a package that a customisation pins to one repository, which does not offer it, while another listed repository does"
BREAKS = "A package pinned to a repository is silently taken from another repository when the one it is pinned to does not have it."
EDITS = [("cran/pkg_nexus.go", """		if pkgExists(pkg, db.DescriptionsBySourceType[rst]) && isCorrectRepo(pkg, db.Repo, pkgNexus.Config.Packages) {
			return db.DescriptionsBySourceType[rst][pkg], PkgConfig{Repo: db.Repo, Type: rst}, true
		}
	}
	return desc.Desc{}, PkgConfig{}, false
}

// GetPackageFromRepo""", """		if pkgExists(pkg, db.DescriptionsBySourceType[rst]) {
			match := PkgConfig{Repo: db.Repo, Type: rst}
			if isCorrectRepo(pkg, db.Repo, pkgNexus.Config.Packages) {
				return db.DescriptionsBySourceType[rst][pkg], match, true
			}
			if !found {
				first, firstCfg, found = db.DescriptionsBySourceType[rst][pkg], match, true
			}
		}
	}
	// not in the preferred repository
	return first, firstCfg, found
}

// GetPackageFromRepo"""), ("cran/pkg_nexus.go", """	for _, db := range pkgNexus.Db {
		rst := st
""", """	var first desc.Desc
	var firstCfg PkgConfig
	var found bool
	for _, db := range pkgNexus.Db {
		rst := st
""")]
DEMO = '''
w = World()
try:
    w.repo("R1", [pkg("other")])
    w.repo("R2", [pkg("a")])
    w.yml(["other", "a"], extra="Customizations:\\n  Packages:\\n    - a:\\n        Repo: R1\\n")
    rc, out = w.run("install")
    check(rc != 0, "a was planned although R1, which it is pinned to, does not offer it: " + out)
    check(w.version("a") is None, "a was installed from a repository it is not pinned to")
    rc, out = w.run("plan")
    check(rc != 0, "plan does not fail")
    w.yml(["other", "a"], extra="Customizations:\\n  Packages:\\n    - a:\\n        Repo: R2\\n")
    rc, out = w.run("install")
    check(rc == 0 and w.version("a") == "1.0", "the pin that can be met fails: " + out)
finally:
    w.close()
'''
