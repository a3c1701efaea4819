PROPERTY = "S12"
NEEDS = "adding a package whose name differs from a listed one only in letter case"
BREAKS = "add takes a package for already listed when another one's name differs only in case, and silently leaves it out."
EDITS = [("configlib/add_package.go", """		if funk.ContainsString(pc.Packages, p) {
			log.Debug""", """		listed := false
		for _, l := range pc.Packages {
			listed = listed || strings.EqualFold(l, p)
		}
		if listed {
			log.Debug""")]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a")])
    w.yml(["Rmisc", "a"])
    rc, out = w.run("add", "rmisc")
    s = open(w.proj + "/pkgr.yml").read()
    check("- rmisc\\n" in s and "- Rmisc\\n" in s, "rmisc was not added:\\n" + s)
finally:
    w.close()
'''
