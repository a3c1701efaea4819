PROPERTY = "S03"
NEEDS = "two projects that share a cache and whose repositories have the same name and locations that differ only in letter case, offering different content under one version"
BREAKS = "The package cache of a repository is found by its location without regard to letter case, so one project gets the packages of the other one's repository."
EDITS = [("cran/utils.go", "	io.WriteString(h, r.URL)\n", "	io.WriteString(h, strings.ToLower(r.URL))\n"), ("cran/utils.go", '	"runtime"\n)', '	"runtime"\n	"strings"\n)')]
DEMO = '''
w = World()
try:
    u1 = w.repo("Repo", [pkg("a", body="one")], http=True, sub="Snap/A")
    w.yml(["a"])
    rc, out = w.run("install")
    check(w.lib().get("a/R/code.R") == b"one", "first project: " + out)
    w.repos = []
    u2 = w.repo("Repo", [pkg("a", body="two")], http=True, sub="Snap/a")
    w.yml(["a"], lib="lib2")
    rc, out = w.run("install")
    check(w.lib("lib2").get("a/R/code.R") == b"two", "second project got the first one's package: %r" % w.lib("lib2").get("a/R/code.R"))
finally:
    w.close()
'''
