PROPERTY = "S01"
NEEDS = "an update of a package that another planned package needs together with a second dependency that finishes earlier; the update has to be the slower of the two"
BREAKS = "A dependency that is already in the library counts as in place even while it is being replaced by an update, so its dependents are built before it is back."
EDITS = [("rcmd/install.go", """							_, installed := installedPkgs[d]
							if !installed {
""", """							_, installed := installedPkgs[d]
							// packages that were in the library before need not be waited for
							_, inLibrary := plan.InstalledPackages[d]
							if !installed && !inLibrary {
""")]
DEMO = '''
w = World()
try:
    w.repo("R1", [pkg("slow", "2.0"), pkg("fast"), pkg("top", Imports=["slow", "fast"])])
    w.installed(pkg("slow", "1.0"))
    w.beh = {"slow": {"sleep": 0.6}}
    w.yml(["top"])
    rc, out = w.run("install")
    l = w.log()
    started = [x["t"] for x in l if x["ev"] == "start" and x["pkg"] == "top"]
    ended = [x["t"] for x in l if x["ev"] == "end" and x["pkg"] == "slow" and x["phase"] == "install"]
    check(ended and started, "install of slow and top: " + out)
    check(min(started) > max(ended), "top was built before its dependency slow was in the library")
    check(w.version("top") == "1.0" and w.version("slow") == "2.0", "not installed")
finally:
    w.close()
'''
