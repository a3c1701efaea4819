PROPERTY = "S19"
NEEDS = "a listed tarball whose version is the one already installed but whose content differs"
BREAKS = "A tarball is skipped when the library has the package in the same version, even if the content is another one."
EDITS = [("cmd/plan.go", """	installPlan.AdditionalPackageSources = unpackedTarballPkgs
""", """	// what is installed already need not be installed again
	for _, d := range tarballDescriptions {
		if installed, found := installedPackages[d.Package]; found && installed.Version == d.Version {
			delete(unpackedTarballPkgs, d.Package)
		}
	}
	installPlan.AdditionalPackageSources = unpackedTarballPkgs
"""), ("cmd/plan.go", "	//Check library existence\n", "	// Check library existence\n")]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a")])
    w.installed(pkg("t", body="from elsewhere"))
    t = w.tarball(pkg("t", body="from the tarball"))
    w.yml(["a"], extra="Tarballs:\\n  - %s\\n" % t)
    rc, out = w.run("install")
    check(w.lib().get("t/R/code.R") == b"from the tarball", "the tarball was not installed")
finally:
    w.close()
'''
