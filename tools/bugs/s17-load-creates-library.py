PROPERTY = "S17"
NEEDS = "load (with or without --all) in a project whose library does not exist yet"
BREAKS = "load creates the library directory when it is missing."
EDITS = [("cmd/load.go", """	sessionMetadata.LibPaths = getRSessionLibPaths(rs, rDir)
""", """	// R leaves directories that don't exist out of .libPaths()
	if err := fs.MkdirAll(cfg.Library, 0755); err == nil {
		sessionMetadata.LibPaths = getRSessionLibPaths(rs, rDir)
	}
""")]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a")])
    w.beh = {"a": {"fail": "load"}}
    w.yml(["a"])
    rc, out = w.run("load")
    check(any(x["phase"] == "load" for x in w.log()), "load did not run: " + out)
    check(not os.path.exists(w.proj + "/lib"), "load created the library")
finally:
    w.close()
'''
