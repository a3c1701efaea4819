PROPERTY = "S13"
NEEDS = "an R session that is killed by a signal while it loads a package"
BREAKS = "A package whose R session was killed by a signal is reported as loaded."
EDITS = [("cmd/load.go", """	var exitError *exec.ExitError
	var didSucceed bool

	if cmdErr != nil {
		didSucceed = false
		if errors.As(cmdErr, &exitError) { // If the command had an exit code != 0
""", """	var exitError *exec.ExitError
	var didSucceed bool

	// R reports a package that can't be loaded by a positive exit code
	failed := cmdErr != nil
	if errors.As(cmdErr, &exitError) {
		failed = exitError.ExitCode() > 0
	}

	if failed {
		didSucceed = false
		if exitError != nil { // If the command had an exit code != 0
""")]
DEMO = '''
w = World()
try:
    w.repo("R1", [pkg("a"), pkg("b"), pkg("c")])
    for p in ("a", "b", "c"):
        w.installed(pkg(p))
    w.beh = {"b": {"kill": "load"}, "c": {"fail": "load"}}
    w.yml(["a", "b", "c"])
    rc, out = w.run("load", "--json")
    rep = json.loads(out[out.index("{"):])
    res = {k: v["Success"] for k, v in rep["LoadResults"].items()}
    check(res == {"a": True, "b": False, "c": False}, "reported: %s" % res)
    check(rep["Failures"] == 2, "failures: %s" % rep["Failures"])
finally:
    w.close()
'''
