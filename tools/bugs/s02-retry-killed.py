PROPERTY = "S02"
NEEDS = "an R process that builds a package is killed by a signal (a crash in compiled code, the out-of-memory killer)"
BREAKS = "A package whose R process was killed is attempted a second time, although every package is attempted at most once."
EDITS = [("rcmd/worker.go", """				res, bPath, err := w.InstallFunc(appFS, ir, ir.Cache)
				// if already installed so don't print a message since that would have already been printed
				if res.ExitCode != -999 {
""", """				attempt := func() (CmdResult, string, error) { return w.InstallFunc(appFS, ir, ir.Cache) }
				res, bPath, err := attempt()
				alreadyInstalled := res.ExitCode == -999
				if err != nil && res.ExitCode < 0 && !alreadyInstalled {
					// R did not exit by itself, which may have been bad luck
					res, bPath, err = attempt()
				}
				// if already installed so don't print a message since that would have already been printed
				if !alreadyInstalled {
""")]
DEMO = '''
w = World()
try:
    w.repo("R1", [pkg("dep"), pkg("bad", Imports=["dep"]), pkg("top", Imports=["bad"])])
    w.beh = {"bad": {"shell": "kill -9 $PPID", "phase": "build"}}
    w.yml(["top"])
    rc, out = w.run("install")
    l = w.log()
    n = sum(1 for x in l if x["ev"] == "start" and x["pkg"] == "bad" and x["phase"] == "build")
    check(n >= 1, "bad was not attempted: " + out)
    check(n == 1, "bad was attempted %d times" % n)
    check(not [x for x in l if x["pkg"] == "top"], "top was attempted")
finally:
    w.close()
'''
