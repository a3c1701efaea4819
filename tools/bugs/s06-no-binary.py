PROPERTY = "S06"
NEEDS = "R ends with status 0 but leaves no built package (a full or read-only temporary directory, a tar that fails)"
BREAKS = "When R built a package without leaving the binary, which is what would be installed, the install is reported as successful although the package is not in the library."
EDITS = [("rcmd/install.go", """				"binaryPath": binaryBall,
			}).Error("could not find binary")
			// change the exit code in case top level just blindly looks for
			// 0 exit code means good
			// the successful initial install should still bubble up through
			// the stderr/out
			res.ExitCode = 1
			return res, "", errors.New("no binary found")
""", """				"binaryPath": binaryBall,
			}).Error("could not find binary")
			// there is nothing to put into the cache, the successful initial
			// install should still bubble up through the stderr/out
			res.ExitCode = 1
			return res, "", err
""")]
DEMO = '''
w = World()
try:
    w.repo("R1", [pkg("a"), pkg("b")])
    w.beh = {"b": {"nobinary": True}}
    w.yml(["a", "b"])
    rc, out = w.run("install")
    check(w.version("b") is not None or rc != 0 or "failed package install" in out, "install reports success without b: " + out)
    w.beh = {}
    rc, out = w.run("install")
    check(rc == 0 and w.version("a") == "1.0" and w.version("b") == "1.0", "a normal install: " + out)
finally:
    w.close()
'''
