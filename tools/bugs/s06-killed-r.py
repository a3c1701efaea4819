PROPERTY = "S06"
NEEDS = "an R process that is killed by a signal (for example because memory ran out) instead of exiting with an error"
BREAKS = "Only a positive exit status of R counts as failure, so a package whose R process was killed is logged as successfully installed."
EDITS = [("rcmd/install.go", "			if iu.Err != nil {\n", "			if iu.Err != nil && iu.Result.ExitCode > 0 {\n")]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a"), pkg("b")])
    w.beh = {"a": {"shell": "kill -9 $PPID", "phase": "build"}}
    w.yml(["a", "b"])
    rc, out = w.run("install")
    check(not [l for l in out.split("\\n") if "Successfully Installed" in l and "package=a" in l], "claims success: " + out)
    check("failed" in out, "no error: " + out)
finally:
    w.close()
'''
