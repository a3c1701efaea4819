PROPERTY = "S15"
NEEDS = "a package whose customised environment sets a variable to an empty value that is set in pkgr's own environment"
BREAKS = "A variable customised to be empty does not shadow the one of the user's environment."
EDITS = [("rcmd/configure.go", """			_, exists := envList.Get(evs[0])
			if !exists {
				displayValue""", """			custom, _ := envList.Get(evs[0])
			if custom == "" {
				displayValue""")]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a"), pkg("b")])
    w.env = {"MY_FLAGS": "-O9"}
    w.yml(["a", "b"], extra="Customizations:\\n  Packages:\\n    - a:\\n        Env:\\n          MY_FLAGS: \\"\\"\\n")
    rc, out = w.run("install")
    envs = {}
    for x in w.log():
        if x["ev"] == "start" and x["phase"] == "build": envs[x["pkg"]] = x["env"]
    check(envs["b"].get("MY_FLAGS") == "-O9", "b lost the variable")
    check(envs["a"].get("MY_FLAGS", "") == "", "a does not see its own value: %r" % envs["a"].get("MY_FLAGS"))
finally:
    w.close()
'''
