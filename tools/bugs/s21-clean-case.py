PROPERTY = "S21"
NEEDS = "two repositories at one address whose names differ in case only, and clean cache --repos for one of them"
BREAKS = "clean cache --repos also empties the cache of the repository whose name differs in case only."
EDITS = [("cmd/cleanCache.go", """				if repoToClear == repoFolder {
""", """				// as repository names are looked up
				if strings.EqualFold(repoToClear, repoFolder) {
""")]
DEMO = '''
w = World()
try:
    w.repo("R1", [pkg("a")])
    w.repo("R2", [pkg("b")])
    w.yml(["a", "b"])
    rc, out = w.run("install")
    check(rc == 0, out)
    ds = sorted(os.listdir(w.path("cache")))
    check(len(ds) == 2, str(ds))
    other = ds[0].replace("R1", "r1")
    shutil.copytree(w.path("cache", ds[0]), w.path("cache", other))
    before = tree(w.path("cache"))
    rc, out = w.run("clean", "cache", "--repos=" + ds[0])
    after = tree(w.path("cache"))
    check(rc == 0 and not [k for k in after if k.startswith(ds[0])], "not cleaned: " + out)
    check({k: v for k, v in before.items() if not k.startswith(ds[0])} == after, "more was cleaned")
finally:
    w.close()
'''
