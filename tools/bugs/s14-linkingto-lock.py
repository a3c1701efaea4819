PROPERTY = "S14"
NEEDS = "several packages with LinkingTo that are ready together, next to others that are ready as well"
BREAKS = "Packages with compiled code are built one at a time, and a worker that waits for its turn blocks its thread although other packages are ready."
EDITS = [("rcmd/install.go", """	inCache, ir := isInCache(fs, ir, pc)
	if inCache {
		// don't need to build since already a binary
""", """	inCache, ir := isInCache(fs, ir, pc)
	if !inCache && len(ir.Metadata.Metadata.Package.LinkingTo) > 0 {
		// the compiler uses several cores by itself
		compiling.Lock()
		defer compiling.Unlock()
	} else if inCache {
		// don't need to build, since it is a binary already
"""), ("rcmd/install.go", """// isInCache notes if package binary already available in cache
""", """var compiling sync.Mutex

// isInCache notes if package binary already available in cache
""")]
DEMO = '''
w = World()
try:
    links = ["l%d" % i for i in range(3)]
    w.repo("First", [pkg("h")] + [pkg(n, LinkingTo=["h"]) for n in links])
    w.beh = dict((n, {"sleep": 0.5}) for n in links)
    w.yml(links, threads=3)
    rc, out = w.run("install")
    spans = [(min(x["t"] for x in w.log() if x["pkg"] == n), max(x["t"] for x in w.log() if x["pkg"] == n)) for n in links]
    check(all(w.version(n) for n in links), "not installed: " + out)
    check(max(s for s, e in spans) < min(e for s, e in spans), "ready packages were not built concurrently")
finally:
    w.close()
'''
