PROPERTY = "S14"
NEEDS = "a load of more packages than twice the threads, with R sessions that take a while to report path and version"
BREAKS = "Only the library() call of a load holds a slot; the session that asks for path and version runs after the slot is given back, so more R sessions run at once than allowed."
EDITS = [("cmd/load.go", """	sem <- 1 // write to semaphore, which is capped at threads*2. If semaphore is full, block until you can write.
	out <- attemptLoad(request.Rs, request.RDir, request.Pkg)
	<-sem // read from sempaphore to indicate that you are done running, thus opening the "slot" taken earlier.
""", """	sem <- 1 // write to semaphore, which is capped at threads*2. If semaphore is full, block until you can write.
	result := attemptLoad(request.Rs, request.RDir, request.Pkg)
	<-sem // read from sempaphore to indicate that you are done running, thus opening the "slot" taken earlier.
	additionalInfo := getAdditionalPkgInfo(request.Rs, request.RDir, request.Pkg)
	result.Version = additionalInfo.pkgVersion
	result.Path = additionalInfo.pkgPath
	out <- result
"""), ("cmd/load.go", """	additionalInfo := getAdditionalPkgInfo(rs, rDir, pkg)
	return MakeLoadResult(
		pkg,
		additionalInfo.pkgVersion,
		additionalInfo.pkgPath,
""", """	return MakeLoadResult(
		pkg,
		"",
		"",
""")]
DEMO = '''
w = World()
try:
    names = ["p%d" % i for i in range(8)]
    w.repo("First", [pkg(n) for n in names])
    for n in names: w.installed(pkg(n))
    w.beh = dict((n, {"sleep": 0.3}) for n in names)
    w.yml(names, threads=1)
    rc, out = w.run("load")
    n = most = 0
    for e in sorted((x for x in w.log() if x["phase"] in ("load", "info")), key=lambda x: (x["t"], x["ev"] == "start")):
        n += 1 if e["ev"] == "start" else -1
        most = max(most, n)
    check(most <= 2, "%d R sessions at once with one thread" % most)
    check(len([x for x in w.log() if x["ev"] == "start" and x["phase"] == "load"]) == 8, "not all loaded")
finally:
    w.close()
'''
