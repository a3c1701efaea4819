PROPERTY = "S24"
NEEDS = "two pkgr processes that write to the same log file at the same time"
BREAKS = "The log file is not opened for appending any more, only its end is looked for when it is opened, so processes that share it overwrite each other's records."
EDITS = [("logger/logger.go", """	logFile, err := os.OpenFile(file, flag, chmod)
	if err != nil {
		_, _ = fmt.Fprintf(os.Stderr, "unable to write file on filehook %v", err)
		return nil, err
	}
""", """	// some network file systems have no atomic append
	logFile, err := os.OpenFile(file, flag&^os.O_APPEND, chmod)
	if err == nil {
		_, err = logFile.Seek(0, io.SeekEnd)
	}
	if err != nil {
		_, _ = fmt.Fprintf(os.Stderr, "unable to write file on filehook %v", err)
		return nil, err
	}
"""), ("logger/logger.go", '	"fmt"\n', '	"fmt"\n	"io"\n')]
DEMO = '''
w = World()
try:
    w.repo("R1", [pkg("a"), pkg("b"), pkg("c", Imports=["a"])])
    w.beh = {"a": {"sleep": 0.5}, "b": {"sleep": 0.5}, "c": {"sleep": 0.5}}
    f = w.path("log.json")
    w.yml(["a", "c"], extra="Logging:\\n  all: \\"%s\\"\\n" % f, file="one.yml")
    w.yml(["b", "c"], lib="lib2", extra="Logging:\\n  all: \\"%s\\"\\n" % f, cache="cache2", file="two.yml")
    n = {}
    def one(x, lib):
        rc, out = w.run("install", "--config", x, "--logjson")
        n[x] = (rc, [l for l in out.split("\\n") if l.startswith("{")])
    ts = [threading.Thread(target=one, args=a) for a in (("one.yml", "lib"), ("two.yml", "lib2"))]
    for t in ts: t.start()
    for t in ts: t.join()
    check(all(v[0] == 0 for v in n.values()), "the installs fail: %s" % n)
    got = []
    for l in open(f):
        try: got.append(json.loads(l)["msg"])
        except ValueError: check(False, "not a record: %r" % l[:200])
    want = [json.loads(l)["msg"] for v in n.values() for l in v[1]]
    import collections
    miss = collections.Counter(want) - collections.Counter(got)
    # what is printed before the configuration is read is not in the file
    for m in list(miss):
        if m.startswith("could not find") or "config" in m.lower(): del miss[m]
    check(sum(miss.values()) == 0, "records are missing in the log file: %s" % dict(miss))
finally:
    w.close()
'''
