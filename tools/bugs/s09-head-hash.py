PROPERTY = "S09"
NEEDS = "a tarball of more than 1 MiB that is replaced by one whose first MiB is the same"
BREAKS = "Only the first MiB of a tarball takes part in finding its unpacked copy, so a changed tarball is not unpacked anew."
EDITS = [("cmd/tarballOps.go", """	_, err := io.Copy(hash, tgzFile)
""", """	// the beginning tells tarballs apart, no need to read all of a large one
	_, err := io.Copy(hash, io.LimitReader(tgzFile, 1<<20))
""")]
DEMO = '''
import random
w = World()
try:
    w.repo("First", [pkg("a")])
    rnd = random.Random(7)
    filler = "".join(rnd.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for i in range(2000000))
    t = w.tarball(pkg("t", body=filler + "one"))
    w.yml(["a"], extra="Tarballs:\\n  - %s\\n" % t)
    rc, out = w.run("install")
    check(w.lib()["t/R/code.R"].endswith(b"one"), out)
    w.tarball(pkg("t", body=filler + "two"))
    rc, out = w.run("install")
    check(w.lib()["t/R/code.R"].endswith(b"two"), "the old tarball was installed again")
finally:
    w.close()
'''
