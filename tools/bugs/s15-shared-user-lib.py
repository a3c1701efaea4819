PROPERTY = "S15"
NEEDS = "two R processes of one run, one of which leaves something in its user library"
BREAKS = "All R processes of a run get the same directory as their user library, so what one package's build leaves there is seen by the others."
EDITS = [("rcmd/configure.go", """	tmpdir := filepath.Join(
		os.TempDir(),
		randomString(12),
	)
	err := os.MkdirAll(tmpdir, 0777)
""", """	emptyUserLib.Do(func() {
		emptyUserLibDir = filepath.Join(
			os.TempDir(),
			randomString(12),
		)
	})
	tmpdir := emptyUserLibDir
	err := os.MkdirAll(tmpdir, 0777)
"""), ("rcmd/configure.go", """// sysEnvVars contains the default""", """// one empty directory is enough for all R processes
var (
	emptyUserLib    sync.Once
	emptyUserLibDir string
)

// sysEnvVars contains the default"""), ("rcmd/configure.go", '	"strings"\n', '	"strings"\n	"sync"\n')]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a"), pkg("b", Imports=["a"])])
    w.yml(["b"])
    rc, out = w.run("install")
    dirs = [x["env"].get("R_LIBS_USER") for x in w.log() if x["ev"] == "start"]
    check(len(dirs) == 4 and all(dirs), "R was not started four times with a user library: %r" % dirs)
    check(len(set(dirs)) == 4, "R processes share their user library")
finally:
    w.close()
'''
