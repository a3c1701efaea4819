PROPERTY = "S22"
NEEDS = "two pkgr runs at the same time on one machine, with R processes that overlap"
BREAKS = "The names of temporary directories come from a generator with a fixed seed, so concurrent runs use the same build directories and user libraries."
EDITS = [("rcmd/utils.go", """	s1 := rand.NewSource(time.Now().UnixNano())
	r1 := rand.New(s1)
	bytes""", """	randomMutex.Lock()
	defer randomMutex.Unlock()
	bytes"""), ("rcmd/utils.go", """func randomString(len int)""", """// seeding it for every string made equal names possible within one clock tick
var (
	random      = rand.New(rand.NewSource(20180601))
	randomMutex sync.Mutex
)

func randomString(len int)"""), ("rcmd/utils.go", "byte(65 + r1.Intn(25))", "byte(65 + random.Intn(25))"), ("rcmd/utils.go", '	"time"\n', '	"sync"\n')]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a"), pkg("b")])
    w.yml(["a"], lib="lib1", file="p1.yml", threads=1)
    w.yml(["b"], lib="lib2", file="p2.yml", threads=1)
    w.beh = {"a": {"sleep": 0.5}, "b": {"sleep": 0.5}}
    ps = []
    for f in ("p1.yml", "p2.yml"):
        c = w.command("install", "--config", f)
        ps.append(subprocess.Popen(c["args"], cwd=c["cwd"], env=c["env"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    out = [p.communicate(timeout=60)[0].decode() for p in ps]
    builds = [x["cwd"] for x in w.log() if x["ev"] == "start" and x["phase"] == "build"]
    check(len(builds) == 2 and w.version("a", "lib1") and w.version("b", "lib2"), "not installed: " + "".join(out))
    check(len(set(builds)) == 2, "both runs build in " + builds[0])
finally:
    w.close()
'''
