PROPERTY = "S18"
NEEDS = "inspect --deps --tree with a package that is reached in two ways and has dependencies itself"
BREAKS = "inspect --tree shows the dependencies of a package only where it comes first, so the tree below other packages is incomplete."
EDITS = [("cmd/inspect.go", """func recurseDeps(pkg string, ddb gpsr.InstallPlan, t treeprint.Tree) {
	pkgDeps := ddb.DepDb[pkg]
""", """func recurseDeps(pkg string, ddb gpsr.InstallPlan, t treeprint.Tree, seen map[string]bool) {
	if seen[pkg] {
		// large trees repeat themselves
		return
	}
	seen[pkg] = true
	pkgDeps := ddb.DepDb[pkg]
"""), ("cmd/inspect.go", "		recurseDeps(d, ddb, t.AddBranch(d))\n", "		recurseDeps(d, ddb, t.AddBranch(d), seen)\n"),
 ("cmd/inspect.go", "			recurseDeps(p, ip, tb)\n", "			recurseDeps(p, ip, tb, make(map[string]bool))\n")]
DEMO = '''
w = World()
try:
    w.repo("R1", [pkg("base1"), pkg("mid", Imports=["base1"]), pkg("l", Imports=["mid"]), pkg("r", Imports=["mid"]), pkg("top", Imports=["l", "r"])])
    w.yml(["top"])
    rc, out = w.run("inspect", "--deps", "--tree", "--json", "top")
    check(rc == 0, out)
    # the tree below top as (depth, name)
    lines = [l for l in out.split("\\n") if re.search(r"[\\u2514\\u251c]", l)]
    path, got = [], set()
    for l in lines:
        m = re.match(r"^(.*?)[\\u2514\\u251c]\\u2500\\u2500 (\\S+)", l)
        d = len(m.group(1).replace("\\u00a0", " ")) // 4
        path = path[:d] + [m.group(2)]
        got.add("/".join(path))
    tree = {"top": ["l", "r", "mid", "base1"], "l": ["mid", "base1"], "r": ["mid", "base1"], "mid": ["base1"], "base1": []}
    want = set()
    def walk(p, pre):
        want.add("/".join(pre + [p]))
        for d in tree[p]:
            walk(d, pre + [p])
    walk("top", [])
    check(got == want, "missing in the tree: %s, too much: %s" % (sorted(want - got), sorted(got - want)))
finally:
    w.close()
'''
