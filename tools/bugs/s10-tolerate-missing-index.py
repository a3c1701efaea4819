PROPERTY = "S10"
NEEDS = "several repositories, at least one of whose indexes cannot be fetched while another one can"
BREAKS = "A repository whose index cannot be obtained is left out of the plan instead of stopping pkgr, so packages come from repositories of lower priority."
EDITS = [("cran/pkg_nexus.go", """	return &pkgNexus, err
}

// SetPackageRepo""", """	var available []*RepoDb
	for _, rdb := range pkgNexus.Db {
		if rdb != nil {
			available = append(available, rdb)
		}
	}
	if len(available) == 0 {
		return &pkgNexus, err
	}
	pkgNexus.Db = available
	return &pkgNexus, nil
}

// SetPackageRepo""")]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a", "1.0")], http=True)
    w.repo("Second", [pkg("a", "2.0")], http=True)
    def down(h):
        if h.path == "/First/src/contrib/PACKAGES":
            h.send_response(503); h.send_header("Content-Length", "0"); h.end_headers()
            return True
    w.hook = down
    w.yml(["a"])
    rc, out = w.run("install")
    check(w.lib() == {}, "installed although the index of the first repository could not be fetched")
    check(rc != 0, "no error: " + out)
finally:
    w.close()
'''
