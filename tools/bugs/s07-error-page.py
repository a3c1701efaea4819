PROPERTY = "S07"
NEEDS = "a server that lists a package in its index but answers the request for the file itself with a client error such as 404 or 429 once"
BREAKS = "The body of a 4xx answer is stored in the cache as the package, and later runs use it as already downloaded."
EDITS = [("cran/download-package.go", "		if resp.StatusCode != 200 {\n", "		if resp.StatusCode >= 500 {\n")]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a")], http=True)
    bad = [True]
    def hook(h):
        if h.path.endswith(".tar.gz") and bad[0]:
            h.send_response(429); h.send_header("Content-Length", "4"); h.end_headers(); h.wfile.write(b"wait")
            return True
    w.hook = hook
    w.yml(["a"])
    rc, out = w.run("install")
    check(w.lib() == {}, "installed from an error page")
    bad[0] = False
    rc, out = w.run("install")
    check(w.version("a") == "1.0", "the error page is still in the cache: " + out)
finally:
    w.close()
'''
