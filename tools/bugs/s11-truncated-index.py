PROPERTY = "S11"
NEEDS = "a connection that breaks in the middle of the index, at a record boundary or anywhere after some records"
BREAKS = "An index that was cut off by a broken connection is used, and cached for an hour, as if it were complete."
EDITS = [("cran/repodb.go", """				if err != nil {
					err = fmt.Errorf("error reading body: %s", err)
""", """				if err != nil && err != io.ErrUnexpectedEOF {
					err = fmt.Errorf("error reading body: %s", err)
""")]
DEMO = '''
w = World()
try:
    w.repo("First", [pkg("a"), pkg("b"), pkg("c")], http=True)
    w.repo("Second", [pkg("c", "7.0")], http=True)
    cut = [True]
    def hook(h):
        if h.path == "/First/src/contrib/PACKAGES" and cut[0]:
            b = open(w.path("srv") + h.path, "rb").read()
            n = b.index(b"Package: c")
            h.send_response(200); h.send_header("Content-Length", str(len(b))); h.end_headers()
            h.wfile.write(b[:n]); h.wfile.flush(); h.close_connection = True
            return True
    w.hook = hook
    w.yml(["a", "c"])
    rc, out = w.run("install")
    check(w.version("c") != "7.0", "planned from part of the index of the first repository")
    cut[0] = False
    rc, out = w.run("install")
    check(w.version("c") == "1.0", "cached part of the index: " + out)
finally:
    w.close()
'''
