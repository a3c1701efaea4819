package pkgrsim

import (
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	spec "github.com/metrumresearchgroup/pkgr/internal/pkgrsimspec"
)

var (
	reqSeq   int
	urlCount = map[string]int{}
)

type netErr struct {
	s       string
	timeout bool
}

func (e netErr) Error() string   { return e.s }
func (e netErr) Timeout() bool   { return e.timeout }
func (e netErr) Temporary() bool { return true }

func roundTrip(t *http.Transport, req *http.Request) (*http.Response, error) {
	u := req.URL.String()
	seq := reqSeq
	reqSeq++
	runtime.SimNoYield(1)
	nth := urlCount[u]
	urlCount[u] = nth + 1
	runtime.SimNoYield(-1)
	insecure := t.TLSClientConfig != nil && t.TLSClientConfig.InsecureSkipVerify
	emit("http+", itoa(seq), itoa(nth), u, strconv.FormatBool(insecure))
	done := func(s string) { emit("http-", itoa(seq), itoa(nth), u, s) }

	h, ok := sp.Hosts[req.URL.Host]
	time.Sleep(time.Duration(between(sp.HTTPMin, sp.HTTPMax) + h.Slow))
	var f *spec.Fault
	for i := range sp.Faults {
		x := &sp.Faults[i]
		if x.Kind == "http" && x.URL == u && x.Nth == nth {
			f = x
			emit("fault", "http", x.Act, u, itoa(nth), itoa(x.Code), itoa(x.N))
		}
	}
	if f != nil && f.Act == "stall" {
		time.Sleep(time.Duration(f.N))
	}
	if !ok {
		done("nohost")
		return nil, netErr{s: "dial tcp: lookup " + req.URL.Host + ": no such host"}
	}
	if f != nil && f.Act == "refuse" {
		done("refused")
		return nil, &errno{"dial tcp " + req.URL.Host, syscall.ECONNREFUSED}
	}
	if f != nil && f.Act == "timeout" {
		done("timeout")
		return nil, netErr{"dial tcp " + req.URL.Host + ": i/o timeout", true}
	}
	if req.URL.Scheme == "https" && h.BadCert && !insecure {
		done("badcert")
		return nil, &tls.CertificateVerificationError{Err: certError(h.Why, req.URL.Hostname())}
	}
	code := 200
	var body []byte
	hdr := http.Header{}
	if h.Redirect != "" {
		v := *req.URL
		nu, _ := url.Parse(h.Redirect)
		v.Scheme, v.Host = nu.Scheme, nu.Host
		hdr.Set("Location", v.String())
		code = 302
		body = []byte("<html>moved</html>")
	} else {
		var err error
		quietly(func() {
			body, err = os.ReadFile(filepath.Join(h.Dir, filepath.FromSlash(strings.TrimPrefix(req.URL.Path, "/"))))
		})
		if err != nil {
			code = 404
			body = []byte("<html>404 not found</html>")
		}
	}
	if f != nil && f.Act == "status" {
		code = f.Code
		switch code {
		case 204:
			body = nil
		case 206:
			body = body[:len(body)/2]
		default:
			body = []byte(fmt.Sprintf("<html>error %d</html>", code))
		}
	}
	rb := &respBody{data: body, failAt: -1, seq: seq, nth: nth, url: u, code: code}
	cl := int64(len(body))
	if h.NoLength {
		cl = -1
	}
	if f != nil {
		n := f.N
		if n > len(body) {
			n = len(body)
		}
		switch f.Act {
		case "reset":
			rb.failAt, rb.err = n, &errno{"read tcp " + req.URL.Host, syscall.ECONNRESET}
		case "trunc":
			rb.failAt, rb.err = n, io.ErrUnexpectedEOF
		case "readtimeout":
			rb.failAt, rb.err = n, netErr{"read tcp: i/o timeout", true}
		case "bodystall":
			rb.stallAt, rb.stall = n, int64(f.Code)*1e9
		}
	}
	emit("httphdr", itoa(seq), u, itoa(code))
	return &http.Response{
		Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), StatusCode: code,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hdr, Body: rb, ContentLength: cl, Request: req,
	}, nil
}

func certError(why int, host string) error {
	c := &x509.Certificate{DNSNames: []string{"www.example.com"}}
	switch why {
	case 1:
		return x509.CertificateInvalidError{Cert: c, Reason: x509.Expired, Detail: "current time is after 2024-01-01T00:00:00Z"}
	case 2:
		return x509.HostnameError{Certificate: c, Host: host}
	case 3:
		return x509.CertificateInvalidError{Cert: c, Reason: x509.NotAuthorizedToSign}
	case 4:
		return errors.New("x509: “" + host + "” certificate is revoked")
	}
	return x509.UnknownAuthorityError{Cert: c}
}

type errno struct {
	s string
	e syscall.Errno
}

func (e *errno) Error() string { return e.s + ": " + e.e.Error() }
func (e *errno) Unwrap() error { return e.e }

type respBody struct {
	data    []byte
	off     int
	failAt  int
	err     error
	stallAt int
	stall   int64
	seq     int
	nth     int
	url     string
	code    int
	closed  bool
	ended   bool
}

func (b *respBody) end(s string) {
	if !b.ended {
		b.ended = true
		emit("http-", itoa(b.seq), itoa(b.nth), b.url, s)
	}
}

func (b *respBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.off > 0 || len(b.data) > 0 {
		time.Sleep(time.Duration(between(1e5, 5e6)))
	}
	if b.stall > 0 && b.off >= b.stallAt {
		time.Sleep(time.Duration(b.stall))
		b.stall = 0
	}
	lim := len(b.data)
	if b.failAt >= 0 && b.failAt < lim {
		lim = b.failAt
	}
	if b.off >= lim {
		if b.failAt >= 0 {
			b.end("bodyerr")
			return 0, b.err
		}
		b.end(itoa(b.code))
		return 0, io.EOF
	}
	n := sp.Chunk
	if n <= 0 || n > len(p) {
		n = len(p)
	}
	if n > lim-b.off {
		n = lim - b.off
	}
	copy(p, b.data[b.off:b.off+n])
	b.off += n
	return n, nil
}

func (b *respBody) Close() error {
	b.closed = true
	b.end(itoa(b.code) + " closed")
	return nil
}
