package sim

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/netip"
	"runtime"
	"strings"
	"time"
)

// Unusual API clients, and requests in progress when the program is told to stop.

var apixKinds = []string{"keep", "slowhdr", "half", "post", "head", "gzip", "badreq", "slowread", "long", "pipeline", "idle", "options", "noread"}

func apixAddr(k int) netip.Addr { return netip.AddrFrom4([4]byte{10, 0, 0, byte(200 + k%40)}) }

// apiClient plays one unusual client.
func (w *World) apiClient(kind, path string, seed uint64) {
	r := newRng(w.spec.Seed, 700, seed, uint64(w.Inc))
	enter()
	w.Faults["api_"+kind]++
	w.apixSeq++
	a := apixAddr(w.apixSeq)
	l := w.linkFor(a)
	l.Lat, l.Jit, l.Window = ms, 0, 0
	if kind == "slowread" || kind == "noread" {
		l.Window = pick(r, 1, 64, 200, 1000)
	}
	leave()
	c, err := dialSUT(a, w.apiPort, l, nil)
	if err != nil {
		return
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(100 * time.Second))
	req := func(method, path, extra string) string {
		return method + " " + path + " HTTP/1.1\r\nHost: fd\r\n" + extra + "\r\n"
	}
	br := bufio.NewReader(c)
	read := func(method string) (*http.Response, []byte) {
		hr, _ := http.NewRequest(method, "http://fd/", nil)
		resp, err := http.ReadResponse(br, hr)
		if err != nil {
			return nil, nil
		}
		body, err := io.ReadAll(resp.Body)
		if err != nil {
			return nil, nil
		}
		if resp.StatusCode >= 500 && w.diskFine() {
			w.violate("P14", "api_5xx", "%s %s answered %d: %s", method, path, resp.StatusCode, clip(body, 160))
		}
		w.ev("apix %s %s %s -> %d len=%d", kind, method, path, resp.StatusCode, len(body))
		return resp, body
	}
	valid := func(what string, resp *http.Response, body []byte) {
		if resp != nil && resp.StatusCode == 200 && !json.Valid(body) {
			w.violate("P14", "api_json", "%s %s answered no valid JSON: %s", what, path, clip(body, 120))
		}
	}
	gone := func(what string) {
		if !w.exiting && now()-w.BootClock > 30*sec && w.diskFine() && w.DiskDelay == 0 {
			w.violate("P14", "api_down", "%s %s got no answer", what, path)
		}
	}
	switch kind {
	case "keep", "idle":
		for i, n := 0, r.in(2, 5); i < n; i++ {
			_, _ = io.WriteString(c, req("GET", path, ""))
			resp, body := read("GET")
			if resp == nil {
				gone("keep-alive request")
				return
			}
			valid("keep-alive GET", resp, body)
			time.Sleep(time.Duration(r.in(0, 4000)) * time.Millisecond)
		}
		if kind == "idle" {
			time.Sleep(time.Duration(r.in(1, 90)) * time.Second)
		}
	case "pipeline":
		n := r.in(2, 6)
		_, _ = io.WriteString(c, strings.Repeat(req("GET", path, ""), n))
		for i := 0; i < n; i++ {
			resp, body := read("GET")
			if resp == nil {
				gone("pipelined request")
				return
			}
			valid("pipelined GET", resp, body)
		}
	case "slowhdr":
		s := req("GET", path, "X-Pad: "+strings.Repeat("x", 200)+"\r\n")
		for _, b := range []byte(s) {
			if _, err := c.Write([]byte{b}); err != nil {
				return
			}
			time.Sleep(time.Duration(r.in(10, 900)) * time.Millisecond)
		}
	case "half":
		_, _ = io.WriteString(c, req("GET", path, ""))
		time.Sleep(time.Duration(r.in(0, 4)) * time.Millisecond)
		if r.p(1, 2) {
			c.reset()
		}
	case "post", "options":
		m := strings.ToUpper(kind)
		_, _ = io.WriteString(c, req(m, path, "Content-Length: 2\r\nConnection: close\r\n")+"{}")
		if resp, _ := read(m); resp == nil {
			gone(m)
		} else if resp.StatusCode < 400 {
			w.violate("P14", "api_code", "%s %s answered %d", m, path, resp.StatusCode)
		}
	case "head":
		_, _ = io.WriteString(c, req("HEAD", path, "Connection: close\r\n"))
		if resp, _ := read("HEAD"); resp == nil {
			gone("HEAD")
		}
	case "gzip":
		_, _ = io.WriteString(c, req("GET", path, "Accept-Encoding: gzip\r\nConnection: close\r\n"))
		resp, body := read("GET")
		if resp == nil {
			gone("GET")
			return
		}
		if resp.Header.Get("Content-Encoding") == "gzip" {
			z, err := gzip.NewReader(bytes.NewReader(body))
			if err == nil {
				body, err = io.ReadAll(z)
			}
			if err != nil {
				w.violate("P14", "api_json", "GET %s answered broken compressed data: %v", path, err)
				return
			}
		}
		valid("GET", resp, body)
	case "badreq":
		_, _ = c.Write(append(r.bytes(r.in(1, 100)), '\r', '\n', '\r', '\n'))
		_, _ = io.ReadAll(c)
	case "slowread":
		_, _ = io.WriteString(c, req("GET", path, "Connection: close\r\n"))
		b := make([]byte, 400)
		for {
			if _, err := c.Read(b); err != nil {
				break
			}
			time.Sleep(time.Duration(r.in(1, 300)) * time.Millisecond)
		}
	case "noread":
		_ = c.SetDeadline(time.Time{})
		n := r.in(1, 60)
		go func() {
			for i := 0; i < n; i++ {
				if _, err := io.WriteString(c, req("GET", path, "")); err != nil {
					return
				}
			}
		}()
		time.Sleep(time.Duration(r.in(20, 400)) * time.Second)
		if r.p(1, 2) {
			c.reset()
		}
	case "long":
		_, _ = io.WriteString(c, req("GET", path+"/"+strings.Repeat("%41,", r.in(1, 3000)), "Connection: close\r\n"))
		if resp, _ := read("GET"); resp == nil {
			gone("GET")
		}
	}
}

// inflight is a request that is in progress when the program is told to stop.
type inflight struct {
	path string
	sc   *simConn
	sent int64
	must bool
	got  []byte
}

// openRequests begins API requests that arrive together with the signal.
func (w *World) openRequests() {
	r := newRng(w.spec.Seed, 710, uint64(w.Inc))
	if !r.p(2, 3) || w.listeners[w.apiPort] == nil {
		return
	}
	n := r.in(1, 4)
	ips := []string{"10.0.1.1", "10.0.1.2"}
	for i := 0; i < n; i++ {
		f := &inflight{path: pick(r, "/api/forks", "/api/active-forks", "/api/status", "/api/heads", "/api/leashes", "/api/peers/all",
			"/api/peers/friendly", "/api/connections", "/api/fork/"+pick(r, ips...), "/api/fork/"+pick(r, ips...)+"/generators/0")}
		win := pick(r, 0, 100, 300, 1000)
		go func() {
			enter()
			w.apixSeq++
			a := apixAddr(w.apixSeq)
			l := w.linkFor(a)
			l.Lat, l.Jit, l.Window = ms, 0, 0
			l.Window = win
			leave()
			c, err := dialSUT(a, w.apiPort, l, func(sc, hc *simConn) { f.sc = sc })
			if err != nil {
				return
			}
			enter()
			f.sc.rec = &f.got
			w.open = append(w.open, f)
			leave()
			s := "GET " + f.path + " HTTP/1.1\r\nHost: fd\r\nConnection: close\r\n\r\n"
			f.sent = int64(len(s))
			_, _ = io.WriteString(c, s)
			b := make([]byte, 4096)
			for {
				if _, err := c.Read(b); err != nil {
					return
				}
				if win > 0 {
					time.Sleep(5 * time.Millisecond)
				}
			}
		}()
	}
	time.Sleep(2 * time.Millisecond)
	for i, n := 0, r.n(60); i < n; i++ {
		runtime.Gosched()
	}
	if r.p(3, 4) {
		time.Sleep(time.Duration(r.n(60)) * time.Millisecond)
	}
}

// markOpen notes which requests the program is serving when it is told to stop. A
// request that has just been read is not yet one of them: the HTTP server of the
// standard library drops those. Whether more has been done since is known only where
// every task gets its turn.
func (w *World) markOpen() {
	enter()
	defer leave()
	for _, f := range w.open {
		read := f.sent > 0 && f.sc.in.consumed >= f.sent && f.sc.in.readAt < now()-3*ms && w.spec.Sched.Mode == 0
		f.must = (len(f.got) > 0 || read) && w.diskFine() && w.spec.Sched.FreezeProb == 0
		if f.must {
			w.Probes["request_at_sigterm"]++
		}
	}
}

// checkOpen demands, when the program has ended, the complete answers to them.
func (w *World) checkOpen() {
	for _, f := range w.open {
		if !f.must || !w.diskFine() || now()-w.termAt > 4900*ms { // the grace period has been used up
			continue
		}
		resp, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(f.got)), nil)
		var body []byte
		if err == nil {
			body, err = io.ReadAll(resp.Body)
		}
		switch {
		case err != nil:
			w.violate("P12,P14", "request_dropped", "GET %s was in progress at SIGTERM and was not answered %.3f s later: %v after %d bytes", f.path, float64(now()-w.termAt)/1e9, err, len(f.got))
		case resp.StatusCode >= 500:
			w.violate("P12,P14", "request_failed", "GET %s was in progress at SIGTERM and was answered %d: %s", f.path, resp.StatusCode, clip(body, 120))
		case resp.StatusCode == 200 && !json.Valid(body):
			w.violate("P12,P14", "request_failed", "GET %s was in progress at SIGTERM and was answered with no valid JSON: %s", f.path, clip(body, 120))
		}
	}
}

var _ = fmt.Sprint
