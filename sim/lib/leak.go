package sim

import (
	"bytes"
	"fmt"
	"net/netip"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// What has ended must leave nothing behind: goroutines, connections.

// sutGoroutines counts the goroutines of the program by the function that created
// them.
func sutGoroutines() (int, map[string]int) {
	buf := make([]byte, 8<<20)
	n := runtime.Stack(buf, true)
	m := map[string]int{}
	total := 0
	for _, g := range bytes.Split(buf[:n], []byte("\n\n")) {
		by, top := "main", ""
		for i, l := range bytes.Split(g, []byte("\n")) {
			switch {
			case bytes.HasPrefix(l, []byte("created by ")):
				by = string(l[len("created by "):])
				if i := strings.Index(by, " in goroutine"); i >= 0 {
					by = by[:i]
				}
			case i > 0 && !bytes.HasPrefix(l, []byte("\t")):
				top = string(l)
				if i := strings.LastIndexByte(top, '('); i > 0 {
					top = top[:i]
				}
			}
		}
		if strings.Contains(by, "verif.local/sim") || strings.Contains(top, "verif.local/sim") {
			continue
		}
		total++
		m[by]++
	}
	return total, m
}

// sutOpen counts the connections and attempts that are open at the detector.
func (w *World) sutOpen() int {
	n := 0
	for _, c := range w.sutConns {
		if !c.closed {
			n++
		}
	}
	for _, d := range w.dials {
		if d.end == 0 {
			n++
		}
	}
	return n
}

const (
	baseGoroutines = 36 // twice what an idle instance has
	connGoroutines = 6
	goneLimit      = 6 * 60 * sec // an idle connection ends after five minutes
)

// leakCheck looks at what the program holds in a quiet system.
func (w *World) leakCheck() {
	if !w.diskFine() {
		return
	}
	churned := w.Vars["churn"] != 0
	if churned {
		time.Sleep(time.Duration(goneLimit + w.slack() + 15*sec))
	}
	over, msg := 0, ""
	for try := 0; try < 4; try++ {
		if try > 0 {
			time.Sleep(25 * time.Second)
		}
		total, by := sutGoroutines()
		open := w.sutOpen()
		w.Probes["goroutines_checked"]++
		if total <= baseGoroutines+connGoroutines*open {
			over = 0
			break
		}
		over++
		msg = fmt.Sprintf("%d goroutines for %d open connections; most were created by %s", total, open, mostOf(by))
	}
	if over > 0 {
		w.violate("P20", "goroutine_leak", "%s", msg)
	}
	enter()
	ended := 0
	for _, c := range w.sutConns {
		if c.closed {
			ended++
		}
		gone := c.in.eofAt
		if c.in.rstAt != 0 && (gone == 0 || c.in.rstAt < gone) {
			gone = c.in.rstAt
		}
		if !c.closed && gone != 0 && now()-gone > goneLimit+w.slack() && now()-w.BootClock > goneLimit+w.slack() {
			w.violate("P20", "connection_leak", "connection %d with %s was ended by the other side %.0fs ago and is still open", c.id, c.remote, float64(now()-gone)/1e9)
			break
		}
	}
	w.Vars["ended_max"] = max(w.Vars["ended_max"], int64(ended))
	w.Probes["ended_sessions"] += int64(ended)
	leave()
	if w.run.Stacks {
		total, by := sutGoroutines()
		fmt.Fprintf(os.Stderr, "LEAK goroutines=%d open=%d ended=%d %s\n", total, w.sutOpen(), ended, mostOf(by))
	}
}

func mostOf(m map[string]int) string {
	ks := sortedKeys(m)
	sort.SliceStable(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	var out []string
	for _, k := range ks[:min(3, len(ks))] {
		s := k
		if i := strings.LastIndexByte(s, '/'); i >= 0 {
			s = s[i+1:]
		}
		out = append(out, fmt.Sprintf("%s (%d)", s, m[k]))
	}
	return strings.Join(out, ", ")
}

// ---- workload: many short sessions ----

// churnKinds are the ways in which the sessions of a churn end.
var churnKinds = []string{"full", "full", "dup", "mixed", "hs_close", "hs_half", "hs_reset", "hs_garbage", "hs_noapp", "hs_loop", "hs_v6", "api", "api"}

// churn plays n short sessions, k at a time.
func (w *World) churn(h *Host, kind string, n, gap, k int, seed uint64) {
	w.Vars["churn"] = 1
	left := n
	for i := 0; i < k; i++ {
		go func(i int) {
			r := newRng(w.spec.Seed, 800, seed, uint64(w.Inc), uint64(i))
			for !w.exiting && w.Phase == phaseChaos {
				enter()
				left--
				done := left < 0
				leave()
				if done {
					return
				}
				w.session(h, kind, r)
				time.Sleep(time.Duration(r.in(1, gap)) * time.Millisecond)
			}
		}(i)
	}
}

func (w *World) session(h *Host, kind string, r *rng) {
	enter()
	w.Faults["churn_"+kind]++
	leave()
	if kind == "mixed" {
		kind = pick(r, churnKinds[3:]...)
		if kind == "mixed" {
			kind = "full"
		}
	}
	if kind == "api" || kind == "apiforks" {
		w.apiSession(r, kind == "apiforks")
		return
	}
	if !h.st.Up {
		time.Sleep(time.Second)
		return
	}
	switch kind {
	case "full", "dup":
		if kind == "full" && (h.busyIn || len(h.liveConns()) > 0) {
			for _, c := range h.liveConns() {
				c.kill(r.p(1, 2))
			}
			return
		}
		if h.busyIn {
			return
		}
		c := h.dialIn()
		if c == nil {
			return
		}
		time.Sleep(time.Duration(pick(r, 0, r.in(0, 300), r.in(200, 4000))) * time.Millisecond)
		if c.est && !c.dead {
			switch r.n(4) {
			case 0:
				c.askedPeers = now()
				c.send(&proto.GetPeersMessage{})
			case 1:
				c.sendScore()
			case 2:
				c.sendPeers([]string{})
			}
			time.Sleep(time.Duration(pick(r, 0, r.in(0, 50), r.in(0, 900))) * time.Millisecond)
		}
		if !c.dead {
			c.kill(r.p(1, 2))
		}
	default:
		if h.Evil {
			go h.evilHandshake(kind, r)
		}
	}
}

// apiSession is one connection to the API that ends in some way.
func (w *World) apiSession(r *rng, forks bool) {
	enter()
	w.apixSeq++
	a := apixAddr(w.apixSeq)
	l := w.linkFor(a)
	l.Lat, l.Jit, l.Window = ms, 0, pick(r, 0, 0, 64)
	leave()
	c, err := dialSUT(a, w.apiPort, l, nil)
	if err != nil {
		return
	}
	path := pick(r, "/api/forks", "/api/active-forks", "/api/status", "/api/peers/all", "/api/heads", "/api/leashes", "/api/connections", "/api/peers/friendly", "/api/fork/10.0.1.1", "/api/fork/10.0.1.1/generators/5", "/api/fork/10.9.9.9", "/api/none")
	if forks { // something that takes its time
		path = pick(r, "/api/forks", "/api/active-forks", "/api/fork/10.0.1.1")
	}
	req := "GET " + path + " HTTP/1.1\r\nHost: fd\r\n\r\n"
	k := r.n(5)
	if forks {
		k = pick(r, 2, 5)
	}
	switch k {
	case 5:
		_, _ = c.Write([]byte(req))
	case 0:
	case 1:
		req = req[:r.in(1, len(req)-1)]
		_, _ = c.Write([]byte(req))
	case 2:
		_, _ = c.Write([]byte(strings.Repeat(req, r.in(1, 4))))
	case 3:
		_, _ = c.Write(r.bytes(r.in(1, 50)))
	default:
		_, _ = c.Write([]byte(req))
		_ = c.SetReadDeadline(time.Now().Add(time.Duration(r.in(1, 3000)) * time.Millisecond))
		b := make([]byte, 400)
		_, _ = c.Read(b)
	}
	time.Sleep(time.Duration(pick(r, 0, r.in(0, 30), r.in(0, 2000))) * time.Millisecond)
	if r.p(1, 3) {
		c.reset()
	}
	_ = c.Close()
}

// crowd tells whether an address belongs to the crowd: nodes that accept
// connections and end them in some early stage.
func crowd(ip netip.Addr) bool {
	if !ip.Is4() {
		return false
	}
	b := ip.As4()
	return b[0] == 172 && b[1] == 20
}

func (w *World) crowdList(r *rng, n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("172.20.%d.%d:%d", r.n(250), 1+r.n(250), 6868+r.n(3)))
	}
	return l
}

// crowdAccept plays a node of the crowd. Called inside enter.
func (w *World) crowdAccept(ap netip.AddrPort, hc, sc *simConn) {
	ip := ap.Addr()
	sc.onClose = func() {
		w.ev("sut closes conn=%d with %s", hc.id, ip)
		w.sutEnded(ip.String())
	}
	r := newRng(w.spec.Seed, 801, strHash(ap.String()), uint64(w.Inc), uint64(hc.id))
	k := int(mixAddr(w.spec.Seed, ap)%97) % 6
	if x := int(w.arg("crowd", 6)); x < 6 {
		k = x
	}
	w.Faults[fmt.Sprintf("crowd_%d", k)]++
	go func() {
		readHS := func() bool {
			_ = hc.SetReadDeadline(time.Now().Add(60 * time.Second))
			var hs proto.Handshake
			_, err := hs.ReadFrom(hc)
			return err == nil
		}
		time.Sleep(time.Duration(r.in(0, 500)) * time.Millisecond)
		hold := func() { // for longer than any timeout a dial may have
			if r.p(1, 2) {
				time.Sleep(time.Duration(r.in(1, 240)) * time.Second)
			}
		}
		switch k {
		case 0:
			hold()
		case 1:
			readHS()
			hold()
		case 2:
			hc.reset()
		case 3:
			_, _ = hc.Write(r.bytes(r.in(1, 300)))
			readHS()
		case 4:
			readHS()
			enter()
			w.Hist.peer(ip.String()).LastHS.T = now() // hostile from here on
			leave()
			_, _ = hc.Write(encHandshake(&proto.Handshake{AppName: "wavesX", Version: proto.NewVersion(1, 5, 1), NodeName: "crowd", NodeNonce: r.u64() >> 1}))
			_ = hc.SetReadDeadline(time.Now().Add(time.Duration(r.in(1, 60)) * time.Second))
			_, _ = hc.Read(make([]byte, 10))
		case 5:
			readHS()
			_, _ = hc.Write([]byte{6, 'w', 'a', 'v'})
			time.Sleep(time.Duration(r.in(0, 30000)) * time.Millisecond)
			hold()
		}
		if r.p(1, 3) {
			hc.reset()
		}
		_ = hc.Close()
	}()
}
