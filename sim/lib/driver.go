package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"net/netip"
	"os"
	"os/signal"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// The driver executes the plan of a run: workload and faults, then the end of
// all faults, then the demands on a quiet system.

const (
	phaseChaos = iota
	phaseCalm
	phaseAfter // the process was ended on purpose once everything had settled
	phaseModel
)

// ports sets the ports that the detector is to use.
func (w *World) ports() {
	cfg := w.config()
	w.netPort, w.apiPort = 6868, 8080
	if ap, err := netip.ParseAddrPort(cfg.API); err == nil {
		w.apiPort = int(ap.Port())
	}
	if ap, err := netip.ParseAddrPort(cfg.Net); err == nil {
		w.netPort = int(ap.Port())
	}
}

func (w *World) prepare() {
	sp := w.spec
	w.BootClock = now()
	cfg := w.config()
	if ap, err := netip.ParseAddrPort(cfg.Declared); err == nil && !ap.Addr().IsUnspecified() {
		w.declIP = ap.Addr().Unmap()
	}
	for _, v := range cfg.Versions {
		x, err := proto.NewVersionFromString(v)
		if err != nil {
			continue
		}
		// Only the minor version makes a difference.
		if s := proto.NewVersion(x.Major(), x.Minor(), 0).String(); !slices.Contains(w.versions, s) {
			w.versions = append(w.versions, s)
		}
	}
	less := func(a, b string) bool {
		x, _ := proto.NewVersionFromString(a)
		y, _ := proto.NewVersionFromString(b)
		return x.Cmp(y) < 0
	}
	for i := range w.versions {
		for j := i; j > 0 && less(w.versions[j-1], w.versions[j]); j-- {
			w.versions[j], w.versions[j-1] = w.versions[j-1], w.versions[j]
		}
	}
	w.noteSeeds()
	w.told = map[string]bool{}
	for _, h := range sp.Hosts {
		if !h.Late {
			w.told[fmt.Sprintf("%s:%d", h.IP, h.Port)] = true
		}
		for _, g := range h.Gossip {
			w.told[g] = true
		}
	}
	for _, o := range sp.Ops {
		if o.Op == "gossip" {
			for _, g := range strings.Split(o.S, ",") {
				w.told[g] = true
			}
		}
	}
	w.DiskErrAny = false
	for _, h := range w.hosts {
		if len(h.HostSpec.Gossip) == 0 {
			continue
		}
		if h.Evil || h.SlowHS || h.App != "" || !(h.Listen && !h.Late || h.Inbound > 0) {
			continue
		}
		for _, g := range h.HostSpec.Gossip {
			if ap, err := netip.ParseAddrPort(g); err == nil {
				if t := w.byIP[ap.Addr()]; t != nil && t.Late && int(ap.Port()) == t.Port {
					t.gossiped = true
				}
			}
		}
	}
}

func (w *World) sleepTo(t int64) {
	if d := t - now(); d > 0 {
		time.Sleep(time.Duration(d))
	}
}

func (w *World) driver() {
	runtime.SimMark()
	w.prepare()
	if w.Phase == phaseAfter {
		w.afterRestart()
		return
	}
	w.startHosts()
	go w.announcer()
	switch w.Phase {
	case phaseChaos:
		w.chaos()
	case phaseModel:
		w.modelResume()
	}
	w.calm()
}

// announcer makes every connected host publish its score from time to time, as
// Waves nodes do.
func (w *World) announcer() {
	for {
		time.Sleep(time.Duration(40+w.rng.n(20)) * time.Second)
		if w.exiting {
			return
		}
		if w.mute {
			continue
		}
		for _, h := range w.hosts {
			if h.NoScore || h.st.Silent&16 != 0 || !h.st.Up || h.terse() {
				continue
			}
			for _, c := range h.estConns() {
				c.sendScore()
			}
		}
	}
}

func (w *World) chaos() {
	sp := w.spec
	if sp.Scenario == "model" {
		w.Phase = phaseModel
		w.modelResume()
		return
	}
	if sp.Scenario == "race" {
		w.race()
		return
	}
	if sp.Scenario == "startup" {
		w.startup()
		return
	}
	stop := false
	go func() {
		r := newRng(sp.Seed, 15, uint64(w.Inc))
		every := int(w.arg("poll", 20000))
		if r.p(1, 4) {
			time.Sleep(time.Duration(r.in(10, 3000)) * time.Millisecond)
			if !stop {
				w.poll()
			}
		}
		for {
			time.Sleep(time.Duration(r.in(every/3, every)) * time.Millisecond)
			if stop || w.exiting {
				return
			}
			w.poll()
		}
	}()
	for w.OpIdx < len(sp.Ops) {
		op := sp.Ops[w.OpIdx]
		w.sleepTo(w.Start + op.T*ms)
		if w.exiting {
			select {}
		}
		w.OpIdx++
		w.do(op)
	}
	w.sleepTo(w.Start + sp.ChaosEnd*ms)
	stop = true
	if w.exiting {
		select {}
	}
}

func (w *World) arg(k string, def float64) float64 {
	if v, ok := w.spec.Args[k]; ok {
		return v
	}
	return def
}

func (w *World) do(op Op) {
	w.ev("op %s host=%d a=%d b=%d c=%d s=%q", op.Op, op.Host, op.A, op.B, op.C, op.S)
	var h *Host
	if op.Host >= 0 && op.Host < len(w.hosts) {
		h = w.hosts[op.Host]
	}
	switch op.Op {
	case "kill", "power":
		w.restart(op.Op, op.A)
	case "crashop":
		w.CrashAtOp = op.A
		w.CrashKind = op.S
		w.CrashDelay = op.B
	case "term":
		w.terminate(op.A)
		select {}
	case "clock":
		w.WallOff += op.A * ms
		if w.WallOff > w.WallMax {
			w.WallMax = w.WallOff
		}
		w.WallJump = now()
		runtime.SimSetWallOffset(w.WallOff)
		w.Faults["clock_jump"]++
	case "disk":
		f := DiskFault{Kind: op.S, Path: []string{"", "blocks", "peers"}[op.C%3], After: int(op.A), Count: int(op.B)}
		if k, n, ok := strings.Cut(op.S, "/"); ok {
			f.Kind = k
			f.Prob, _ = strconv.Atoi(n)
		}
		w.DiskFaults = append(w.DiskFaults, f)
	case "diskheal":
		w.DiskFaults = nil
	case "diskslow":
		w.DiskDelay = op.A * ms
	case "listenerr":
		for _, l := range w.listeners {
			if l.addr.Port == w.netPort {
				l.errs += int(op.A)
				l.s.wake()
			}
		}
	case "api":
		go func() {
			r := w.get(op.S)
			if r != nil {
				w.onRaw(op.S, r)
			}
		}()
	case "apix":
		go w.apiClient(apixKinds[int(op.A)%len(apixKinds)], op.S, uint64(op.B))
	case "poll":
		w.poll()
	}
	if h == nil {
		return
	}
	switch op.Op {
	case "tip":
		h.setTip(w.u.at(int(op.A), int(op.B)), op.C != 0)
	case "down":
		h.down(op.A != 0)
		w.Faults["host_down"]++
	case "up":
		h.st.Up = true
	case "reset":
		for _, c := range h.liveConns() {
			w.Faults["net_reset"]++
			c.kill(op.A != 0)
		}
	case "cut":
		l := w.linkFor(h.addr)
		l.CutUntil = now() + op.A*ms
		w.Faults["net_partition"]++
	case "stall":
		h.stallUntil = now() + op.A*ms
		w.Faults["host_stall"]++
	case "slow":
		l := w.linkFor(h.addr)
		l.Lat = op.A * ms
		l.Jit = op.B * ms
		w.Faults["net_slow"]++
	case "silent":
		h.st.Silent = int(op.A)
		if op.A != 0 {
			w.Faults["host_silent"]++
		}
	case "partial":
		h.st.Partial = int(op.A)
		if op.A != 0 {
			w.Faults["host_partial_answers"]++
		}
	case "churn":
		w.churn(h, op.S, int(op.A), int(op.B), int(op.C), uint64(op.T))
	case "crowd":
		for _, c := range h.estConns() {
			l := w.crowdList(newRng(w.spec.Seed, 802, uint64(op.T)), int(op.A))
			c.sendPeers(l)
			c.noteGossip(l)
		}
	case "dialin":
		if h.st.Up && !h.busyIn {
			go h.dialIn()
		}
	case "gossip":
		for _, c := range h.estConns() {
			c.sendPeers(strings.Split(op.S, ","))
			c.noteGossip(strings.Split(op.S, ","))
		}
	case "getpeers":
		for _, c := range h.estConns() {
			c.askedPeers = now()
			c.send(&proto.GetPeersMessage{})
		}
	case "push":
		for _, c := range h.estConns() {
			for k := int64(0); k <= op.C; k++ {
				c.pushBlock(w.u.at(int(op.A), int(op.B+k)))
			}
		}
	case "inv":
		for _, c := range h.estConns() {
			if m := w.u.microInv(w.u.at(int(op.A), int(op.B))); m != nil {
				c.send(m)
			}
		}
	case "score":
		h.st.Score = op.S
		for _, c := range h.estConns() {
			c.sendScore()
		}
	case "setver":
		h.st.Ver = op.S
	case "setapp":
		h.st.App = op.S
	case "setdecl":
		h.st.Declared = op.S
	case "evil":
		h.doEvil(op)
	}
}

func (c *hconn) pushBlock(n int) {
	if m := W.u.blockMsg(n); m != nil {
		c.send(m)
	}
}

func (c *hconn) sendPeers(as []string) {
	pm := &proto.PeersMessage{}
	for _, g := range as {
		ap, err := netip.ParseAddrPort(g)
		if err != nil {
			continue
		}
		pm.Peers = append(pm.Peers, proto.PeerInfo{Addr: ap.Addr().AsSlice(), Port: ap.Port()})
	}
	c.send(pm)
}

// setTip moves the host's chain; pushing hosts send the new blocks.
func (h *Host) setTip(n int, announce bool) {
	u := W.u
	old := h.st.Tip
	h.st.Tip = n
	if !announce {
		return
	}
	for _, c := range h.estConns() {
		if h.Push {
			for _, x := range u.between(old, n, 12) {
				if u.Nodes[x].Ref >= 0 {
					c.send(u.microInv(x))
				} else {
					c.pushBlock(x)
				}
			}
		}
		if !h.NoScore && h.st.Silent&16 == 0 {
			c.sendScore()
		}
	}
}

// between lists the blocks (key and micro) leading from a to b when b extends a
// by no more than lim blocks.
func (u *Universe) between(a, b, lim int) []int {
	var r []int
	x := b
	for x != a && x > 0 && len(r) < lim {
		r = append(r, x)
		if u.Nodes[x].Ref >= 0 {
			x = u.Nodes[x].Ref
		} else {
			x = u.Nodes[x].Parent
		}
	}
	if x != a {
		return []int{b}
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- ending the process ----

const termLimit = 60 * sec

// terminate asks the detector to stop; the run continues in sutExited.
func (w *World) terminate(delay int64) {
	if w.termAt != 0 || w.ending {
		return
	}
	w.ending = true
	w.openRequests()
	w.markOpen()
	w.termAt = now()
	w.termDelay = delay
	w.exiting = true
	w.Faults["sigterm"]++
	w.ev("SIGTERM")
	go func() {
		lim := termLimit + 2*w.slack() + 20*w.DiskDelay
		time.Sleep(time.Duration(lim))
		w.violate("P12", "shutdown_hang", "still running %.0fs after SIGTERM: %s", float64(now()-w.termAt)/1e9, blockedStacks())
		w.finish()
	}()
	if !signal.SimDeliver(syscall.SIGTERM) { // no handler yet: the default action ends the process at once
		w.Probes["sigterm_default"]++
		if w.final {
			w.finish()
		}
		w.restart("kill", delay)
	}
}

// blockedStacks names the places where goroutines of the program are blocked.
func blockedStacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	if W.run.Stacks {
		os.Stderr.Write(buf[:n])
	}
	var out []string
	for _, g := range bytes.Split(buf[:n], []byte("\n\n")) {
		for _, l := range bytes.Split(g, []byte("\n")) {
			if bytes.Contains(l, []byte("waves-fork-detector")) && bytes.Contains(l, []byte("(")) && !bytes.HasPrefix(l, []byte("\t")) {
				s := string(l)
				if i := bytes.LastIndexByte(l, '/'); i >= 0 {
					s = string(l[i+1:])
				}
				if i := bytes.IndexByte([]byte(s), '('); i > 0 && s[i-1] != '.' {
					s = s[:i]
				}
				out = append(out, s)
				break
			}
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return fmt.Sprint(out)
}

// sutExited runs when the program ends by itself.
func (w *World) sutExited(code int) {
	switch {
	case w.config().Bad != "" && w.termAt == 0:
		w.refusedStart(code)
	case w.termAt != 0:
		w.Probes["clean_exit"]++
		if d := now() - w.termAt; d > 10*sec {
			w.Probes["slow_exit"]++
		}
		if code != 0 {
			w.violate("P12", "exit_code", "exit code %d after SIGTERM", code)
		}
		w.checkOpen()
		if len(w.listeners) > 0 && w.Phase != phaseChaos {
			w.Probes["listener_left_open"]++
		}
		if w.final {
			w.finish()
		}
		w.restart("term", w.termDelay)
	case w.DiskErrAny || w.startFault:
		w.Probes["exit_on_fault"]++
		if code == 0 {
			w.violate("P19", "exit_zero", "exit code 0 after a fatal storage failure")
		}
		w.restart("fault_exit", 3000)
	default:
		w.violate(w.spec.Prop+",P12,P13", "unexpected_exit", "the program ended by itself with code %d", code)
		w.finish()
	}
}

// ---- after the faults ----

func (w *World) calm() {
	w.CrashAtOp = 0
	w.DiskFaults = nil
	w.DiskDelay = 0
	if w.Phase != phaseCalm {
		w.Phase = phaseCalm
		w.ev("faults stop")
		if w.WriteErr {
			w.Hist.DiskBad = true
			w.restart("kill", 2000)
		}
	}
	runtime.SimCalm()
	// The clock settles at the latest time it has ever shown: what was put off by
	// it must not stay put off.
	if w.WallOff != w.WallMax {
		w.WallJump = now()
		w.WallOff = w.WallMax
		runtime.SimSetWallOffset(w.WallOff)
	}
	for _, h := range w.hosts {
		l := w.linkFor(h.addr)
		l.CutUntil = 0
		if l.Lat > 200*ms {
			l.Lat = 200 * ms
		}
		h.stallUntil = 0
		enter()
		for _, c := range h.conns {
			c.c.in.hurry(now() + sec)
			c.c.out.hurry(now() + sec)
		}
		leave()
		if h.Evil {
			continue
		}
		h.st.Up, h.st.Silent, h.st.Partial, h.st.Score = true, 0, 0, ""
		h.st.Listen = h.HostSpec.Listen
		for _, c := range h.estConns() {
			if !h.NoScore && !h.terse() {
				c.sendScore()
			}
		}
	}
	if w.CalmAt == 0 {
		w.CalmAt = now()
	}
	limit := w.CalmAt + w.spec.Calm*ms
	r := newRng(w.spec.Seed, 16, uint64(w.Inc))
	var why string
	for {
		time.Sleep(time.Duration(r.in(8000, 25000)) * time.Millisecond)
		rd := w.poll()
		var props string
		if rd.ok {
			props, why = w.unsettled(rd)
			if why == "" {
				break
			}
		} else {
			props, why = "P14", "the API does not answer"
		}
		if now() > limit {
			w.violate(props, "no_progress", "%.0f minutes after the last fault: %s", float64(now()-w.CalmAt)/60e9, why)
			w.finish()
		}
	}
	w.Probes["converged"]++
	w.Vars["converge_ms"] = (now() - w.CalmAt) / ms
	w.settled()
}

// expected tells what the detector owes for this host once the faults are over.
func (w *World) owed(h *Host) (conn, leash bool) {
	if h.Evil || h.SlowHS || h.st.App != "" {
		return false, false
	}
	p := w.Hist.peer(h.IP)
	if p.Hostile != 0 || p.Tainted {
		return false, false
	}
	switch d := h.st.Declared; d {
	case "", "self":
	default:
		ap, err := netip.ParseAddrPort(d)
		if err != nil || ap.Addr().IsLoopback() || !ap.Addr().Is4() {
			return false, false
		}
	}
	if h.Inbound > 0 && w.declIP.IsValid() {
		return true, !h.NoScore
	}
	if !h.Listen || (h.Late && !h.gossiped) {
		return false, false
	}
	// The detector can only dial the port it knows.
	for _, e := range w.lastAll {
		if ip, port := splitAddr(e.Address); ip == h.IP {
			return port == h.Port, port == h.Port && !h.NoScore
		}
	}
	known := !h.Late && !w.config().NoPeers
	return known, known && !h.NoScore
}

// unsettled explains what is still missing for every honest peer to be connected
// and placed on its tip.
func (w *World) unsettled(rd *reading) (string, string) {
	enter()
	defer leave()
	w.lastAll = rd.all
	in := map[string]bool{}
	for _, c := range rd.conns {
		ip, _ := splitAddr(c.Address)
		in[ip] = true
	}
	for _, h := range w.hosts {
		conn, leash := w.owed(h)
		if conn && !in[h.IP] {
			return "P06,P09,P11,P13", fmt.Sprintf("peer %s is not connected", h.IP)
		}
		if leash {
			l, ok := rd.leash[h.IP]
			if !ok {
				l = 0
			}
			if h.st.Tip == 0 {
				continue
			}
			if l != h.st.Tip && w.u.Nodes[h.st.Tip].Score.Cmp(w.u.Nodes[l].Score) > 0 && w.withinReach(rd, l, h.st.Tip) {
				return "P06,P08,P13", fmt.Sprintf("peer %s is on %s but reported on %s", h.IP, w.nodeName(h.st.Tip), w.nodeName(l))
			}
			if !w.u.related(l, h.st.Tip) && len(h.HostSpec.Gossip) == -1 {
				return "P06", "unrelated"
			}
		}
	}
	return "", ""
}

// withinReach tells whether the peer can recognise one of the 100 last blocks that
// a request names, from its leash or from the last common block of the restart.
// Waves nodes never roll back deeper.
func (w *World) withinReach(rd *reading, leash, tip int) bool {
	h := w.u.Nodes[w.u.lca(leash, tip)].Height
	if w.u.Nodes[leash].Height-h < 100 {
		return true
	}
	long := w.longestOf(rd.leash)
	for l := range long {
		if w.u.Nodes[w.u.lca(l, leash)].Height-h >= 100 {
			return false
		}
	}
	return len(long) > 0
}

func (u *Universe) related(a, b int) bool { return u.isAncestor(a, b) || u.isAncestor(b, a) }

// settled makes the exact demands on a quiet system.
func (w *World) settled() {
	w.mute = true
	time.Sleep(time.Duration(w.slack() + 3*sec))
	w.finalChecks("settled")
	if len(w.Viol) > 0 {
		w.finish()
	}
	if w.arg("finalkill", 0) != 0 {
		for i, n := 0, -1; i < 5 && n != w.hsReads; i++ {
			n = w.hsReads
			w.Hist.Snap = w.snapshot()
		}
		w.Phase = phaseAfter
		w.CfgInc = w.Inc
		if w.arg("finalkill", 0) == 1 {
			w.restart("kill", int64(w.rng.in(0, 3000)))
		}
		w.terminate(int64(w.rng.in(0, 3000)))
		select {}
	}
	w.endRun()
}

// endRun checks that the detector stops when asked and ends the run.
func (w *World) endRun() {
	w.final = true
	w.terminate(0)
	select {}
}

// afterRestart compares what was reported before an orderly or killed end with
// what is reported after the restart, before any peer has spoken.
func (w *World) afterRestart() {
	w.mute = true
	runtime.SimCalm()
	// Compare before any peer can connect.
	t0 := now()
	for now()-t0 < 8*sec && w.Hist.Snap != "" {
		time.Sleep(300 * time.Millisecond)
		s := w.snapshot()
		if s == "" || now()-t0 > 9*sec {
			continue
		}
		if s != w.Hist.Snap {
			w.violate("P05", "restart_state", "state after the restart (%s) differs: %s", w.LastKill, firstDiff(w.Hist.Snap, s))
		} else {
			w.Probes["restart_compared"]++
		}
		break
	}
	w.mute = false
	w.startHosts()
	go w.announcer()
	if len(w.Viol) > 0 {
		w.finish()
	}
	w.Phase = phaseCalm
	w.CalmAt = now()
	delete(w.spec.Args, "finalkill")
	w.calm()
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-160)
	return fmt.Sprintf("...%s / ...%s", a[lo:min(len(a), i+160)], b[lo:min(len(b), i+160)])
}

// snapshot renders the durable state reported by the API.
func (w *World) snapshot() string {
	var out bytes.Buffer
	// What misbehaving peers keep changing cannot be compared.
	evil := map[string]bool{}
	for _, h := range w.hosts {
		if h.Evil {
			evil[h.IP] = true
		}
	}
	for _, p := range []string{"/api/leashes", "/api/forks", "/api/heads"} {
		if len(evil) > 0 && p != "/api/leashes" {
			continue
		}
		r := w.get(p)
		if r == nil || r.code != 200 {
			return ""
		}
		switch p {
		case "/api/leashes":
			var ls []jLeash
			if json.Unmarshal(r.body, &ls) != nil {
				return ""
			}
			m := map[string]string{}
			for _, l := range ls {
				for _, q := range l.Peers {
					if evil[q] {
						continue
					}
					m[q] = l.BlockID + fmt.Sprint(l.Height, l.Score, l.Timestamp.UnixMilli(), l.Generator)
				}
			}
			for _, q := range sortedKeys(m) {
				fmt.Fprintf(&out, "leash %s %s\n", q, m[q])
			}
		case "/api/forks":
			var fs []jFork
			if json.Unmarshal(r.body, &fs) != nil {
				return ""
			}
			m := map[string]string{}
			for i, f := range fs {
				if i > 0 && fs[i-1].Score.Cmp(f.Score) == 0 || i+1 < len(fs) && fs[i+1].Score.Cmp(f.Score) == 0 {
					continue // order among equals is unspecified
				}
				lcb := f.LCB
				if len(fs) > 1 && fs[0].Score.Cmp(fs[1].Score) == 0 {
					lcb = ""
				}
				m[f.HeadBlock] = fmt.Sprint(f.HeadHeight, f.Score, f.PeersCount, lcb)
			}
			for _, q := range sortedKeys(m) {
				fmt.Fprintf(&out, "fork %s %s\n", q, m[q])
			}
		case "/api/heads":
			var hs []jHead
			if json.Unmarshal(r.body, &hs) != nil {
				return ""
			}
			for _, h := range hs {
				fmt.Fprintf(&out, "head %d %s %d %s\n", h.Number, h.ID, h.Height, h.Score)
			}
		}
	}
	var ps []jPeer
	r := w.get("/api/peers/all")
	if r == nil || r.code != 200 || json.Unmarshal(r.body, &ps) != nil {
		return ""
	}
	m := map[string]string{}
	for _, p := range ps {
		v := p.version()
		if p.State == 0 {
			v = ""
		}
		ip, _ := splitAddr(p.Address)
		if evil[ip] {
			continue
		}
		m[ip] = fmt.Sprint(p.Address, p.Nonce, p.Name, v, p.State, p.Score)
	}
	for _, q := range sortedKeys(m) {
		fmt.Fprintf(&out, "peer %s %s\n", q, m[q])
	}
	return out.String()
}

// ---- exact checks on a quiet system ----

// steady runs checks that compare several answers of the API with each other or
// with the peers' state. What they find counts only if nothing they depend on
// changed meanwhile; otherwise they are repeated.
func (w *World) steady(check func(rd *reading)) *reading {
	var rd *reading
	var wrong map[string]bool
	for try := 0; try < 4; try++ {
		if try > 0 {
			w.Probes["unsteady"]++
			time.Sleep(7 * time.Second)
		}
		rd = w.poll()
		if !rd.ok {
			return rd
		}
		w.tentative, w.tent = true, nil
		check(rd)
		w.tentative = false
		found := w.tent
		if len(found) == 0 {
			return rd
		}
		again := w.poll()
		if !again.ok {
			rd.ok = false
			return rd
		}
		if rd.key() == again.key() {
			if w.jumpy() && try < 3 {
				// Peers that never stop moving can be elsewhere and back in between:
				// what is wrong must be wrong every time.
				kinds := map[string]bool{}
				for _, v := range found {
					kinds[v.Kind] = true
				}
				for k := range wrong {
					if !kinds[k] {
						delete(wrong, k)
					}
				}
				if wrong == nil {
					wrong = kinds
				}
				if len(wrong) == 0 {
					return rd
				}
				continue
			}
			for _, v := range found {
				if wrong != nil && !wrong[v.Kind] {
					continue
				}
				w.violate(strings.Join(v.Props, ","), v.Kind, "%s", v.Msg)
			}
			return rd
		}
	}
	w.Probes["never_steady"]++
	return rd
}

// jumpy tells that a peer keeps answering requests with changing chains.
func (w *World) jumpy() bool {
	for _, h := range w.hosts {
		if h.Evil {
			return true
		}
	}
	return false
}

// key renders what the cross checks depend on.
func (rd *reading) key() string {
	var out strings.Builder
	for _, p := range sortedKeys(rd.leash) {
		fmt.Fprintln(&out, p, rd.leash[p])
	}
	var ps []string
	for _, c := range rd.conns {
		ps = append(ps, "c"+c.Address)
	}
	for _, e := range rd.all {
		ps = append(ps, fmt.Sprint(e.Address, e.State, e.Score))
	}
	sort.Strings(ps)
	out.WriteString(strings.Join(ps, "\n"))
	return out.String()
}

func (w *World) finalChecks(tag string) {
	rd := w.steady(func(rd *reading) {
		w.crossChecks(rd)
		w.forkDetails(rd)
		w.peerChecks(rd)
	})
	if !rd.ok {
		return
	}
	w.requestRules()
	w.ev("final checks %s done", tag)
	w.leakCheck()
}

// peerChecks compares the peer lists with the peers' own state.
func (w *World) peerChecks(rd *reading) {
	enter()
	defer leave()
	if !w.diskFine() {
		return
	}
	in := map[string]bool{}
	for _, c := range rd.conns {
		ip, _ := splitAddr(c.Address)
		in[ip] = true
	}
	for _, h := range w.hosts {
		live := false
		est := false
		for _, c := range h.conns {
			if c.dead && c.sutClosedAt == 0 && now()-c.closedAt < w.slack()+2*sec {
				live = true // the end may not have arrived yet
			}
			if !c.dead && c.sutClosedAt == 0 {
				live = true
				if c.est && c.hsInf.Admit == 1 && now()-c.estAt > w.slack()+10*sec {
					est = true
				}
			}
		}
		if in[h.IP] && !live {
			w.violate("P11", "conn_stale", "/connections reports %s, which has no open connection", h.IP)
		}
		if est && !in[h.IP] && w.Hist.peer(h.IP).Hostile == 0 && !h.Evil && !w.Hist.peer(h.IP).Tainted {
			w.violate("P11", "conn_missing", "/connections does not report %s, whose connection is open and established", h.IP)
		}
	}
	byIP := map[string]jPeer{}
	for _, e := range rd.all {
		ip, _ := splitAddr(e.Address)
		byIP[ip] = e
	}
	for _, h := range w.hosts {
		if h.Evil || h.NoScore || w.Hist.peer(h.IP).Tainted {
			continue
		}
		e, ok := byIP[h.IP]
		cs := h.estConns()
		if len(cs) == 0 || cs[0].hsInf.Admit != 1 || w.Hist.peer(h.IP).Hostile != 0 {
			continue
		}
		last := cs[len(cs)-1]
		if !ok {
			w.violate("P15", "peer_missing", "/peers/all does not report the connected peer %s", h.IP)
			continue
		}
		if e.State != 1 {
			w.violate("P10", "peer_state", "/peers/all reports the connected peer %s in state %d", h.IP, e.State)
		}
		if e.Name != h.Name || e.Nonce != last.hsInf.Nonce {
			w.violate("P10", "peer_identity", "/peers/all reports %s as %q with nonce %d instead of %q with %d", h.IP, e.Name, e.Nonce, h.Name, last.hsInf.Nonce)
		}
		if got, want := e.version(), h.version().String(); got != want && last.hsInf.Ver == want {
			w.violate("P10", "peer_version", "/peers/all reports %s with version %s instead of %s", h.IP, got, want)
		}
		if last.sentScore && now()-last.estAt > 130*sec && last.drained() {
			if e.Score == nil || e.Score.Cmp(h.score()) != 0 {
				w.violate("P16", "score_missing", "/peers/all reports score %s for %s, which announced %s", e.Score, h.IP, h.score())
			}
		}
		if _, port := splitAddr(e.Address); port != last.hsInf.Port {
			w.violate("P10,P11", "peer_port", "/peers/all reports %s, which declared port %d", e.Address, last.hsInf.Port)
		}
	}
	// Addresses told by peers in answers to our pings are known.
	for _, h := range w.hosts {
		for _, c := range h.estConns() {
			if c.hsInf.Admit != 1 || !c.drained() {
				continue
			}
			for _, gs := range c.gossips {
				if now()-gs.t < w.slack()+5*sec || gs.t < w.ReadErrAt+w.slack()+5*sec && w.ReadErrAt != 0 {
					continue
				}
				for _, g := range gs.addrs {
					ap, err := netip.ParseAddrPort(g)
					if err != nil || !ap.Addr().Is4() || ap.Addr().IsLoopback() || ap.Addr() == w.declIP {
						continue
					}
					if _, ok := byIP[ap.Addr().String()]; !ok && w.burst == 0 && !c.stalledSince(gs.t) {
						w.violate("P15", "address_ignored", "/peers/all does not report %s, told by %s", g, h.IP)
					}
				}
			}
		}
	}
}

// crossChecks compares the answers of the endpoints with each other; the system
// must be quiet.
func (w *World) crossChecks(rd *reading) {
	enter()
	defer leave()
	// forks are the leashes grouped by block
	want := map[string]int{}
	for ip, n := range rd.leash {
		want[ip] = n
	}
	got := map[string]int{}
	for _, f := range rd.forks {
		n, ok := w.u.ByStr[f.HeadBlock]
		if !ok {
			continue
		}
		for _, p := range f.Peers {
			got[p] = n
		}
	}
	if d := diffMaps(w, want, got); d != "" {
		w.violate("P02", "forks_leashes", "/forks and /leashes disagree: %s", d)
	}
	conns := map[string]bool{}
	for _, c := range rd.conns {
		ip, _ := splitAddr(c.Address)
		conns[ip] = true
	}
	act := map[string]int{}
	for _, f := range rd.active {
		n, ok := w.u.ByStr[f.HeadBlock]
		if !ok {
			continue
		}
		for _, p := range f.Peers {
			act[p] = n
		}
	}
	wact := map[string]int{}
	for ip, n := range rd.leash {
		if conns[ip] {
			wact[ip] = n
		}
	}
	if d := diffMaps(w, wact, act); d != "" {
		w.violate("P02", "active_forks", "/active-forks does not match the connected peers: %s", d)
	}
	// Any of several equally good forks may be taken for the longest.
	s := rd.status
	why, fits := "", len(rd.leash) == 0 && s.Short == 0 && s.Long == 0
	for l := range w.longestOf(rd.leash) {
		short, long := 0, 0
		seen := map[int]bool{}
		for _, n := range rd.leash {
			if seen[n] {
				continue
			}
			seen[n] = true
			if w.u.Nodes[n].Height-w.u.Nodes[w.u.lca(l, n)].Height > 5 {
				long++
			} else {
				short++
			}
		}
		fits = fits || s.Short == short && s.Long == long
		why = fmt.Sprintf("%d and %d", short, long)
	}
	if !fits {
		w.violate("P02,P14", "status_forks", "/status counts %d short and %d long forks, there are %s", s.Short, s.Long, why)
	}
	fr := map[string]bool{}
	for _, e := range rd.all {
		if e.State == 1 {
			fr[e.Address] = true
		}
	}
	if s.All != len(rd.all) || s.Friendly != len(rd.friendly) || s.Connected != len(rd.conns) {
		w.violate("P14,P11", "status_peers", "/status counts %d/%d/%d peers, the lists have %d/%d/%d", s.All, s.Friendly, s.Connected, len(rd.all), len(rd.friendly), len(rd.conns))
	}
	if len(fr) != len(rd.friendly) {
		w.violate("P15", "friendly", "/peers/friendly lists %d peers, /peers/all has %d connected before", len(rd.friendly), len(fr))
	}
	for _, e := range rd.friendly {
		if !fr[e.Address] {
			w.violate("P15", "friendly", "/peers/friendly lists %s, which /peers/all does not report as connected before", e.Address)
		}
	}
	// heads: every reported head is a leash; a leash nobody extends is a head
	leashed := map[int]bool{}
	for _, n := range rd.leash {
		leashed[n] = true
	}
	heads := map[int]bool{}
	for _, h := range rd.heads {
		n, ok := w.u.ByStr[h.ID]
		if !ok {
			continue
		}
		heads[n] = true
		if !leashed[n] {
			w.violate("P04", "head_unleashed", "/heads reports %s, which no peer is leashed to", w.nodeName(n))
		}
	}
	for n := range leashed {
		ext := false
		for m, ever := range w.Hist.Ever {
			if ever && m != n && (w.u.Nodes[m].Parent == n || w.u.Nodes[m].Ref == n) {
				ext = true
				break
			}
		}
		if !ext && !heads[n] {
			w.violate("P04", "head_missing", "/heads does not report %s, which a peer is leashed to and no block extends", w.nodeName(n))
		}
		for _, m := range sortedVals(rd.leash) {
			if m != n && w.u.isAncestor(n, m) && heads[n] {
				w.violate("P04", "head_inner", "/heads reports %s although its descendant %s is stored", w.nodeName(n), w.nodeName(m))
			}
		}
	}
}

func sortedVals(m map[string]int) []int {
	var r []int
	for _, k := range sortedKeys(m) {
		r = append(r, m[k])
	}
	return r
}

func diffMaps(w *World, want, got map[string]int) string {
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("peer %s (on %s) is missing", k, w.nodeName(want[k]))
		}
		if g != want[k] {
			return fmt.Sprintf("peer %s is on %s instead of %s", k, w.nodeName(g), w.nodeName(want[k]))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("peer %s (on %s) is too much", k, w.nodeName(got[k]))
		}
	}
	return ""
}

// forkOf gives the acceptable longest blocks of a set of leashes: best score, then
// most peers; ties leave several.
func (w *World) longestOf(leash map[string]int) map[int]bool {
	cnt := map[int]int{}
	for _, n := range leash {
		cnt[n]++
	}
	best := map[int]bool{}
	b := -1
	for n := range cnt {
		if b < 0 {
			b = n
			continue
		}
		if c := w.u.Nodes[n].Score.Cmp(w.u.Nodes[b].Score); c > 0 || c == 0 && cnt[n] > cnt[b] {
			b = n
		}
	}
	for n := range cnt {
		if b >= 0 && w.u.Nodes[n].Score.Cmp(w.u.Nodes[b].Score) == 0 && cnt[n] == cnt[b] {
			best[n] = true
		}
	}
	return best
}

// forkDetails exercises /fork, /fork/generators and the filters.
func (w *World) forkDetails(rd *reading) {
	ips := sortedKeys(rd.leash)
	if len(ips) == 0 {
		return
	}
	long := w.longestOf(rd.leash)
	r := newRng(w.spec.Seed, 17, uint64(w.Inc), uint64(now()))
	var sample []string
	for i := 0; i < 3; i++ {
		sample = append(sample, ips[r.n(len(ips))])
	}
	for _, ip := range sample {
		n := rd.leash[ip]
		var f jFork
		if w.getJSON("/api/fork/"+ip, &f) == nil {
			w.violate("P02,P14", "fork_missing", "/fork/%s does not answer although the peer has a leash", ip)
			continue
		}
		enter()
		w.checkFork("/fork/"+ip, f, ip, n, rd.leash, long)
		leave()
		w.checkGenerators(ip, n, long, r)
	}
	// filters
	for k := 0; k < 2; k++ {
		sub := map[string]bool{}
		q := ""
		for _, ip := range ips {
			if r.p(1, 2) {
				sub[ip] = true
				if q != "" {
					q += pick(r, ",", ",%20", ",,")
				}
				q += ip
			}
		}
		if len(sub) == 0 {
			continue
		}
		if r.p(1, 3) {
			q += ",10.99.99.99"
		}
		want := map[string]int{}
		for ip := range sub {
			want[ip] = rd.leash[ip]
		}
		for _, ep := range []string{"/api/forks", "/api/active-forks"} {
			var fs []jFork
			if w.getJSON(ep+"?peers="+q, &fs) == nil {
				continue
			}
			enter()
			wt := want
			if ep == "/api/active-forks" {
				wt = map[string]int{}
				for _, c := range rd.conns {
					ip, _ := splitAddr(c.Address)
					if n, ok := want[ip]; ok {
						wt[ip] = n
					}
				}
			}
			got := w.checkForks(ep+"?peers", fs, sub)
			if got != nil {
				if d := diffMaps(w, wt, got); d != "" {
					w.violate("P02", "fork_filter", "%s?peers=%s: %s", ep, q, d)
				}
			}
			leave()
		}
	}
	var fs []jFork
	if w.getJSON("/api/forks?peers=10.99.99.99", &fs) != nil && len(fs) != 0 {
		w.violate("P02", "fork_filter", "/forks?peers=10.99.99.99 reports %d forks", len(fs))
	}
}

func (w *World) checkFork(where string, f jFork, ip string, n int, leash map[string]int, long map[int]bool) {
	m, ok := w.blockOK(where, f.HeadBlock, f.HeadHeight, f.Score, &f.HeadTimestamp, f.HeadGenerator)
	if !ok {
		return
	}
	if m != n {
		w.violate("P02,P03", "fork_head", "%s reports %s instead of %s", where, w.nodeName(m), w.nodeName(n))
		return
	}
	if long[n] && len(long) == 1 && !f.Longest || !long[n] && f.Longest {
		w.violate("P02", "fork_longest", "%s: longest=%v on %s", where, f.Longest, w.nodeName(n))
	}
	okAny := false
	why := ""
	for l := range long {
		lca := w.u.lca(l, n)
		if f.LCB == w.u.Nodes[lca].ID.String() && f.Length == w.u.Nodes[n].Height-w.u.Nodes[lca].Height {
			okAny = true
		} else {
			why = fmt.Sprintf("last common block %s and length %d instead of %s and %d", w.idStr(f.LCB), f.Length, w.nodeName(lca), w.u.Nodes[n].Height-w.u.Nodes[lca].Height)
		}
	}
	if !okAny {
		w.violate("P02", "fork_lcb", "%s: %s", where, why)
	}
	set := map[string]bool{}
	for _, p := range f.Peers {
		set[p] = true
	}
	cnt := 0
	for p, x := range leash {
		if x == n {
			cnt++
			if !set[p] {
				w.violate("P02", "fork_peers", "%s does not list %s", where, p)
			}
		}
	}
	if cnt != len(f.Peers) || f.PeersCount != cnt {
		w.violate("P02", "fork_peers", "%s lists %v (count %d), %d peers are there", where, f.Peers, f.PeersCount, cnt)
	}
}

func (w *World) idStr(s string) string {
	if n, ok := w.u.ByStr[s]; ok {
		return w.nodeName(n)
	}
	return s
}

// checkGenerators compares the generators of the last blocks of a fork.
func (w *World) checkGenerators(ip string, n int, long map[int]bool, r *rng) {
	h := w.u.Nodes[n].Height
	c := pick(r, 0, 1, 2, r.in(1, 20), r.in(1, h+5), h, h+1, 100, 1000)
	var gs []jGen
	path := fmt.Sprintf("/api/fork/%s/generators/%d", ip, c)
	if w.getJSON(path, &gs) == nil {
		w.violate("P02,P14", "generators_missing", "%s does not answer", path)
		return
	}
	enter()
	defer leave()
	// With no number given: the whole fork, or the last 1000 blocks of the longest
	// one; any of several equally good forks may be taken for the longest.
	cs := []int{c}
	if c == 0 {
		cs = nil
		for l := range long {
			if l == n {
				cs = append(cs, 1000)
			} else {
				cs = append(cs, w.u.Nodes[n].Height-w.u.Nodes[w.u.lca(l, n)].Height)
			}
		}
	}
	why := ""
	for _, c := range cs {
		if why = w.generatorsOf(path, n, c, gs); why == "" {
			break
		}
	}
	if why != "" {
		w.violate("P01,P02", "generators", "%s", why)
	}
	w.Probes["generators_checked"]++
	got := map[string]bool{}
	for i, g := range gs {
		if got[g.Generator] {
			w.violate("P01,P02", "generators_dup", "%s lists %s twice", path, g.Generator)
		}
		got[g.Generator] = true
		if i > 0 && gs[i-1].Blocks < g.Blocks {
			w.violate("P02", "generators_order", "%s is not ordered", path)
		}
	}
}

func (w *World) generatorsOf(path string, n, c int, gs []jGen) string {
	want := map[string]int{}
	x := n
	for i := 0; i < c && x >= 0; i++ {
		want[w.u.gen(x)]++
		x = w.u.Nodes[x].Parent
	}
	got := map[string]int{}
	for _, g := range gs {
		got[g.Generator] = g.Blocks
	}
	for _, g := range sortedKeys(want) {
		if got[g] != want[g] {
			return fmt.Sprintf("%s (%s): %s has %d blocks instead of %d", path, w.nodeName(n), g, got[g], want[g])
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%s lists %d generators instead of %d", path, len(got), len(want))
	}
	return ""
}

// requestRules checks the answers to requests that name nothing valid.
func (w *World) requestRules() {
	for _, q := range []struct {
		path string
		code int
	}{
		{"/api/fork/10.99.99.99", 404}, {"/api/fork/nonsense", 400}, {"/api/fork/10.99.99.99/generators/5", 404},
		{"/api/fork/nonsense/generators/5", 400}, {"/api/forks?peers=nonsense", 400}, {"/api/active-forks?peers=1.2.3", 400},
		{"/api/fork/10.99.99.99/generators/x", 400}, {"/api/nothing", 404},
	} {
		if w.rng.p(1, 2) {
			continue
		}
		r := w.get(q.path)
		if r != nil && r.code != q.code {
			w.violate("P14", "api_code", "GET %s answered %d instead of %d", q.path, r.code, q.code)
		}
	}
	for _, h := range w.hosts {
		if w.Hist.peer(h.IP).Leash >= 0 && w.rng.p(1, 3) {
			for _, c := range []string{"-1", "9999999999999999", "4611686018427387904"} {
				w.get("/api/fork/" + h.IP + "/generators/" + c)
			}
			break
		}
	}
}

// onRaw judges the answer to an ad-hoc request made while things happen.
func (w *World) onRaw(path string, r *apiResp) {
	if r.code == 200 && !json.Valid(r.body) {
		w.violate("P14", "api_json", "GET %s answered no valid JSON: %s", path, clip(r.body, 120))
	}
}

var _ = big.NewInt
var _ = os.Getpid
