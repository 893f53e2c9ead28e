package sim

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// The executable reference model of the tracker: a tree of blocks, numbered
// heads and the leash of every peer. In the "model" scenario peers act one at a
// time and everything the API reports is compared with the model after each
// step, across crashes and restarts.

// mop is one step of the model: a full block ('p') or a micro-block
// announcement ('i') from a peer.
type mop struct {
	IP   string
	Kind byte
	N    int
}

type refModel struct {
	Log     []mop
	Alts    [][]mop // other histories the observations do not tell apart from Log
	Pending int     // steps at the end of Log that may not have been executed
}

type modelState struct {
	stored map[int]bool
	headOf map[int]uint64
	heads  uint64
	leash  map[string]int
}

func newModelState() *modelState {
	return &modelState{stored: map[int]bool{0: true}, headOf: map[int]uint64{0: 1}, heads: 1, leash: map[string]int{}}
}

// apply executes one step; half stops before the peer's leash moves.
func (m *modelState) apply(o mop, half bool) {
	nd := W.u.Nodes[o.N]
	if !m.stored[o.N] {
		from := nd.Parent
		if o.Kind == 'i' {
			from = nd.Ref
			if from <= 0 {
				return
			}
		}
		if from < 0 || !m.stored[from] {
			return
		}
		m.stored[o.N] = true
		if h, ok := m.headOf[from]; ok {
			delete(m.headOf, from)
			m.headOf[o.N] = h
		} else {
			m.heads++
			m.headOf[o.N] = m.heads
		}
	}
	if half || o.IP == "-" {
		return
	}
	m.leash[o.IP] = o.N
}

func replay(log []mop, half bool) *modelState {
	m := newModelState()
	for i, o := range log {
		m.apply(o, half && i == len(log)-1)
	}
	return m
}

// diff compares the model with what the API reported.
// sig identifies the state, including what the API does not show.
func (m *modelState) sig() string {
	var out strings.Builder
	for i := range W.u.Nodes {
		if m.stored[i] {
			fmt.Fprint(&out, i, ":", m.headOf[i], " ")
		}
	}
	for _, p := range sortedKeys(m.leash) {
		fmt.Fprint(&out, p, "=", m.leash[p], " ")
	}
	return out.String()
}

func (m *refModel) step(o mop) {
	m.Log = append(m.Log, o)
	for i := range m.Alts {
		m.Alts[i] = append(m.Alts[i], o)
	}
	m.Pending++
}

// narrow keeps the histories that explain the reading; it reports the difference
// from the likeliest one when none does, and changes nothing then.
func (m *refModel) narrow(rd *reading) (string, string) {
	var keep [][]mop
	fp, fd := "", ""
	for i, l := range append([][]mop{m.Log}, m.Alts...) {
		p, d := replay(l, false).diff(rd)
		if i == 0 {
			fp, fd = p, d
		}
		if d == "" {
			keep = append(keep, l)
		}
	}
	if len(keep) == 0 {
		return fp, fd
	}
	m.Log, m.Alts = keep[0], keep[1:]
	return "", ""
}

func (m *modelState) diff(rd *reading) (string, string) {
	if d := diffMaps(W, m.leash, rd.leash); d != "" {
		return "P03,P01", d
	}
	leashed := map[int]bool{}
	for _, n := range m.leash {
		leashed[n] = true
	}
	type hd struct {
		num uint64
		n   int
	}
	var want []hd
	for n, h := range m.headOf {
		if leashed[n] {
			want = append(want, hd{h, n})
		}
	}
	sort.Slice(want, func(i, j int) bool { return want[i].num < want[j].num })
	var got []hd
	for _, h := range rd.heads {
		n, ok := W.u.ByStr[h.ID]
		if !ok {
			return "P01,P04", "unknown head " + h.ID
		}
		got = append(got, hd{h.Number, n})
	}
	sort.Slice(got, func(i, j int) bool { return got[i].num < got[j].num })
	s := func(l []hd) string {
		r := ""
		for _, h := range l {
			r += fmt.Sprintf(" %d:%s", h.num, W.nodeName(h.n))
		}
		return r
	}
	if a, b := s(want), s(got); a != b {
		return "P04", "heads are" + b + " instead of" + a
	}
	return "", ""
}

func (w *World) modelResume() {
	h := &w.Hist
	if h.Model == nil {
		h.Model = &refModel{}
	}
	m := h.Model
	if w.Inc > 1 {
		time.Sleep(3 * time.Second)
		rd := w.poll()
		for i := 0; !rd.ok && i < 5; i++ {
			time.Sleep(3 * time.Second)
			rd = w.poll()
		}
		if !rd.ok {
			w.violate("P14,P05", "api_down", "the API does not answer after the restart")
			w.finish()
		}
		w.modelRecover(rd)
		if len(w.Viol) > 0 {
			w.finish()
		}
	}
	ops := w.spec.Ops
	since := 0
	for w.OpIdx < len(ops) {
		if w.exiting {
			select {}
		}
		op := ops[w.OpIdx]
		w.OpIdx++
		var host *Host
		if op.Host >= 0 && op.Host < len(w.hosts) {
			host = w.hosts[op.Host]
		}
		switch op.Op {
		case "push", "inv", "ids":
			if host == nil || !w.waitConn(host) {
				continue
			}
			cs := host.estConns()
			c := cs[len(cs)-1]
			enter()
			for k := int64(0); k <= op.C; k++ {
				n := w.u.at(int(op.A), int(op.B+k))
				if op.Op == "inv" {
					if w.u.Nodes[n].Ref < 0 {
						continue
					}
					m.step(mop{host.IP, 'i', n})
					c.send(w.u.microInv(n))
				} else if op.Op == "push" {
					m.step(mop{host.IP, 'p', n})
					c.pushBlock(n)
				} else {
					c.sendIDsOf(n)
				}
			}
			w.ev("model %s %s %s", op.Op, host.IP, w.nodeName(w.u.at(int(op.A), int(op.B))))
			leave()
			w.Probes["model_steps"]++
			time.Sleep(time.Duration(w.slack() + 1500*ms + int64(op.C)*100*ms))
			m.Pending = 0
		default:
			w.do(op)
			time.Sleep(time.Duration(500+op.A) * time.Millisecond)
		}
		since++
		if since >= int(w.arg("every", 1)) || w.OpIdx == len(ops) {
			since = 0
			if !w.modelCompare() {
				w.finish()
			}
		}
	}
	time.Sleep(5 * time.Second)
}

func (w *World) modelCompare() bool {
	rd := w.steady(func(rd *reading) {
		props, d := w.Hist.Model.narrow(rd)
		if d != "" {
			w.violate(props, "model", "after %d steps: %s", len(w.Hist.Model.Log), d)
		}
		w.crossChecks(rd)
		w.forkDetails(rd)
	})
	if !rd.ok {
		return len(w.Viol) == 0
	}
	w.Probes["model_compared"]++
	return len(w.Viol) == 0
}

// modelRecover finds the state the detector came back with.
func (w *World) modelRecover(rd *reading) {
	m := w.Hist.Model
	log := m.Log
	first := len(log) - m.Pending
	unclean := w.LastKill == "power" || w.Hist.DiskBad
	if unclean {
		first = 0
	}
	_, whyFull := replay(log, false).diff(rd)
	var found [][]mop
	sigs := map[string]bool{}
	for _, log := range append([][]mop{log}, m.Alts...) {
		first := len(log) - m.Pending
		if unclean {
			first = 0
		}
		for k := len(log); k >= max(first, 0); k-- {
			for _, half := range []bool{false, true} {
				if half && (k == first || k == 0) {
					continue
				}
				st := replay(log[:k], half)
				if _, d := st.diff(rd); d != "" || sigs[st.sig()] || len(found) >= 16 {
					continue
				}
				sigs[st.sig()] = true
				if len(found) == 0 && k < len(log) {
					w.Probes["model_lost_tail"]++
					w.ev("restart after %s came back with %d of %d steps", w.LastKill, k, len(log))
				}
				l := append([]mop(nil), log[:k]...)
				if half {
					o := l[k-1]
					l[k-1] = mop{"-", o.Kind, o.N}
				}
				found = append(found, l)
			}
		}
	}
	if len(found) > 0 {
		w.Probes["model_recovered_"+w.LastKill]++
		m.Log, m.Alts, m.Pending = found[0], found[1:], 0
		return
	}
	w.violate("P05", "restart_state", "after %s the state matches no point of the history from step %d to %d: %s", w.LastKill, first, len(log), whyFull)
}

// waitConn waits for a usable connection with the host.
func (w *World) waitConn(h *Host) bool {
	for i := 0; i < 200; i++ {
		cs := h.estConns()
		if len(cs) == 1 && now()-cs[0].estAt > w.slack() && len(h.liveConns()) == 1 {
			return true
		}
		time.Sleep(time.Second)
		if w.exiting {
			select {}
		}
	}
	w.violate("P06,P11", "not_connected", "no connection with %s for 200 s", h.IP)
	return false
}
