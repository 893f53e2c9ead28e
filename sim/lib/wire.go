package sim

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"net/netip"
	"strings"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// Observation of everything the detector puts on the wire, at the instant it is
// written, and the oracles over that history: who is dialed and when (P09), the
// versions offered (P18), the synchronisation protocol (P07, P08), and the peer
// exchange (P15).

// Dial is one outbound connection attempt of the detector.
type Dial struct {
	ap      netip.AddrPort
	at, end int64
	ok      bool
	conn    *hconn
	expect  string // version expected in the handshake, empty when unknown
	seq     int64
}

// ScoreAnn is one score announced by a peer.
type ScoreAnn struct {
	T int64
	S string
}

// PeerHist is what the simulator knows about one peer across incarnations.
type PeerHist struct {
	Sent      map[int]int64 // blocks this peer mentioned to the detector, and when first
	Scores    []ScoreAnn
	ScoreSeen string // last score that was reported
	EndAt     int64  // last end, seen from the detector, of a dial or connection
	EndWall   int64  // the same by the wall clock
	EndLost   bool   // that end may not have been recorded
	LastEv    int64  // last attempt, connection or end of one
	KnownAt   int64  // first time the address was in the detector's peer list
	Hostile   int64  // first time the API reported the peer as hostile
	Friendly  int64  // first time the API reported the peer as friendly
	Ports     map[int]bool
	Leash     int // last leash observed, -1 for none
	LeashAt   int64
	Sessions  int64 // handshakes completed with the detector
	Ver       verState
	Offers    []string
	FailLB    int // consecutive loading failures of this peer: certain
	FailUB    int // and possible
	Ghost     bool
	BadHS     int64 // when a handshake that may have to be refused was read last
	LastHS    hsInfo
	Bad       bool // sent something malformed
	Tainted   bool // broke the rules during a handshake
	DialAt    int64
	LastPush  int64
	Calls     []int64 // recent times at which a version was chosen for this address
	Regs      []int64 // recent times at which a handshake from it was read
}

type verState struct {
	State  int // 0 not stored, 1 stored as unknown, 2 connected, 3 hostile
	Ver    string
	CallAt int64
	RegAt  int64
	Unsure bool
	Seq    int64          // calls so far
	Amb    map[int64]bool // calls whose order is uncertain
}

type hsInfo struct {
	T        int64
	App      string
	Name     string
	Ver      string
	Nonce    uint64
	Declared string
	Admit    int // 1 must be admitted, -1 must be refused as hostile, -2 refused otherwise, 0 unspecified
	Port     int
}

// leashRead is one answer of the API during concurrent loading, as positions in
// the sequences the peers announce.
type leashRead struct {
	Start, End int64
	Pos        map[string]int
}

// Hist is the recorded history used by the oracles.
type Hist struct {
	Peers    map[string]*PeerHist
	Heads    map[uint64]int // head number -> block last seen there
	Known    []bool         // blocks certainly stored by the detector
	Ever     []bool         // blocks some peer has sent or announced
	Snap     string         // state before a quiet kill
	SnapTag  string
	Model    *refModel
	MaxHead  uint64
	Unclean  bool // state may have been lost (power loss or disk error)
	DiskBad  bool
	ReadBad  bool // reads failed in an earlier incarnation
	Reads    []leashRead
	Told     map[string]bool // addresses the detector was given or told of
	ToldAny  bool            // unparsable lists were sent, too
	SelfSeen bool            // somebody connected from the detector's own address
}

// defaultSeeds are always known (parameters.go).
var defaultSeeds = map[string][]string{
	"mainnet":  {"34.253.153.4:6868", "168.119.116.189:6868", "135.181.87.72:6868", "162.55.39.115:6868", "168.119.155.201:6868"},
	"testnet":  {"159.69.126.149:6868", "94.130.105.239:6868", "159.69.126.153:6868", "94.130.172.201:6868", "35.157.247.122:6868"},
	"stagenet": {"88.99.185.128:6868", "49.12.15.166:6868", "95.216.205.3:6868", "88.198.179.16:6868", "52.58.254.101:6868"},
}

// noteSeeds records the addresses given on the command line.
func (w *World) noteSeeds() {
	if w.Hist.Told != nil {
		return
	}
	w.Hist.Told = map[string]bool{}
	for _, a := range defaultSeeds[w.spec.Network] {
		w.Hist.Told[a] = true
	}
	for i, f := range w.spec.Flags {
		if f == "-peers" && i+1 < len(w.spec.Flags) {
			for _, a := range strings.Split(w.spec.Flags[i+1], ",") {
				w.Hist.Told[a] = true
			}
		}
	}
}

// stranger tells that nobody has given the address to the detector.
func (w *World) stranger(ip string, port int) bool {
	if w.Hist.ToldAny || w.Hist.Told[fmt.Sprintf("%s:%d", ip, port)] {
		return false
	}
	p := w.Hist.Peers[ip]
	return p == nil || !p.Ports[port]
}

func (h *Hist) init() {
	if h.Peers == nil {
		h.Peers = map[string]*PeerHist{}
	}
	if h.Heads == nil {
		h.Heads = map[uint64]int{}
	}
	n := len(W.u.Nodes)
	for len(h.Known) < n {
		h.Known = append(h.Known, false)
	}
	for len(h.Ever) < n {
		h.Ever = append(h.Ever, false)
	}
	h.Known[0], h.Ever[0] = true, true
	for _, p := range h.Peers {
		if p.Sent == nil {
			p.Sent = map[int]int64{}
		}
		if p.Ports == nil {
			p.Ports = map[int]bool{}
		}
	}
}

func (h *Hist) peer(ip string) *PeerHist {
	p := h.Peers[ip]
	if p == nil {
		p = &PeerHist{Sent: map[int]int64{}, Ports: map[int]bool{}, Leash: -1}
		h.Peers[ip] = p
	}
	return p
}

// restarted adjusts the history when the detector's process ends.
func (h *Hist) restarted(kind string) {
	for _, p := range h.Peers {
		p.FailLB, p.FailUB = 0, 0
		if t := now() - W.slack() - 2*sec; p.Ver.CallAt > t || p.Ver.RegAt > t {
			p.Ver.Unsure = true
		}
		// A dial of the latest round may have been recorded but not begun.
		if kind != "term" && (now()-W.BootClock)%(10*sec) < W.slack()-3*sec {
			p.Ver.Unsure = true
		}
	}
	if kind == "power" {
		h.Unclean = true
		h.Heads = map[uint64]int{}
		h.MaxHead = 0
		for i := range h.Known {
			h.Known[i] = i == 0
		}
		for _, p := range h.Peers {
			p.EndAt, p.Hostile, p.Friendly, p.KnownAt = 0, 0, 0, 0
			p.ScoreSeen = ""
			p.Ver.Unsure = true
			p.Leash = -1
		}
	}
}

// markKnown records that block n, hence all its ancestors, is stored.
func (h *Hist) markKnown(n int) {
	for n >= 0 && !h.Known[n] {
		h.Known[n] = true
		n = W.u.Nodes[n].Parent
	}
}

// slack is the tolerance for reaction times of the detector, which covers
// scheduling pauses injected by the simulator.
func (w *World) slack() int64 {
	s := 4 * sec
	if w.spec.Sched.FreezeProb > 0 {
		s += 4 * w.spec.Sched.FreezeMax
	}
	if w.ReadDelay > 0 {
		s += 2*sec + 2000*w.ReadDelay
	}
	return s + 2*w.DiskDelay
}

// exact tells whether storage-dependent bookkeeping is reliable.
func (w *World) exact() bool { return !w.DiskErrAny && !w.Hist.DiskBad }

// stateExact tells whether everything accepted must still be known: failed reads
// lose nothing.
func (w *World) stateExact() bool { return !w.WriteErr && !w.Hist.DiskBad }

// diskFine tells whether the databases work (again) without a restart.
func (w *World) diskFine() bool {
	if w.WriteErr {
		return false
	}
	for i := range w.DiskFaults {
		if w.DiskFaults[i].Count != 0 {
			return false
		}
	}
	return !w.DiskErrAny || now()-w.ReadErrAt > 40*sec+w.slack()
}

// ---- outbound connection attempts ----

func (w *World) dialBegin(ap netip.AddrPort) *Dial {
	d := &Dial{ap: ap, at: now()}
	w.ev("sut dials %s", ap)
	w.Probes["dial"]++
	ip := ap.Addr().Unmap()
	p := w.Hist.peer(ip.String())
	if w.declIP.IsValid() && ip == w.declIP {
		w.violate("P09", "dial_self", "dialed its own declared address %s", ap)
	}
	if ip.IsLoopback() || !ip.Is4() || ip.IsUnspecified() {
		if ip.IsLoopback() || !ip.Is4() {
			w.violate("P09", "dial_bad_address", "dialed %s", ap)
		}
	}
	if ap.Port() == 0 {
		w.violate("P09", "dial_port0", "dialed %s", ap)
	}
	if w.stranger(ip.String(), int(ap.Port())) {
		w.violate("P09,P15", "dial_stranger", "dialed %s, which it was never given or told of", ap)
	}
	if p.Hostile != 0 && now()-p.Hostile > w.slack() {
		w.violate("P09,P10", "dial_hostile", "dialed %s which it reported as hostile at %.1fs", ap, float64(p.Hostile-w.Start)/1e9)
	}
	for _, o := range w.dials {
		if o.ap.Addr() != ap.Addr() {
			continue
		}
		if o.end == 0 {
			w.violate("P09", "dial_dup", "dialed %s while an attempt begun at %.1fs is still running", ap, float64(o.at-w.Start)/1e9)
		} else if o.ok && o.conn != nil && o.conn.sutClosedAt == 0 && !o.conn.sutDead() {
			w.violate("P09", "dial_connected", "dialed %s while its connection %d, dialed at %.1fs, is still open", ap, o.conn.c.id, float64(o.at-w.Start)/1e9)
		}
	}
	if h := w.byIP[ip]; h != nil && !w.dupConns(h) {
		for _, c := range h.conns {
			if c.inbound && c.est && c.hsInf.Admit == 1 && c.sutClosedAt == 0 && !c.sutDead() && now()-c.estAt > w.slack()+5*sec {
				w.violate("P09", "dial_connected", "dialed %s while inbound connection %d, established at %.1fs, is open", ap, c.c.id, float64(c.estAt-w.Start)/1e9)
			}
		}
	}
	if p.EndAt != 0 && w.exact() && !w.Hist.ReadBad {
		// The tracker waits by the wall clock. (Attempts of the peer itself put the next one
		// off, too: after a step back and forth that may be to an earlier time.)
		near := w.WallJump != 0 && (w.WallJump > p.EndAt-w.slack() || now()-w.WallJump < w.slack())
		if gap := now() + w.WallOff - p.EndWall; gap < 10*60*sec-sec && !p.Tainted && !near && !p.EndLost {
			w.violate("P09", "dial_early", "dialed %s %.1fs after the previous attempt or connection ended", ap, float64(gap)/1e9)
		}
	}
	if p.EndAt != 0 && w.exact() {
		w.Probes["redial"]++
	}
	w.versionCall(p, d, nil)
	w.dials = append(w.dials, d)
	return d
}

// sutDead reports that the connection is unusable for the detector although it
// has not closed its end yet (it will notice later).
func (c *hconn) sutDead() bool {
	return c.sutc.closed || c.sutc.in.rstAt != 0 || c.sutc.in.eofAt != 0 || c.sutc.out.rstAt != 0
}

// dupConns reports whether the detector ever had two connections with h at once
// in this incarnation.
func (w *World) dupConns(h *Host) bool {
	for i, a := range h.conns {
		for _, b := range h.conns[i+1:] {
			ae := a.sutClosedAt
			if ae == 0 {
				ae = 1 << 62
			}
			if b.begunAt < ae+w.slack() {
				return true
			}
		}
	}
	return false
}

func (w *World) dialEnd(d *Dial, sc *simConn, err error) {
	d.end = now()
	d.ok = err == nil
	if err != nil {
		w.ev("sut dial %s failed: %s", d.ap, shortErr(err))
		w.sutEnded(d.ap.Addr().Unmap().String())
	}
	if len(w.dials) > 64 {
		var keep []*Dial
		for _, o := range w.dials {
			if o.end == 0 || o.ok && o.conn != nil && o.conn.sutClosedAt == 0 || now()-o.end < 60*sec {
				keep = append(keep, o)
			}
		}
		w.dials = keep
	}
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func (w *World) sutEnded(ip string) {
	if w.exiting {
		return
	}
	w.connEnd = now()
	p := w.Hist.peer(ip)
	p.LastEv = now()
	if a, err := netip.ParseAddr(ip); err == nil {
		if h := w.byIP[a]; h != nil {
			for _, c := range h.conns {
				if c.readAt != 0 && c.sutClosedAt == 0 {
					return // another connection keeps the peer registered
				}
			}
		}
	}
	p.EndAt = now()
	p.EndWall = now() + w.WallOff
	p.EndLost = false
}

func (w *World) dialTarget(ap netip.AddrPort) (blackhole, refuse bool, h *Host) {
	h = w.byIP[ap.Addr().Unmap()]
	if l := w.links[ap.Addr()]; l != nil && l.CutUntil > now() {
		return true, false, h
	}
	if h == nil {
		if crowd(ap.Addr()) {
			return false, mixAddr(w.spec.Seed, ap)%11 == 0, nil
		}
		return mixAddr(w.spec.Seed, ap)%3 == 0, true, nil
	}
	if !h.st.Up || !h.st.Listen || int(ap.Port()) != h.Port {
		return h.Blackhole, true, h
	}
	return false, false, h
}

func mixAddr(seed uint64, ap netip.AddrPort) uint64 { return mix(seed ^ strHash(ap.String())) }

// ---- version negotiation (P18) ----

// nextVer mirrors the documented rule: cycle through the supported versions
// (newest first) until the peer accepts a connection.
func (w *World) nextVer(p *PeerHist) string {
	vs := w.versions
	if p.Ver.State == 0 {
		return vs[0]
	}
	for i, v := range vs {
		if sameMinor(v, p.Ver.Ver) {
			return vs[(i+1)%len(vs)]
		}
	}
	return vs[0]
}

func sameMinor(a, b string) bool {
	va, e1 := proto.NewVersionFromString(a)
	vb, e2 := proto.NewVersionFromString(b)
	return e1 == nil && e2 == nil && va.Major() == vb.Major() && va.Minor() == vb.Minor()
}

func (w *World) versionCall(p *PeerHist, d *Dial, c *hconn) {
	v := &p.Ver
	p.Calls = recent(p.Calls, now())
	p.LastEv = now()
	if c != nil {
		c.callAt = now()
	}
	amb := v.CallAt != 0 && now()-v.CallAt < w.slack()+2*sec || v.RegAt != 0 && now()-v.RegAt < w.slack()+2*sec
	v.CallAt = now()
	v.Seq++
	if amb {
		if len(v.Amb) > 40 || v.Amb == nil {
			v.Amb = map[int64]bool{}
		}
		v.Amb[v.Seq-1], v.Amb[v.Seq] = true, true
	}
	if d != nil {
		d.seq = v.Seq
	}
	if c != nil {
		c.callSeq = v.Seq
	}
	exp := ""
	switch v.State {
	case 0, 1:
		exp = w.nextVer(p)
		v.State = 1
		v.Ver = exp
	case 2:
		exp = v.Ver
	}
	if amb || v.Unsure || !w.exact() {
		v.Unsure = true
		exp = ""
	}
	if d != nil {
		d.expect = exp
	}
	if c != nil {
		c.expect = exp
	}
}

func (w *World) onAccepted(sc *simConn) {
	ip, _ := netip.AddrFromSlice(sc.remote.IP)
	h := w.byIP[ip.Unmap()]
	if h == nil || sc.local.Port != w.netPort {
		return
	}
	c := w.taps[sc]
	p := w.Hist.peer(h.IP)
	w.versionCall(p, nil, c)
}

func (w *World) onOffer(c *hconn, v string) {
	p := w.Hist.peer(c.h.IP)
	exp, seq := c.expect, c.callSeq
	if c.dial != nil {
		exp, seq = c.dial.expect, c.dial.seq
	}
	if p.Ver.Amb[seq] {
		exp = ""
	}
	p.Offers = append(p.Offers, v)
	if len(p.Offers) > 12 {
		p.Offers = p.Offers[1:]
	}
	w.Probes["version_offers"]++
	if exp != "" {
		if exp != v {
			w.violate("P18", "version_offer", "offered version %s to %s, expected %s (earlier offers %v)", v, c.h.IP, exp, p.Offers)
			p.Ver.Unsure = true
		} else if len(p.Offers) > 1 && p.Ver.State == 1 {
			w.Probes["version_cycled"]++
		}
	} else if p.Sessions == 0 && seq == p.Ver.Seq && !p.Ver.Amb[seq] {
		// Resynchronise on what was offered.
		p.Ver = verState{State: 1, Ver: v, CallAt: p.Ver.CallAt, Seq: seq}
	}
}

// ---- handshakes and admission ----

// judge classifies a handshake by the admission rules (P10).
func (w *World) judge(h *Host, hs *proto.Handshake) hsInfo {
	in := hsInfo{T: now(), App: hs.AppName, Name: hs.NodeName, Ver: hs.Version.String(), Nonce: hs.NodeNonce}
	if !hs.DeclaredAddr.Empty() {
		in.Declared = hs.DeclaredAddr.String()
	}
	switch {
	case hs.AppName == "" || hs.AppName[len(hs.AppName)-1] != w.u.Scheme:
		in.Admit = -1
	default:
		in.Admit = 1
		if in.Declared != "" {
			ap, err := netip.ParseAddrPort(in.Declared)
			switch {
			case err != nil:
				in.Admit = -2
			case ap.Addr().Unmap().IsLoopback() || !ap.Addr().Unmap().Is4():
				in.Admit = -2
			case ap.Addr().Unmap() == h.addr:
				in.Port = int(ap.Port())
			}
		}
		if !validUTF8(hs.NodeName) {
			in.Admit = 0
		}
	}
	return in
}

func validUTF8(s string) bool {
	return bytes.Equal([]byte(s), bytes.ToValidUTF8([]byte(s), []byte("?")))
}

// onHostHandshake runs when a host is about to write its handshake.
func (w *World) onHostHandshake(c *hconn, hs *proto.Handshake) {
	c.hsInf = w.judge(c.h, hs)
	c.hsAt = now()
	p := w.Hist.peer(c.h.IP)
	if c.hsInf.Admit == 1 || c.hsInf.Admit == 0 {
		p.Ports[c.hsInf.Port] = true
	}
}

// tapRead follows what the detector reads on a peer connection up to the end of
// the peer's handshake; from then on the peer may be registered.
func (w *World) tapRead(sc *simConn, b []byte) {
	c := w.taps[sc]
	h := w.foreign[sc]
	if c != nil {
		h = c.h
	}
	if h == nil {
		sc.hsDone = true
		return
	}
	sc.hsBuf = append(sc.hsBuf, b...)
	var hs proto.Handshake
	if _, err := hs.ReadFrom(bytes.NewReader(sc.hsBuf)); err != nil {
		sc.hsDone = len(sc.hsBuf) > 8192
		return
	}
	sc.hsDone, sc.hsBuf = true, nil
	in := w.judge(h, &hs)
	p := w.Hist.peer(h.IP)
	if in.Admit >= 0 {
		p.Ports[in.Port] = true
	}
	p.LastHS = in
	p.LastEv = now()
	p.Sessions++
	p.Regs = recent(p.Regs, now())
	// A registration clears the delay before the next attempt.
	p.EndAt = 0
	p.Ver.RegAt = now()
	p.Ver.Unsure = true
	if in.Admit != 1 {
		p.BadHS = now()
	}
	if c != nil {
		c.readAt, c.readInf = now(), in
		W.hsReads++
		if W.Phase == phaseAfter {
			W.Hist.Snap = "" // too late for the comparison after the restart
		}
		if w.verdict(c) != 1 {
			p.BadHS = now()
		}
	}
}

const recentMax = 32

func recent(l []int64, t int64) []int64 {
	l = append(l, t)
	if len(l) > recentMax {
		l = l[len(l)-recentMax:]
	}
	return l
}

// forgot tells that the list no longer reaches back to time t.
func forgot(l []int64, t int64) bool { return len(l) == recentMax && l[0] > t }

// verdict tells what the admission rules say about the handshake the detector
// has read on c: 1 admit, -1 hostile, -2 refuse, 0 undecided.
func (w *World) verdict(c *hconn) int {
	if c.readAt == 0 || !c.tapHS || !w.exact() {
		return 0
	}
	if c.readInf.Admit == 0 || c.readInf.App == "" || c.readInf.App[len(c.readInf.App)-1] != w.u.Scheme {
		return c.readInf.Admit
	}
	// The version is compared with the one chosen last for this address.
	m := w.slack() + 2*sec
	call := c.callAt
	if c.dial != nil {
		call = c.dial.at
	}
	p := w.Hist.peer(c.h.IP)
	if forgot(p.Calls, call-m) || forgot(p.Regs, call-m) {
		return 0
	}
	for _, t := range p.Calls {
		if t != call && t > call-m && t < c.readAt+m {
			return 0
		}
	}
	for _, t := range p.Regs {
		if t != c.readAt && t > call-m && t < c.readAt+m {
			return 0
		}
	}
	a, e1 := proto.NewVersionFromString(c.offered)
	b, e2 := proto.NewVersionFromString(c.readInf.Ver)
	if e1 != nil || e2 != nil {
		return 0
	}
	if a.CmpMinor(b) >= 2 {
		return -1
	}
	return c.readInf.Admit
}

// admitVersion refines the verdict once the detector's offer is known.
func (c *hconn) admitVersion() {
	offered := c.hs.Version
	v := c.h.version()
	far := v.Major() != offered.Major() || diff(v.Minor(), offered.Minor()) > 1
	if far && c.hsInf.Admit != 0 {
		c.hsInf.Admit = -1
	}
}

func diff(a, b uint32) uint32 {
	if a > b {
		return a - b
	}
	return b - a
}

// onEstablished runs when both handshakes have been exchanged, host side.
func (w *World) onEstablished(c *hconn) {
	c.admitVersion()
}

func (w *World) onDialIn(c *hconn) {
	c.begunAt = now()
}

func (w *World) onSutClose(c *hconn) {
	w.ev("sut closes conn=%d host=%s", c.c.id, c.h.IP)
	w.Hist.peer(c.h.IP).LastEv = now()
	if c.est || !c.inbound {
		w.sutEnded(c.h.IP)
	}
}

func (w *World) onHostClose(c *hconn) {}

// ---- messages from the hosts ----

func (w *World) mention(ip string, n int) {
	p := w.Hist.peer(ip)
	if _, ok := p.Sent[n]; !ok {
		p.Sent[n] = now()
	}
	w.Hist.Ever[n] = true
}

func (p *PeerHist) zeroScore() bool {
	for _, s := range p.Scores {
		if s.S == "0" {
			return true
		}
	}
	return false
}

func (w *World) noteScore(p *PeerHist, b []byte) {
	s := new(big.Int).SetBytes(b).String()
	if n := len(p.Scores); n > 0 && p.Scores[n-1].S == s && now()-p.Scores[n-1].T < 120*sec {
		return
	}
	p.Scores = append(p.Scores, ScoreAnn{now(), s})
	if len(p.Scores) > 400 {
		p.Scores = p.Scores[200:]
	}
}

// onHostSend sees every well-formed message a host sends to the detector.
func (w *World) onHostSend(c *hconn, m proto.Message) {
	p := w.Hist.peer(c.h.IP)
	switch m.(type) {
	case *proto.BlockMessage, *proto.PBBlockMessage, *proto.MicroBlockInvMessage, *proto.BlockIdsMessage, *proto.SignaturesMessage:
		w.syncAct = max(w.syncAct, now()+2*(c.c.link.Lat+c.c.link.Jit))
	}
	switch v := m.(type) {
	case *proto.ScoreMessage:
		w.noteScore(p, v.Score)
	case *proto.BlockMessage:
		if n, ok := w.u.byRaw(v.BlockBytes); ok {
			w.mention(c.h.IP, n)
			c.sendingBlock(n)
		}
	case *proto.PBBlockMessage:
		if n, ok := w.u.byRaw(v.PBBlockBytes); ok {
			w.mention(c.h.IP, n)
			c.sendingBlock(n)
		}
	case *proto.MicroBlockInvMessage:
		inv := &proto.MicroBlockInv{}
		if inv.UnmarshalBinary(v.Body) == nil {
			if n, ok := w.u.ByID[inv.TotalBlockID]; ok {
				w.mention(c.h.IP, n)
			}
		}
		w.syncOf(c.h.IP).pushed = now()
	case *proto.BlockIdsMessage:
		c.sentIDs(v.Blocks)
	case *proto.PeersMessage:
		for _, pi := range v.Peers {
			w.Hist.Told[fmt.Sprintf("%s:%d", pi.Addr, pi.Port)] = true
		}
	case *proto.SignaturesMessage:
		ids := make([]proto.BlockID, len(v.Signatures))
		for i, s := range v.Signatures {
			ids[i] = proto.NewBlockIDFromSignature(s)
		}
		c.sentIDs(ids)
	}
}

type idsList struct {
	ids  []proto.BlockID
	sent int64
}

func (c *hconn) sentIDs(ids []proto.BlockID) {
	for _, id := range ids {
		if n, ok := W.u.ByID[id]; ok {
			W.mention(c.h.IP, n)
		}
	}
	if len(ids) == 0 {
		return
	}
	s := W.syncOf(c.h.IP)
	s.lists = append(s.lists, idsList{append([]proto.BlockID(nil), ids...), now()})
	if len(s.lists) > 12 {
		s.lists = s.lists[1:]
	}
}

// sendingBlock notes blocks sent outside of an answer.
func (c *hconn) sendingBlock(n int) {
	s := W.syncOf(c.h.IP)
	if id := W.u.Nodes[n].ID; !s.want[id] && s.delivered[id] == 0 {
		s.pushed = now()
	}
}

// onSutRead sees every well-formed message when the detector has read it.
func (w *World) onSutRead(c *hconn, m proto.Message) {
	switch v := m.(type) {
	case *proto.BlockMessage:
		if n, ok := w.u.byRaw(v.BlockBytes); ok {
			c.sentBlock(n)
		}
	case *proto.PBBlockMessage:
		if n, ok := w.u.byRaw(v.PBBlockBytes); ok {
			c.sentBlock(n)
		}
	case *proto.MicroBlockInvMessage:
		w.syncOf(c.h.IP).pushed = now()
	case *proto.BlockIdsMessage:
		if len(v.Blocks) > 0 {
			w.syncOf(c.h.IP).answered()
		}
	case *proto.SignaturesMessage:
		if len(v.Signatures) > 0 {
			w.syncOf(c.h.IP).answered()
		}
	}
}

func (s *syncTrack) answered() {
	s.answeredAt = now()
	if len(s.open) > 0 {
		s.open = s.open[1:]
		if len(s.open) > 0 {
			s.late = now()
		}
	}
}

// syncTrack follows the loading of one peer's history, from the wire.
type syncTrack struct {
	lastReq    int64   // last GetBlockIds/GetSignatures
	lastAct    int64   // last request of any kind
	answeredAt int64   // last time the peer sent a list of IDs
	open       []int64 // requests for IDs that no list has answered
	late       int64   // last time a list answered another request than the last one
	base       int     // first ID of the last request, as node index
	lists      []idsList
	cur        *idsList // list the current GetBlock sequence follows
	pos        int
	run        []proto.BlockID // what has been asked for along cur
	first      int             // index in cur of the first block requested
	want       map[proto.BlockID]bool
	asked      int
	gotAll     int64 // when the last wanted block was sent
	contig     int   // last block of the contiguous delivered prefix (node index), -1
	contigAt   int64
	extra      int64 // a block that was not outstanding was sent
	delivered  map[proto.BlockID]int64
	reqSeq     int
	pushed     int64 // last block sent outside of an answer
	timeouts   int
	restarted  bool
}

func (w *World) syncOf(ip string) *syncTrack {
	s := w.syncs[ip]
	if s == nil {
		s = &syncTrack{contig: -1, base: -1}
		w.syncs[ip] = s
	}
	return s
}

func (c *hconn) sentBlock(n int) {
	s := W.syncOf(c.h.IP)
	id := W.u.Nodes[n].ID
	if s.want[id] {
		if s.delivered == nil {
			s.delivered = map[proto.BlockID]int64{}
		}
		if s.delivered[id] == 0 {
			s.delivered[id] = now()
		}
		delete(s.want, id)
		if len(s.want) == 0 {
			s.gotAll = now()
		}
		if s.cur != nil {
			for i := s.first; i < len(s.cur.ids); i++ {
				if s.delivered[s.cur.ids[i]] == 0 {
					break
				}
				if k, ok := W.u.ByID[s.cur.ids[i]]; ok {
					s.contig = k
					s.contigAt = now()
				}
			}
		}
		return
	}
	s.extra = now()
	if s.delivered[id] == 0 {
		s.pushed = now()
	}
}

// ---- messages from the detector ----

// introduced checks what the detector tells about itself (P10).
func (w *World) introduced(c *hconn, hs *proto.Handshake) {
	w.Probes["introductions"]++
	if want := "waves" + string(rune(w.u.Scheme)); hs.AppName != want {
		w.violate("P10", "own_app", "introduced itself to %s as %q instead of %q", c.h.IP, hs.AppName, want)
	}
	if want := w.ownName(); hs.NodeName != want {
		w.violate("P10,P21", "own_name", "introduced itself to %s as %q instead of %q", c.h.IP, hs.NodeName, want)
	}
	d := ""
	if !hs.DeclaredAddr.Empty() {
		d = hs.DeclaredAddr.String()
	}
	if want := w.declared(); d != want {
		w.violate("P10,P21", "own_address", "declared address %q to %s instead of %q", d, c.h.IP, want)
	}
	if !w.introduceds {
		w.introduceds, w.ownNonce = true, hs.NodeNonce
	} else if hs.NodeNonce != w.ownNonce {
		w.violate("P10", "own_nonce", "introduced itself to %s with nonce %d, after %d on other connections", c.h.IP, hs.NodeNonce, w.ownNonce)
	}
}

func (w *World) ownName() string {
	name := "forkdetector"
	fs := w.flags()
	for i, f := range fs {
		if f == "-name" {
			name = fs[i+1]
		}
	}
	return name
}

// declared is the address that handshakes must declare.
func (w *World) declared() string {
	s := w.config().Declared
	ap, err := netip.ParseAddrPort(s)
	if err != nil {
		return s
	}
	if ap.Addr().IsUnspecified() {
		return ""
	}
	return netip.AddrPortFrom(ap.Addr().Unmap(), ap.Port()).String()
}

// tapWrite parses what the detector writes on a peer connection.
func (w *World) tapWrite(sc *simConn, b []byte) {
	c := w.taps[sc]
	if c == nil {
		return
	}
	c.tap = append(c.tap, b...)
	if !c.tapHS {
		var hs proto.Handshake
		r := bytes.NewReader(c.tap)
		if _, err := hs.ReadFrom(r); err != nil {
			return
		}
		c.tapHS = true
		c.tap = append([]byte(nil), c.tap[len(c.tap)-r.Len():]...)
		w.ev("sut -> %s conn=%d handshake %s %s", c.h.IP, c.c.id, hs.AppName, hs.Version)
		c.offered = hs.Version.String()
		w.introduced(c, &hs)
		p := w.Hist.peer(c.h.IP)
		if p.Hostile != 0 && now()-p.Hostile > w.slack() {
			w.violate("P10", "handshake_hostile", "sent a handshake to %s which it reported as hostile at %.1fs", c.h.IP, float64(p.Hostile-w.Start)/1e9)
		}
		w.onOffer(c, c.offered)
	}
	for len(c.tap) >= 13 {
		n := int(binary.BigEndian.Uint32(c.tap[9:13]))
		if n > 0 {
			n += 4
		}
		if len(c.tap) < 13+n {
			return
		}
		raw := c.tap[:13+n]
		m, err := proto.UnmarshalMessage(raw)
		c.tap = append([]byte(nil), c.tap[13+n:]...)
		if err != nil {
			w.violate("P07", "bad_message", "sent an undecodable message %x to %s: %v", raw[:min(len(raw), 32)], c.h.IP, err)
			continue
		}
		w.onSutMsg(c, m)
	}
}

func (w *World) onSutMsg(c *hconn, m proto.Message) {
	switch v := m.(type) {
	case *proto.GetPeersMessage:
		w.ev("sut -> %s GetPeers", c.h.IP)
		w.Probes["getpeers"]++
		// A slow connection may delay one request, not multiply them.
		if c.sutGetPeers == 0 {
			c.firstGetPeers = now()
		}
		c.nSutGetPeers++
		since := c.firstGetPeers
		if c.estAt != 0 && c.estAt < since {
			since = c.estAt
		}
		if max := int((now()-since)/(59*sec)) + 2; c.nSutGetPeers > max && w.spec.Sched.FreezeProb == 0 {
			w.violate("P15", "ping_too_often", "asked %s for peers %d times within %.1fs", c.h.IP, c.nSutGetPeers, float64(now()-since)/1e9)
		}
		c.sutGetPeers = now()
	case *proto.PeersMessage:
		w.ev("sut -> %s Peers n=%d", c.h.IP, len(v.Peers))
	case *proto.GetBlockIdsMessage:
		w.onGetIDs(c, v.Blocks, false)
	case *proto.GetSignaturesMessage:
		ids := make([]proto.BlockID, len(v.Signatures))
		for i, s := range v.Signatures {
			ids[i] = proto.NewBlockIDFromSignature(s)
		}
		w.onGetIDs(c, ids, true)
	case *proto.GetBlockMessage:
		w.onGetBlock(c, v.BlockID)
	default:
		w.ev("sut -> %s %T", c.h.IP, m)
		w.violate("P07", "unexpected_message", "sent a %T to %s", m, c.h.IP)
	}
}

func (w *World) nodeName(n int) string {
	if n < 0 || n >= len(w.u.Nodes) {
		return "?"
	}
	nd := w.u.Nodes[n]
	k := ""
	if nd.Ref >= 0 {
		k = "m"
	}
	return fmt.Sprintf("b%d.%d%s(h%d)", nd.Branch, nd.Off, k, nd.Height)
}

func (w *World) idName(id proto.BlockID) string {
	if n, ok := w.u.ByID[id]; ok {
		return w.nodeName(n)
	}
	return id.ShortString()
}

func (w *World) onGetIDs(c *hconn, ids []proto.BlockID, sigs bool) {
	ip := c.h.IP
	s := w.syncOf(ip)
	p := w.Hist.peer(ip)
	first := "-"
	if len(ids) > 0 {
		first = w.idName(ids[0])
	}
	w.ev("sut -> %s GetIDs n=%d first=%s sigs=%v", ip, len(ids), first, sigs)
	w.Probes["getids"]++
	w.lateTurn()
	w.syncAct = max(w.syncAct, now())
	dup := w.dupConns(c.h)
	old := oldVersion(c.hsInf.Ver)
	if old != sigs && !dup {
		w.violate("P07", "request_kind", "peer %s of version %s was asked with sigs=%v", ip, c.hsInf.Ver, sigs)
	}
	if len(ids) == 0 || len(ids) > 100 {
		w.violate("P07", "ids_count", "asked %s with %d IDs", ip, len(ids))
		return
	}
	nodes := make([]int, len(ids))
	for i, id := range ids {
		n, ok := w.u.ByID[id]
		if !ok {
			if !sigs {
				w.violate("P07", "ids_unknown", "request to %s names the block %s that no peer has sent", ip, id)
			}
			s.lastReq, s.lastAct = now(), now()
			s.base = -1
			return
		}
		nodes[i] = n
		if i > 0 && w.u.Nodes[nodes[i-1]].Parent != n {
			w.violate("P07", "ids_path", "request to %s: ID %d (%s) is not the parent of ID %d (%s)", ip, i, w.nodeName(n), i-1, w.nodeName(nodes[i-1]))
			break
		}
	}
	if want := min(100, w.u.Nodes[nodes[0]].Height); len(ids) != want {
		w.violate("P07", "ids_count", "request to %s from %s carries %d IDs instead of %d", ip, w.nodeName(nodes[0]), len(ids), want)
	}
	if sigs {
		w.Probes["getsigs"]++
	}
	w.accountFailure(ip)
	// The request starts at the peer's leash, or at an ancestor of it (a restart).
	if nodes[0] != 0 {
		if _, ok := p.Sent[nodes[0]]; !ok {
			anc := false
			for n := range p.Sent {
				if w.u.isAncestor(nodes[0], n) {
					anc = true
					break
				}
			}
			if !anc {
				w.violate("P07,P03", "ids_foreign", "request to %s starts at %s which that peer never mentioned", ip, w.nodeName(nodes[0]))
			} else if p.FailUB < 10 && w.exact() && !w.Hist.Unclean {
				w.violate("P08,P07", "early_restart", "request to %s starts at %s, below its leash, after at most %d failures", ip, w.nodeName(nodes[0]), p.FailUB)
			} else {
				w.Probes["restart_from_lcb"]++
			}
		}
	}
	// Only peers that announced more than their leash are asked.
	best := new(big.Int)
	for _, a := range p.Scores {
		x, _ := new(big.Int).SetString(a.S, 10)
		if x.Cmp(best) > 0 {
			best = x
		}
	}
	if best.Cmp(w.u.Nodes[nodes[0]].Score) <= 0 && now()-s.pushed > 10*sec+w.slack() {
		w.violate("P07", "not_lagging", "asked %s from %s with score %s although it only ever announced %s", ip, w.nodeName(nodes[0]), w.u.Nodes[nodes[0]].Score, best)
	}
	// One peer at a time; a peer that does not answer keeps its turn 30 seconds.
	if w.lastSync != "" && w.lastSync != ip {
		o := w.syncOf(w.lastSync)
		w.checkTurn(o, w.lastSync, ip)
	} else if w.lastSync == ip {
		w.checkTurn(s, ip, ip)
	}
	w.restartPoint(c, s, p, nodes[0])
	s.restarted = false
	w.lastSync = ip
	w.lastSyncAt = now()
	s.lastReq, s.lastAct = now(), now()
	s.answeredAt = 0
	s.open = append(s.open, now())
	for len(s.open) > 20 || s.open[0] < now()-600*sec {
		s.open = s.open[1:]
	}
	s.base = nodes[0]
	s.cur = nil
	s.want = nil
	s.asked = 0
	s.contig = -1
	s.contigAt = 0
	s.delivered = nil
	s.reqSeq++
}

// accountFailure counts the failed turns of the peer asked last.
func (w *World) accountFailure(next string) {
	if w.lastSync == "" {
		return
	}
	o := w.syncOf(w.lastSync)
	op := w.Hist.peer(w.lastSync)
	idle := now() - o.lastAct
	switch {
	case idle > 30*sec-1500*ms && (o.answeredAt == 0 || len(o.want) > 0):
		op.FailLB++
		op.FailUB++
		w.Probes["load_timeout"]++
		if o.contig >= 0 {
			w.Probes["load_timeout_partial"]++
		}
	case idle < 25*sec && next == w.lastSync:
		op.FailLB, op.FailUB = 0, 0
	default:
		op.FailLB = 0
		if idle > 25*sec {
			op.FailUB++
		}
	}
}

// restartPoint checks what the failed turns of a peer lead to (P08): the work
// done before a timeout is kept, and after ten failures in a row loading restarts
// from the last common block with the longest chain.
func (w *World) restartPoint(c *hconn, s *syncTrack, p *PeerHist, base int) {
	if !w.exact() {
		return
	}
	if p.FailLB >= 10 && p.FailLB == p.FailUB {
		p.FailLB, p.FailUB = 0, 0
		w.Probes["ten_failures"]++
		leash := p.Leash
		if leash < 0 || w.pollAt < s.lastReq || c.chaotic(w.pollAt-60*sec) || s.pushed > w.pollAt-60*sec {
			return
		}
		if s.contig >= 0 && s.contigAt > w.pollAt-60*sec {
			return
		}
		for ip, o := range w.syncs {
			if t := w.pollAt - 10*sec - w.slack(); ip != c.h.IP && (o.contigAt > t || o.answeredAt > t || o.pushed > t || o.extra > t) {
				return // the leashes of others may have moved since they were read
			}
		}
		long, uniq := w.longestLeash()
		if !uniq {
			return
		}
		if want := w.u.lca(long, leash); base != want {
			w.violate("P08", "restart_point", "after ten failures loading from %s restarted at %s, but its last common block with the longest chain is %s", c.h.IP, w.nodeName(base), w.nodeName(want))
		} else {
			w.Probes["restart_from_lcb_exact"]++
			if want != leash {
				w.Probes["restart_below_leash"]++
			}
		}
		return
	}
	if p.FailUB < 10 && s.base >= 0 && s.contig >= 0 && len(s.want) > 0 && s.contigAt < s.lastAct+29*sec-w.slack() &&
		now()-s.contigAt > w.slack() && s.pushed < s.lastReq && s.extra < s.lastReq && !c.chaotic(s.lastReq) {
		if base != s.contig {
			w.violate("P08", "progress_lost", "peer %s delivered up to %s before its turn ended, but the next request starts at %s", c.h.IP, w.nodeName(s.contig), w.nodeName(base))
		} else {
			w.Probes["partial_kept"]++
		}
	}
}

// longestLeash returns the block of the best scored leash seen last and whether
// it is the only one with that score.
func (w *World) longestLeash() (int, bool) {
	best := -1
	uniq := true
	for _, ip := range w.histPeers() {
		l := w.Hist.Peers[ip].Leash
		if l < 0 {
			continue
		}
		if best < 0 {
			best = l
			continue
		}
		if l == best {
			continue
		}
		switch w.u.Nodes[l].Score.Cmp(w.u.Nodes[best].Score) {
		case 1:
			best, uniq = l, true
		case 0:
			uniq = false
		}
	}
	return best, uniq && best >= 0
}

// chaotic reports that messages between the host and the detector may have been
// lost or dropped since t.
func (c *hconn) chaotic(t int64) bool {
	h := c.h
	for _, o := range h.conns {
		if o != c && (o.sutClosedAt == 0 || o.sutClosedAt > t) {
			return true
		}
	}
	return c.estAt > t || c.badSent || c.c.link.CutUntil > t || W.burst > t
}

// lagging is a peer that the detector itself reports as connected and ahead of the
// block it is reported on.
type lagging struct {
	since int64 // the first of the readings in a row
	score string
}

// noteLag takes the lagging peers from a reading.
func (w *World) noteLag(rd *reading) {
	lag := map[string]lagging{}
	conn := map[string]bool{}
	for _, c := range rd.conns {
		ip, _ := splitAddr(c.Address)
		conn[ip] = true
	}
	for _, e := range rd.all {
		ip, _ := splitAddr(e.Address)
		if e.Score == nil || !conn[ip] {
			continue
		}
		n := 0
		if l, ok := rd.leash[ip]; ok {
			n = l
		}
		if e.Score.Cmp(w.u.Nodes[n].Score) <= 0 {
			continue
		}
		l := lagging{rd.start, e.Score.String()}
		if o, ok := w.lag[ip]; ok && o.score == l.score {
			l.since = o.since
		}
		lag[ip] = l
	}
	w.lag = lag
	w.lateTurn()
}

// lateTurn demands that no more than the 30 seconds of a turn and the time to begin
// the next one pass without a sign of history loading while some peer is lagging.
func (w *World) lateTurn() {
	switch w.spec.Scenario {
	case "chaos", "disk", "loader":
	default:
		return
	}
	t := w.syncAct
	lim := 36*sec + w.slack()
	if now()-t <= lim || now()-w.BootClock <= lim || w.exiting {
		return
	}
	w.Probes["turn_time_checked"]++
	if !w.exact() || !w.diskFine() || w.DiskDelay > 0 || w.WallJump > t || w.connEnd > t-80*sec || w.backpressure > t-60*sec || w.burst > t-60*sec || now()-w.pollAt > 25*sec {
		return
	}
	for _, h := range w.hosts {
		if h.stallUntil > t-30*sec || w.linkFor(h.addr).CutUntil > t-30*sec {
			return
		}
	}
	w.Probes["turn_time_exact"]++
	for _, ip := range sortedKeys(w.lag) {
		if l := w.lag[ip]; now()-l.since > lim {
			w.violate("P08,P06", "turn_late", "nothing has been asked or sent for %.1fs although %s is connected and, with score %s, ahead of the block it is reported on", float64(now()-t)/1e9, ip, l.score)
			return
		}
	}
}

func (w *World) checkTurn(o *syncTrack, prev, next string) {
	if o.lastReq == 0 {
		return
	}
	idle := now() - o.lastAct
	if idle > 30*sec-1500*ms-2*w.slack()+8*sec || now()-w.backpressure < 60*sec {
		return
	}
	if o.answeredAt >= o.lastReq && o.answeredAt != 0 && len(o.want) == 0 {
		return // its batch is complete
	}
	if o.answeredAt == 0 && now()-o.lastReq < 30*sec || len(o.want) > 0 {
		if o.pushed > o.lastReq || o.answeredAt == 0 && len(o.open) > 1 { // (the late answer to an earlier request may have been taken)
			return
		}
		if o.late != 0 && o.late > o.lastReq-120*sec { // Late answers may still be waiting to be handled.
			return
		}
		w.violate("P07,P08", "turn_cut_short", "turned from %s to %s only %.1fs after its last request, unanswered=%v missing blocks=%d", prev, next, float64(idle)/1e9, o.answeredAt == 0, len(o.want))
	}
}

func oldVersion(v string) bool {
	x, err := proto.NewVersionFromString(v)
	return err == nil && x.Cmp(proto.NewVersion(1, 2, 0)) < 0
}

func (w *World) onGetBlock(c *hconn, id proto.BlockID) {
	ip := c.h.IP
	s := w.syncOf(ip)
	w.Probes["getblock"]++
	s.lastAct = now()
	w.syncAct = max(w.syncAct, now())
	if s.cur != nil && s.pos < len(s.cur.ids) && s.cur.ids[s.pos] == id {
		s.pos++
		s.run = append(s.run, id)
		s.addWant(id)
		return
	}
	// Several lists may have been waiting: perhaps another one is being followed.
	if s.cur != nil && s.asked == s.reqSeq {
		for k := range s.lists {
			l := &s.lists[k]
			for i := range l.ids {
				if n := len(s.run); i+n < len(l.ids) && l.ids[i+n] == id && sameIDs(l.ids[i:i+n], s.run) {
					cp := *l
					s.cur = &cp
					s.first, s.pos = i, i+n+1
					s.run = append(s.run, id)
					s.addWant(id)
					w.Probes["other_list"]++
					return
				}
			}
		}
	}
	if s.cur != nil && s.pos < len(s.cur.ids) && s.asked > 0 && s.pos > s.first {
		w.violate("P07", "blocks_order", "asked %s for %s although %s is next in its list", ip, w.idName(id), w.idName(s.cur.ids[s.pos]))
	}
	for k := len(s.lists) - 1; k >= 0; k-- {
		l := &s.lists[k]
		for i, x := range l.ids {
			if x != id {
				continue
			}
			if s.cur != nil && s.reqSeq == s.asked {
				w.violate("P07", "blocks_twice", "asked %s for %s outside of the order of its last answer", ip, w.idName(id))
			}
			cp := *l
			s.cur = &cp
			s.first, s.pos = i, i+1
			s.asked = s.reqSeq
			s.run = append([]proto.BlockID(nil), id)
			s.want = nil
			s.gotAll = 0
			s.addWant(id)
			w.ev("sut -> %s GetBlock %s.. (%d of %d)", ip, w.idName(id), i, len(l.ids))
			if n, ok := w.u.ByID[id]; ok && w.Hist.Known[n] && w.exact() {
				w.violate("P07", "blocks_known", "asked %s for %s which was already stored", ip, w.nodeName(n))
			}
			return
		}
	}
	w.ev("sut -> %s GetBlock %s", ip, w.idName(id))
	w.violate("P07", "blocks_foreign", "asked %s for block %s which is not in the IDs that peer sent", ip, w.idName(id))
}

func sameIDs(a, b []proto.BlockID) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

func (s *syncTrack) addWant(id proto.BlockID) {
	if s.want == nil {
		s.want = map[proto.BlockID]bool{}
	}
	if s.delivered[id] == 0 {
		s.want[id] = true
	}
}

// onPeersAnswer judges the detector's answer to a GetPeers request (P15).
func (w *World) onPeersAnswer(c *hconn, pm *proto.PeersMessage) {
	w.Probes["peers_answers"]++
	c.gotPeers++
	seen := map[string]bool{}
	for _, pi := range pm.Peers {
		a, ok := netip.AddrFromSlice(pi.Addr)
		ip := a.Unmap().String()
		p := w.Hist.Peers[ip]
		if !ok || p == nil || p.Sessions == 0 {
			w.violate("P15", "peers_unknown", "told %s about %s:%d, which never completed a handshake", c.h.IP, ip, pi.Port)
			continue
		}
		if seen[ip] {
			w.violate("P15", "peers_dup", "told %s about %s twice in one answer", c.h.IP, ip)
		}
		seen[ip] = true
		if p.Hostile != 0 && c.askedPeers > p.Hostile+w.slack() {
			w.violate("P15,P10", "peers_hostile", "told %s about the hostile peer %s", c.h.IP, ip)
		}
		if !p.Ports[int(pi.Port)] {
			w.violate("P15", "peers_port", "told %s that peer %s listens on port %d", c.h.IP, ip, pi.Port)
		}
	}
	if c.askedPeers == 0 || !w.exact() {
		return
	}
	for _, ip := range w.histPeers() {
		p := w.Hist.Peers[ip]
		if p.Friendly != 0 && p.Friendly < c.askedPeers && p.Hostile == 0 && !seen[ip] && !p.Ghost && p.BadHS == 0 {
			w.violate("P15", "peers_missing", "did not tell %s about %s, friendly since %.1fs", c.h.IP, ip, float64(p.Friendly-w.Start)/1e9)
		}
	}
}

func (w *World) histPeers() []string { return sortedKeys(w.Hist.Peers) }
