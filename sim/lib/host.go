package sim

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/netip"
	"runtime"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// HostSpec describes a simulated Waves node.
type HostSpec struct {
	IP        string   `json:"ip"`
	Port      int      `json:"port"`
	Name      string   `json:"name"`
	App       string   `json:"app,omitempty"` // application name, default for the network when empty; "-" for none
	Ver       string   `json:"ver"`
	Nonce     uint64   `json:"nonce"`
	Declared  string   `json:"declared,omitempty"` // "self", "" or ip:port
	Tip       [2]int   `json:"tip"`
	Up        bool     `json:"up"`
	Listen    bool     `json:"listen"`
	Blackhole bool     `json:"blackhole,omitempty"` // dials vanish instead of being refused while down
	Inbound   int      `json:"inbound,omitempty"`   // redial interval towards the detector, ms
	Cross     bool     `json:"cross,omitempty"`     // connects while the detector dials it
	Lat       int      `json:"lat"`
	Jit       int      `json:"jit"`
	Window    int      `json:"window,omitempty"`
	Chop      int      `json:"chop,omitempty"`
	Proc      int      `json:"proc,omitempty"`
	Excl      bool     `json:"excl,omitempty"`
	MaxIDs    int      `json:"maxids,omitempty"`
	VerPolicy string   `json:"verpolicy,omitempty"`
	Push      bool     `json:"push,omitempty"`
	Evil      bool     `json:"evil,omitempty"`
	Mode      string   `json:"mode,omitempty"` // evil answer mode
	NoScore   bool     `json:"noscore,omitempty"`
	SlowHS    bool     `json:"slowhs,omitempty"` // never completes a handshake
	Gossip    []string `json:"gossip,omitempty"` // addresses returned for GetPeers
	Silent    int      `json:"silent,omitempty"`
	Partial   int      `json:"partial,omitempty"`
	Late      bool     `json:"late,omitempty"`    // not among the seed peers on the command line
	BadName   int      `json:"badname,omitempty"` // announces a name that is not valid UTF-8
	Claim     string   `json:"claim,omitempty"`   // announces this score instead of its tip's
	Terse     bool     `json:"terse,omitempty"`   // announces a score only once the detector has recorded it
}

// HostState is the part of a host that survives process images.
type HostState struct {
	Tip      int
	Up       bool
	Silent   int
	Partial  int
	Ver      string
	App      string
	Declared string
	NextIn   int64
	Score    string // announced score override
	Listen   bool
	Restarts int
}

// Host is a simulated node.
type Host struct {
	HostSpec
	idx        int
	st         HostState
	addr       netip.Addr
	conns      []*hconn
	rng        *rng
	served     int
	busyIn     bool
	stallUntil int64
	gossiped   bool
	everBad    bool
	climbed    int
}

type outMsg struct {
	b   []byte
	m   proto.Message // nil for raw bytes
	end int64         // position in the stream after the message
}

type hconn struct {
	h             *Host
	c             *simConn
	sutc          *simConn
	inbound       bool // the host dialed the detector
	est           bool
	estAt         int64
	closedAt      int64
	hs            proto.Handshake // the detector's handshake
	out           []outMsg
	inflight      []outMsg // written, not yet read by the detector
	outWake       chan struct{}
	dead          bool
	tap           []byte // bytes written by the detector, parsed at write time
	tapHS         bool
	lastIDs       []proto.BlockID
	sutClosedAt   int64
	sentScore     bool
	scoreAt       int64
	msgsFromSUT   int
	lastGetPeers  int64
	nGetPeers     int
	hsAt          int64
	admissible    bool
	badSent       bool
	dial          *Dial
	silentFrom    int64
	lastSent      int64
	hsInf         hsInfo
	dripping      bool
	missedAt      int64 // the start of the first reading that did not report the connection
	stalled       int64
	expect        string
	offered       string
	begunAt       int64
	sutGetPeers   int64
	firstGetPeers int64
	nSutGetPeers  int
	askedPeers    int64
	gotPeers      int
	gossips       []gossip
	callSeq       int64
	callAt        int64  // when a version was chosen for this connection
	readAt        int64  // when the detector had read the handshake of the host
	readInf       hsInfo // and what it said
}

func (w *World) setupHosts() {
	for i, hs := range w.spec.Hosts {
		a := netip.MustParseAddr(hs.IP)
		h := &Host{HostSpec: hs, idx: i, addr: a, rng: newRng(w.spec.Seed, 200+uint64(i), uint64(w.Inc), strHash(hs.IP))}
		if i < len(w.HostState) {
			h.st = w.HostState[i]
		} else {
			h.st = HostState{Tip: w.u.at(hs.Tip[0], hs.Tip[1]), Up: hs.Up, Silent: hs.Silent, Partial: hs.Partial, Ver: hs.Ver, App: hs.App, Declared: hs.Declared, Listen: hs.Listen, Score: hs.Claim}
		}
		w.hosts = append(w.hosts, h)
		w.byIP[a] = h
		l := &Link{Lat: int64(hs.Lat) * ms, Jit: int64(hs.Jit) * ms, Window: hs.Window, Chop: hs.Chop, rng: newRng(w.spec.Seed, 300+uint64(i), uint64(w.Inc))}
		if l.Lat == 0 {
			l.Lat = ms
		}
		w.links[a] = l
	}
}

func (w *World) saveHosts() {
	w.HostState = w.HostState[:0]
	for _, h := range w.hosts {
		w.HostState = append(w.HostState, h.st)
	}
}

func (w *World) startHosts() {
	for _, h := range w.hosts {
		if h.Inbound > 0 {
			go h.inboundLoop()
		}
	}
}

func (h *Host) appName() string {
	switch h.st.App {
	case "":
		return "waves" + string(rune(W.u.Scheme))
	case "-":
		return ""
	}
	return h.st.App
}

func (h *Host) version() proto.Version {
	v, err := proto.NewVersionFromString(h.st.Ver)
	if err != nil {
		return proto.NewVersion(1, 5, 0)
	}
	return v
}

func (h *Host) handshake() *proto.Handshake {
	hs := &proto.Handshake{AppName: h.appName(), Version: h.version(), NodeName: h.Name, NodeNonce: h.Nonce + uint64(h.st.Restarts), Timestamp: uint64(now() / 1e9)}
	switch h.BadName {
	case 1:
		hs.NodeName = h.Name + "\xff\xfe"
	case 2:
		hs.NodeName = "\xc3\x28" + h.Name
	case 3:
		hs.NodeName = "\xed\xa0\x80"
	}
	d := h.st.Declared
	if d == "self" {
		d = fmt.Sprintf("%s:%d", h.IP, h.Port)
	}
	if d != "" {
		if ap, err := netip.ParseAddrPort(d); err == nil {
			hs.DeclaredAddr = proto.NewHandshakeTCPAddr(net.IP(ap.Addr().AsSlice()), int(ap.Port()))
		} else if i := strings.LastIndexByte(d, ':'); i > 0 {
			var p int
			fmt.Sscan(d[i+1:], &p)
			hs.DeclaredAddr = proto.NewHandshakeTCPAddr(net.ParseIP(d[:i]), p)
		}
	}
	return hs
}

// accept is called (inside enter) when the detector's connection attempt succeeds.
func (h *Host) accept(hc, sc *simConn, d *Dial) {
	c := &hconn{h: h, c: hc, sutc: sc, dial: d, outWake: make(chan struct{}, 1), begunAt: now()}
	d.conn = c
	h.conns = append(h.conns, c)
	hookSUT(c)
	go c.serve()
}

func hookSUT(c *hconn) {
	c.sutc.onClose = func() {
		c.sutClosedAt = now()
		W.onSutClose(c)
	}
	W.taps[c.sutc] = c
}

func (h *Host) inboundLoop() {
	for {
		d := int64(h.Inbound)
		wait := h.st.NextIn - now()
		if wait <= 0 {
			wait = int64(h.rng.in(int(d/4)+1, int(d)+1)) * ms
		}
		h.st.NextIn = 0
		time.Sleep(time.Duration(wait))
		if W.exiting {
			return
		}
		if !h.st.Up || h.busyIn || len(h.liveConns()) > 0 {
			continue
		}
		h.dialIn()
	}
}

// cross makes a host that is being dialed connect by itself in the meantime.
func (h *Host) cross() {
	d := int64(h.rng.in(1, 4500))
	if !h.Cross || W.CalmAt != 0 {
		return
	}
	go func() {
		time.Sleep(time.Duration(d * ms))
		if W.exiting || W.CalmAt != 0 || !h.st.Up || h.busyIn || len(h.liveConns()) > 0 {
			return
		}
		W.Probes["crossed"]++
		h.dialIn()
	}()
}

// dialIn connects the host to the detector.
func (h *Host) dialIn() *hconn {
	enter()
	h.busyIn = true
	l := W.linkFor(h.addr)
	leave()
	var c *hconn
	hc, err := dialSUT(h.addr, W.netPort, l, func(sc, hc *simConn) {
		c = &hconn{h: h, c: hc, sutc: sc, inbound: true, outWake: make(chan struct{}, 1)}
		h.conns = append(h.conns, c)
		hookSUT(c)
		W.ev("host %s dials in conn=%d", h.IP, hc.id)
		W.onDialIn(c)
	})
	enter()
	h.busyIn = false
	if err != nil {
		leave()
		return nil
	}
	if !h.st.Up {
		c.dead = true
		W.connEnd = now()
		c.closedAt = now()
		_ = hc.closeLocked()
		leave()
		return nil
	}
	leave()
	go c.serve()
	return c
}

func (h *Host) liveConns() []*hconn {
	var r []*hconn
	for _, c := range h.conns {
		if !c.dead {
			r = append(r, c)
		}
	}
	return r
}

func (h *Host) estConns() []*hconn {
	var r []*hconn
	for _, c := range h.conns {
		if !c.dead && c.est {
			r = append(r, c)
		}
	}
	return r
}

func (h *Host) down(reset bool) {
	h.st.Up = false
	h.st.Restarts++
	for _, c := range h.liveConns() {
		c.kill(reset)
	}
}

// kill ends the connection from the host's side.
func (c *hconn) kill(reset bool) {
	enter()
	defer leave()
	if c.dead {
		return
	}
	c.dead = true
	W.connEnd = now()
	c.closedAt = now()
	W.ev("host %s closes conn=%d reset=%v", c.h.IP, c.c.id, reset)
	if reset {
		c.c.reset()
	}
	_ = c.c.closeLocked()
	select {
	case c.outWake <- struct{}{}:
	default:
	}
	W.onHostClose(c)
}

func (c *hconn) fail(err error) {
	enter()
	defer leave()
	if c.dead {
		return
	}
	c.dead = true
	W.connEnd = now()
	c.closedAt = now()
	W.ev("host %s conn=%d ended: %v", c.h.IP, c.c.id, shortErr(err))
	_ = c.c.closeLocked()
	select {
	case c.outWake <- struct{}{}:
	default:
	}
	W.onHostClose(c)
}

func shortErr(err error) string {
	if err == nil {
		return "nil"
	}
	s := err.Error()
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

func (c *hconn) serve() {
	runtime.SimMark()
	h := c.h
	if h.SlowHS || h.st.Silent&8 != 0 {
		buf := make([]byte, 4096)
		for {
			if _, err := c.c.Read(buf); err != nil {
				c.fail(err)
				return
			}
		}
	}
	var raw bytes.Buffer
	hs := h.handshake()
	_, _ = hs.WriteTo(&raw)
	if c.inbound {
		W.onHostHandshake(c, hs)
		if err := c.writeChopped(raw.Bytes()); err != nil {
			c.fail(err)
			return
		}
	}
	_ = c.c.SetReadDeadline(time.Now().Add(60 * time.Second))
	if _, err := c.hs.ReadFrom(c.c); err != nil {
		c.fail(err)
		return
	}
	_ = c.c.SetReadDeadline(time.Time{})
	if h.VerPolicy == "minor" {
		v := h.version()
		if c.hs.Version.Major() != v.Major() || c.hs.Version.Minor() != v.Minor() {
			W.Probes["version_rejected_by_host"]++
			c.fail(fmt.Errorf("incompatible version %s", c.hs.Version))
			return
		}
	}
	if !c.inbound {
		if d := h.procDelay(); d > 0 {
			time.Sleep(time.Duration(d))
		}
		W.onHostHandshake(c, hs)
		if err := c.writeChopped(raw.Bytes()); err != nil {
			c.fail(err)
			return
		}
	}
	enter()
	c.est = true
	W.syncOf(h.IP).open = nil
	c.estAt = now()
	W.onEstablished(c)
	W.ev("host %s conn=%d established inbound=%v offered=%s", h.IP, c.c.id, c.inbound, c.hs.Version)
	leave()
	go c.writer()
	if !h.NoScore && !h.terse() {
		c.sendScore()
	}
	for {
		m, err := c.read()
		if err != nil {
			c.fail(err)
			return
		}
		if c.dead {
			return
		}
		c.handle(m)
	}
}

func (c *hconn) writeChopped(b []byte) error {
	if c.h.rng.p(1, 4) && len(b) > 3 {
		k := 1 + c.h.rng.n(len(b)-1)
		if _, err := c.c.Write(b[:k]); err != nil {
			return err
		}
		time.Sleep(time.Duration(c.h.rng.in(1, 400)) * time.Millisecond)
		b = b[k:]
	}
	_, err := c.c.Write(b)
	return err
}

func (h *Host) procDelay() int64 {
	if h.Proc <= 0 {
		return 0
	}
	return int64(h.rng.u64() % uint64(int64(h.Proc)*ms))
}

func readFrame(r io.Reader) ([]byte, error) {
	hdr := make([]byte, 13)
	if _, err := io.ReadFull(r, hdr); err != nil {
		return nil, err
	}
	n := int(binary.BigEndian.Uint32(hdr[9:13]))
	if n > 0 {
		n += 4
	}
	if n > 1<<22 {
		return nil, fmt.Errorf("frame of %d bytes", n)
	}
	b := make([]byte, 13+n)
	copy(b, hdr)
	if _, err := io.ReadFull(r, b[13:]); err != nil {
		return nil, err
	}
	return b, nil
}

func (c *hconn) read() (proto.Message, error) {
	for {
		if s := c.h.stallUntil - now(); s > 0 {
			time.Sleep(time.Duration(s))
			continue
		}
		b, err := readFrame(c.c)
		if err != nil {
			return nil, err
		}
		m, err := proto.UnmarshalMessage(b)
		if err != nil {
			W.violate("P07", "bad_message", "host %s received an undecodable message %x: %v", c.h.IP, b[:min(len(b), 32)], err)
			return nil, err
		}
		return m, nil
	}
}

func (c *hconn) writer() {
	for {
		enter()
		if c.dead {
			leave()
			return
		}
		if len(c.out) == 0 {
			leave()
			<-c.outWake
			continue
		}
		o := c.out[0]
		c.out = c.out[1:]
		leave()
		if s := c.h.stallUntil - now(); s > 0 {
			time.Sleep(time.Duration(s))
		}
		if o.m != nil {
			o.end = c.c.out.written + int64(len(o.b))
			c.inflight = append(c.inflight, o)
		}
		if _, err := c.c.Write(o.b); err != nil {
			c.fail(err)
			return
		}
	}
}

// send queues a message for the detector.
func (c *hconn) send(m proto.Message) {
	var b bytes.Buffer
	if _, err := m.WriteTo(&b); err != nil {
		raw, err2 := m.MarshalBinary()
		if err2 != nil {
			W.broken("message %T does not encode: %v", m, err)
		}
		b.Write(raw)
	}
	enter()
	defer leave()
	if c.dead {
		return
	}
	W.onHostSend(c, m)
	c.lastSent = now()
	c.out = append(c.out, outMsg{b: b.Bytes(), m: m})
	select {
	case c.outWake <- struct{}{}:
	default:
	}
}

// sendRaw queues raw bytes.
func (c *hconn) sendRaw(b []byte) {
	enter()
	defer leave()
	if c.dead {
		return
	}
	c.badSent = true
	if len(b) >= 17 && proto.PeerMessageID(b[8]) == proto.ContentIDScore {
		// Whatever the frame is worth, this may be taken for the score.
		W.noteScore(W.Hist.peer(c.h.IP), b[17:])
	} else if len(b) >= 13 && proto.PeerMessageID(b[8]) == proto.ContentIDScore {
		W.noteScore(W.Hist.peer(c.h.IP), nil)
	}
	c.out = append(c.out, outMsg{b: b})
	select {
	case c.outWake <- struct{}{}:
	default:
	}
}

func (h *Host) score() *big.Int {
	if h.st.Score != "" {
		s, _ := new(big.Int).SetString(h.st.Score, 10)
		return s
	}
	return W.u.Nodes[h.st.Tip].Score
}

// drained tells that the detector read everything the host has sent long ago.
func (c *hconn) drained() bool {
	in := c.sutc.in
	return len(c.out) == 0 && len(in.segs) == 0 && now()-in.readAt > W.slack()+sec
}

// terse tells that the peer keeps quiet about its score, which the detector has reported.
func (h *Host) terse() bool {
	p := W.Hist.peer(h.IP)
	n := len(p.Scores)
	return h.Terse && n > 0 && p.ScoreSeen == h.score().String() && p.Scores[n-1].S == p.ScoreSeen && W.exact()
}

func (c *hconn) sendScore() {
	c.sentScore = true
	c.scoreAt = now()
	c.send(&proto.ScoreMessage{Score: c.h.score().Bytes()})
}

func (c *hconn) handle(m proto.Message) {
	h := c.h
	c.msgsFromSUT++
	if d := h.procDelay(); d > 0 {
		time.Sleep(time.Duration(d))
	}
	switch v := m.(type) {
	case *proto.GetPeersMessage:
		enter()
		c.nGetPeers++
		c.lastGetPeers = now()
		leave()
		if h.st.Silent&4 == 0 {
			pm := &proto.PeersMessage{}
			for _, g := range h.Gossip {
				ap := netip.MustParseAddrPort(g)
				pm.Peers = append(pm.Peers, proto.PeerInfo{Addr: net.IP(ap.Addr().AsSlice()), Port: ap.Port()})
			}
			c.send(pm)
			c.noteGossip(h.Gossip)
		}
	case *proto.PeersMessage:
		W.onPeersAnswer(c, v)
	case *proto.GetBlockIdsMessage:
		c.replyIDs(v.Blocks, false)
	case *proto.GetSignaturesMessage:
		ids := make([]proto.BlockID, len(v.Signatures))
		for i, s := range v.Signatures {
			ids[i] = proto.NewBlockIDFromSignature(s)
		}
		c.replyIDs(ids, true)
	case *proto.GetBlockMessage:
		c.replyBlock(v.BlockID)
	}
}

// gossip is a list of addresses told to the detector.
type gossip struct {
	t     int64
	addrs []string
}

// stalledSince tells that the detector may not have been able to take messages of
// the host off its queue.
func (c *hconn) stalledSince(t int64) bool {
	return W.backpressure > t-60*sec || W.burst > t-60*sec
}

func (c *hconn) noteGossip(as []string) {
	if len(as) == 0 || len(c.gossips) > 20 {
		return
	}
	enter()
	c.gossips = append(c.gossips, gossip{now(), as})
	leave()
}

func (c *hconn) replyIDs(req []proto.BlockID, sigs bool) {
	h := c.h
	if h.st.Silent&1 != 0 {
		W.Probes["ids_request_ignored"]++
		return
	}
	if h.Evil && h.evilIDs(c, req, sigs) {
		return
	}
	h.served = 0
	path := W.u.path(h.st.Tip)
	common := -1
	for _, id := range req {
		n, ok := W.u.ByID[id]
		if !ok {
			continue
		}
		nh := W.u.Nodes[n].Height
		if nh <= len(path) && path[nh-1] == n {
			common = nh - 1
			break
		}
	}
	if common < 0 {
		W.Probes["no_common_block"]++
		return
	}
	from := common
	if h.Excl {
		from++
	}
	lim := h.MaxIDs
	if lim <= 0 {
		lim = 101
	}
	to := from + lim
	if to > len(path) {
		to = len(path)
	}
	var ids []proto.BlockID
	for i := from; i < to; i++ {
		id := W.u.Nodes[path[i]].ID
		if sigs && !id.IsSignature() {
			break
		}
		ids = append(ids, id)
	}
	if sigs {
		sm := &proto.SignaturesMessage{}
		for _, id := range ids {
			sm.Signatures = append(sm.Signatures, id.Signature())
		}
		c.lastIDs = ids
		c.send(sm)
		return
	}
	c.lastIDs = ids
	c.send(&proto.BlockIdsMessage{Blocks: ids})
}

func (c *hconn) replyBlock(id proto.BlockID) {
	h := c.h
	h.served++
	if h.st.Silent&2 != 0 || (h.st.Partial > 0 && h.served > h.st.Partial) {
		W.Probes["block_request_ignored"]++
		return
	}
	n, ok := W.u.ByID[id]
	if !ok {
		return
	}
	if W.onServed != nil {
		W.onServed(c, n)
	}
	if h.Evil && h.evilBlock(c, n) {
		return
	}
	if m := W.u.blockMsg(n); m != nil {
		c.send(m)
	}
}

func randSig(r *rng) crypto.Signature {
	s, _ := crypto.NewSignatureFromBytes(r.bytes(64))
	return s
}
