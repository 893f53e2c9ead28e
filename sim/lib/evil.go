package sim

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/netip"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// Misbehaving peers.

func frame(contentID proto.PeerMessageID, payload []byte, magic uint32, badSum bool, length int) []byte {
	n := len(payload)
	b := make([]byte, 0, 17+n)
	b = binary.BigEndian.AppendUint32(b, 0)
	b = binary.BigEndian.AppendUint32(b, magic)
	b = append(b, byte(contentID))
	if length < 0 {
		length = n
	}
	b = binary.BigEndian.AppendUint32(b, uint32(length))
	if n > 0 {
		d, _ := crypto.FastHash(payload)
		if badSum {
			d[0] ^= 0xff
		}
		b = append(b, d[:4]...)
	}
	b = append(b, payload...)
	binary.BigEndian.PutUint32(b, uint32(len(b)-4))
	return b
}

const magicNumber = 0x12345678

// evilHandshakes are played on fresh inbound connections.
var evilHandshakes = []string{"hs_garbage", "hs_close", "hs_half", "hs_noapp", "hs_zero", "hs_long", "hs_badname", "hs_reset", "hs_loop", "hs_v6", "hs_v6"}

// evilMessages are played on an established connection.
var evilMessages = []string{"garbage", "bad_magic", "bad_sum", "huge_len", "truncated", "unknown_id", "empty", "score_huge", "score_zero",
	"block_garbage", "pb_garbage", "pb_empty", "block_trunc", "poison", "orphan", "ids_flood", "ids_random", "sigs_random", "inv_garbage",
	"inv_orphan", "peers_bad", "peers_many", "peers_garbage", "getpeers_flood", "noread", "tx_flood", "block_flood", "score_flood", "pb_fields", "block_fields"}

func (h *Host) doEvil(op Op) {
	W.Faults["evil_"+op.S]++
	r := newRng(W.spec.Seed, 400, uint64(op.T), uint64(op.Host), strHash(op.S))
	if len(op.S) > 3 && op.S[:3] == "hs_" {
		go h.evilHandshake(op.S, r)
		return
	}
	for _, c := range h.estConns() {
		c.evilMessage(op.S, op.A, r)
	}
}

// strangerV6 connects from an address that can't be a peer's: the detector's own or
// an IPv6 address, maybe one that begins with the bytes
// of the host's IPv4 address, and talks as any node does.
func (h *Host) strangerV6(r *rng) {
	var b16 [16]byte
	copy(b16[:], r.bytes(16))
	b16[0], b16[1] = 0x20, 0x01
	if r.p(1, 2) {
		b4 := h.addr.As4()
		copy(b16[:4], b4[:])
	}
	a := netip.AddrFrom16(b16)
	if r.p(1, 3) && W.declIP.Is4() {
		a = W.declIP // the detector's own address, as of somebody behind the same router
		W.Hist.SelfSeen = true
	}
	hc, err := dialSUT(a, W.netPort, W.linkFor(a), func(sc, hc *simConn) {
		W.ev("%s dials in conn=%d", a, hc.id)
	})
	if err != nil {
		return
	}
	defer hc.Close()
	hs := h.handshake()
	hs.NodeNonce++
	hs.NodeName += "6"
	b := encHandshake(hs)
	if a != W.declIP {
		b = append(b, frame(proto.ContentIDScore, r.bytes(r.in(1, 9)), magicNumber, false, -1)...)
	}
	b = append(b, frame(proto.ContentIDGetPeers, nil, magicNumber, false, -1)...)
	_, _ = hc.Write(b)
	lim := W.slack() + 60*sec
	if r.p(1, 2) {
		lim = int64(r.in(1, 100)) * sec
	}
	t := now()
	_ = hc.SetReadDeadline(time.Now().Add(time.Duration(lim)))
	_, err = io.Copy(io.Discard, hc)
	enter()
	if ne, ok := err.(net.Error); ok && ne.Timeout() && now()-t >= W.slack()+60*sec && !W.exiting && W.exact() {
		W.violate("P20,P13", "refused_held", "the connection of %s, which can't be a peer, is still open %.0fs after its handshake", a, float64(now()-t)/1e9)
	}
	leave()
}

func (h *Host) evilHandshake(kind string, r *rng) {
	if kind == "hs_v6" {
		h.strangerV6(r)
		return
	}
	hc, err := dialSUT(h.addr, W.netPort, W.linkFor(h.addr), func(sc, hc *simConn) {
		W.ev("host %s dials in conn=%d for %s", h.IP, hc.id, kind)
		W.foreign[sc] = h
		sc.onClose = func() { W.ev("sut closes evil conn=%d", hc.id) }
	})
	if err != nil {
		return
	}
	enter()
	W.Hist.peer(h.IP).Tainted = true
	leave()
	var b []byte
	switch kind {
	case "hs_garbage":
		b = r.bytes(r.in(1, 300))
	case "hs_close":
	case "hs_half", "hs_reset":
		b = []byte{6, 'w', 'a', 'v'}
	case "hs_noapp":
		hs := h.handshake()
		hs.AppName = ""
		b = encHandshake(hs)
	case "hs_zero":
		b = make([]byte, 64)
	case "hs_long":
		b = append([]byte{255}, r.bytes(4000)...)
	case "hs_badname":
		hs := h.handshake()
		hs.NodeName = "\xff\xfe\x00bad\xc3"
		b = encHandshake(hs)
	case "hs_loop":
		hs := h.handshake()
		hs.DeclaredAddr = proto.NewHandshakeTCPAddr([]byte{127, 0, 0, 1}, 6868)
		b = encHandshake(hs)
	}
	if len(b) > 0 {
		_, _ = hc.Write(b)
	}
	switch kind {
	case "hs_close":
		time.Sleep(time.Duration(r.in(0, 300)) * time.Millisecond)
		_ = hc.Close()
	case "hs_reset":
		time.Sleep(time.Duration(r.in(0, 3000)) * time.Millisecond)
		hc.reset()
		_ = hc.Close()
	default:
		buf := make([]byte, 4096)
		_ = hc.SetReadDeadline(time.Now().Add(time.Duration(r.in(5, 200)) * time.Second))
		for {
			if _, err := hc.Read(buf); err != nil {
				break
			}
		}
		_ = hc.Close()
	}
}

func encHandshake(hs *proto.Handshake) []byte {
	var b sliceWriter
	_, _ = hs.WriteTo(&b)
	return b
}

type sliceWriter []byte

func (s *sliceWriter) Write(b []byte) (int, error) { *s = append(*s, b...); return len(b), nil }

// inUniverse tells that a damaged block still extends a known one: accepting it
// would be right, but the oracles know nothing about it.
func inUniverse(b *proto.Block) bool {
	_, ok := W.u.ByID[b.Parent]
	return ok
}

func (c *hconn) evilMessage(kind string, a int64, r *rng) {
	u := W.u
	enter()
	W.Hist.peer(c.h.IP).Bad = true
	c.badSent = true
	leave()
	raw := func(id proto.PeerMessageID, p []byte) { c.sendRaw(frame(id, p, magicNumber, false, -1)) }
	randNode := func() int { return r.n(len(u.Nodes)) }
	switch kind {
	case "garbage":
		c.sendRaw(r.bytes(r.in(1, 500)))
	case "bad_magic":
		c.sendRaw(frame(proto.ContentIDScore, r.bytes(8), 0xdeadbeef, false, -1))
	case "bad_sum":
		c.sendRaw(frame(pick(r, proto.ContentIDScore, proto.ContentIDBlock, proto.ContentIDPBBlock), r.bytes(r.in(1, 200)), magicNumber, true, -1))
	case "huge_len":
		c.sendRaw(frame(pick(r, proto.ContentIDScore, proto.ContentIDBlock, proto.PeerMessageID(200)), r.bytes(8), magicNumber, false, pick(r, 1<<31-1, -1>>1&0x7fffffff, 1<<30, 1<<24)))
	case "truncated":
		f := frame(proto.ContentIDPBBlock, r.bytes(400), magicNumber, false, -1)
		c.sendRaw(f[:r.in(1, len(f)-1)])
		go func() {
			time.Sleep(time.Duration(r.in(100, 20000)) * time.Millisecond)
			c.kill(r.p(1, 2))
		}()
	case "unknown_id":
		raw(proto.PeerMessageID(pick(r, 0, 3, 99, 200, 255)), r.bytes(r.in(0, 50)))
	case "empty":
		raw(proto.PeerMessageID(pick(r, int(proto.ContentIDScore), int(proto.ContentIDPeers), int(proto.ContentIDBlock), int(proto.ContentIDPBBlock),
			int(proto.ContentIDSignatures), int(proto.ContentIDBlockIDs), int(proto.ContentIDInvMicroblock), int(proto.ContentIDGetPeers))), nil)
	case "score_huge":
		c.send(&proto.ScoreMessage{Score: append([]byte{0xff}, r.bytes(r.in(20, 4000))...)})
	case "score_zero":
		c.send(&proto.ScoreMessage{Score: []byte{0}})
	case "block_garbage":
		raw(proto.ContentIDBlock, r.bytes(r.in(1, 600)))
	case "pb_garbage":
		raw(proto.ContentIDPBBlock, r.bytes(r.in(1, 600)))
	case "pb_empty":
		raw(proto.ContentIDPBBlock, pick(r, []byte{0x0a, 0x00}, []byte{0x1a, 0x00}, []byte{0x0a, 0x02, 0x08, 0x57}))
	case "pb_fields":
		// a block with random damage
		n := randNode()
		if nd := u.Nodes[n]; nd.Ver == 5 {
			b := append([]byte(nil), nd.raw...)
			// only damage that keeps the block from decoding or cuts it
			b = b[:r.in(1, len(b)-1)]
			x := &proto.Block{}
			if err := x.UnmarshalFromProtobuf(b); err != nil || !inUniverse(x) {
				raw(proto.ContentIDPBBlock, b)
			}
		}
	case "block_trunc", "block_fields":
		n := randNode()
		if nd := u.Nodes[n]; nd.Ver < 5 && len(nd.raw) > 10 {
			b := nd.raw[:r.in(1, len(nd.raw)-1)]
			x := &proto.Block{}
			if err := x.UnmarshalBinary(b, u.Scheme); err != nil || !inUniverse(x) {
				raw(proto.ContentIDBlock, b)
			}
		}
	case "poison":
		for bi, b := range W.spec.Branches {
			if b.Poison && len(u.Branches[bi]) > 0 {
				for k, n := range u.Branches[bi] {
					if k < 3 {
						c.pushBlock(n)
					}
				}
			}
		}
	case "orphan":
		c.pushBlock(randNode())
	case "ids_flood":
		n := int(a)
		if n == 0 {
			n = r.in(200, 3000)
		}
		ids := make([]proto.BlockID, n)
		for i := range ids {
			ids[i] = proto.NewBlockIDFromSignature(randSig(r))
		}
		c.send(&proto.BlockIdsMessage{Blocks: ids})
	case "ids_random":
		ids := []proto.BlockID{}
		for i := 0; i < r.in(1, 60); i++ {
			ids = append(ids, u.Nodes[randNode()].ID)
		}
		c.send(&proto.BlockIdsMessage{Blocks: ids})
	case "sigs_random":
		m := &proto.SignaturesMessage{}
		for i := 0; i < r.in(0, 60); i++ {
			m.Signatures = append(m.Signatures, randSig(r))
		}
		c.send(m)
	case "inv_garbage":
		raw(proto.ContentIDInvMicroblock, r.bytes(r.in(1, 300)))
	case "inv_orphan":
		n := randNode()
		if m := u.microInv(n); m != nil {
			c.send(m)
		}
	case "peers_bad":
		c.sendPeers([]string{"127.0.0.1:6868", "10.0.0.1:6868", "0.0.0.0:0", fmt.Sprintf("10.77.%d.%d:0", r.n(250), r.n(250))})
	case "peers_many":
		var l []string
		for i := 0; i < r.in(20, 150); i++ {
			l = append(l, fmt.Sprintf("172.16.%d.%d:6868", r.n(250), 1+r.n(250)))
		}
		c.sendPeers(l)
	case "peers_garbage":
		enter()
		W.Hist.ToldAny = true
		leave()
		raw(proto.ContentIDPeers, r.bytes(r.in(1, 100)))
	case "getpeers_flood":
		enter()
		W.burst = now()
		leave()
		for i := 0; i < r.in(50, 600); i++ {
			c.send(&proto.GetPeersMessage{})
		}
	case "noread":
		c.h.stallUntil = now() + int64(r.in(10, 400))*sec
	case "tx_flood":
		enter()
		W.burst = now()
		leave()
		for i := 0; i < r.in(50, 600); i++ {
			raw(proto.PeerMessageID(pick(r, int(proto.ContentIDTransaction), int(proto.ContentIDPBTransaction), int(proto.ContentIDMicroblock), int(proto.ContentIDGetBlock))), r.bytes(r.in(1, 200)))
		}
	case "block_flood":
		enter()
		W.burst = now()
		leave()
		n := randNode()
		for i := 0; i < r.in(50, 400); i++ {
			c.pushBlock(n)
		}
	case "score_flood":
		enter()
		W.burst = now()
		leave()
		for i := 0; i < r.in(50, 500); i++ {
			c.sendScore()
		}
	}
}

func (c *hconn) sendIDsOf(n int) {
	var ids []proto.BlockID
	for x := n; x >= 0 && len(ids) < 5; x = W.u.Nodes[x].Parent {
		ids = append(ids, W.u.Nodes[x].ID)
	}
	for i, j := 0, len(ids)-1; i < j; i, j = i+1, j-1 {
		ids[i], ids[j] = ids[j], ids[i]
	}
	c.send(&proto.BlockIdsMessage{Blocks: ids})
}

// evilIDs answers a request for IDs in the host's way; false for a normal answer.
func (h *Host) evilIDs(c *hconn, req []proto.BlockID, sigs bool) bool {
	r := h.rng
	var ids []proto.BlockID
	switch h.Mode {
	case "bogus", "drip":
		if h.Mode == "drip" && h.Claim != "" && c.est && !c.dripping {
			// Keeps talking while it delivers nothing that was asked for.
			c.dripping = true
			go func() {
				for !c.dead && !W.exiting {
					time.Sleep(time.Duration(r.in(3, 25)) * time.Second)
					if p := W.u.path(h.st.Tip); len(p) > 0 {
						c.pushBlock(p[len(p)-1])
					}
					W.Faults["evil_drip"]++
				}
			}()
		}
		for i := 0; i < r.in(1, 100); i++ {
			ids = append(ids, proto.NewBlockIDFromSignature(randSig(r)))
		}
	case "many":
		for i := 0; i < r.in(300, 2000); i++ {
			ids = append(ids, proto.NewBlockIDFromSignature(randSig(r)))
		}
	case "shuffled":
		p := W.u.path(h.st.Tip)
		for i := 0; i < min(len(p), 60); i++ {
			ids = append(ids, W.u.Nodes[p[r.n(len(p))]].ID)
		}
	case "echo":
		ids = append(ids, req...)
	case "mute":
		return true
	case "other":
		// IDs of a chain the peer does not have
		p := W.u.path(r.n(len(W.u.Nodes)))
		for i := max(0, len(p)-40); i < len(p); i++ {
			ids = append(ids, W.u.Nodes[p[i]].ID)
		}
	case "drop":
		c.kill(r.p(1, 2))
		return true
	case "liar": // promises more than it has
		if h.st.Score == "" {
			h.st.Score = "99999999999999999999999999"
			c.sendScore()
		}
		W.Faults["evil_answer_liar"]++
		return false
	case "climb": // promises more with every answer
		x, _ := new(big.Int).SetString("99999999999999999999999999", 10)
		h.climbed++
		h.st.Score = x.Add(x, big.NewInt(int64(h.climbed))).String()
		c.sendScore()
		W.Faults["evil_answer_climb"]++
		return false
	default:
		return false
	}
	W.Faults["evil_answer_"+h.Mode]++
	if sigs {
		m := &proto.SignaturesMessage{}
		for _, id := range ids {
			if id.IsSignature() {
				m.Signatures = append(m.Signatures, id.Signature())
			}
		}
		c.send(m)
		return true
	}
	c.send(&proto.BlockIdsMessage{Blocks: ids})
	return true
}

// evilBlock answers a request for a block in the host's way.
func (h *Host) evilBlock(c *hconn, n int) bool {
	r := h.rng
	switch h.Mode {
	case "wrongblock":
		W.Faults["evil_answer_wrongblock"]++
		c.pushBlock(r.n(len(W.u.Nodes)))
		return true
	case "noblock":
		W.Faults["evil_answer_noblock"]++
		return true
	case "lateblock":
		W.Faults["evil_answer_lateblock"]++
		go func() {
			time.Sleep(time.Duration(r.in(20, 60)) * time.Second)
			c.pushBlock(n)
		}()
		return true
	case "twice":
		W.Faults["evil_answer_twice"]++
		c.pushBlock(n)
		return false
	}
	return false
}

var evilModes = []string{"bogus", "many", "shuffled", "echo", "mute", "other", "drop", "wrongblock", "noblock", "lateblock", "twice", "liar", "climb", "drip"}
