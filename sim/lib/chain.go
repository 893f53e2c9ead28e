package sim

import (
	"encoding/binary"
	"math/big"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
	"github.com/wavesplatform/gowaves/pkg/settings"
)

// The block universe: a tree of blocks fixed by the run's specification. The
// simulated peers serve blocks from it and the oracles judge the answers of the
// system under test against it.

// Node is one block of the universe.
type Node struct {
	Idx, Parent, Ref int // Ref: the block a micro-block extends, -1 for key blocks
	Height           int
	BT, TS           uint64
	Gen              int
	Ver              byte
	ID               proto.BlockID
	Score            *big.Int
	Branch, Off      int
	up               []int32 // binary lifting
	raw              []byte  // message body
}

// BranchSpec describes one branch of the universe.
type BranchSpec struct {
	From    int    `json:"from"` // branch it grows from (-1: genesis)
	Off     int    `json:"off"`  // offset in that branch (-1: the branch's own fork point)
	N       int    `json:"n"`
	BT      uint64 `json:"bt"`               // base target, 0 for random
	Micro   int    `json:"micro,omitempty"`  // micro-blocks per key block, up to this number, percent in MicroP
	MicroP  int    `json:"microp,omitempty"` // probability (percent) that a key block has micro-blocks
	Gens    int    `json:"gens,omitempty"`   // number of distinct generators
	Seed    uint64 `json:"seed,omitempty"`
	BadTS   uint64 `json:"badts,omitempty"`  // adversarial timestamp for every block of the branch
	BadBT   uint64 `json:"badbt,omitempty"`  // adversarial base target
	ZeroBT  bool   `json:"zerobt,omitempty"` // base target 0
	Poison  bool   `json:"poison,omitempty"` // blocks that no tracker can accept
	ShortTS bool   `json:"shortts,omitempty"`
}

// Universe is the set of all blocks.
type Universe struct {
	Scheme   byte
	Genesis  proto.Block
	Nodes    []*Node
	Branches [][]int // node indices by offset
	ByID     map[proto.BlockID]int
	ByStr    map[string]int
	rawIdx   map[uint64]int
	pks      []crypto.PublicKey
	addrs    []string
	genAddr  string
	switchH  int
}

var maxScore, _ = new(big.Int).SetString("18446744073709551616", 10)

func blockScore(bt uint64) *big.Int {
	if bt == 0 {
		return new(big.Int)
	}
	return new(big.Int).Div(maxScore, new(big.Int).SetUint64(bt))
}

const nGenerators = 12

func buildUniverse(sp *Spec) *Universe {
	bs, err := settings.BlockchainSettingsByTypeName(sp.Network)
	if err != nil {
		panic(err)
	}
	u := &Universe{Scheme: bs.AddressSchemeCharacter, Genesis: bs.Genesis, ByID: map[proto.BlockID]int{}, ByStr: map[string]int{}, rawIdx: map[uint64]int{}, switchH: sp.SwitchH}
	kr := newRng(sp.Seed, 77)
	for i := 0; i < nGenerators; i++ {
		pk, err := crypto.NewPublicKeyFromBytes(kr.bytes(32))
		if err != nil {
			panic(err)
		}
		a, err := proto.NewAddressFromPublicKey(u.Scheme, pk)
		if err != nil {
			panic(err)
		}
		u.pks = append(u.pks, pk)
		u.addrs = append(u.addrs, a.String())
	}
	ga, err := proto.NewAddressFromPublicKey(u.Scheme, u.Genesis.GeneratorPublicKey)
	if err != nil {
		panic(err)
	}
	u.genAddr = ga.String()
	g := &Node{Idx: 0, Parent: -1, Ref: -1, Height: 1, BT: u.Genesis.BaseTarget, TS: u.Genesis.Timestamp, Gen: -1,
		ID: u.Genesis.BlockID(), Score: blockScore(u.Genesis.BaseTarget), Branch: -1}
	if raw, err := u.Genesis.MarshalBinary(u.Scheme); err == nil {
		g.raw = raw
	}
	u.add(g)
	for bi, b := range sp.Branches {
		parent := 0
		if b.From >= 0 && b.From < len(u.Branches) {
			if fb := u.Branches[b.From]; len(fb) > 0 {
				o := b.Off
				if o >= len(fb) {
					o = len(fb) - 1
				}
				if o >= 0 {
					parent = fb[o]
				} else {
					parent = u.Nodes[fb[0]].Parent
				}
			}
		}
		r := newRng(sp.Seed, 1000+uint64(bi), b.Seed)
		var list []int
		ts := u.Nodes[parent].TS
		for len(list) < b.N {
			pn := u.Nodes[parent]
			ts += uint64(r.in(15000, 90000))
			bt := b.BT
			if bt == 0 {
				bt = uint64(r.in(20, 400))
			}
			if b.BadBT != 0 {
				bt = b.BadBT
			}
			if b.ZeroBT {
				bt = 0
			}
			if b.BadTS != 0 {
				ts = b.BadTS
			}
			gens := b.Gens
			if gens <= 0 || gens > nGenerators {
				gens = nGenerators
			}
			n := &Node{Parent: parent, Ref: -1, Height: pn.Height + 1, BT: bt, TS: ts, Gen: r.n(gens), Branch: bi,
				Score: new(big.Int).Add(pn.Score, blockScore(bt))}
			u.finish(n, pn, r)
			list = append(list, n.Idx)
			n.Off = len(list) - 1
			cur := n
			if b.Micro > 0 && r.n(100) < b.MicroP {
				k := r.in(1, b.Micro)
				for i := 0; i < k && len(list) < b.N; i++ {
					m := &Node{Parent: parent, Ref: cur.Idx, Height: n.Height, BT: bt, TS: ts, Gen: n.Gen, Branch: bi,
						Score: new(big.Int).Set(n.Score)}
					u.finish(m, pn, r)
					list = append(list, m.Idx)
					m.Off = len(list) - 1
					cur = m
				}
			}
			parent = cur.Idx
		}
		u.Branches = append(u.Branches, list)
	}
	return u
}

func (u *Universe) add(n *Node) {
	n.Idx = len(u.Nodes)
	u.Nodes = append(u.Nodes, n)
	if _, ok := u.ByID[n.ID]; ok {
		panic("sim: duplicate block ID in the universe")
	}
	u.ByID[n.ID] = n.Idx
	u.ByStr[n.ID.String()] = n.Idx
	if n.raw != nil {
		u.rawIdx[strHash(string(n.raw))] = n.Idx
	}
	if n.Parent >= 0 {
		a := n.Parent
		for k := 0; a >= 0; k++ {
			n.up = append(n.up, int32(a))
			if k >= len(u.Nodes[a].up) {
				break
			}
			a = int(u.Nodes[a].up[k])
		}
	}
}

// finish builds the block's wire form and identity.
func (u *Universe) finish(n *Node, parent *Node, r *rng) {
	n.Ver = 3
	if n.Height >= u.switchH {
		n.Ver = 5
	} else if n.Height >= u.switchH-3 {
		n.Ver = 4
	}
	pk := u.pks[n.Gen]
	if n.Ver < 5 {
		sig := r.bytes(64)
		buf := make([]byte, 0, 280)
		buf = append(buf, n.Ver)
		buf = binary.BigEndian.AppendUint64(buf, n.TS)
		buf = append(buf, parent.ID.Bytes()...)
		buf = binary.BigEndian.AppendUint32(buf, 40)
		buf = binary.BigEndian.AppendUint64(buf, n.BT)
		buf = append(buf, r.bytes(32)...)
		buf = binary.BigEndian.AppendUint32(buf, 4)
		buf = binary.BigEndian.AppendUint32(buf, 0)
		buf = binary.BigEndian.AppendUint32(buf, 0)
		if n.Ver >= 4 {
			buf = binary.BigEndian.AppendUint64(buf, 600000000)
		}
		buf = append(buf, pk[:]...)
		buf = append(buf, sig...)
		s, _ := crypto.NewSignatureFromBytes(sig)
		n.ID = proto.NewBlockIDFromSignature(s)
		n.raw = buf
	} else {
		b := proto.Block{BlockHeader: proto.BlockHeader{Version: proto.BlockVersion(n.Ver), Timestamp: n.TS, Parent: parent.ID,
			RewardVote: 600000000, ConsensusBlockLength: 104,
			NxtConsensus:       proto.NxtConsensus{BaseTarget: n.BT, GenSignature: r.bytes(96)},
			GeneratorPublicKey: pk, TransactionsRoot: r.bytes(32)}}
		copy(b.BlockSignature[:], r.bytes(64))
		if err := b.GenerateBlockID(u.Scheme); err != nil {
			panic(err)
		}
		raw, err := b.MarshalToProtobuf(u.Scheme)
		if err != nil {
			panic(err)
		}
		n.ID = b.BlockID()
		n.raw = raw
	}
	u.add(n)
}

func (u *Universe) gen(i int) string {
	if g := u.Nodes[i].Gen; g >= 0 {
		return u.addrs[g]
	}
	return u.genAddr
}

// at resolves a branch reference to a node index.
func (u *Universe) at(branch, off int) int {
	if branch < 0 || branch >= len(u.Branches) {
		return 0
	}
	b := u.Branches[branch]
	if off >= len(b) {
		off = len(b) - 1
	}
	if off < 0 {
		return u.forkPoint(branch)
	}
	return b[off]
}

func (u *Universe) forkPoint(branch int) int {
	if b := u.Branches[branch]; len(b) > 0 {
		return u.Nodes[b[0]].Parent
	}
	return 0
}

// ancestor returns the ancestor of n at height h.
func (u *Universe) ancestor(n, h int) int {
	for u.Nodes[n].Height > h {
		d := u.Nodes[n].Height - h
		k := 0
		for k+1 < len(u.Nodes[n].up) && 1<<(k+1) <= d {
			k++
		}
		n = int(u.Nodes[n].up[k])
	}
	return n
}

func (u *Universe) lca(a, b int) int {
	for a != b {
		if u.Nodes[a].Height >= u.Nodes[b].Height {
			a = u.Nodes[a].Parent
		} else {
			b = u.Nodes[b].Parent
		}
	}
	return a
}

// isAncestor reports whether a is b or an ancestor of b.
func (u *Universe) isAncestor(a, b int) bool {
	if u.Nodes[a].Height > u.Nodes[b].Height {
		return false
	}
	return u.ancestor(b, u.Nodes[a].Height) == a
}

// path returns the chain ending in n, from genesis.
func (u *Universe) path(n int) []int {
	var r []int
	for n >= 0 {
		r = append(r, n)
		n = u.Nodes[n].Parent
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (u *Universe) blockMsg(n int) proto.Message {
	nd := u.Nodes[n]
	if n == 0 {
		raw, err := u.Genesis.MarshalBinary(u.Scheme)
		if err != nil {
			return nil
		}
		return &proto.BlockMessage{BlockBytes: raw}
	}
	if nd.Ver < 5 {
		return &proto.BlockMessage{BlockBytes: nd.raw}
	}
	return &proto.PBBlockMessage{PBBlockBytes: nd.raw}
}

func (u *Universe) byRaw(b []byte) (int, bool) {
	n, ok := u.rawIdx[strHash(string(b))]
	return n, ok
}

// microInv returns the announcement of micro-block n, nil when it has none.
func (u *Universe) microInv(n int) proto.Message {
	nd := u.Nodes[n]
	if nd.Ref < 0 {
		return nil
	}
	inv := &proto.MicroBlockInv{PublicKey: u.pks[nd.Gen], TotalBlockID: nd.ID, Reference: u.Nodes[nd.Ref].ID}
	b, err := inv.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return &proto.MicroBlockInvMessage{Body: b}
}
