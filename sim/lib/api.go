package sim

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/netip"
	"sort"
	"strings"
	"time"
)

// The HTTP client of the simulated user and the oracles over single answers.

type apiState struct {
	fails int
}

type jFork struct {
	Longest       bool      `json:"longest"`
	HeadBlock     string    `json:"head_block"`
	HeadTimestamp time.Time `json:"head_timestamp"`
	HeadGenerator string    `json:"head_generator"`
	HeadHeight    int       `json:"head_height"`
	Score         *big.Int  `json:"score"`
	PeersCount    int       `json:"peers_count"`
	Peers         []string  `json:"peers"`
	LCB           string    `json:"last_common_block"`
	Length        int       `json:"length"`
}

type jLeash struct {
	BlockID    string    `json:"block_id"`
	Height     int       `json:"height"`
	Score      *big.Int  `json:"score"`
	Timestamp  time.Time `json:"timestamp"`
	Generator  string    `json:"generator"`
	PeersCount int       `json:"peers_count"`
	Peers      []string  `json:"peers"`
}

type jHead struct {
	Number    uint64    `json:"number"`
	ID        string    `json:"id"`
	Height    int       `json:"height"`
	Score     *big.Int  `json:"score"`
	Timestamp time.Time `json:"timestamp"`
}

type jPeer struct {
	Address     string          `json:"address"`
	Nonce       uint64          `json:"nonce"`
	Name        string          `json:"name"`
	Version     json.RawMessage `json:"version"`
	State       int             `json:"state"`
	NextAttempt time.Time       `json:"next_attempt"`
	Score       *big.Int        `json:"score"`
}

type jStatus struct {
	Version   string `json:"version"`
	Short     int    `json:"short_forks_count"`
	Long      int    `json:"long_forks_count"`
	All       int    `json:"all_peers_count"`
	Friendly  int    `json:"friendly_peers_count"`
	Connected int    `json:"connected_peers_count"`
	Gor       int    `json:"goroutines_count"`
}

type jGen struct {
	Generator string `json:"generator"`
	Blocks    int    `json:"blocks"`
}

type apiResp struct {
	code  int
	body  []byte
	ctype string
	start int64
	end   int64
}

var apiClientIP = netip.AddrFrom4([4]byte{10, 0, 0, 250})

// get performs one API request; nil when the API cannot be reached.
func (w *World) get(path string) *apiResp {
	r := w.rawGet(path, 90*sec)
	if r == nil {
		return nil
	}
	if r.code >= 500 && w.diskFine() {
		w.violate("P14", "api_5xx", "GET %s answered %d: %s", path, r.code, clip(r.body, 160))
	}
	return r
}

func clip(b []byte, n int) string {
	if len(b) > n {
		b = b[:n]
	}
	return strings.TrimSpace(string(b))
}

func (w *World) rawGet(path string, timeout int64) *apiResp {
	enter()
	w.Requests++
	l := w.linkFor(apiClientIP)
	l.Lat, l.Jit = ms, 0
	leave()
	start := now()
	c, err := dialSUT(apiClientIP, w.apiPort, l, nil)
	if err != nil {
		w.apiDown(path, err)
		return nil
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(time.Duration(timeout)))
	if _, err = io.WriteString(c, "GET "+path+" HTTP/1.1\r\nHost: fd\r\nConnection: close\r\n\r\n"); err != nil {
		w.apiDown(path, err)
		return nil
	}
	raw, err := io.ReadAll(c)
	if err != nil {
		w.apiDown(path, err)
		return nil
	}
	resp, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(raw)), nil)
	if err != nil {
		w.apiDown(path, fmt.Errorf("bad response %q: %v", clip(raw, 60), err))
		return nil
	}
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		w.apiDown(path, fmt.Errorf("bad body: %v", err))
		return nil
	}
	w.api.fails = 0
	w.ev("api %s -> %d len=%d h=%08x", path, resp.StatusCode, len(body), uint32(strHash(goroutineFree(path, body))))
	return &apiResp{code: resp.StatusCode, body: body, ctype: resp.Header.Get("Content-Type"), start: start, end: now()}
}

// goroutineFree drops the parts of an answer that do not matter for the trace.
func goroutineFree(_ string, b []byte) string { return string(b) }

func (w *World) apiDown(path string, err error) {
	if w.exiting {
		return
	}
	w.api.fails++
	w.ev("api %s failed: %s", path, shortErr(err))
	if now()-w.BootClock > 30*sec && w.diskFine() {
		w.violate("P14", "api_down", "GET %s got no answer: %v", path, err)
	}
}

func (w *World) getJSON(path string, v any) *apiResp {
	r := w.get(path)
	if r == nil || r.code != 200 {
		return nil
	}
	if err := json.Unmarshal(r.body, v); err != nil {
		w.violate("P14", "api_json", "GET %s answered no valid JSON: %v: %s", path, err, clip(r.body, 120))
		return nil
	}
	if b := strings.TrimSpace(string(r.body)); b == "null" {
		w.violate("P14", "api_null", "GET %s answered null", path)
	}
	if r.ctype != "application/json" {
		w.violate("P14", "api_ctype", "GET %s answered with content type %q", path, r.ctype)
	}
	return r
}

// blockOK checks the description of one block against the universe (P01).
func (w *World) blockOK(where, id string, height int, score *big.Int, ts *time.Time, gen string) (int, bool) {
	n, ok := w.u.ByStr[id]
	if !ok {
		w.violate("P01", "unknown_block", "%s reports block %s which no peer has sent", where, id)
		return -1, false
	}
	nd := w.u.Nodes[n]
	if !w.Hist.Ever[n] {
		w.violate("P01", "unsent_block", "%s reports block %s which no peer has sent yet", where, w.nodeName(n))
	}
	if nd.Height != height {
		w.violate("P01", "height", "%s reports block %s at height %d", where, w.nodeName(n), height)
	}
	if score == nil || nd.Score.Cmp(score) != 0 {
		w.violate("P01", "score", "%s reports block %s with score %s instead of %s", where, w.nodeName(n), score, nd.Score)
	}
	if ts != nil && uint64(ts.UnixMilli()) != nd.TS {
		w.violate("P01", "timestamp", "%s reports block %s with timestamp %s instead of %d ms", where, w.nodeName(n), ts, nd.TS)
	}
	if gen != "" && gen != w.u.gen(n) {
		w.violate("P01", "generator", "%s reports block %s generated by %s instead of %s", where, w.nodeName(n), gen, w.u.gen(n))
	}
	return n, true
}

// reading is one pass over the API.
type reading struct {
	start, end int64
	ok         bool
	leash      map[string]int // peer -> block
	forks      []jFork
	active     []jFork
	leashes    []jLeash
	heads      []jHead
	all        []jPeer
	conns      []jPeer
	friendly   []jPeer
	status     jStatus
}

func splitAddr(a string) (string, int) {
	ap, err := netip.ParseAddrPort(a)
	if err != nil {
		return a, -1
	}
	return ap.Addr().String(), int(ap.Port())
}

func (w *World) checkLeashes(r *apiResp, ls []jLeash) map[string]int {
	m := map[string]int{}
	type key struct {
		s *big.Int
		n int
	}
	var prev *key
	seen := map[string]bool{}
	for _, l := range ls {
		n, ok := w.blockOK("/leashes", l.BlockID, l.Height, l.Score, &l.Timestamp, l.Generator)
		if seen[l.BlockID] {
			w.violate("P02", "leashes_dup", "/leashes reports block %s twice", l.BlockID)
		}
		seen[l.BlockID] = true
		if l.PeersCount != len(l.Peers) || len(l.Peers) == 0 {
			w.violate("P02", "leashes_count", "/leashes: peers_count %d, peers %v", l.PeersCount, l.Peers)
		}
		if prev != nil && l.Score != nil {
			if c := prev.s.Cmp(l.Score); c < 0 || c == 0 && prev.n < l.PeersCount {
				w.violate("P02", "leashes_order", "/leashes is not ordered by score and number of peers at block %s", l.BlockID)
			}
		}
		if l.Score != nil {
			prev = &key{l.Score, l.PeersCount}
		}
		for _, p := range l.Peers {
			if _, dup := m[p]; dup {
				w.violate("P03", "two_leashes", "/leashes reports two blocks for peer %s", p)
			}
			if ok {
				m[p] = n
			}
		}
	}
	for _, p := range sortedKeys(m) {
		w.checkLeashOf(p, m[p], "/leashes")
	}
	return m
}

func (w *World) checkLeashOf(p string, n int, where string) {
	h := w.Hist.Peers[p]
	if h == nil {
		w.violate("P03", "leash_stranger", "%s reports a leash for %s, which never spoke to the detector", where, p)
		return
	}
	if _, ok := h.Sent[n]; !ok {
		w.violate("P03", "leash_unmentioned", "%s reports %s on block %s, which it never mentioned", where, p, w.nodeName(n))
	}
}

// checkForks judges one forks answer; leashed gives the set it must partition
// when known. filter nil means no filter.
func (w *World) checkForks(where string, fs []jFork, filter map[string]bool) map[string]int {
	m := map[string]int{}
	long := -1
	for i, f := range fs {
		n, ok := w.blockOK(where, f.HeadBlock, f.HeadHeight, f.Score, &f.HeadTimestamp, f.HeadGenerator)
		if !ok {
			return nil
		}
		if i == 0 {
			long = n
		}
		if f.Longest != (i == 0) {
			w.violate("P02", "longest_flag", "%s: entry %d has longest=%v", where, i, f.Longest)
		}
		if i > 0 {
			a, b := fs[i-1], f
			if c := a.Score.Cmp(b.Score); c < 0 || c == 0 && a.PeersCount < b.PeersCount {
				w.violate("P02", "forks_order", "%s is not ordered by score and number of peers at entry %d", where, i)
			}
		}
		if f.PeersCount != len(f.Peers) || len(f.Peers) == 0 {
			w.violate("P02", "forks_count", "%s: entry %d has peers_count %d and peers %v", where, i, f.PeersCount, f.Peers)
		}
		lca := w.u.lca(long, n)
		if f.LCB != w.u.Nodes[lca].ID.String() {
			w.violate("P02", "lcb", "%s: fork at %s has last common block %s with %s instead of %s", where, w.nodeName(n), f.LCB, w.nodeName(long), w.nodeName(lca))
		}
		if want := w.u.Nodes[n].Height - w.u.Nodes[lca].Height; f.Length != want {
			w.violate("P02", "length", "%s: fork at %s has length %d instead of %d", where, w.nodeName(n), f.Length, want)
		}
		for _, p := range f.Peers {
			if o, dup := m[p]; dup {
				w.violate("P02", "fork_dup_peer", "%s: peer %s is on forks %s and %s", where, p, w.nodeName(o), w.nodeName(n))
			}
			m[p] = n
			w.checkLeashOf(p, n, where)
			if filter != nil && !filter[p] {
				w.violate("P02", "fork_filter", "%s reports peer %s", where, p)
			}
		}
	}
	seen := map[string]bool{}
	for _, f := range fs {
		if seen[f.HeadBlock] {
			w.violate("P02", "fork_dup", "%s reports block %s twice", where, f.HeadBlock)
		}
		seen[f.HeadBlock] = true
	}
	return m
}

func (w *World) checkHeads(hs []jHead) {
	seen := map[uint64]int{}
	blocks := map[int]bool{}
	for _, h := range hs {
		n, ok := w.blockOK("/heads", h.ID, h.Height, h.Score, &h.Timestamp, "")
		if !ok {
			continue
		}
		if o, dup := seen[h.Number]; dup {
			w.violate("P04", "head_dup", "/heads reports number %d at %s and %s", h.Number, w.nodeName(o), w.nodeName(n))
		}
		seen[h.Number] = n
		if blocks[n] {
			w.violate("P04", "head_block_dup", "/heads reports block %s twice", w.nodeName(n))
		}
		blocks[n] = true
		if h.Number == 0 {
			w.violate("P04", "head_zero", "/heads reports number 0 at %s", w.nodeName(n))
		}
	}
	if w.WriteErr {
		return
	}
	for _, h := range hs {
		n, ok := w.u.ByStr[h.ID]
		if !ok {
			continue
		}
		if o, had := w.Hist.Heads[h.Number]; had {
			if o != n {
				if !w.u.reaches(n, o) {
					w.violate("P04", "head_moved", "head %d moved from %s to %s, which does not extend it", h.Number, w.nodeName(o), w.nodeName(n))
				} else {
					w.Probes["head_advanced"]++
				}
			}
		}
		w.Hist.Heads[h.Number] = n
	}
	// A head has no stored child, nor a stored micro-block extending it.
	for n := range blocks {
		for _, h := range hs {
			m, ok := w.u.ByStr[h.ID]
			if ok && m != n && w.u.isAncestor(n, m) {
				w.violate("P04", "head_inner", "/heads reports %s although its descendant %s is stored", w.nodeName(n), w.nodeName(m))
			}
		}
	}
}

// reaches reports whether block o can be reached from n along parents and
// micro-block references.
func (u *Universe) reaches(n, o int) bool {
	if n == o {
		return true
	}
	oh := u.Nodes[o].Height
	seen := map[int]bool{}
	st := []int{n}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == o {
			return true
		}
		if x < 0 || seen[x] || u.Nodes[x].Height < oh {
			continue
		}
		seen[x] = true
		if r := u.Nodes[x].Ref; r >= 0 {
			st = append(st, r)
			if u.Nodes[x].Height > oh {
				st = append(st, u.Nodes[x].Parent)
			}
			continue
		}
		if u.Nodes[x].Height-oh > 64 {
			// Jump: within a long stretch only parents matter until close.
			st = append(st, u.ancestorOrRef(x, oh+32))
			continue
		}
		st = append(st, u.Nodes[x].Parent)
	}
	return false
}

func (u *Universe) ancestorOrRef(n, h int) int { return u.ancestor(n, h) }

// poll reads all endpoints once and applies the checks of single answers.
func (w *World) poll() *reading {
	rd := &reading{start: now()}
	var cs []jPeer
	if w.getJSON("/api/connections", &cs) == nil {
		return rd
	}
	rd.conns = cs
	enter()
	w.checkConnections(cs)
	leave()
	var ls []jLeash
	t0 := now()
	r := w.getJSON("/api/leashes", &ls)
	if r == nil {
		return rd
	}
	rd.leashes = ls
	enter()
	rd.leash = w.checkLeashes(r, ls)
	for p, n := range rd.leash {
		h := w.Hist.peer(p)
		h.Leash = n
		h.LeashAt = t0
		w.Hist.markKnown(n)
	}
	if w.stateExact() {
		for _, p := range w.histPeers() {
			if h := w.Hist.Peers[p]; h.Leash >= 0 && h.LeashAt < t0 {
				if _, ok := rd.leash[p]; !ok {
					w.violate("P03,P02", "leash_lost", "/leashes no longer reports %s, which was on %s", p, w.nodeName(h.Leash))
				}
			}
		}
	}
	w.pollAt = t0
	leave()
	var fs []jFork
	if w.getJSON("/api/forks", &fs) == nil {
		return rd
	}
	rd.forks = fs
	enter()
	w.checkForks("/forks", fs, nil)
	leave()
	var hs []jHead
	if w.getJSON("/api/heads", &hs) == nil {
		return rd
	}
	rd.heads = hs
	enter()
	w.checkHeads(hs)
	leave()
	var as []jFork
	if w.getJSON("/api/active-forks", &as) == nil {
		return rd
	}
	rd.active = as
	enter()
	w.checkForks("/active-forks", as, nil)
	leave()
	var all, fr []jPeer
	t1 := now()
	if w.getJSON("/api/peers/all", &all) == nil {
		return rd
	}
	rd.all = all
	enter()
	w.checkPeers(all, t1)
	leave()
	if w.getJSON("/api/peers/friendly", &fr) == nil {
		return rd
	}
	rd.friendly = fr
	if w.getJSON("/api/status", &rd.status) == nil {
		return rd
	}
	rd.end = now()
	rd.ok = true
	enter()
	w.checkTracking(rd)
	w.noteLag(rd)
	leave()
	w.Probes["polls"]++
	return rd
}

// checkTracking judges the open connections and the known addresses against
// what was reported.
func (w *World) checkTracking(rd *reading) {
	if !w.stateExact() || !w.diskFine() {
		return
	}
	lim := w.slack() + 10*sec
	listed := map[string]bool{}
	for _, c := range rd.conns {
		ip, _ := splitAddr(c.Address)
		listed[ip] = true
	}
	open := func(c *hconn) bool { return c.est && !c.dead && !c.sutDead() && c.sutClosedAt == 0 }
	for _, h := range w.hosts {
		p := w.Hist.peer(h.IP)
		if p.Tainted {
			continue
		}
		var first *hconn
		for _, c := range h.conns {
			if !open(c) || c.readAt == 0 || c.estAt > rd.start-lim || c.readAt > rd.start-lim {
				c.missedAt = 0
				continue
			}
			switch v := w.verdict(c); {
			case v < 0:
				w.violate("P10,P11", "conn_orphan", "connection %d with %s is still open %.1fs after its handshake (%s %s, declared %q) had to be refused", c.c.id, h.IP, float64(now()-c.readAt)/1e9, c.readInf.App, c.readInf.Ver, c.readInf.Declared)
			case v == 1 && p.Hostile == 0:
				if first != nil {
					w.violate("P11", "conn_orphan", "connections %d and %d with %s are both open for more than %.1fs", first.c.id, c.c.id, h.IP, float64(lim)/1e9)
				}
				first = c
				if last := max(c.estAt, c.readAt, c.sutGetPeers, w.backpressure); rd.start-last > 60*sec+lim {
					w.violate("P15", "no_ping", "peer %s was not asked for its peers for %.0fs", h.IP, float64(rd.start-last)/1e9)
				}
				w.Probes["ping_checked"]++
				if listed[h.IP] || h.Evil {
					c.missedAt = 0
				} else if c.missedAt == 0 {
					c.missedAt = rd.start
				} else if rd.start-c.missedAt > lim {
					w.violate("P11,P06", "conn_missing", "/connections does not report %s, whose connection %d is open and established since %.1fs", h.IP, c.c.id, float64(c.estAt-w.Start)/1e9)
				} else {
					w.Probes["conn_late"]++
				}
			}
		}
	}
	// Whoever is due is dialed.
	if w.WallJump != 0 || w.exiting {
		return
	}
	for _, e := range rd.all {
		ip, port := splitAddr(e.Address)
		p := w.Hist.peer(ip)
		if port == 0 || e.State == 2 || listed[ip] || p.Tainted || p.KnownAt == 0 {
			continue
		}
		since := max(p.LastEv, p.KnownAt, w.BootClock, w.ReadErrAt) // (a failed read ends an attempt before the dial)
		a, _ := netip.ParseAddr(ip)
		if a == w.declIP {
			continue // itself, known from before
		}
		busy := false
		for _, d := range w.dials {
			if d.ap.Addr().Unmap() == a && (d.end == 0 || d.ok && (d.conn == nil || d.conn.sutClosedAt == 0)) {
				busy = true
			}
		}
		if h := w.byIP[a]; h != nil {
			for _, c := range h.conns {
				busy = busy || c.sutClosedAt == 0
			}
		}
		if busy {
			continue
		}
		w.Probes["due_checked"]++
		if d := rd.start - since; d > 10*60*sec+60*sec+2*w.slack() {
			w.violate("P09,P06", "dial_missing", "known peer %s was not dialed for %.0fs", e.Address, float64(d)/1e9)
		}
	}
}

// version renders the version of a peer entry.
func (p *jPeer) version() string {
	var s string
	if json.Unmarshal(p.Version, &s) == nil {
		return s
	}
	var v struct {
		Major, Minor, Patch uint32
	}
	if json.Unmarshal(p.Version, &v) == nil {
		return fmt.Sprintf("%d.%d.%d", v.Major, v.Minor, v.Patch)
	}
	return string(p.Version)
}

func (w *World) checkConnections(cs []jPeer) {
	seen := map[string]bool{}
	for _, c := range cs {
		ip, port := splitAddr(c.Address)
		if seen[ip] {
			w.violate("P11", "conn_dup", "/connections reports %s twice", ip)
		}
		seen[ip] = true
		p := w.Hist.Peers[ip]
		if p == nil || p.LastHS.T == 0 {
			w.violate("P11", "conn_stranger", "/connections reports %s, which never sent a handshake", ip)
			continue
		}
		if c.State == 2 || p.Hostile != 0 {
			w.violate("P10,P11", "conn_hostile", "/connections reports the hostile peer %s", ip)
		}
		if !p.Ports[port] && w.stateExact() {
			w.violate("P11", "conn_port", "/connections reports %s, a port that peer never declared for itself", c.Address)
		}
		// A connection whose both ends have been gone for long is stale.
		h := w.byIP[netip.MustParseAddr(ip)]
		if h == nil {
			continue
		}
		live := false
		for _, hc := range h.conns {
			if hc.sutClosedAt == 0 || now()-hc.sutClosedAt < w.slack()+sec {
				live = true
			}
		}
		if !live && w.stateExact() {
			w.violate("P11", "conn_stale", "/connections reports %s, which has no open connection", ip)
		}
	}
}

func (w *World) checkPeers(all []jPeer, t int64) {
	seen := map[string]bool{}
	for i, e := range all {
		ip, port := splitAddr(e.Address)
		if seen[ip] {
			w.violate("P15", "peer_dup", "/peers/all reports %s twice", ip)
		}
		seen[ip] = true
		a, err := netip.ParseAddr(ip)
		if err != nil || !a.Is4() || a.IsLoopback() || a == w.declIP && !w.moved() && (e.State != 0 || !w.Hist.SelfSeen) {
			w.violate("P15", "peer_address", "/peers/all reports %s", e.Address)
		}
		p := w.Hist.peer(ip)
		if p.KnownAt == 0 {
			p.KnownAt = t
		}
		if port != 0 && w.stranger(ip, port) {
			w.violate("P15", "peer_stranger", "/peers/all reports %s, an address nobody has told", e.Address)
		}
		if i > 0 && strings.ToUpper(all[i-1].Name) > strings.ToUpper(e.Name) {
			w.violate("P15", "peer_order", "/peers/all is not ordered by name at %s", e.Address)
		}
		switch e.State {
		case 2:
			if p.Sessions == 0 && p.LastHS.T == 0 {
				w.violate("P10", "hostile_stranger", "/peers/all reports %s as hostile although it never sent a handshake", ip)
			} else if p.Hostile == 0 && w.honest(ip) {
				w.violate("P10", "hostile_honest", "/peers/all reports %s as hostile although it followed the rules", ip)
			}
			if p.Hostile == 0 {
				p.Hostile = t
				w.Probes["hostile_seen"]++
				w.ev("peer %s reported hostile", ip)
			}
		case 1:
			if p.Sessions == 0 {
				w.violate("P10", "friendly_stranger", "/peers/all reports %s as connected before although it never completed a handshake", ip)
			}
			if p.Friendly == 0 {
				p.Friendly = t
			}
			if !p.Ports[port] && w.stateExact() {
				w.violate("P11", "peer_port", "/peers/all reports %s, a port that peer never declared for itself", e.Address)
			}
		case 0:
			if p.Friendly != 0 && w.stateExact() {
				w.violate("P10", "friend_forgotten", "/peers/all reports %s as unknown although it was connected", ip)
			}
		default:
			w.violate("P14", "peer_state", "/peers/all reports %s in state %d", ip, e.State)
		}
		if p.Hostile != 0 && e.State != 2 && w.stateExact() {
			w.violate("P10", "hostile_forgiven", "/peers/all reports %s in state %d after it was hostile", ip, e.State)
		}
		if h := w.byIP[a]; h != nil && e.State != 2 && w.exact() {
			for _, c := range h.conns {
				if c.readAt != 0 && now()-c.readAt > w.slack()+5*sec && w.verdict(c) == -1 {
					w.violate("P10", "hostile_missed", "/peers/all reports %s in state %d although its handshake of %.1fs (%s %s, offered %s) breaks the rules", ip, e.State, float64(c.readAt-w.Start)/1e9, c.readInf.App, c.readInf.Ver, c.offered)
					break
				}
			}
		}
		if e.Score != nil && w.stateExact() {
			ok := false
			for _, s := range p.Scores {
				if s.S == e.Score.String() {
					ok = true
				}
			}
			if !ok && len(p.Scores) < 200 {
				w.violate("P16", "score_foreign", "/peers/all reports score %s for %s, which it never announced", e.Score, ip)
			}
		}
		if w.stateExact() {
			if e.Score != nil {
				p.ScoreSeen = e.Score.String()
			} else if p.ScoreSeen != "" && p.ScoreSeen != "0" && !p.zeroScore() {
				w.violate("P16", "score_lost", "/peers/all reports no score for %s, whose score %s it has reported before", ip, p.ScoreSeen)
			}
		}
		// Resynchronise the negotiation model.
		if v := &p.Ver; v.Unsure && now()-v.CallAt > w.slack()+2*sec && now()-v.RegAt > w.slack()+2*sec && w.exact() {
			switch e.State {
			case 0:
				v.State, v.Ver, v.Unsure = 1, e.version(), false
			case 1:
				v.State, v.Ver, v.Unsure = 2, e.version(), false
			case 2:
				v.State, v.Unsure = 3, false
			}
		}
	}
	for _, ip := range w.histPeers() {
		p := w.Hist.Peers[ip]
		if p.KnownAt != 0 && p.KnownAt < t && !seen[ip] && w.stateExact() {
			w.violate("P15,P05", "peer_lost", "/peers/all no longer reports %s", ip)
		}
	}
}

// honest reports whether the host with this address never gave a reason to be
// refused.
func (w *World) honest(ip string) bool {
	h := w.byIP[netip.MustParseAddr(ip)]
	if h == nil || h.Evil || h.st.App != "" || h.App != "" {
		return false
	}
	for _, c := range h.conns {
		if c.readAt != 0 && w.verdict(c) != 1 {
			return false
		}
	}
	return w.Inc == 1 && !h.everBad
}

func sortedInts(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
