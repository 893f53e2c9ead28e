package sim

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
)

// generate derives the complete plan of a run - the block tree, the peers, the
// workload, the faults and the scheduler's parameters - from a property and a
// seed.

type gen struct {
	r    *rng
	sp   Spec
	prop string
	dead []string // addresses nobody listens on
	u    *Universe
}

func generate(prop string, seed uint64) Spec {
	g := &gen{r: newRng(seed, strHash(prop)), prop: prop}
	g.sp = Spec{Prop: prop, Seed: seed, Args: map[string]float64{}}
	g.common()
	r := g.r
	switch prop {
	case "P01":
		g.scenario(r.wpick(10, 8, 2, 0, 1))
	case "P02":
		g.scenario(r.wpick(12, 6, 2, 0, 2))
	case "P03":
		g.scenario(r.wpick(8, 10, 2, 0, 4))
	case "P04":
		g.scenario(r.wpick(8, 10, 2, 0, 2))
	case "P05":
		g.scenario(r.wpick(5, 5))
	case "P06":
		g.scenario([]int{0, 5, 3}[r.wpick(6, 2, 1)])
	case "P08":
		g.scenario(3)
	case "P13":
		g.scenario(2)
	case "P17":
		g.scenario(4)
	case "P19":
		g.scenario(5)
	case "P20":
		g.scenario(6)
	case "P21":
		g.scenario(7)
	case "P11", "P12", "P14", "P15", "P16":
		g.scenario(r.wpick(7, 1, 2))
	case "P10":
		g.scenario(r.wpick(8, 0, 2))
	default:
		g.scenario(0)
	}
	g.finish()
	return g.sp
}

func (g *gen) scenario(k int) {
	switch k {
	case 0:
		g.sp.Scenario = "chaos"
		g.chaos()
	case 1:
		g.sp.Scenario = "model"
		g.model()
	case 2:
		g.sp.Scenario = "evil"
		g.evil()
	case 3:
		g.sp.Scenario = "loader"
		g.loader()
	case 4:
		g.sp.Scenario = "race"
		g.race()
	case 5:
		g.sp.Scenario = "disk"
		g.disk()
	case 6:
		g.sp.Scenario = "churn"
		g.churn()
	case 7:
		g.sp.Scenario = "startup"
		g.startup()
	}
}

func (g *gen) common() {
	r := g.r
	sp := &g.sp
	sp.Network = pick(r, "testnet", "testnet", "mainnet", "stagenet")
	sp.Versions = pick(r, []string{"1.5"}, []string{"1.5", "1.4"}, []string{"1.4", "1.5", "1.3"}, []string{"1.5.3", "1.4.8"}, []string{"1.5.3", "1.5.8", "1.4"}, []string{"1.3", "1.5", "1.4", "1.2"})
	sp.Declared = "10.0.0.1:6868"
	sp.SwitchH = pick(r, 2, 2, 8, 30, 100000)
	sp.Knobs = [3]int{pick(r, 0, 2048, 8192, 65536), pick(r, 0, 4096), pick(r, 0, 512)}
	sp.Sched = runtime.SimConfig{
		Mode:      r.wpick(3, 3, 2, 1, 3),
		YieldSync: pick(r, 0, 300, 3000, 12000),
		TickMax:   int64(pick(r, 1000, 20000, 100000)),
		MaxPicks:  40_000_000,
	}
	if r.p(1, 4) {
		sp.Sched.YieldAlloc = pick(r, 20, 100, 400)
	}
	if r.p(1, 6) {
		sp.Sched.FreezeProb = pick(r, 1, 4)
		sp.Sched.FreezeMax = int64(pick(r, 300, 1500, 4000)) * ms
	}
	for i, n := 0, r.in(0, 2); i < n; i++ {
		g.dead = append(g.dead, fmt.Sprintf("10.0.9.%d:6868", i+1))
	}
}

// tree creates the branches: a main chain and forks.
func (g *gen) tree(main int, forks int) {
	r := g.r
	sp := &g.sp
	bt := uint64(pick(r, 0, 0, 100, 153722867))
	b := BranchSpec{From: -1, Off: 0, N: main, BT: bt, Gens: r.in(2, nGenerators), Seed: r.u64()}
	if r.p(1, 2) {
		b.Micro, b.MicroP = r.in(1, 4), r.in(10, 60)
	}
	sp.Branches = append(sp.Branches, b)
	for i := 0; i < forks; i++ {
		from := 0
		if i > 0 && r.p(1, 3) {
			from = r.n(len(sp.Branches))
		}
		n := sp.Branches[from].N
		off := r.n(n)
		if r.p(1, 3) {
			off = max(0, n-1-r.n(8))
		}
		if r.p(1, 12) {
			off = -1
		}
		f := BranchSpec{From: from, Off: off, N: pick(r, r.in(1, 8), r.in(1, 30), r.in(5, main/2+6)), BT: bt, Gens: r.in(1, nGenerators), Seed: r.u64()}
		if bt == 0 && r.p(1, 3) {
			f.BT = uint64(r.in(10, 600))
		}
		if r.p(1, 2) {
			f.Micro, f.MicroP = r.in(1, 4), r.in(10, 60)
		}
		sp.Branches = append(sp.Branches, f)
	}
}

// randTip chooses a position in the tree.
func (g *gen) randTip() [2]int {
	r := g.r
	b := r.n(len(g.sp.Branches))
	if r.p(1, 3) {
		b = 0
	}
	n := g.sp.Branches[b].N
	switch r.n(3) {
	case 0:
		return [2]int{b, n - 1}
	case 1:
		return [2]int{b, max(0, n-1-r.n(10))}
	}
	return [2]int{b, r.n(n)}
}

// okVersion gives a version that the detector's set of versions lets connect.
func (g *gen) okVersion() string {
	r := g.r
	vs := g.sp.Versions
	v := pick(r, vs...)
	p := strings.Split(v, ".")
	return fmt.Sprintf("%s.%s.%d", p[0], p[1], r.n(12))
}

// goodHost appends a peer that follows the rules.
func (g *gen) goodHost(kind int) *HostSpec {
	r := g.r
	i := len(g.sp.Hosts)
	h := HostSpec{IP: fmt.Sprintf("10.0.1.%d", i+1), Port: 6868 + r.n(3), Name: fmt.Sprintf("%s%d", pick(r, "Node-", "node-", "x", "Waves ", "\"q\\", "\u00dcn\u2713<b>", "\t\n", "_"), r.n(1000)), Nonce: r.u64() >> 1,
		Ver: g.okVersion(), Tip: g.randTip(), Up: true, Lat: r.in(1, 60), Jit: r.in(0, 30)}
	if r.p(1, 5) {
		h.Lat, h.Jit = r.in(100, 700), r.in(0, 300)
	}
	switch kind {
	case 0: // listens only
		h.Listen, h.Declared = true, pick(r, "self", "self", "self", "")
		if h.Declared == "" {
			h.Inbound = r.in(10, 40) * 1000
		}
	case 1: // connects only
		h.Inbound = r.in(5, 60) * 1000
		h.Declared = pick(r, "", "", "10.3.3.3:6868")
		h.Late = true
	case 2: // both
		h.Listen, h.Declared, h.Inbound = true, "self", r.in(10, 90)*1000
		h.Late = r.p(1, 2)
		h.Cross = r.p(1, 3)
	case 4: // connects only, but claims to listen
		h.Declared, h.Inbound, h.Cross = "self", r.in(10, 90)*1000, true
		h.Late = r.p(1, 2)
	case 3: // known by gossip
		h.Listen, h.Declared, h.Late = true, "self", true
	}
	h.Excl = r.p(1, 3)
	h.MaxIDs = pick(r, 0, 0, 0, r.in(2, 20))
	h.Window = pick(r, 0, 0, r.in(600, 8000))
	h.Chop = pick(r, 0, 0, r.in(1, 40), r.in(50, 1000))
	h.Proc = pick(r, 0, 0, r.in(1, 200), r.in(100, 1500))
	h.Push = r.p(1, 2)
	h.Terse = r.p(1, 4)
	h.Blackhole = r.p(1, 3) || h.Cross && !h.Listen
	if r.p(1, 3) {
		h.VerPolicy = "minor"
	}
	g.sp.Hosts = append(g.sp.Hosts, h)
	return &g.sp.Hosts[len(g.sp.Hosts)-1]
}

func (g *gen) goodHosts(lo, hi int) {
	r := g.r
	n := r.in(lo, hi)
	for i := 0; i < n; i++ {
		k := r.wpick(5, 3, 2, 1, 1)
		if i == 0 && k == 3 {
			k = 0
		}
		g.goodHost(k)
	}
	for i := range g.sp.Hosts {
		h := &g.sp.Hosts[i]
		if h.Late && h.Listen {
			p := &g.sp.Hosts[r.n(max(1, i))]
			if p != h {
				p.Gossip = append(p.Gossip, fmt.Sprintf("%s:%d", h.IP, h.Port))
			}
		}
	}
	if r.p(1, 3) {
		h := &g.sp.Hosts[0]
		h.Gossip = append(h.Gossip, pick(r, "10.0.9.77:6868", "10.0.0.1:6868", "127.0.0.1:6868", "10.0.9.78:0"))
		if r.p(1, 2) {
			h.Gossip = append([]string{pick(r, "127.0.0.1:6868", "10.0.0.1:6868", "127.3.2.1:1")}, h.Gossip...)
		}
	}
}

// oddHost appends a peer that must be refused or only half accepted.
func (g *gen) oddHost() {
	r := g.r
	h := g.goodHost(r.n(3))
	switch r.n(5) {
	case 0:
		h.App = pick(r, "wavesX", "wavesD", "x")
		if h.App == "waves"+string(rune(schemeOf(g.sp.Network))) {
			h.App = "wavesX"
		}
	case 1:
		h.Ver = pick(r, "1.0.1", "2.0.0", "0.9.9", "1.9.0")
		h.App = ""
		h.Evil = true
	case 2:
		h.Declared = pick(r, "127.0.0.1:6868", "127.9.9.9:1")
	case 3:
		h.Declared = pick(r, "10.9.9.9:6868", "8.8.8.8:1")
	case 4:
		h.SlowHS = true
	}
}

func schemeOf(network string) byte {
	switch network {
	case "testnet":
		return 'T'
	case "stagenet":
		return 'S'
	}
	return 'W'
}

func (g *gen) op(t int64, name string, host int, a, b, c int64, s string) {
	g.sp.Ops = append(g.sp.Ops, Op{T: t, Op: name, Host: host, A: a, B: b, C: c, S: s})
}

func (g *gen) chaos() {
	r := g.r
	sp := &g.sp
	main := pick(r, r.in(3, 30), r.in(20, 150), r.in(100, 450))
	g.tree(main, r.in(0, 4))
	g.goodHosts(2, 6)
	odd := 0
	switch g.prop {
	case "P10", "P09", "P11", "P15":
		odd = r.in(0, 2)
	default:
		if r.p(1, 4) {
			odd = 1
		}
	}
	for i := 0; i < odd; i++ {
		g.oddHost()
	}
	if r.p(1, 10) {
		sp.Declared = ""
	}
	sp.ChaosEnd = int64(r.in(2, 14)) * 60000
	if g.prop == "P09" || g.prop == "P18" || g.prop == "P10" {
		sp.ChaosEnd = int64(r.in(10, 45)) * 60000
	}
	n := r.in(4, 40)
	g.chaosOps(n, g.restarts())
	g.setCalm()
	if r.p(1, 2) {
		sp.Args["finalkill"] = float64(r.in(1, 2))
	}
}

// restarts gives how many process ends a run has.
func (g *gen) restarts() int {
	r := g.r
	switch g.prop {
	case "P05":
		return r.in(1, 4)
	case "P12":
		return r.in(1, 5)
	}
	return pick(r, 0, 0, 1, 2)
}

func (g *gen) setCalm() {
	sp := &g.sp
	sp.Calm = int64(40+12*len(sp.Versions)+6*len(sp.Hosts)) * 60000
}

func (g *gen) chaosOps(n, restarts int) {
	r := g.r
	sp := &g.sp
	end := sp.ChaosEnd
	type cand struct {
		name string
		w    int
	}
	w := map[string]int{"tip": 10, "reset": 3, "down": 3, "cut": 3, "stall": 2, "slow": 1, "silent": 2, "partial": 2, "dialin": 2,
		"gossip": 1, "getpeers": 2, "push": 3, "inv": 2, "clock": 1, "diskslow": 1, "api": 1, "apix": 1}
	switch g.prop {
	case "P09", "P10", "P11":
		w["reset"], w["down"], w["cut"], w["dialin"], w["tip"] = 8, 6, 5, 6, 4
		w["setver"], w["setapp"], w["setdecl"] = 1, 1, 1
	case "P18":
		w["reset"], w["down"], w["setver"], w["tip"] = 6, 6, 2, 2
	case "P15":
		w["getpeers"], w["gossip"], w["dialin"], w["reset"] = 12, 8, 4, 4
	case "P07", "P08":
		w["silent"], w["partial"], w["stall"], w["tip"] = 6, 6, 4, 12
	case "P06":
		w["silent"], w["partial"], w["cut"], w["reset"] = 5, 5, 5, 5
	case "P14":
		w["api"] = 8
		w["apix"] = 8
	case "P16":
		w["score"] = 6
	case "P12":
		w["listenerr"] = 3
	}
	if sp.Declared == "" {
		delete(w, "dialin")
	}
	var cs []cand
	for _, k := range sortedKeys(w) {
		cs = append(cs, cand{k, w[k]})
	}
	tot := 0
	for _, c := range cs {
		tot += c.w
	}
	for i := 0; i < n; i++ {
		t := int64(r.n(int(end)))
		k := r.n(tot)
		name := ""
		for _, c := range cs {
			if k < c.w {
				name = c.name
				break
			}
			k -= c.w
		}
		h := r.n(len(sp.Hosts))
		switch name {
		case "tip":
			tip := g.randTip()
			ann := int64(1)
			if r.p(1, 5) {
				ann = 0
			}
			g.op(t, "tip", h, int64(tip[0]), int64(tip[1]), ann, "")
			for r.p(1, 2) && t < end { // a growing chain
				t += int64(r.in(500, 20000))
				tip[1] += r.in(1, 4)
				g.op(t, "tip", h, int64(tip[0]), int64(tip[1]), 1, "")
			}
		case "reset":
			g.op(t, "reset", h, int64(r.n(2)), 0, 0, "")
		case "down":
			g.op(t, "down", h, int64(r.n(2)), 0, 0, "")
			g.op(t+int64(r.in(1000, 240000)), "up", h, 0, 0, 0, "")
		case "cut":
			g.op(t, "cut", h, int64(r.in(1000, 400000)), 0, 0, "")
		case "stall":
			g.op(t, "stall", h, int64(r.in(1000, 90000)), 0, 0, "")
		case "slow":
			g.op(t, "slow", h, int64(r.in(1, 4000)), int64(r.in(0, 2000)), 0, "")
		case "silent":
			g.op(t, "silent", h, int64(pick(r, 1, 2, 3, 16, 4, 23)), 0, 0, "")
			if r.p(2, 3) {
				g.op(t+int64(r.in(5000, 200000)), "silent", h, 0, 0, 0, "")
			}
		case "partial":
			g.op(t, "partial", h, int64(r.in(1, 30)), 0, 0, "")
			if r.p(2, 3) {
				g.op(t+int64(r.in(5000, 200000)), "partial", h, 0, 0, 0, "")
			}
		case "dialin":
			g.op(t, "dialin", h, 0, 0, 0, "")
		case "gossip":
			g.op(t, "gossip", h, 0, 0, 0, g.gossipList())
		case "getpeers":
			g.op(t, "getpeers", h, 0, 0, 0, "")
		case "push", "inv":
			tip := g.randTip()
			g.op(t, name, h, int64(tip[0]), int64(tip[1]), int64(r.n(4)), "")
		case "clock":
			g.op(t, "clock", 0, int64(pick(r, -3600000, -30000, 5000, 60000, 900000, 86400000)), 0, 0, "")
		case "diskslow":
			g.op(t, "diskslow", 0, int64(pick(r, 5, 40, 200)), 0, 0, "")
			g.op(t+int64(r.in(1000, 60000)), "diskslow", 0, 0, 0, 0, "")
		case "api":
			g.op(t, "api", 0, 0, 0, 0, g.apiPath())
		case "apix":
			g.op(t, "apix", 0, int64(r.n(len(apixKinds))), int64(r.n(1<<20)), 0, g.apiPath())
		case "score":
			g.op(t, "score", h, 0, 0, 0, pick(r, "", "0", "1", "340282366920938463463374607431768211456", fmt.Sprint(r.u64()>>8)))
		case "setver":
			g.op(t, "setver", h, 0, 0, 0, pick(r, g.okVersion(), "1.5.7", "1.0.0", "2.1.0"))
		case "setapp":
			g.op(t, "setapp", h, 0, 0, 0, "wavesX")
		case "setdecl":
			g.op(t, "setdecl", h, 0, 0, 0, pick(r, "", "self", "127.0.0.1:99", "10.3.4.5:6868"))
		case "listenerr":
			g.op(t, "listenerr", 0, int64(r.in(1, 3)), 0, 0, "")
		}
	}
	for i := 0; i < restarts; i++ {
		t := int64(r.n(int(end)))
		d := int64(pick(r, 0, 1000, 20000, 300000, 900000))
		switch r.n(5) {
		case 0:
			g.op(t, "kill", 0, d, 0, 0, "")
		case 1:
			g.op(t, "power", 0, d, 0, 0, "")
		case 2, 3:
			g.op(t, "crashop", 0, int64(r.in(1, 60)), d, 0, pick(r, "kill", "power"))
		case 4:
			g.op(t, "term", 0, d, 0, 0, "")
		}
		if g.prop == "P12" {
			sp.Ops[len(sp.Ops)-1] = Op{T: t, Op: "term", A: d}
		}
	}
	if g.prop == "P12" {
		// ends in the middle of activity
		for _, o := range append([]Op(nil), sp.Ops...) {
			if o.Op == "tip" && r.p(1, 8) {
				g.op(o.T+int64(r.in(0, 3000)), "term", 0, 0, 0, 0, "")
			}
		}
	}
}

// gossipList is a list of addresses as peers tell them, of all kinds mixed.
func (g *gen) gossipList() string {
	r := g.r
	var l []string
	for i, n := 0, pick(r, 1, 1, 2, 4, 8); i < n; i++ {
		l = append(l, pick(r, fmt.Sprintf("10.0.9.%d:6868", 50+r.n(6)), fmt.Sprintf("10.0.8.%d:%d", 1+r.n(40), 1+r.n(9999)), "10.0.0.1:6868", "127.0.0.1:6868", "10.0.9.60:0",
			fmt.Sprintf("10.0.1.%d:6868", 1+r.n(len(g.sp.Hosts)))))
	}
	return strings.Join(l, ",")
}

func (g *gen) apiPath() string {
	r := g.r
	ip := fmt.Sprintf("10.0.1.%d", 1+r.n(len(g.sp.Hosts)+1))
	return pick(r, "/api/forks", "/api/active-forks", "/api/fork/"+ip, "/api/fork/"+ip+"/generators/"+pick(r, "0", "1", "50", "-1", "99999999999"),
		"/api/fork/"+pick(r, "::1", "2001:db8::1", "::ffff:"+ip, "fe80::1%25eth0", ip+"%20", "0.0.0.0", "255.255.255.255", "a00:101::"), "/api/"+pick(r, "forks", "active-forks")+"?peers="+
			pick(r, "::1", ","+ip+",,", ip+",2001:db8::1", "fe80::1%25eth0", "%20"+ip+"%20,10.0.1.1", "::ffff:"+ip, "255.255.255.255", "a00:101::"), "/api/fork/"+pick(r, "::1", "a00:101::")+"/generators/3",
		"/api/forks?peers="+ip, "/api/active-forks?peers="+ip, "/api/active-forks?peers=10.77.77.77", "/api/status", "/api/heads", "/api/leashes", "/api/peers/all",
		"/api/fork/"+ip+"/generators/"+pick(r, "4611686018427387904", "18446744073709551615", "-9223372036854775808"))
}

// model generates runs whose every step is compared with the reference model.
func (g *gen) model() {
	r := g.r
	sp := &g.sp
	g.tree(r.in(3, 25), r.in(0, 4))
	n := r.in(1, 4)
	for i := 0; i < n; i++ {
		h := g.goodHost(1)
		h.Inbound = r.in(2000, 5000)
		h.NoScore = true
		h.Declared = ""
		h.Proc = 0
		h.Lat, h.Jit = r.in(1, 20), 0
		h.VerPolicy = ""
	}
	sp.Sched.FreezeProb = 0
	sp.Versions = []string{"1.5"}
	for i := range sp.Hosts {
		sp.Hosts[i].Ver = "1.5." + fmt.Sprint(r.n(9))
	}
	g.u = buildUniverse(sp)
	next := make([]int, len(sp.Branches)) // blocks of each branch sent so far
	steps := r.in(8, 40)
	ends := 0
	if g.prop == "P05" {
		ends = r.in(1, 5)
	} else if r.p(1, 2) {
		ends = r.in(1, 2)
	}
	for i := 0; i < steps; i++ {
		h := r.n(n)
		if r.n(steps) < ends {
			d := int64(pick(r, 0, 500, 5000))
			switch r.n(5) {
			case 0:
				g.op(0, "kill", 0, d, 0, 0, "")
			case 1:
				g.op(0, "power", 0, d, 0, 0, "")
			case 2, 3:
				g.op(0, "crashop", 0, int64(r.in(1, 14)), d, 0, pick(r, "kill", "kill", "power"))
			case 4:
				g.op(0, "term", 0, d, 0, 0, "")
			}
		}
		b := r.n(len(sp.Branches))
		// only branches whose fork point was sent
		for k := 0; k < 4; k++ {
			f := sp.Branches[b].From
			if f < 0 || next[f] > sp.Branches[b].Off {
				break
			}
			b = f
		}
		switch k := r.n(12); {
		case k < 8:
			c := pick(r, 0, 0, 0, r.n(5))
			for c >= 0 && next[b] < len(g.u.Branches[b]) {
				nd := g.u.Nodes[g.u.Branches[b][next[b]]]
				name := "push"
				if nd.Ref > 0 && r.p(9, 10) {
					name = "inv"
				}
				g.op(0, name, h, int64(b), int64(next[b]), 0, "")
				next[b]++
				c--
			}
		case k < 9: // several at once
			c := r.n(6)
			g.op(0, "push", h, int64(b), int64(next[b]), int64(c), "")
			next[b] = min(len(g.u.Branches[b]), next[b]+c+1)
		case k < 10: // something already sent
			g.op(0, pick(r, "push", "inv"), h, int64(b), int64(r.n(next[b]+1)), 0, "")
		case k < 11: // something too early
			g.op(0, pick(r, "push", "inv"), h, int64(b), int64(next[b]+1+r.n(4)), 0, "")
		default:
			switch r.n(3) {
			case 0:
				g.op(0, "ids", h, int64(b), int64(r.n(next[b]+1)), 0, "")
			case 1:
				g.op(0, "reset", h, int64(r.n(2)), 0, 0, "")
			case 2:
				g.op(0, "push", h, -1, 0, 0, "") // genesis
			}
		}
	}
	sp.Args["every"] = float64(pick(r, 1, 1, 2, 4))
	if r.p(1, 2) {
		sp.Args["finalkill"] = float64(r.in(1, 2))
	}
	sp.Calm = 20 * 60000
}

// evil generates runs with peers that send whatever they like.
func (g *gen) evil() {
	r := g.r
	sp := &g.sp
	g.tree(pick(r, r.in(5, 40), r.in(60, 250)), r.in(0, 3))
	g.goodHosts(2, 4)
	// branches no tracker can represent
	np := r.in(0, 2)
	for i := 0; i < np; i++ {
		b := BranchSpec{From: 0, Off: r.n(sp.Branches[0].N), N: r.in(1, 3), Seed: r.u64(), Poison: true}
		switch r.n(3) {
		case 0:
			b.BadTS = pick(r, uint64(1)<<63, ^uint64(0), uint64(1)<<63-1)
		case 1:
			b.BadTS = pick(r, uint64(253402300800000), uint64(1)<<62)
		case 2:
			b.BadBT = pick(r, uint64(1)<<63, ^uint64(0))
		}
		sp.Branches = append(sp.Branches, b)
	}
	good := len(sp.Hosts)
	ne := r.in(1, 3)
	for i := 0; i < ne; i++ {
		h := g.goodHost(r.n(3))
		h.Evil = true
		h.Mode = pick(r, append([]string{"", "", ""}, evilModes...)...)
		if r.p(1, 6) {
			h.BadName = r.in(1, 3)
		}
		if b := sp.Branches[h.Tip[0]]; b.Poison {
			h.Tip = [2]int{0, 0}
		}
		if r.p(1, 4) {
			h.NoScore = true
		}
	}
	for i := 0; i < good; i++ {
		if sp.Branches[sp.Hosts[i].Tip[0]].Poison {
			sp.Hosts[i].Tip = [2]int{0, sp.Branches[0].N - 1}
		}
	}
	sp.ChaosEnd = int64(r.in(1, 8)) * 60000
	n := r.in(4, 30)
	for i := 0; i < n; i++ {
		t := int64(r.n(int(sp.ChaosEnd)))
		h := good + r.n(ne)
		switch k := r.n(10); {
		case k < 5:
			g.op(t, "evil", h, 0, 0, 0, pick(r, evilMessages...))
		case k < 7 && sp.Declared != "":
			g.op(t, "evil", h, 0, 0, 0, pick(r, evilHandshakes...))
		case k < 8:
			g.op(t, "score", h, 0, 0, 0, pick(r, "0", "", "99999999999999999999999999", strings.Repeat("9", 700)))
		case k < 9:
			g.op(t, "dialin", h, 0, 0, 0, "")
		default:
			g.op(t, "api", 0, 0, 0, 0, g.apiPath())
		}
	}
	for i, n := 0, r.n(8); i < n; i++ {
		tip := [2]int{0, r.n(sp.Branches[0].N)}
		g.op(int64(r.n(int(sp.ChaosEnd))), "tip", r.n(good), int64(tip[0]), int64(tip[1]), 1, "")
	}
	if r.p(1, 4) {
		g.op(int64(r.n(int(sp.ChaosEnd))), pick(r, "kill", "term", "power"), 0, int64(pick(r, 0, 5000)), 0, 0, "")
	}
	g.setCalm()
	sp.Calm += int64(ne) * 40 * 60000
	if r.p(1, 4) {
		sp.Args["finalkill"] = float64(r.in(1, 2))
	}
}

// loader generates runs about turns, timeouts and restarts of history loading.
func (g *gen) loader() {
	r := g.r
	sp := &g.sp
	main := r.in(30, 300)
	g.tree(main, r.in(1, 3))
	sp.Sched.FreezeProb = 0
	n := r.in(2, 4)
	for i := 0; i < n; i++ {
		h := g.goodHost(pick(r, 0, 1))
		h.Proc = pick(r, 0, 0, r.in(1, 100))
		h.Lat, h.Jit = r.in(1, 60), r.in(0, 20)
		h.Window, h.Chop = 0, 0
		h.Push = false
		h.VerPolicy = ""
		if h.Listen {
			h.Inbound = r.in(3, 15) * 1000
		}
	}
	if r.p(1, 3) {
		h := g.goodHost(pick(r, 0, 1))
		h.Evil, h.Mode = true, pick(r, "liar", "climb", "mute", "noblock", "drip", "drip")
		h.Claim = pick(r, "99999999999999999999999999", "888888888888888888888888888888")
		h.Lat, h.Jit, h.Window, h.Chop, h.Push, h.VerPolicy = r.in(1, 60), 0, 0, 0, false, ""
		if h.Listen {
			h.Inbound = r.in(3, 15) * 1000
		}
	}
	sp.ChaosEnd = int64(r.in(6, 25)) * 60000
	// A peer that stops answering on a fork, for longer than ten turns.
	for i := 0; i < n; i++ {
		t := int64(r.in(20, 120)) * 1000
		switch r.n(4) {
		case 0, 1:
			tip := g.randTip()
			g.op(t, "silent", i, int64(pick(r, 1, 2, 3)), 0, 0, "")
			g.op(t+1, "tip", i, int64(tip[0]), int64(1<<20), 1, "")
			if r.p(1, 3) {
				g.op(t+2, "score", i, 0, 0, 0, "99999999999999999999999999")
			}
			if r.p(1, 2) {
				g.op(t+int64(r.in(1, 14))*60000, "silent", i, 0, 0, 0, "")
			}
		case 2:
			g.op(t/4, "partial", i, int64(r.in(1, 60)), 0, 0, "")
		case 3:
			for k := 0; k < 6; k++ {
				tip := g.randTip()
				g.op(t+int64(r.n(300000)), "tip", i, int64(tip[0]), int64(tip[1]), 1, "")
			}
		}
	}
	sp.Args["poll"] = 8000
	g.setCalm()
	for _, h := range sp.Hosts {
		if h.Evil {
			sp.Calm += 60 * 60000
		}
	}
}

// race generates runs in which many peers announce blocks while several users
// read.
func (g *gen) race() {
	r := g.r
	sp := &g.sp
	n := r.in(2, 4)
	sp.Branches = append(sp.Branches, BranchSpec{From: -1, N: r.in(1, 10), BT: 100, Seed: r.u64()})
	for i := 0; i < n; i++ {
		sp.Branches = append(sp.Branches, BranchSpec{From: 0, Off: r.n(sp.Branches[0].N), N: r.in(30, 120), BT: uint64(r.in(20, 200)), Seed: r.u64(), Micro: r.in(0, 3), MicroP: 30})
		h := g.goodHost(1)
		h.NoScore = true
		h.Inbound = r.in(2000, 4000)
		h.Declared, h.VerPolicy = "", ""
		h.Proc = 0
		h.Window, h.Chop = 0, pick(r, 0, 200)
		h.Lat, h.Jit = r.in(1, 5), r.in(0, 5)
		h.Ver = "1.5.1"
	}
	sp.Versions = []string{"1.5"}
	sp.Sched.FreezeProb = 0
	sp.Sched.YieldSync = pick(r, 1000, 4000, 12000, 25000)
	sp.Sched.YieldAlloc = pick(r, 50, 300, 1500)
	sp.Sched.Mode = pick(r, 1, 2, 4)
	sp.Sched.TickMax = int64(pick(r, 1000, 4000))
	sp.Args["readers"] = float64(r.in(2, 6))
	sp.Args["gap"] = float64(pick(r, 10, 30, 60)) // ms between announcements
	if r.p(1, 3) {
		sp.Args["collide"] = 1
		sp.Args["rounds"] = float64(r.in(2, 6))
		for i := range sp.Branches {
			sp.Branches[i].Micro = 0
		}
		for i := range sp.Hosts {
			sp.Hosts[i].Excl = false
		}
	}
	sp.Calm = 20 * 60000
	sp.ChaosEnd = 60000
}

// disk generates runs with failing disks.
func (g *gen) disk() {
	r := g.r
	sp := &g.sp
	g.tree(pick(r, r.in(3, 30), r.in(20, 200)), r.in(0, 3))
	g.goodHosts(2, 4)
	sp.ChaosEnd = int64(r.in(2, 10)) * 60000
	g.chaosOps(r.in(3, 15), pick(r, 0, 0, 1))
	readOnly := r.p(1, 2)
	for i, n := 0, r.in(1, 3); i < n; i++ {
		kind := "read"
		if !readOnly {
			kind = pick(r, "write", "sync", "read", "full", "create", "short")
		}
		t := int64(r.n(int(sp.ChaosEnd)))
		n := int64(pick(r, 1, 2, r.in(1, 20), -1))
		for1 := int64(r.in(1000, 120000))
		if readOnly && r.p(2, 3) {
			n = -1
			kind = fmt.Sprintf("read/%d", pick(r, 1, 2, 3, 5, 10))
			for j, m := 0, r.in(1, 12); j < m; j++ { // sessions that begin and end while reads fail
				g.op(t+int64(r.n(int(for1))), pick(r, "reset", "reset", "dialin", "dialin", "tip", "push", "push", "push", "getpeers", "gossip", "api"), r.n(len(sp.Hosts)), 0, 0, 0, "")
				o := &sp.Ops[len(sp.Ops)-1]
				switch o.Op {
				case "dialin":
					if sp.Declared == "" {
						o.Op = "reset"
					}
				case "tip":
					tip := g.randTip()
					o.A, o.B, o.C = int64(tip[0]), int64(tip[1]), 1
				case "push": // mostly what is known already
					tip := g.randTip()
					if r.p(1, 2) {
						h := sp.Hosts[r.n(len(sp.Hosts))]
						tip = h.Tip
					}
					o.A, o.B, o.C = int64(tip[0]), int64(max(0, tip[1]-r.n(4))), int64(r.n(4))
				case "gossip":
					h := sp.Hosts[r.n(len(sp.Hosts))]
					o.S = fmt.Sprintf("%s:%d", h.IP, h.Port)
				case "api":
					o.S = g.apiPath()
				}
			}
		}
		g.op(t, "disk", 0, int64(pick(r, 0, r.n(20), r.n(200))), n, int64(r.n(3)), kind)
		if r.p(2, 3) || n == -1 && readOnly {
			g.op(t+for1, "diskheal", 0, 0, 0, 0, "")
		}
	}
	if readOnly && r.p(3, 4) { // little in memory
		sp.Knobs = [3]int{pick(r, 1024, 2048), -1, pick(r, 0, 512)} // (a batch beyond the write buffer is another way of writing, which no real batch takes)
	}
	g.setCalm()
	if r.p(1, 2) {
		sp.Args["finalkill"] = float64(r.in(1, 2))
	}
}

// churn generates runs with very many short sessions.
func (g *gen) churn() {
	r := g.r
	sp := &g.sp
	g.tree(pick(r, r.in(3, 30), r.in(20, 150)), r.in(0, 2))
	g.goodHosts(2, 3)
	good := len(sp.Hosts)
	for i := 0; i < good; i++ {
		h := &sp.Hosts[i]
		h.Chop, h.Window = 0, 0
	}
	ne := r.in(1, 2)
	for i := 0; i < ne; i++ {
		h := g.goodHost(r.n(3))
		h.Evil, h.Blackhole = true, false
		h.Chop, h.Window = 0, 0
	}
	sp.Sched.FreezeProb = 0
	sp.ChaosEnd = int64(r.in(3, 12)) * 60000
	for i, n := 0, r.in(1, 3); i < n; i++ {
		k := pick(r, churnKinds...)
		h := r.n(len(sp.Hosts))
		if k != "full" && k != "dup" {
			h = good + r.n(ne)
		}
		g.op(int64(r.in(5, 60))*1000, "churn", h, int64(r.in(80, 300)), int64(pick(r, 20, 300, 1500)), int64(r.in(1, 4)), k)
	}
	if r.p(1, 2) {
		sp.Args["crowd"] = float64(pick(r, 6, 6, r.n(6)))
		for i, n := 0, r.in(1, 3); i < n; i++ {
			g.op(int64(r.in(60, 150))*1000, "crowd", r.n(good), int64(r.in(30, 150)), 0, 0, "")
		}
	}
	for i, n := 0, r.in(0, 6); i < n; i++ {
		g.op(int64(r.n(int(sp.ChaosEnd))), pick(r, "reset", "getpeers", "stall", "cut"), r.n(good), int64(r.in(1, 60000)), 0, 0, "")
	}
	if r.p(1, 6) {
		g.op(int64(r.n(int(sp.ChaosEnd))), pick(r, "kill", "term"), 0, int64(pick(r, 0, 5000)), 0, 0, "")
	}
	g.setCalm()
	sp.Calm += int64(ne) * 40 * 60000
}

// bulk lets peers tell so many addresses that the lists outgrow every buffer, with
// API clients that ask for them and do not read the answers.
func (g *gen) bulk() {
	r := g.r
	sp := &g.sp
	switch sp.Scenario {
	case "chaos", "disk", "evil":
	default:
		return
	}
	if sp.ChaosEnd < 60000 || !r.p(1, 8) {
		return
	}
	sp.Args["crowd"] = float64(pick(r, 6, 6, r.n(6)))
	for i, n := 0, r.in(1, 3); i < n; i++ {
		g.op(int64(r.in(30000, int(sp.ChaosEnd))), "crowd", r.n(len(sp.Hosts)), int64(r.in(30, 150)), 0, 0, "")
	}
	for i, n := 0, r.in(0, 4); i < n; i++ {
		k := len(apixKinds) - 1
		if r.p(1, 3) {
			k = 7
		}
		g.op(int64(r.in(40000, int(sp.ChaosEnd)+20000)), "apix", 0, int64(k), int64(r.n(1<<20)), 0, pick(r, "/api/peers/all", "/api/peers/all", g.apiPath()))
	}
}

// slowReads lets everything that is read from the disk take its time, with little of
// it in memory and many API clients who wait for what is computed from it, or do not.
func (g *gen) slowReads() {
	r := g.r
	sp := &g.sp
	switch sp.Scenario {
	case "chaos", "disk", "evil", "race", "churn":
	default:
		return
	}
	if !r.p(1, 8) {
		return
	}
	sp.Args["readslow"] = float64(pick(r, 200, 1000, 3000)) // microseconds
	if sp.Scenario == "race" {                              // the queue of messages must not overflow
		sp.Args["readslow"] = float64(pick(r, 10, 50))
	}
	sp.Knobs = [3]int{pick(r, 1024, 2048, 8192), -1, pick(r, 0, 512)}
	end := int(sp.ChaosEnd)
	if sp.Scenario == "churn" {
		g.op(int64(end/3), "churn", 0, int64(r.in(150, 400)), int64(pick(r, 20, 300)), int64(r.in(2, 4)), "apiforks")
	}
	for i, n := 0, r.in(5, 60); i < n; i++ {
		g.op(int64(r.in(end/4, end+20000)), "apix", 0, int64(pick(r, 2, 2, 2, r.n(len(apixKinds)-1))), int64(r.n(1<<20)), 0, pick(r, "/api/forks", "/api/active-forks", g.apiPath()))
	}
}

// reconf lets the operator change the configuration between starts.
func (g *gen) reconf() {
	r := g.r
	sp := &g.sp
	switch sp.Scenario {
	case "chaos", "disk", "evil":
	default:
		return
	}
	n := 0
	for _, o := range sp.Ops {
		switch o.Op {
		case "kill", "power", "crashop", "term":
			n++
		}
	}
	if n == 0 || !r.p(1, 3) {
		return
	}
	for i := 0; i < r.in(1, n); i++ {
		c := Config{Declared: sp.Declared, Versions: sp.Versions, NoPeers: r.p(1, 3)}
		if r.p(1, 2) {
			ds := []string{"10.0.0.1:6868", "10.0.0.1:6868", "10.0.9.77:6868", "10.0.0.1:7000"}
			if sp.Scenario != "evil" {
				ds = append(ds, "")
			}
			if len(g.dead) > 0 {
				ds = append(ds, g.dead...)
			}
			c.Declared = pick(r, ds...)
		}
		if r.p(1, 3) {
			c.Versions = pick(r, []string{"1.5"}, []string{"1.5", "1.4"}, []string{"1.6", "1.5"}, []string{"1.4"}, []string{"1.5.3", "1.4", "1.5.8", "1.3"})
			for j := range sp.Hosts {
				sp.Hosts[j].VerPolicy = ""
			}
		}
		sp.Configs = append(sp.Configs, c)
	}
	// Addresses that become our own have been told by others.
	if r.p(2, 3) {
		h := &sp.Hosts[r.n(len(sp.Hosts))]
		h.Gossip = append(h.Gossip, pick(r, "10.0.0.1:6868", "10.0.9.77:6868", "10.0.0.1:7000"))
	}
}

func (g *gen) finish() {
	sp := &g.sp
	// A peer that was connected to is always offered the version it had then: one
	// that changes its version must accept others.
	for _, o := range sp.Ops {
		if o.Op == "setver" {
			sp.Hosts[o.Host].VerPolicy = ""
		}
	}
	g.bulk()
	g.slowReads()
	g.reconf()
	sort.SliceStable(sp.Ops, func(i, j int) bool { return sp.Ops[i].T < sp.Ops[j].T })
	var seeds []string
	for _, h := range sp.Hosts {
		if h.Listen && !h.Late {
			seeds = append(seeds, fmt.Sprintf("%s:%d", h.IP, h.Port))
		}
	}
	seeds = append(seeds, g.dead...)
	sp.Flags = []string{"-api", "10.0.0.1:8080", "-net", "0.0.0.0:6868", "-log-level", "FATAL", "-blockchain-type", sp.Network}
	if g.r.p(1, 4) {
		sp.Flags = append(sp.Flags, "-name", pick(g.r, "n", "Fork \u2713 watcher", strings.Repeat("long ", 51)))
	}
	if len(seeds) > 0 {
		sp.Flags = append(sp.Flags, "-peers", strings.Join(seeds, ","))
	}
}
