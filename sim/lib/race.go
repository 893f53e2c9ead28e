package sim

import (
	"encoding/json"
	"fmt"
	"time"
)

// The "race" scenario: peers announce blocks of their own branches while several
// users read at once. The readings of the leashes, taken over overlapping
// intervals, must be explainable as snapshots of one history (linearizability of
// the register "leash of every peer" with one writer per peer): every peer's
// position lies between what was certainly processed before the reading began
// and what was sent before it ended, readings are totally ordered, and that order
// respects real time.

type racePos struct {
	start, end int64
	what       string
	pos        []int
}

func (w *World) race() {
	n := len(w.hosts)
	// The shared chain first.
	for i := 0; i < n; i++ {
		if !w.waitConn(w.hosts[i]) {
			w.finish()
		}
	}
	c0 := w.hosts[0].estConns()[0]
	for _, b := range w.u.Branches[0] {
		enter()
		w.sendNode(c0, b)
		leave()
		time.Sleep(20 * time.Millisecond)
	}
	time.Sleep(time.Duration(w.slack() + sec))
	index := make([]map[int]int, n) // block -> position of peer i
	for i := range index {
		index[i] = map[int]int{}
		for k, b := range w.u.Branches[1+i] {
			index[i][b] = k + 1
		}
	}
	index[0][w.u.Branches[0][len(w.u.Branches[0])-1]] = 0
	sentAt := make([][]int64, n)
	if w.arg("collide", 0) != 0 {
		w.collide(index, sentAt)
		return
	}
	gap := int64(w.arg("gap", 10)) * ms
	running := n
	for i := 0; i < n; i++ {
		i := i
		h := w.hosts[i]
		sentAt[i] = append(sentAt[i], now())
		go func() {
			r := newRng(w.spec.Seed, 40, uint64(i))
			for _, b := range w.u.Branches[1+i] {
				time.Sleep(time.Duration(gap/2 + int64(r.u64()%uint64(gap))))
				cs := h.estConns()
				if w.exiting || len(cs) == 0 {
					break
				}
				enter()
				w.sendNode(cs[len(cs)-1], b)
				sentAt[i] = append(sentAt[i], now())
				leave()
			}
			running--
		}()
	}
	var reads []racePos
	readers := int(w.arg("readers", 3))
	busy := readers
	for k := 0; k < readers; k++ {
		go w.raceReader(k, 60, index, &reads, &running, &busy)
	}
	for running > 0 || busy > 0 {
		time.Sleep(100 * time.Millisecond)
	}
	time.Sleep(time.Duration(w.slack() + sec))
	enter()
	w.raceJudge(reads, sentAt)
	leave()
	// Nothing was lost.
	w.steady(func(rd *reading) {
		for i, h := range w.hosts {
			br := w.u.Branches[1+i]
			want := br[len(br)-1]
			if len(sentAt[i]) != len(br)+1 {
				continue
			}
			if got, ok := rd.leash[h.IP]; !ok || got != want {
				w.violate("P17,P03", "lost_update", "peer %s announced %s last but is reported on %s", h.IP, w.nodeName(want), w.nodeName(got))
			}
		}
		w.crossChecks(rd)
		w.forkDetails(rd)
	})
}

func (w *World) raceReader(k, most int, index []map[int]int, reads *[]racePos, running, busy *int) {
	r := newRng(w.spec.Seed, 41, uint64(k))
	for m := 0; *running > 0 && m < most; m++ {
		time.Sleep(time.Duration(r.in(0, 60)) * time.Millisecond)
		if p := w.raceRead(r, index); p != nil {
			*reads = append(*reads, *p)
		}
	}
	*busy--
}

// collide makes the same new blocks reach the detector from several peers at the
// same time, by loading and by announcements.
func (w *World) collide(index []map[int]int, sentAt [][]int64) {
	n := len(w.hosts)
	r := newRng(w.spec.Seed, 42)
	next := make([]int, len(w.u.Branches))
	base := w.u.Branches[0][len(w.u.Branches[0])-1]
	at := make([]int, n) // the block every host is at
	for i := range at {
		at[i] = base
	}
	loaders := r.in(1, max(1, n-2))
	for i := range index {
		index[i] = map[int]int{0: 0, base: 0}
		sentAt[i] = append(sentAt[i], now())
	}
	var reads []racePos
	running, readers := 1, int(w.arg("readers", 3))
	busy := readers
	for k := 0; k < readers; k++ {
		go w.raceReader(k, 400, index, &reads, &running, &busy)
	}
	for round := 0; round < int(w.arg("rounds", 4))+3; round++ {
		b := 1 + r.n(len(w.u.Branches)-1)
		k := min(pick(r, 1, r.in(1, 5), r.in(3, 30)), len(w.u.Branches[b])-next[b])
		if k == 0 {
			continue
		}
		seg := w.u.Branches[b][next[b] : next[b]+k]
		tip := seg[k-1]
		// A host is either always loaded from or always pushes: one that did both would
		// have to be loaded again after it pushed a block with a lower score.
		loaded := r.n(loaders)
		who := []int{loaded}
		for _, i := range r.perm(n) {
			if i >= loaders && (len(who) == 1 || r.p(2, 3)) {
				who = append(who, i)
			}
		}
		if w.u.Nodes[tip].Score.Cmp(w.u.Nodes[at[loaded]].Score) <= 0 {
			continue
		}
		next[b] += k
		enter()
		// While it is loaded the peer is first moved back to the last common block, and
		// then forward, once by every block that arrives and once more when the batch is
		// complete. All of that counts as one position.
		p := len(sentAt[loaded])
		for x := tip; x >= 0; x = w.u.Nodes[x].Parent {
			index[loaded][x] = p
		}
		sentAt[loaded] = append(sentAt[loaded], now())
		at[loaded] = tip
		for _, i := range who[1:] {
			p := len(sentAt[i]) - 1
			for q, x := range seg {
				index[i][x] = p + q + 1
				sentAt[i] = append(sentAt[i], now())
			}
			at[i] = tip
		}
		leave()
		wait := len(who) - 1
		go2 := false
		fire := func() {
			if go2 {
				return
			}
			go2 = true
			for _, i := range who[1:] {
				h, d := w.hosts[i], time.Duration(r.in(0, 4000))*time.Microsecond
				gap := time.Duration(pick(r, 0, 0, 0, r.in(0, 300))) * time.Microsecond
				go func() {
					time.Sleep(d)
					if cs := h.estConns(); len(cs) > 0 {
						for _, x := range seg {
							enter()
							w.sendNode(cs[len(cs)-1], x)
							leave()
							if gap > 0 {
								time.Sleep(gap)
							}
						}
					}
					wait--
				}()
			}
		}
		early := r.p(1, 5)
		w.onServed = func(c *hconn, x int) {
			if c.h.idx == loaded && (x == tip || early) {
				fire()
			}
		}
		h := w.hosts[loaded]
		h.st.Tip = tip
		h.NoScore = false
		for _, c := range h.estConns() {
			c.sendScore()
		}
		for i := 0; i < 250 && !go2; i++ {
			time.Sleep(100 * time.Millisecond)
		}
		if !go2 {
			w.Probes["collide_missed"]++
			fire()
		}
		for wait > 0 {
			time.Sleep(50 * time.Millisecond)
		}
		time.Sleep(time.Duration(w.slack() + sec))
		h.NoScore = true
		w.Probes["collide_rounds"]++
		rd := w.steady(func(rd *reading) {
			for _, i := range who[1:] {
				if got, ok := rd.leash[w.hosts[i].IP]; !ok || got != tip {
					w.violate("P17,P03", "lost_update", "peer %s announced %s last but is reported on %s", w.hosts[i].IP, w.nodeName(tip), w.nodeName(got))
				}
			}
			w.crossChecks(rd)
			w.forkDetails(rd)
		})
		if len(w.Viol) > 0 {
			break
		}
		// The next round must not find the loader busy.
		for i := 0; i < 40 && rd.ok && rd.leash[h.IP] != tip; i++ {
			time.Sleep(5 * time.Second)
			rd = w.poll()
		}
		if rd.ok && rd.leash[h.IP] != tip {
			w.violate("P06,P17", "no_progress", "peer %s is on %s but reported on %s", h.IP, w.nodeName(tip), w.nodeName(rd.leash[h.IP]))
			break
		}
		time.Sleep(6 * time.Second)
	}
	running = 0
	for busy > 0 {
		time.Sleep(100 * time.Millisecond)
	}
	w.onServed = nil
	for i, h := range w.hosts {
		if at[i] != 0 {
			h.st.Tip = at[i]
		}
	}
	enter()
	w.raceJudge(reads, sentAt)
	leave()
}

func (w *World) sendNode(c *hconn, b int) {
	if w.u.Nodes[b].Ref > 0 {
		c.send(w.u.microInv(b))
	} else {
		c.pushBlock(b)
	}
}

func (w *World) raceRead(r *rng, index []map[int]int) *racePos {
	p := racePos{start: now()}
	pos := make([]int, len(index))
	put := func(ip, id string) {
		n, ok := w.u.ByStr[id]
		for i, h := range w.hosts {
			if h.IP != ip {
				continue
			}
			if !ok {
				w.violate("P17,P01", "unknown_block", "%s reports unknown block %s", p.what, id)
				return
			}
			k, ok := index[i][n]
			if !ok {
				w.violate("P17,P03", "foreign_leash", "%s reports %s on %s, which it never announced", p.what, ip, w.nodeName(n))
			}
			pos[i] = k
		}
	}
	switch r.n(5) {
	case 0, 1:
		p.what = "/api/leashes"
		var ls []jLeash
		if w.getJSON(p.what, &ls) == nil {
			return nil
		}
		enter()
		w.checkLeashes(nil, ls)
		for _, l := range ls {
			for _, q := range l.Peers {
				put(q, l.BlockID)
			}
		}
		leave()
	case 2, 3:
		p.what = pick(r, "/api/forks", "/api/active-forks")
		var fs []jFork
		if w.getJSON(p.what, &fs) == nil {
			return nil
		}
		enter()
		w.checkForks(p.what, fs, nil)
		for _, f := range fs {
			for _, q := range f.Peers {
				put(q, f.HeadBlock)
			}
		}
		leave()
	case 4:
		var hs []jHead
		x := pick(r, "/api/heads", "/api/status", "/api/connections", "/api/peers/all", "/api/fork/"+w.hosts[0].IP)
		res := w.get(x)
		if x == "/api/heads" && res != nil && res.code == 200 && json.Unmarshal(res.body, &hs) == nil {
			enter()
			seen := map[uint64]bool{}
			for _, h := range hs {
				if seen[h.Number] {
					w.violate("P17,P04", "head_dup", "/heads reports number %d twice", h.Number)
				}
				seen[h.Number] = true
				w.blockOK("/heads", h.ID, h.Height, h.Score, &h.Timestamp, "")
			}
			leave()
		}
		return nil
	}
	p.end = now()
	p.pos = pos
	w.Probes["race_reads"]++
	return &p
}

func (w *World) raceJudge(reads []racePos, sentAt [][]int64) {
	for i := range reads {
		a := &reads[i]
		for k := range a.pos {
			if a.pos[k] >= len(sentAt[k]) || sentAt[k][a.pos[k]] > a.end {
				w.violate("P17", "from_future", "%s reports peer %d at announcement %d, which was not sent before the answer", a.what, k, a.pos[k])
				return
			}
		}
		// What any reading finished before this one began has seen stays seen.
		for j := range reads {
			b := &reads[j]
			le, ge := true, true
			for k := range a.pos {
				if a.pos[k] > b.pos[k] {
					le = false
				}
				if a.pos[k] < b.pos[k] {
					ge = false
				}
			}
			switch {
			case !le && !ge:
				w.violate("P17", "torn_snapshot", "%s and %s report %v and %v, which cannot both be states of one history", a.what, b.what, a.pos, b.pos)
				return
			case b.end < a.start && !ge:
				w.violate("P17", "stale_read", "%s begun at %.3fs reports %v although %s ended at %.3fs reported %v", a.what, float64(a.start-w.Start)/1e9, a.pos, b.what, float64(b.end-w.Start)/1e9, b.pos)
				return
			}
			if i != j && a.start < b.end && b.start < a.end {
				w.Probes["race_overlaps"]++
			}
		}
	}
	w.ev("race: %d readings judged", len(reads))
	_ = fmt.Sprint
}
