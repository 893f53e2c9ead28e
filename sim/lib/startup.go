package sim

import (
	"fmt"
	"strings"
	"time"
)

// Starting: the program comes up as configured, or ends with an error.

const startLimit = 60 * sec

// startup watches one start of the program and ends it, but for the last one.
func (w *World) startup() {
	cfg := w.config()
	if cfg.Bad != "" {
		time.Sleep(time.Duration(2*startLimit + w.slack()))
		w.violate("P21", "start_partial", "still running %.0fs after a start with %s (API open: %v, network port open: %v)",
			float64(now()-w.BootClock)/1e9, cfg.Bad, w.listeners[w.apiPort] != nil, w.listeners[w.netPort] != nil)
		w.finish()
	}
	up := false
	for now()-w.BootClock < startLimit+w.slack() {
		time.Sleep(time.Duration(w.rng.in(20, 3000)) * time.Millisecond)
		if w.listeners[w.apiPort] == nil {
			continue
		}
		if r := w.rawGet("/api/status", 20*sec); r != nil && r.code == 200 {
			up = true
			break
		}
	}
	if w.exiting {
		select {}
	}
	if !up {
		w.violate("P21,P14", "start_no_api", "no API on %s %.0fs after the start with %s", cfg.API, float64(now()-w.BootClock)/1e9, cfg.what())
		w.finish()
	}
	time.Sleep(time.Duration(w.slack()))
	if open := w.listeners[w.netPort] != nil; open != w.declIP.IsValid() {
		w.violate("P21", "start_listener", "network port open: %v with declared address %q, after the start with %s", open, cfg.Declared, cfg.what())
	}
	w.Probes["start_checked"]++
	if w.Inc >= len(w.spec.Starts) {
		return
	}
	time.Sleep(time.Duration(w.rng.in(0, 150000)) * time.Millisecond)
	w.poll()
	d := int64(w.rng.in(0, 20000))
	if w.rng.p(1, 2) {
		w.restart("kill", d)
	}
	w.terminate(d)
	select {}
}

// what describes the configuration.
func (c Config) what() string {
	return fmt.Sprintf("-api %q -net %q -declared-address %q %q", c.API, c.Net, c.Declared, c.Extra)
}

// refusedStart judges the end of a start that had to be refused.
func (w *World) refusedStart(code int) {
	cfg := w.config()
	w.Probes["start_refused"]++
	if code == 0 {
		w.violate("P21", "refused_zero", "exit code 0 after a start with %s", cfg.Bad)
	}
	if len(w.dials) > 0 {
		w.violate("P21", "refused_dials", "connected to peers before refusing a start with %s", cfg.Bad)
	}
	w.restart("refused", int64(w.rng.in(0, 5000)))
}

// badArgs are command lines that cannot be followed.
func (g *gen) badArgs(c *Config) {
	r := g.r
	arg := func(name string, vs ...string) {
		v := pick(r, vs...)
		c.Extra = append(c.Extra, name, v)
		c.Bad = fmt.Sprintf("%s %q", name, clipStr(v, 40))
	}
	addr := []string{"", "8080", "localhost:8080", "10.0.0.1", "10.0.0.1:99999", ":8080", "10.0.0.1:", "10.0.0.1:-1", "300.0.0.1:80", "[::1]", "10.0.0.1:80x"}
	switch r.n(14) {
	case 0:
		arg("-db", "", "missing/folder", "/proc/self/exe", "\x00") // the working directory is a scratch folder
	case 1:
		arg("-blockchain-type", "custom", "", "nonet", "mainnet2")
	case 2:
		arg("-versions", "", "1.5,", "x", "1.5;1.4", "1.5,abc", "1.-5", ",")
	case 3:
		arg("-api", addr...)
	case 4:
		arg("-net", addr...)
	case 5, 6:
		arg("-declared-address", append([]string{"nonsense", "example.com:6868", "[2001:db8::1]:6868", " 10.0.0.1:6868", "[::1]:6868", "10.0.0.1:6868,10.0.0.2:6868"}, addr[1:]...)...)
	case 7:
		arg("-name", "", strings.Repeat("x", 256), strings.Repeat("\u2713", 86))
	case 8:
		arg("-peers", "x", "10.0.0.5", "10.0.1.1:6868;10.0.1.2:6868", "10.0.1.1:99999", "host:6868", "10.0.1.1:6868,,y")
	case 9:
		if r.p(1, 2) {
			arg("-log-level", "LOUD", "\t", "12x")
		} else {
			arg(pick(r, "-nosuch", "-Peers", "-database"), "x")
		}
	case 10:
		c.Busy = pick(r, "api", "net", "net")
		c.Bad = "a busy port for -" + c.Busy
	case 11:
		c.Lock = pick(r, "blocks", "peers")
		c.Bad = "the database " + c.Lock + " in use"
	case 12:
		if r.p(1, 2) {
			c.API = "203.0.113.7:80"
			c.Bad = "-api on an address of another host"
		} else {
			c.Net = "203.0.113.7:6868"
			c.Bad = "-net on an address of another host"
		}
	case 13:
		c.API, c.Net = pick(r, "10.0.0.1:6868", "[::]:6868"), pick(r, "0.0.0.0:6868", "[::]:6868", "10.0.0.1:6868")
		c.Bad = "-api and -net on the same port"
	}
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// startup generates runs with several starts, some of which must be refused.
func (g *gen) startup() {
	r := g.r
	sp := &g.sp
	g.tree(r.in(3, 30), r.in(0, 2))
	g.goodHosts(1, 3)
	sp.Sched.FreezeProb = 0
	n := r.in(2, 6)
	for i := 0; i < n; i++ {
		c := Config{Versions: sp.Versions, Declared: pick(r, "10.0.0.1:6868", "10.0.0.1:6868", "[::ffff:10.0.0.1]:6868", "", "0.0.0.0:6868")}
		c.Net = pick(r, "0.0.0.0:6868", "[::]:6868", "10.0.0.1:7001", "[::1]:6900", "127.0.0.1:6868", "[::ffff:10.0.0.1]:6868", "127.0.0.1:65535")
		c.API = pick(r, "10.0.0.1:8080", "[::]:8080", "127.0.0.1:9090", "[::1]:80", "0.0.0.0:65534", "[::ffff:10.0.0.1]:8080")
		if i < n-1 && r.p(2, 3) {
			c.Declared = "10.0.0.1:6868"
			g.badArgs(&c)
		} else if r.p(1, 3) {
			c.Extra = append(c.Extra, "-name", pick(r, strings.Repeat("x", 255), strings.Repeat("\u2713", 85), " ", "n"))
		}
		sp.Starts = append(sp.Starts, c)
	}
	g.setCalm()
	if r.p(1, 3) {
		sp.Args["finalkill"] = float64(r.in(1, 2))
	}
}
