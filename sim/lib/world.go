package sim

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/netip"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"
)

// Spec fully determines one simulated run.
type Spec struct {
	Prop     string             `json:"prop"`
	Seed     uint64             `json:"seed"`
	Scenario string             `json:"scenario,omitempty"`
	Sched    runtime.SimConfig  `json:"sched"`
	Network  string             `json:"network"`
	Flags    []string           `json:"flags"`
	Declared string             `json:"declared"`
	Versions []string           `json:"versions"`
	Configs  []Config           `json:"configs,omitempty"` // of the second and later starts
	Starts   []Config           `json:"starts,omitempty"`  // of all starts (scenario startup)
	SwitchH  int                `json:"switchh"`
	Knobs    [3]int             `json:"knobs"` // goleveldb write buffer, block cache, block size
	Branches []BranchSpec       `json:"branches"`
	Hosts    []HostSpec         `json:"hosts"`
	Ops      []Op               `json:"ops"`
	ChaosEnd int64              `json:"chaosend"` // ms
	Calm     int64              `json:"calm"`     // ms, bound for convergence after faults stop
	Args     map[string]float64 `json:"args,omitempty"`
}

// Config is what the operator changed for a later start of the detector.
type Config struct {
	Declared string   `json:"declared"`
	Versions []string `json:"versions"`
	NoPeers  bool     `json:"nopeers,omitempty"`
	API      string   `json:"api,omitempty"`
	Net      string   `json:"net,omitempty"`
	Extra    []string `json:"extra,omitempty"` // further arguments
	Busy     string   `json:"busy,omitempty"`  // the port (api or net) that another program uses
	Lock     string   `json:"lock,omitempty"`  // the database that another program uses
	Bad      string   `json:"bad,omitempty"`   // why the program must refuse to start
}

// config gives the configuration of the current incarnation.
func (w *World) config() Config {
	c := Config{Declared: w.spec.Declared, Versions: w.spec.Versions}
	inc := w.Inc
	if w.CfgInc != 0 {
		inc = w.CfgInc
	}
	if n := len(w.spec.Starts); n > 0 {
		return w.spec.Starts[min(inc, n)-1]
	}
	if n := len(w.spec.Configs); n > 0 && inc > 1 {
		c = w.spec.Configs[min(inc-2, n-1)]
	}
	return c
}

// moved tells that the detector declared another address in an earlier start: it
// may know the present one from other nodes.
func (w *World) moved() bool { return len(w.spec.Configs)+len(w.spec.Starts) > 0 && w.Inc > 1 }

func (w *World) flags() []string {
	c := w.config()
	fs := []string{"-versions", strings.Join(c.Versions, ",")}
	if c.Declared != "" {
		fs = append(fs, "-declared-address", c.Declared)
	}
	for i := 0; i < len(w.spec.Flags); i++ {
		if w.spec.Flags[i] == "-peers" && c.NoPeers {
			i++
			continue
		}
		fs = append(fs, w.spec.Flags[i])
	}
	if c.API != "" {
		fs = append(fs, "-api", c.API)
	}
	if c.Net != "" {
		fs = append(fs, "-net", c.Net)
	}
	return append(fs, c.Extra...)
}

// Op is one step of the workload or fault plan.
type Op struct {
	T    int64   `json:"t"` // ms since the start of the run
	Op   string  `json:"op"`
	Host int     `json:"host,omitempty"`
	A    int64   `json:"a,omitempty"`
	B    int64   `json:"b,omitempty"`
	C    int64   `json:"c,omitempty"`
	S    string  `json:"s,omitempty"`
	L    []int64 `json:"l,omitempty"`
}

// Violation is one broken property.
type Violation struct {
	Props []string `json:"props"`
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	T     int64    `json:"t"` // ms since the start of the run
	Inc   int      `json:"incarnation"`
}

// Saved is the part of the world that survives the end of a process image.
type Saved struct {
	Inc       int
	Clock     int64
	Start     int64
	WallOff   int64
	CfgInc    int // the configuration stays that of this incarnation
	WallMax   int64
	WallJump  int64 // last jump of the wall clock
	OpIdx     int
	Phase     int
	CalmAt    int64
	Disks     map[string]*Disk
	Faults    map[string]int64
	Probes    map[string]int64
	Viol      []Violation
	tent      []Violation // found by checks not yet known to have run on a steady system
	tentative bool
	Hash      uint64
	Events    []string
	EvCount   int64
	HostState []HostState
	Hist      Hist
	Stat      runtime.SimStat
	DiskOps   int64
	DiskErrs  int64
	DiskErr   bool // a disk error hit this incarnation's databases
	Clean     bool // last exit was a clean one
	LastKill  string
	Vars      map[string]int64
	Requests  int64
}

// World is the state of the simulation.
type World struct {
	Saved
	spec      *Spec
	u         *Universe
	hosts     []*Host
	byIP      map[netip.Addr]*Host
	listeners map[int]*simListener
	links     map[netip.Addr]*Link
	connSeq   int
	portSeq   int
	diskRng   *rng
	rng       *rng
	run       runArgs
	outPath   string
	statePath string
	trace     bool
	final     bool
	exiting   bool
	termAt    int64

	DiskFaults   []DiskFault
	DiskErrAny   bool
	WriteErr     bool  // a write failed in this incarnation
	ReadErrAt    int64 // last failed read
	DiskDelay    int64
	ReadDelay    int64
	CrashAtOp    int64
	CrashKind    string
	CrashDelay   int64
	ListenErrs   int
	dials        []*Dial
	sutConns     []*simConn // every connection of the detector
	taps         map[*simConn]*hconn
	syncs        map[string]*syncTrack
	lastSync     string
	lastSyncAt   int64
	declIP       netip.Addr
	hsReads      int // handshakes the detector has read
	ownNonce     uint64
	introduceds  bool
	netPort      int
	apiPort      int
	versions     []string // offered versions, newest first
	burst        int64
	backpressure int64
	connEnd      int64 // last end of a connection
	syncAct      int64 // last sign of history loading
	lag          map[string]lagging
	pollAt       int64 // start of the last complete reading of the API
	api          apiState
	BootClock    int64
	told         map[string]bool // addresses the detector may know
	mute         bool
	termDelay    int64
	startFault   bool
	lastAll      []jPeer
	foreign      map[*simConn]*Host
	stopPoll     bool
	apixSeq      int
	open         []*inflight
	ending       bool
	onServed     func(c *hconn, n int) // called when a host is asked for a block
}

// W is the simulated world.
var W *World

const eventLimit = 6000

// ev records an event of the run (never draws randomness, never yields).
func (w *World) ev(format string, args ...any) {
	enter()
	s := fmt.Sprintf(format, args...)
	w.EvCount++
	h := strHash(s)
	w.Hash = (w.Hash ^ h ^ uint64(now())) * 1099511628211
	runtime.SimFold(h)
	line := fmt.Sprintf("%10.3f #%d %s", float64(now()-w.Start)/1e9, w.Inc, s)
	w.Events = append(w.Events, line)
	if len(w.Events) > eventLimit {
		w.Events = append(w.Events[:0], w.Events[eventLimit/4:]...)
	}
	if w.trace {
		fmt.Fprintln(os.Stderr, line)
	}
	leave()
}

func (w *World) violate(props, kind, format string, args ...any) {
	enter()
	defer leave()
	msg := fmt.Sprintf(format, args...)
	if w.tentative {
		w.tent = append(w.tent, Violation{Props: strings.Split(props, ","), Kind: kind, Msg: msg})
		return
	}
	props = w.context(props, kind)
	if w.run.Stacks && len(w.Viol) == 0 {
		blockedStacks()
	}
	w.ev("VIOLATION %s %s: %s", props, kind, msg)
	for _, v := range w.Viol {
		if v.Kind == kind && len(w.Viol) > 20 {
			return
		}
	}
	if len(w.Viol) > 60 {
		return
	}
	w.Viol = append(w.Viol, Violation{Props: strings.Split(props, ","), Kind: kind, Msg: msg, T: (now() - w.Start) / ms, Inc: w.Inc})
}

// stateKinds are the violations that consist in untrue or missing data.
var stateKinds = map[string]bool{"unknown_block": true, "unsent_block": true, "height": true, "score": true, "timestamp": true, "generator": true,
	"generators": true, "generators_dup": true, "generators_missing": true, "two_leashes": true, "leash_lost": true, "leash_stranger": true, "leash_unmentioned": true,
	"leashes_dup": true, "leashes_count": true, "forks_leashes": true, "fork_missing": true, "fork_peers": true, "fork_head": true, "lcb": true, "length": true,
	"fork_lcb": true, "fork_longest": true, "longest_flag": true, "fork_dup_peer": true, "fork_dup": true, "active_forks": true, "status_forks": true, "status_peers": true,
	"head_dup": true, "head_block_dup": true, "head_zero": true, "head_moved": true, "head_inner": true, "head_missing": true, "model": true, "lost_update": true,
	"friend_forgotten": true, "hostile_forgiven": true, "hostile_honest": true, "hostile_stranger": true, "friendly_stranger": true, "peer_lost": true,
	"peer_missing": true, "peer_state": true, "peer_identity": true, "peer_version": true, "peer_port": true, "peer_dup": true, "peer_address": true, "score_foreign": true, "score_lost": true, "score_missing": true,
	"friendly": true, "peers_unknown": true, "peers_dup": true, "peers_hostile": true, "peers_port": true, "peers_missing": true, "restart_state": true}

// serviceKinds are the violations that consist in something that does not work.
var serviceKinds = map[string]bool{"api_5xx": true, "api_down": true, "api_json": true, "no_progress": true, "not_connected": true, "conn_missing": true, "conn_stale": true,
	"shutdown_hang": true, "conn_orphan": true, "turn_late": true, "no_ping": true, "dial_missing": true, "dial_connected": true, "dial_dup": true}

// context adds the properties that a violation breaks because of the
// circumstances in which it happens.
func (w *World) context(props, kind string) string {
	add := func(p string) {
		for _, x := range strings.Split(props, ",") {
			if x == p {
				return
			}
		}
		props += "," + p
	}
	state, service := stateKinds[kind], serviceKinds[kind]
	switch w.spec.Scenario {
	case "evil":
		if state || service {
			add("P13")
		}
	case "race":
		if state {
			add("P17")
		}
	case "disk":
		if w.DiskErrs > 0 && (state || service) {
			add("P19")
		}
	}
	if w.Inc > 1 && state {
		add("P05")
	}
	return props
}

// check aborts the run as broken simulator code: never a violation.
func (w *World) broken(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "SIM-ERROR: "+format+"\n", args...)
	runtime.SimExit = nil
	os.Exit(3)
}

func (w *World) link(ip netip.Addr) *Link { return w.linkFor(ip) }

func (w *World) linkFor(ip netip.Addr) *Link {
	l := w.links[ip]
	if l == nil {
		a := ip.As16()
		r := newRng(w.spec.Seed, uint64(w.Inc), strHash(string(a[:])))
		l = &Link{Lat: int64(r.in(1, 80)) * ms, Jit: int64(r.in(0, 40)) * ms, rng: r}
		w.links[ip] = l
	}
	return l
}

// runArgs are the parameters of one run. They reach the process that runs it in
// one padded environment variable, so that its environment and its memory layout
// do not depend on how the run was asked for.
type runArgs struct {
	Spec, Out, State, DB string
	Trace, Full, Stacks  bool
	Resume               bool
}

const (
	runVar  = "SIM_RUN"
	runPad  = 2000
	pathPad = 300
)

// padPath gives a path a fixed length: the lengths of strings decide where
// later objects lie in memory, and with that the iteration order of some maps.
func padPath(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 && len(p) < pathPad {
		return p[:i] + strings.Repeat("/", pathPad-len(p)) + p[i:]
	}
	return p
}

func (a runArgs) env() []string {
	b, err := json.Marshal(&a)
	if err != nil || len(b) > runPad {
		os.Stderr.WriteString("SIM-ERROR: bad run arguments\n")
		os.Exit(3)
	}
	return []string{runVar + "=" + string(b) + strings.Repeat(" ", runPad-len(b))}
}

// ask turns the environment variables of a request into the specification file
// of the run and starts it: SIM_SPEC names a specification, or SIM_PROP and
// SIM_SEED say which one to generate.
func ask() {
	fail := func(err error) {
		os.Stderr.WriteString("SIM-ERROR: " + err.Error() + "\n")
		os.Exit(3)
	}
	var spec Spec
	if p := os.Getenv("SIM_SPEC"); p != "" {
		b, err := os.ReadFile(p)
		if err == nil {
			err = json.Unmarshal(b, &spec)
		}
		if err != nil {
			fail(err)
		}
	} else {
		var seed uint64
		if _, err := fmt.Sscan(os.Getenv("SIM_SEED"), &seed); err != nil {
			fail(err)
		}
		spec = generate(os.Getenv("SIM_PROP"), seed)
	}
	b, err := json.Marshal(&spec)
	if err != nil {
		fail(err)
	}
	if os.Getenv("SIM_GEN") != "" {
		os.Stdout.Write(b)
		os.Exit(0)
	}
	a := runArgs{Out: padPath(os.Getenv("SIM_OUT")), State: padPath(os.Getenv("SIM_STATE")), DB: padPath(os.Getenv("SIM_DB")),
		Trace: os.Getenv("SIM_TRACE") != "", Full: os.Getenv("SIM_FULL") != "", Stacks: os.Getenv("SIM_STACKS") != ""}
	if a.State == "" {
		fail(errors.New("SIM_STATE is not set"))
	}
	a.Spec = padPath(os.Getenv("SIM_STATE") + ".spec")
	if err := os.WriteFile(a.Spec, b, 0o600); err != nil {
		fail(err)
	}
	exe, err := os.Executable()
	if err != nil {
		fail(err)
	}
	fail(syscall.Exec(exe, []string{"simfd"}, a.env()))
}

// Boot is called from the program's init in simulator builds.
func Boot() {
	run := os.Getenv(runVar)
	if run == "" {
		if os.Getenv("SIM_SPEC") != "" || os.Getenv("SIM_PROP") != "" {
			ask()
		}
		return
	}
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
	time.Local = time.UTC
	w := &World{byIP: map[netip.Addr]*Host{}, listeners: map[int]*simListener{}, links: map[netip.Addr]*Link{},
		taps: map[*simConn]*hconn{}, syncs: map[string]*syncTrack{}, foreign: map[*simConn]*Host{}}
	W = w
	if err := json.Unmarshal([]byte(run), &w.run); err != nil {
		w.broken("run: %v", err)
	}
	var spec Spec
	b, err := os.ReadFile(w.run.Spec)
	if err == nil {
		err = json.Unmarshal(b, &spec)
	}
	if err != nil {
		w.broken("spec: %v", err)
	}
	w.spec = &spec
	w.outPath, w.statePath, w.trace = w.run.Out, w.run.State, w.run.Trace
	w.u = buildUniverse(&spec)
	if w.run.Resume {
		b, err := os.ReadFile(w.statePath)
		if err == nil {
			err = gob.NewDecoder(bytes.NewReader(b)).Decode(&w.Saved)
		}
		if err != nil {
			w.broken("state: %v", err)
		}
	} else {
		w.Saved = Saved{Start: now(), Disks: map[string]*Disk{}, Faults: map[string]int64{}, Probes: map[string]int64{},
			Hash: 14695981039346656037, Vars: map[string]int64{}}
		w.Saved.Clock = now()
		w.Hist.init()
	}
	w.fixMaps()
	w.Inc++
	w.rng = newRng(spec.Seed, 5, uint64(w.Inc))
	w.diskRng = newRng(spec.Seed, 6, uint64(w.Inc))
	w.ReadDelay = int64(w.arg("readslow", 0)) * 1000
	w.setupHosts()
	w.ports()
	net.SimDial = simDial
	net.SimListen = simListen
	storage.SimOpen = simOpenStorage
	opt.SimWriteBuffer, opt.SimBlockCache, opt.SimBlockSize = spec.Knobs[0], spec.Knobs[1], spec.Knobs[2]
	dir := w.run.DB
	if dir == "" {
		dir = os.TempDir()
	}
	os.Args = append([]string{"fd", "-db", dir}, w.flags()...)
	sc := spec.Sched
	sc.Seed = mix(spec.Seed*0x9e3779b97f4a7c15 + uint64(w.Inc)*77777)
	runtime.SimExit = w.onExit
	runtime.SimSetClock(w.Clock)
	runtime.SimSetWallOffset(w.WallOff)
	runtime.SimStart(sc)
	w.ev("start incarnation %d after %q", w.Inc, w.LastKill)
	go w.driver()
}

func (w *World) fixMaps() {
	if w.Disks == nil {
		w.Disks = map[string]*Disk{}
	}
	if w.Faults == nil {
		w.Faults = map[string]int64{}
	}
	if w.Probes == nil {
		w.Probes = map[string]int64{}
	}
	if w.Vars == nil {
		w.Vars = map[string]int64{}
	}
	for _, d := range w.Disks {
		if d.Files == nil {
			d.Files = map[storage.FileDesc][]byte{}
		}
	}
	w.Hist.init()
}

// onExit receives the end of the program's main function or os.Exit.
func (w *World) onExit(code int) {
	enter()
	w.ev("sut exit code %d", code)
	w.sutExited(code)
}

// restart ends this process image the way kind says and starts the next one
// after delay (ms of simulated time).
func (w *World) restart(kind string, delay int64) {
	enter()
	w.ev("restart kind=%s delay=%dms", kind, delay)
	w.Faults["restart_"+kind]++
	w.LastKill = kind
	if w.WriteErr {
		w.Hist.DiskBad = true // what could not be written is unknown from here on
	}
	w.Hist.ReadBad = w.Hist.ReadBad || w.DiskErrAny
	w.Hist.restarted(kind)
	if kind == "power" {
		r := newRng(w.spec.Seed, 8, uint64(w.Inc))
		for _, p := range sortedKeys(w.Disks) {
			w.Disks[p].powerLoss(r)
		}
	} else {
		for _, d := range w.Disks {
			d.flush()
		}
	}
	for _, d := range w.Disks {
		if !d.HasMeta && len(d.Files) > 0 {
			// The database library does not survive an end in the middle of creating
			// a database (there is nothing in it yet): as if it had not begun.
			d.Files = map[storage.FileDesc][]byte{}
			w.Probes["ended_in_creation"]++
		}
	}
	for _, p := range w.Hist.Peers {
		if now()-p.EndAt <= w.slack() {
			p.EndLost = true // an end just before the process died may not have been recorded
		}
	}
	w.Clock = now() + delay*ms
	w.saveHosts()
	w.addStats()
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(&w.Saved); err != nil {
		w.broken("encode: %v", err)
	}
	if w.statePath == "" {
		w.broken("no state file for a restart")
	}
	if err := os.WriteFile(w.statePath, buf.Bytes(), 0o600); err != nil {
		w.broken("state: %v", err)
	}
	exe, _ := os.Executable()
	w.run.Resume = true
	err := syscall.Exec(exe, []string{"simfd"}, w.run.env())
	w.broken("exec: %v", err)
}

func (w *World) addStats() {
	s := runtime.SimStats()
	w.Stat.Picks += s.Picks
	w.Stat.Yields += s.Yields
	w.Stat.Reorders += s.Reorders
	w.Stat.Freezes += s.Freezes
	w.Stat.Jumps += s.Jumps
	w.Stat.Hash = (w.Stat.Hash ^ s.Hash) * 1099511628211
	if s.MaxRunnable > w.Stat.MaxRunnable {
		w.Stat.MaxRunnable = s.MaxRunnable
	}
}

// Result is what one run reports.
type Result struct {
	Seed       uint64           `json:"seed"`
	Prop       string           `json:"prop"`
	Scenario   string           `json:"scenario"`
	Violations []Violation      `json:"violations"`
	Faults     map[string]int64 `json:"faults"`
	Probes     map[string]int64 `json:"probes"`
	Hash       string           `json:"hash"`
	SchedHash  string           `json:"sched_hash"`
	SimMS      int64            `json:"sim_ms"`
	Picks      int64            `json:"picks"`
	Yields     int64            `json:"yields"`
	Reorders   int64            `json:"reorders"`
	Freezes    int64            `json:"freezes"`
	Inc        int              `json:"incarnations"`
	Events     int64            `json:"events"`
	Spec       json.RawMessage  `json:"spec,omitempty"`
	Trace      []string         `json:"trace,omitempty"`
	Log        string           `json:"log,omitempty"`
}

// finish writes the result and ends the process.
func (w *World) finish() {
	enter()
	w.addStats()
	r := Result{Seed: w.spec.Seed, Prop: w.spec.Prop, Scenario: w.spec.Scenario, Violations: w.Viol, Faults: w.Faults, Probes: w.Probes,
		Hash: fmt.Sprintf("%016x", w.Hash), SchedHash: fmt.Sprintf("%016x", w.Stat.Hash), SimMS: (now() - w.Start) / ms,
		Picks: w.Stat.Picks, Yields: w.Stat.Yields, Reorders: w.Stat.Reorders, Inc: w.Inc, Events: w.EvCount}
	r.Freezes = w.Stat.Freezes
	if w.Stat.Freezes > 0 {
		w.Faults["goroutine_pause"] = w.Stat.Freezes
	}
	if len(w.Viol) > 0 || w.run.Full {
		r.Spec, _ = os.ReadFile(w.run.Spec)
		r.Trace = w.Events
	}
	b, err := json.Marshal(&r)
	if err != nil {
		w.broken("result: %v", err)
	}
	if w.outPath != "" {
		if err := os.WriteFile(w.outPath, b, 0o644); err != nil {
			w.broken("result: %v", err)
		}
	} else {
		os.Stdout.Write(append(b, '\n'))
	}
	syscall.Exit(0)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func (w *World) rel() int64 { return (now() - w.Start) / ms }
