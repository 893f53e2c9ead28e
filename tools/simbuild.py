#!/usr/bin/env python3
"""Build the simulated fork detector from /repo's working tree.

Usage: simbuild.py OUTDIR [REPO]

Generates, in OUTDIR: patched copies of a few Go runtime/std files, an overlay
file, a go.mod with replace lines, a patched copy of goleveldb, and the binary
OUTDIR/simfd. Nothing is written in /repo.
"""
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(os.path.dirname(HERE), "sim")
GOROOT = "/opt/veriftools/go1.26.10"


class PatchError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT=GOROOT, PATH=GOROOT + "/bin:" + os.environ.get("PATH", ""), GOTOOLCHAIN="local",
             GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on", CGO_ENABLED="0", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), GOSUMDB="off")
    e.pop("GOEXPERIMENT", None)
    return e


def sub1(text, old, new, where):
    if text.count(old) != 1:
        raise PatchError("%s: anchor occurs %d times: %r" % (where, text.count(old), old[:80]))
    return text.replace(old, new)


class Overlay:
    def __init__(self, out):
        self.out = out
        self.rep = {}
        os.makedirs(os.path.join(out, "ov"), exist_ok=True)

    def put(self, target, text):
        name = target.strip("/").replace("/", "__")
        p = os.path.join(self.out, "ov", name)
        with open(p, "w") as f:
            f.write(text)
        self.rep[target] = p

    def patch(self, rel, subs):
        target = os.path.join(GOROOT, "src", rel)
        with open(target) as f:
            t = f.read()
        for old, new in subs:
            t = sub1(t, old, new, rel)
        self.put(target, t)


def build_overlay(out, repo):
    ov = Overlay(out)
    src = os.path.join(GOROOT, "src")
    rd = lambda n: open(os.path.join(SIM, "overlay", n)).read()
    ov.put(src + "/runtime/time_fake.go", rd("runtime_time_fake.go.txt"))
    ov.put(src + "/runtime/zsim.go", rd("runtime_sim.go.txt"))
    ov.patch("runtime/proc.go", [
        ("	now, pollUntil, _ := pp.timers.check(0, nil)\n\n	// Try to schedule the trace reader.",
         "	now, pollUntil, _ := pp.timers.check(0, nil)\n"
         "	if simOn {\n		if gp := simPick(pp); gp != nil {\n			return gp, false, false\n		}\n"
         "		if simIdle(pp) {\n			goto top\n		}\n	}\n\n	// Try to schedule the trace reader."),
        ("	newg.goid = pp.goidcache\n", "	newg.goid = pp.goidcache\n	newg.simMark = callergp != nil && callergp.simMark\n"),
        ("	if procresize(procs) != nil {", "	procs = 1\n	if procresize(procs) != nil {"),
        ('const haveSysmon = GOARCH != "wasm"', "const haveSysmon = false"),
        ("	fn := main_main // make", "	simInMain = true\n	fn := main_main // make"),
        ("	if !exitHooksRun {\n		runExitHooks(0)\n	}\n	if raceenabled {\n		racefini() // does not return\n	}\n\n	exit(0)\n	for {",
         "	if SimExit != nil {\n		SimExit(0)\n	}\n	if !exitHooksRun {\n		runExitHooks(0)\n	}\n	if raceenabled {\n		racefini() // does not return\n	}\n\n	exit(0)\n	for {"),
        ("func preemptone(pp *p) bool {\n	mp := pp.m.ptr()\n", "var simInMain bool\n\nfunc preemptone(pp *p) bool {\n	if simOn {\n		return false\n	}\n	mp := pp.m.ptr()\n"),
    ])
    ov.patch("runtime/runtime2.go", [
        ("	goid         uint64\n", "	goid         uint64\n	simMark      bool // belongs to the simulator\n"),
    ])
    ov.patch("runtime/rand.go", [
        ("	seed := &globalRand.seed\n", "	seed := &globalRand.seed\n	for i := range startupRand {\n		startupRand[i] = byte(i*7 + 1)\n	}\n"),
        ("func rand() uint64 {\n", "func rand() uint64 {\n	if simOn && getg() == getg().m.curg {\n		return simNext(&simRandSt)\n	}\n"),
        ("func cheaprand() uint32 {\n	mp := getg().m\n", "func cheaprand() uint32 {\n	mp := getg().m\n	if simOn && getg() == mp.curg {\n		return uint32(simNext(&simRandSt) >> 32)\n	}\n"),
    ])
    ov.patch("runtime/malloc.go", [
        ("func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n",
         "func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n	if simOn {\n		simYieldAlloc()\n	}\n"),
    ])
    ov.patch("runtime/chan.go", [
        ("func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n	simYieldSync()\n"),
        ("func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n	simYieldSync()\n"),
        ("func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n	simYieldSync()\n"),
        ("func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n	simYieldSync()\n"),
        ("func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n", "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n	simYieldSync()\n"),
        ("func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n", "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n	simYieldSync()\n"),
    ])
    ov.patch("runtime/select.go", [
        ("func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n",
         "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n	simYieldSync()\n"),
    ])
    ov.patch("internal/sync/runtime.go", [
        ("//go:linkname runtime_nanotime\nfunc runtime_nanotime() int64\n", "//go:linkname runtime_nanotime\nfunc runtime_nanotime() int64\n\n//go:linkname simYield\nfunc simYield()\n"),
    ])
    ov.patch("internal/sync/mutex.go", [
        ("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n	simYield()\n"),
        ("func (m *Mutex) Unlock() {\n", "func (m *Mutex) Unlock() {\n	defer simYield()\n"),
    ])
    ov.patch("sync/runtime.go", [
        ("func throw(string)\n", "func throw(string)\n\n//go:linkname simYield\nfunc simYield()\n"),
    ])
    ov.patch("sync/rwmutex.go", [
        ("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	simYield()\n"),
        ("func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n	defer simYield()\n"),
        ("func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n	simYield()\n"),
        ("func (rw *RWMutex) Unlock() {\n", "func (rw *RWMutex) Unlock() {\n	defer simYield()\n"),
    ])
    ov.patch("crypto/internal/sysrand/rand.go", [
        ("func Read(b []byte) {\n", "//go:linkname simRead\nfunc simRead(b []byte)\n\nfunc Read(b []byte) {\n	if true {\n		simRead(b)\n		return\n	}\n"),
    ])
    ov.patch("os/proc.go", [
        ("	runtime_beforeExit(code)\n\n	syscall.Exit(code)", "	if runtime.SimExit != nil {\n		runtime.SimExit(code)\n	}\n	runtime_beforeExit(code)\n\n	syscall.Exit(code)"),
    ])
    ov.patch("os/sys.go", [
        ("func Hostname() (name string, err error) {\n	return hostname()", "func Hostname() (name string, err error) {\n	return \"simhost\", nil"),
    ])
    ov.patch("os/signal/signal_unix.go", [
        ("func loop() {\n", "// SimDeliver delivers a signal in simulator builds.\nfunc SimDeliver(sig os.Signal) bool {\n	n, ok := signum(sig), false\n	handlers.Lock()\n	for _, h := range handlers.m {\n		ok = ok || h.want(n)\n	}\n	handlers.Unlock()\n	if ok {\n		process(sig)\n	}\n	return ok\n}\n\nfunc loop() {\n"),
        ("func init() {\n	watchSignalLoop = loop\n}", "func init() {\n	_ = loop\n}"),
        ("	signal_enable(uint32(sig))", "	_ = signal_enable"),
        ("	signal_disable(uint32(sig))", "	_ = signal_disable"),
        ("	signal_ignore(uint32(sig))", "	_ = signal_ignore"),
    ])
    t = open(src + "/os/signal/signal.go").read()
    t = sub1(t, "func signalWaitUntilIdle()\n", "func signalWaitUntilIdle()\n\nfunc simWaitUntilIdle() {}\n", "signal.go")
    t = t.replace("	signalWaitUntilIdle()\n", "	simWaitUntilIdle()\n")
    ov.put(src + "/os/signal/signal.go", t)
    ov.patch("net/dial.go", [
        ("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
         "// SimDial and SimListen, when set, replace the network (simulator builds).\nvar (\n"
         "	SimDial   func(ctx context.Context, network, address string) (Conn, error)\n"
         "	SimListen func(ctx context.Context, network, address string) (Listener, error)\n)\n\n"
         "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n"
         "	if SimDial != nil {\n		ctx, cancel := d.dialCtx(ctx)\n		defer cancel()\n		return SimDial(ctx, network, address)\n	}\n"),
        ("func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
         "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n"
         "	if SimListen != nil {\n		return SimListen(ctx, network, address)\n	}\n"),
    ])
    ov.put(os.path.join(repo, "zz_verif_sim_boot.go"), open(os.path.join(SIM, "overlay", "main_boot.go.txt")).read())
    with open(os.path.join(out, "overlay.json"), "w") as f:
        json.dump({"Replace": ov.rep}, f, indent=1)


def prepare_mods(out, repo):
    mod = open(os.path.join(repo, "go.mod")).read()
    m = re.search(r"github.com/syndtr/goleveldb (\S+)", mod)
    if not m:
        raise PatchError("goleveldb not in go.mod")
    lsrc = "/root/go/pkg/mod/github.com/syndtr/goleveldb@" + m.group(1)
    ldst = os.path.join(out, "goleveldb")
    if os.path.isdir(ldst):
        shutil.rmtree(ldst)
    shutil.copytree(lsrc, ldst)
    subprocess.run(["chmod", "-R", "u+w", ldst], check=True)
    p = os.path.join(ldst, "leveldb/storage/file_storage.go")
    t = open(p).read()
    t = sub1(t, "func OpenFile(path string, readOnly bool) (Storage, error) {\n",
             "func OpenFile(path string, readOnly bool) (Storage, error) {\n	if SimOpen != nil {\n		return SimOpen(path, readOnly)\n	}\n", p)
    t += "\n// SimOpen, when set, replaces the file system (simulator builds).\nvar SimOpen func(path string, readOnly bool) (Storage, error)\n"
    open(p, "w").write(t)
    p = os.path.join(ldst, "leveldb/opt/options.go")
    t = open(p).read()
    t += "\n// Sim knobs: non-zero values replace defaults (simulator builds).\nvar SimWriteBuffer, SimBlockCache, SimBlockSize, SimTableSize int\n"
    for fn, var in (("GetWriteBuffer", "SimWriteBuffer"), ("GetBlockCacheCapacity", "SimBlockCache"), ("GetBlockSize", "SimBlockSize")):
        a = "func (o *Options) %s() int {\n" % fn
        t = sub1(t, a, a + "	if %s != 0 {\n		return %s\n	}\n" % (var, var), p)
    open(p, "w").write(t)
    # go.mod for the build: the repository's requirements plus the simulator.
    mod += "\nrequire verif.local/sim v0.0.0\n"
    mod += "\nreplace verif.local/sim => %s\n" % os.path.join(SIM, "lib")
    mod += "\nreplace github.com/syndtr/goleveldb => %s\n" % ldst
    open(os.path.join(out, "gen.mod"), "w").write(mod)
    s = open(os.path.join(repo, "go.sum")).read()
    extra = os.path.join(SIM, "extra.sum")
    if os.path.exists(extra):
        s += open(extra).read()
    open(os.path.join(out, "gen.sum"), "w").write(s)


def build(out, repo="/repo", quiet=True):
    os.makedirs(out, exist_ok=True)
    t0 = time.time()
    build_overlay(out, repo)
    prepare_mods(out, repo)
    binp = os.path.join(out, "simfd")
    cmd = [GOROOT + "/bin/go", "build", "-tags", "faketime", "-overlay", os.path.join(out, "overlay.json"),
           "-modfile", os.path.join(out, "gen.mod"), "-buildvcs=false", "-trimpath", "-o", binp, "."]
    r = subprocess.run(cmd, cwd=repo, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise PatchError("go build failed:\n" + r.stdout)
    return binp, time.time() - t0


if __name__ == "__main__":
    try:
        b, dt = build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/repo")
        print("%s built in %.1fs" % (b, dt))
    except PatchError as e:
        print("simbuild:", e, file=sys.stderr)
        sys.exit(3)
