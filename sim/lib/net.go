package sim

import (
	"context"
	"errors"
	"io"
	"net"
	"net/netip"
	"os"
	"runtime"
	"syscall"
	"time"
)

// The simulated network: TCP-like byte streams between the system under test
// (one host) and the simulated hosts. Order within a stream is kept (it is
// TCP); latency, jitter, fragmentation, partitions, stalls, resets, refused and
// black-holed connection attempts and back-pressure are simulated.

func enter() { runtime.SimAtomicBegin() }
func leave() { runtime.SimAtomicEnd() }

func now() int64 { return runtime.SimClock() }

const ms = int64(time.Millisecond)
const sec = int64(time.Second)

type seg struct {
	at int64
	b  []byte
}

type stream struct {
	segs     []seg
	buffered int
	window   int
	lastAt   int64
	eofAt    int64
	rstAt    int64
	rclosed  bool // reader is gone
	wclosed  bool
	waiters  []chan struct{}
	chop     int // largest read, 0 for no limit
	consumed int64
	readAt   int64 // last read
	written  int64
}

func (s *stream) wake() {
	for _, c := range s.waiters {
		close(c)
	}
	s.waiters = nil
}

// wait blocks until woken or until time t (0: no limit). Called inside enter;
// returns inside enter.
func (s *stream) wait(t int64) {
	c := make(chan struct{})
	s.waiters = append(s.waiters, c)
	leave()
	if t == 0 {
		<-c
	} else if d := t - now(); d > 0 {
		tm := time.NewTimer(time.Duration(d))
		select {
		case <-c:
		case <-tm.C:
		}
		tm.Stop()
	}
	enter()
}

// Link is the simulated path between the system under test and one host.
type Link struct {
	Lat, Jit   int64 // ns, one way
	CutUntil   int64 // black hole until then
	StallUntil int64 // host does not read until then
	Window     int
	Chop       int
	rng        *rng
}

func (l *Link) delay() int64 {
	d := l.Lat
	if l.Jit > 0 {
		d += int64(l.rng.u64() % uint64(l.Jit))
	}
	t := now() + d
	if l.CutUntil > now() {
		t = l.CutUntil + d + int64(l.rng.u64()%uint64(200*ms))
		W.Faults["net_blackholed_segment"]++
	}
	return t
}

// hurry lets everything that a partition held back arrive by time t.
func (s *stream) hurry(t int64) {
	for i := range s.segs {
		s.segs[i].at = min(s.segs[i].at, t)
	}
	s.lastAt = min(s.lastAt, t)
	s.eofAt = min(s.eofAt, t)
	s.rstAt = min(s.rstAt, t)
	s.wake()
}

type simConn struct {
	id            int
	local, remote *net.TCPAddr
	in, out       *stream
	link          *Link
	rdl, wdl      int64
	closed        bool
	peer          *simConn
	sut           bool // this end belongs to the system under test
	onClose       func()
	rec           *[]byte
	hsDone        bool   // the handshake of the peer has been read
	hsBuf         []byte // or the part of it read so far
}

func opErr(op string, c *simConn, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *simConn) Read(b []byte) (int, error) {
	enter()
	defer leave()
	if len(b) == 0 {
		return 0, nil
	}
	for {
		t := now()
		if c.closed {
			return 0, opErr("read", c, net.ErrClosed)
		}
		if c.in.rstAt != 0 && t >= c.in.rstAt {
			return 0, opErr("read", c, syscall.ECONNRESET)
		}
		if c.rdl != 0 && t >= c.rdl {
			return 0, opErr("read", c, os.ErrDeadlineExceeded)
		}
		if len(c.in.segs) > 0 && c.in.segs[0].at <= t {
			n := 0
			lim := len(b)
			if c.in.chop > 0 && lim > c.in.chop {
				lim = 1 + int(c.link.rng.u64()%uint64(c.in.chop))
				W.Faults["net_short_read"]++
			}
			for n < lim && len(c.in.segs) > 0 && c.in.segs[0].at <= t {
				k := copy(b[n:lim], c.in.segs[0].b)
				n += k
				if k == len(c.in.segs[0].b) {
					c.in.segs = c.in.segs[1:]
				} else {
					c.in.segs[0].b = c.in.segs[0].b[k:]
				}
			}
			c.in.buffered -= n
			c.in.consumed += int64(n)
			c.in.readAt = t
			c.in.wake()
			if c.sut && !c.hsDone {
				W.tapRead(c, b[:n])
			}
			if h := W.taps[c]; h != nil {
				for len(h.inflight) > 0 && h.inflight[0].end <= c.in.consumed {
					m := h.inflight[0].m
					h.inflight = h.inflight[1:]
					W.onSutRead(h, m)
				}
			}
			return n, nil
		}
		if len(c.in.segs) == 0 && c.in.eofAt != 0 && t >= c.in.eofAt {
			return 0, io.EOF
		}
		w := int64(0)
		upd := func(x int64) {
			if x != 0 && (w == 0 || x < w) {
				w = x
			}
		}
		upd(c.rdl)
		upd(c.in.rstAt)
		if len(c.in.segs) > 0 {
			upd(c.in.segs[0].at)
		} else {
			upd(c.in.eofAt)
		}
		c.in.wait(w)
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	enter()
	defer leave()
	n := 0
	tapped := !c.sut
	for {
		t := now()
		if c.closed {
			return n, opErr("write", c, net.ErrClosed)
		}
		if c.out.rstAt != 0 && t >= c.out.rstAt || c.in.rstAt != 0 && t >= c.in.rstAt {
			return n, opErr("write", c, syscall.ECONNRESET)
		}
		if c.wdl != 0 && t >= c.wdl {
			return n, opErr("write", c, os.ErrDeadlineExceeded)
		}
		if c.out.rclosed && len(b) > 0 {
			// The other end is gone: the first write provokes a reset.
			c.out.rstAt = t + c.link.Lat
			c.in.rstAt = c.out.rstAt
			c.in.wake()
			return n + len(b), nil
		}
		if len(b) == 0 {
			return n, nil
		}
		if !tapped {
			tapped = true
			W.tapWrite(c, b)
		}
		room := c.out.window - c.out.buffered
		if room <= 0 {
			W.Faults["net_backpressure"]++
			if c.sut {
				W.backpressure = now()
			}
			c.out.wait(c.wdl)
			continue
		}
		k := len(b)
		if k > room {
			k = room
		}
		at := c.link.delay()
		if at < c.out.lastAt {
			at = c.out.lastAt
		}
		c.out.lastAt = at
		if c.rec != nil {
			*c.rec = append(*c.rec, b[:k]...)
		}
		c.out.segs = append(c.out.segs, seg{at, append([]byte(nil), b[:k]...)})
		c.out.buffered += k
		c.out.written += int64(k)
		c.out.wake()
		b = b[k:]
		n += k
		if len(b) == 0 {
			return n, nil
		}
	}
}

func (c *simConn) Close() error {
	enter()
	defer leave()
	return c.closeLocked()
}

func (c *simConn) closeLocked() error {
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.closed = true
	at := c.link.delay()
	if at < c.out.lastAt {
		at = c.out.lastAt
	}
	if c.out.eofAt == 0 {
		c.out.eofAt = at
	}
	c.in.rclosed = true
	c.in.wake()
	c.out.wake()
	if c.onClose != nil {
		c.onClose()
	}
	return nil
}

// reset aborts the connection in both directions.
func (c *simConn) reset() {
	enter()
	defer leave()
	t := now() + 1
	for _, s := range []*stream{c.in, c.out} {
		if s.rstAt == 0 {
			s.rstAt = t
		}
		s.wake()
	}
}

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }

func dlNano(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := time.Until(t)
	x := now() + int64(d)
	if x <= 0 {
		x = 1
	}
	return x
}

func (c *simConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	enter()
	defer leave()
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.rdl = dlNano(t)
	c.in.wake()
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	enter()
	defer leave()
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.wdl = dlNano(t)
	c.out.wake()
	return nil
}

// newPair creates a connection between the system under test (first result)
// and a simulated host (second result).
func newPair(sutAddr, hostAddr *net.TCPAddr, l *Link) (*simConn, *simConn) {
	W.connSeq++
	win := l.Window
	if win == 0 {
		win = 128 << 10
	}
	a := &stream{window: win} // host -> SUT
	b := &stream{window: win} // SUT -> host
	a.chop = l.Chop           // short reads at the SUT
	sc := &simConn{id: W.connSeq, local: sutAddr, remote: hostAddr, in: a, out: b, link: l, sut: true}
	hc := &simConn{id: W.connSeq, local: hostAddr, remote: sutAddr, in: b, out: a, link: l}
	sc.peer, hc.peer = hc, sc
	W.sutConns = append(W.sutConns, sc)
	return sc, hc
}

type simListener struct {
	addr    *net.TCPAddr
	queue   []*simConn
	s       stream
	closed  bool
	errs    int
	netname string
}

func (l *simListener) Accept() (net.Conn, error) {
	enter()
	defer leave()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if l.errs > 0 {
			l.errs--
			W.Faults["net_accept_error"]++
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: syscall.EMFILE}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			W.onAccepted(c)
			return c, nil
		}
		l.s.wait(0)
	}
}

func (l *simListener) Close() error {
	enter()
	defer leave()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	delete(W.listeners, l.addr.Port)
	for _, c := range l.queue {
		_ = c.closeLocked()
	}
	l.s.wake()
	W.ev("sut closed listener port=%d", l.addr.Port)
	return nil
}

func (l *simListener) Addr() net.Addr { return l.addr }

func simListen(_ context.Context, network, address string) (net.Listener, error) {
	enter()
	defer leave()
	ap, err := netip.ParseAddrPort(address)
	if err != nil {
		return nil, err
	}
	p := int(ap.Port())
	if W.ListenErrs > 0 {
		W.ListenErrs--
		W.Faults["net_listen_error"]++
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRINUSE}
	}
	port := map[int]string{W.apiPort: "api", W.netPort: "net"}[p]
	if b := W.config().Busy; b != "" && b == port {
		W.Faults["net_listen_error"]++
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRINUSE}
	}
	if ip := ap.Addr().Unmap(); !ip.IsUnspecified() && !ip.IsLoopback() && ip != netip.AddrFrom4([4]byte{10, 0, 0, 1}) {
		W.Faults["net_listen_error"]++
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRNOTAVAIL}
	}
	if W.listeners[p] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRINUSE}
	}
	l := &simListener{addr: &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: p}}
	W.listeners[p] = l
	W.ev("sut listens on port %d", p)
	return l, nil
}

// dialSUT connects a simulated host to the system under test.
func dialSUT(from netip.Addr, port int, l *Link, cb func(sc, hc *simConn)) (*simConn, error) {
	enter()
	defer leave()
	t := l.delay()
	leave()
	time.Sleep(time.Duration(t - now()))
	enter()
	ln := W.listeners[port]
	if ln == nil {
		return nil, syscall.ECONNREFUSED
	}
	W.portSeq++
	sc, hc := newPair(&net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: port},
		&net.TCPAddr{IP: net.IP(from.AsSlice()), Port: 20000 + W.portSeq%40000}, l)
	if cb != nil {
		cb(sc, hc)
	}
	ln.queue = append(ln.queue, sc)
	ln.s.wake()
	return hc, nil
}

// simDial is every outbound connection attempt of the system under test.
func simDial(ctx context.Context, network, address string) (net.Conn, error) {
	enter()
	defer leave()
	ap, err := netip.ParseAddrPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	raddr := net.TCPAddrFromAddrPort(ap)
	d := W.dialBegin(ap)
	fail := func(err error) (net.Conn, error) {
		W.dialEnd(d, nil, err)
		return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: err}
	}
	l := W.linkFor(ap.Addr())
	if h := W.byIP[ap.Addr().Unmap()]; h != nil && h.Cross {
		h.cross()
	}
	try := int64(0)
	backoff := sec
	for {
		blackhole, refuse, h := W.dialTarget(ap)
		if !blackhole {
			rtt := 2*l.Lat + 1
			if l.Jit > 0 {
				rtt += int64(l.rng.u64() % uint64(l.Jit))
			}
			if err := sleepCtx(ctx, rtt); err != nil {
				return fail(err)
			}
			if refuse {
				W.Faults["net_refused"]++
				return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
			}
			W.portSeq++
			sc, hc := newPair(&net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 20000 + W.portSeq%40000}, raddr, l)
			W.dialEnd(d, sc, nil)
			if h == nil {
				W.crowdAccept(ap, hc, sc)
				return sc, nil
			}
			h.accept(hc, sc, d)
			return sc, nil
		}
		W.Faults["net_syn_lost"]++
		if err := sleepCtx(ctx, backoff); err != nil {
			return fail(err)
		}
		try++
		backoff *= 2
		if try > 6 {
			return fail(os.NewSyscallError("connect", syscall.ETIMEDOUT))
		}
	}
}

// sleepCtx is called inside enter.
func sleepCtx(ctx context.Context, d int64) error {
	leave()
	defer enter()
	tm := time.NewTimer(time.Duration(d))
	defer tm.Stop()
	select {
	case <-tm.C:
		return nil
	case <-ctx.Done():
		if errors.Is(ctx.Err(), context.DeadlineExceeded) {
			return os.ErrDeadlineExceeded
		}
		return errors.New("operation was canceled")
	}
}
