package main

import (
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

// door is one address a server listens on.
type door struct {
	mode    string // framed, raw, udp
	network string
	addr    string
	buf     int // udp buffer size, 0 for the default
	tls     bool
}

func (d door) String() string {
	s := d.mode + "/" + d.network
	if d.tls {
		s += "/tls"
	}
	if d.buf > 0 {
		s += fmt.Sprintf("/buf%d", d.buf)
	}
	return s
}

// fopt are the server options a fleet runs with.
type fopt struct {
	pool, bcast, onMsg, tls, auth bool
	hb                            time.Duration
	kinds                         []string
}

func (o fopt) String() string {
	return fmt.Sprintf("%s pool=%v bcast=%v onMessage=%v hb=%v auth=%v", strings.Join(o.kinds, "+"), o.pool, o.bcast, o.onMsg, o.hb, o.auth)
}

// fconn is the server's view of one connection.
type fconn struct {
	ctx    *tcpx.Context
	peer   string
	opens  int32
	closes int32
	beats  int32
	ref    *hbRef
}

// fleet is a server listening on several addresses, with its observers.
type fleet struct {
	r     *Rep
	opt   fopt
	X     *tcpx.TcpX
	doors []*door
	calls []chan struct{} // closed when the listen call returns

	mu    sync.Mutex
	conns map[string]*fconn // by peer address (stream transports); unix peers by arrival
	order []*fconn

	opened, closed int64
	handled        sync.Map // body -> *int32, frames and raw lines seen
	hook           atomic.Value
	pool           atomic.Value // *tcpx.ClientPool, once somebody went online
	lenient        bool
	onOpen         func(c *tcpx.Context)
	onGone         func(c *tcpx.Context)
}

const (
	fHook   = 70 // runs the installed hook
	fOnline = 71 // goes online under the body as name
	fSlow   = 72 // parks until released
	fPush   = 73 // answers with a large reply
)

// newDoor makes an address of the given kind.
func (r *Rep) newDoor(kind string) *door {
	switch kind {
	case "udp", "udp4":
		return &door{mode: "udp", network: kind, addr: nextAddr()}
	case "udpbuf":
		return &door{mode: "udp", network: "udp", addr: nextAddr(), buf: 128}
	case "raw", "raw4":
		return &door{mode: "raw", network: strings.Replace(kind, "raw", "tcp", 1), addr: nextAddr()}
	case "rawunix":
		return &door{mode: "raw", network: "unix", addr: sockPath()}
	case "unix", "unixpacket":
		return &door{mode: "framed", network: kind, addr: sockPath()}
	case "unixgram":
		return &door{mode: "udp", network: kind, addr: sockPath()}
	case "tcp6":
		return &door{mode: "framed", network: kind, addr: fmt.Sprintf("[::1]:%d", freePort6(r))}
	case "udp6":
		return &door{mode: "udp", network: kind, addr: fmt.Sprintf("[::1]:%d", freePort6(r))}
	case "udpall":
		return &door{mode: "udp", network: "udp", addr: fmt.Sprintf(":%d", freePort6(r))}
	case "tcpall": // all interfaces
		return &door{mode: "framed", network: "tcp", addr: fmt.Sprintf(":%d", freePort6(r))}
	}
	return &door{mode: "framed", network: kind, addr: nextAddr()}
}

func (f *fleet) get(c *tcpx.Context) *fconn {
	v, ok := c.GetCtxPerConn("fconn")
	if !ok {
		return nil
	}
	return v.(*fconn)
}

func (f *fleet) poolRef() *tcpx.ClientPool {
	p, _ := f.pool.Load().(*tcpx.ClientPool)
	return p
}

func (f *fleet) note(b string) {
	v, _ := f.handled.LoadOrStore(b, new(int32))
	atomic.AddInt32(v.(*int32), 1)
}

func (f *fleet) saw(b string) int32 {
	v, ok := f.handled.Load(b)
	if !ok {
		return 0
	}
	return atomic.LoadInt32(v.(*int32))
}

// newFleet builds the server; start opens its doors.
func (r *Rep) newFleet(o fopt) *fleet {
	f := &fleet{r: r, opt: o, X: tcpx.NewTcpX(nil), conns: map[string]*fconn{}}
	x := f.X
	if o.pool {
		x.WithBuiltInPool(true)
	}
	if o.bcast {
		x.WithBroadCastSignal(true)
	}
	if o.hb > 0 {
		x.HeartBeatMode(true, o.hb)
		x.RewriteHeartBeatHandler(1392, func(c *tcpx.Context) {
			k := f.get(c)
			if k == nil {
				return
			}
			k.ref.beat()
			c.RecvHeartBeat()
			atomic.AddInt32(&k.beats, 1)
		})
	}
	if o.auth {
		x.WithAuthDetail(true, time.Hour, false, 1393, func(c *tcpx.Context) { c.RecvAuthPass() })
	}
	if o.tls {
		certOnce.Do(func() { sharedCert = testCert(r) })
		x.TLSConfig = &tls.Config{Certificates: []tls.Certificate{sharedCert}}
	}
	echo := func(c *tcpx.Context) {
		b, _ := c.RawStream()
		f.note(string(b))
		c.ReplyWithMarshaller(rawMarshaller{}, echoID, b)
	}
	hook := func(c *tcpx.Context) {
		if h, ok := f.hook.Load().(func(*tcpx.Context)); ok {
			h(c)
		}
	}
	online := func(c *tcpx.Context) {
		b, _ := c.RawStream()
		f.pool.Store(c.GetPoolRef())
		err := c.Online(string(b))
		c.ReplyWithMarshaller(rawMarshaller{}, fOnline, []byte(fmt.Sprint(err)))
	}
	push := func(c *tcpx.Context) {
		c.ReplyWithMarshaller(rawMarshaller{}, fPush, make([]byte, 8<<20))
	}
	if o.onMsg {
		x.OnMessage = func(c *tcpx.Context) {
			id, _ := tcpx.MessageIDOf(c.Stream)
			switch id {
			case echoID:
				echo(c)
			case fHook:
				hook(c)
			case fOnline:
				online(c)
			case fPush:
				push(c)
			case 1392:
				if k := f.get(c); k != nil && k.ref != nil {
					k.ref.beat()
					c.RecvHeartBeat()
					atomic.AddInt32(&k.beats, 1)
				}
			}
		}
	} else {
		x.AddHandler(echoID, echo)
		x.AddHandler(fHook, hook)
		x.AddHandler(fOnline, online)
		x.AddHandler(fPush, push)
	}
	x.HandleRaw = func(c *tcpx.Context) {
		b := make([]byte, 4096)
		k := f.get(c)
		for {
			n, err := c.Conn.Read(b)
			if err != nil {
				return
			}
			for _, ln := range strings.SplitAfter(string(b[:n]), "\n") {
				t := strings.TrimSuffix(ln, "\n")
				switch {
				case t == "hook":
					hook(c)
				case t == "beat":
					if k != nil && k.ref != nil {
						k.ref.beat()
						c.RecvHeartBeat()
						atomic.AddInt32(&k.beats, 1)
					}
				case strings.HasPrefix(t, "online "):
					err := c.Online(t[7:])
					c.Conn.Write([]byte(fmt.Sprint(err) + "\n"))
				case t == "":
				default:
					f.note(t)
					c.Conn.Write([]byte(ln))
				}
			}
		}
	}
	x.OnConnect = func(c *tcpx.Context) {
		k := &fconn{ctx: c, opens: 1}
		if o.hb > 0 {
			k.ref = newHbRef(o.hb)
		}
		c.SetCtxPerConn("fconn", k)
		if c.Conn != nil && c.Conn.RemoteAddr() != nil {
			k.peer = c.Conn.RemoteAddr().String()
		}
		f.mu.Lock()
		f.order = append(f.order, k)
		f.mu.Unlock()
		if f.onOpen != nil {
			f.onOpen(c)
		}
		atomic.AddInt64(&f.opened, 1)
	}
	x.OnClose = func(c *tcpx.Context) {
		k := f.get(c)
		if k == nil {
			r.Violation("OnClose ran for a connection OnConnect never saw")
		}
		if k.ref != nil {
			select {
			case <-k.ref.stop:
			default:
				if atomic.LoadInt32(&k.closes) == 0 {
					close(k.ref.stop)
				}
			}
		}
		if f.onGone != nil {
			f.onGone(c)
		}
		atomic.AddInt32(&k.closes, 1)
		atomic.AddInt64(&f.closed, 1)
	}
	for _, k := range o.kinds {
		ds := []*door{nil}
		switch k {
		case "tcp46": // two doors at one address text
			a := fmt.Sprintf(":%d", freePort6(r))
			ds = []*door{{mode: "framed", network: "tcp4", addr: a}, {mode: "framed", network: "tcp6", addr: a}}
		case "udp46":
			a := fmt.Sprintf(":%d", freePort6(r))
			ds = []*door{{mode: "udp", network: "udp6", addr: a}, {mode: "udp", network: "udp4", addr: a}}
		case "tcpudp":
			a := nextAddr()
			ds = []*door{{mode: "udp", network: "udp", addr: a}, {mode: "framed", network: "tcp", addr: a}}
		default:
			ds[0] = r.newDoor(k)
		}
		for _, d := range ds {
			d.tls = o.tls && d.mode == "framed"
			f.doors = append(f.doors, d)
		}
	}
	return f
}

// start makes the listen calls and waits until every address is served.
func (f *fleet) start() {
	for _, d := range f.doors {
		d := d
		done := make(chan struct{})
		f.calls = append(f.calls, done)
		go func() {
			defer close(done)
			switch {
			case d.mode == "raw":
				f.X.ListenAndServeRaw(d.network, d.addr)
			case d.mode == "udp" && d.buf > 0:
				f.X.ListenAndServeUDP(d.network, d.addr, d.buf)
			default:
				f.X.ListenAndServe(d.network, d.addr)
			}
		}()
	}
	f.up("after the listen calls")
}

// up waits until every address is served.
func (f *fleet) up(when string) {
	for _, d := range f.doors {
		k := f.knock(d, longWait)
		if k == nil {
			f.r.Violation("%v: %v is not served %s", f.opt, d, when)
		}
		k.close()
	}
	if f.X.State() != tcpx.STATE_RUNNING {
		f.r.Violation("%v: State() is %d while the server is serving", f.opt, f.X.State())
	}
}

// fclient is a client of one door.
type fclient struct {
	f *fleet
	d *door
	c net.Conn
}

func (f *fleet) tryDial(d *door) (*fclient, error) {
	addr := d.addr
	if strings.HasPrefix(addr, ":") {
		if strings.HasSuffix(d.network, "6") {
			addr = "[::1]" + addr
		} else {
			addr = "127.0.0.1" + addr
		}
	}
	c, err := dialFrom(d.network, addr)
	if err != nil {
		return nil, err
	}
	if d.tls {
		c = tls.Client(c, &tls.Config{InsecureSkipVerify: true})
	}
	return &fclient{f, d, c}, nil
}

var dialCtr int64

// dialFrom dials; a unixgram client gets an address of its own to be answered at.
func dialFrom(network, addr string) (net.Conn, error) {
	dl := &net.Dialer{Timeout: 20 * time.Second}
	if network == "unixgram" {
		dl.LocalAddr = &net.UnixAddr{Name: sockPath(), Net: "unixgram"}
	}
	if strings.HasPrefix(addr, "127.") { // peers come from different addresses
		n := atomic.AddInt64(&dialCtr, 1)
		ip := net.IPv4(127, 0, byte(n/3%7), byte(1+n%3))
		switch network {
		case "tcp", "tcp4":
			dl.LocalAddr = &net.TCPAddr{IP: ip}
		case "udp", "udp4":
			dl.LocalAddr = &net.UDPAddr{IP: ip}
		}
	}
	return dl.Dial(network, addr)
}

// knock dials until the door answers, or nil.
func (f *fleet) knock(d *door, n int64) *fclient {
	var k *fclient
	if !until(n, func() bool {
		before := atomic.LoadInt64(&f.opened)
		c, err := f.tryDial(d)
		if err != nil {
			return false
		}
		if d.mode == "udp" {
			if c.once(300*time.Millisecond) != nil {
				c.close()
				return false
			}
			k = c
			return true
		}
		if d.network == "unixpacket" {
			if !until(50, func() bool { return atomic.LoadInt64(&f.opened) > before }) {
				c.close()
				return false
			}
			k = c
			return true
		}
		if err := c.ping(); err != nil {
			c.close()
			return false
		}
		k = c
		return true
	}) {
		return nil
	}
	return k
}

// dial is knock for a door known to be served.
func (f *fleet) dial(d *door) *fclient {
	k := f.knock(d, longWait)
	if k == nil {
		f.r.Violation("%v: %v is served but does not answer", f.opt, d)
	}
	return k
}

func (k *fclient) close() { k.c.Close() }

// ping exchanges one echo.
func (k *fclient) ping() error {
	if k.d.network == "unixpacket" {
		return nil
	}
	if k.d.mode == "raw" {
		want := fmt.Sprintf("ping-%d\n", atomic.AddInt64(&echoCtr, 1))
		if _, err := k.c.Write([]byte(want)); err != nil {
			return err
		}
		got, err := recvN(k.c, len(want))
		if err != nil {
			return err
		}
		if string(got) != want {
			return fmt.Errorf("raw echo of %q returned %q", want, got)
		}
		return nil
	}
	if k.d.mode == "udp" {
		return udpPing(k.c)
	}
	return ping(k.c)
}

// once sends one datagram and waits for the answer for d.
func (k *fclient) once(d time.Duration) error {
	want := fmt.Sprintf("once-%d", atomic.AddInt64(&echoCtr, 1))
	if _, err := k.c.Write(frame(echoID, nil, []byte(want))); err != nil {
		return err
	}
	b := make([]byte, 65536)
	k.c.SetReadDeadline(time.Now().Add(d))
	defer k.c.SetReadDeadline(time.Time{})
	for {
		n, err := k.c.Read(b)
		if err != nil {
			return err
		}
		if m, err := parseFrame(b[:n]); err == nil && string(m.Body) == want {
			return nil
		}
	}
}

// recvN reads n bytes within a tick-bounded wait.
func recvN(c net.Conn, n int) ([]byte, error) {
	b := make([]byte, n)
	ch := make(chan error, 1)
	c.SetReadDeadline(time.Time{})
	go func() { _, err := io.ReadFull(c, b); ch <- err }()
	start := atomic.LoadInt64(&ticks)
	for {
		select {
		case err := <-ch:
			return b, err
		case <-time.After(50 * time.Millisecond):
			if atomic.LoadInt64(&ticks)-start > longWait {
				c.SetReadDeadline(time.Unix(1, 0))
				<-ch
				return nil, fmt.Errorf("no answer")
			}
		}
	}
}

// online puts the client into the pool under a name.
func (k *fclient) online(name string) error {
	if k.d.mode == "raw" {
		k.c.Write([]byte("online " + name + "\n"))
		b, err := recvN(k.c, len("<nil>\n"))
		if err != nil || string(b) != "<nil>\n" {
			return fmt.Errorf("Online answered %q %v", b, err)
		}
		return nil
	}
	k.c.Write(frame(fOnline, nil, []byte(name)))
	m, err := recv(k.c)
	if err != nil {
		return err
	}
	if string(m.Body) != "<nil>" {
		return fmt.Errorf("Online: %s", m.Body)
	}
	return nil
}

func (k *fclient) beat() {
	if k.d.mode == "raw" {
		k.c.Write([]byte("beat\n"))
		return
	}
	k.c.Write(frame(1392, nil, nil))
}

func (k *fclient) hook() {
	if k.d.mode == "raw" {
		k.c.Write([]byte("hook\n"))
		return
	}
	k.c.Write(frame(fHook, nil, nil))
}

// shut checks that nothing new is served on the doors of a stopped server.
func (f *fleet) shut(when string) {
	type probe struct {
		d    *door
		body string
		c    *fclient
	}
	before := atomic.LoadInt64(&f.opened)
	var ps []*probe
	for _, d := range f.doors {
		p := &probe{d: d, body: fmt.Sprintf("late-%d", atomic.AddInt64(&echoCtr, 1))}
		c, err := f.tryDial(d)
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				f.r.Inconclusive("dial of a stopped door timed out: %v", err)
			}
			f.r.Count("doors_refused", 1)
			continue
		}
		p.c = c
		ps = append(ps, p)
		if d.tls {
			rawOf(c.c).SetDeadline(time.Now().Add(300 * time.Millisecond))
		}
		if d.mode == "raw" {
			c.c.Write([]byte(p.body + "\n"))
		} else {
			for i := 0; i < 3; i++ {
				c.c.Write(frame(echoID, nil, []byte(p.body)))
			}
		}
	}
	stream := 0
	for _, p := range ps {
		if p.d.mode != "udp" {
			stream++
		}
	}
	wait := 60 * time.Millisecond
	if stream > 0 {
		wait = 300 * time.Millisecond
	}
	if len(ps) > 0 {
		time.Sleep(wait)
	}
	for _, p := range ps {
		if n := f.saw(p.body); n > 0 {
			f.r.Violation("%v: %v still serves %s: a handler ran for a message sent after it", f.opt, p.d, when)
		}
		p.c.c.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
		b := make([]byte, 100)
		if n, _ := p.c.c.Read(b); n > 0 {
			f.r.Violation("%v: %v still answers %s: %x", f.opt, p.d, when, b[:n])
		}
		p.c.close()
		f.r.Count("doors_probed_silent", 1)
	}
	if stream > 0 && !f.lenient && atomic.LoadInt64(&f.opened) != before {
		f.r.Violation("%v: OnConnect ran for a connection made %s", f.opt, when)
	}
}

// callsReturn waits for the listen calls.
func (f *fleet) callsReturn(when string) {
	for i, c := range f.calls {
		if !waitCh(longWait, c) {
			f.r.Violation("%v: the listen call on %v is still blocked %s", f.opt, f.doors[i%len(f.doors)], when)
		}
	}
	f.calls = nil
}

// settle waits until the server has closed every connection it opened.
func (f *fleet) settle() bool {
	return until(longWait, func() bool { return atomic.LoadInt64(&f.opened) == atomic.LoadInt64(&f.closed) })
}

func (f *fleet) snapshot() []*fconn {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]*fconn(nil), f.order...)
}

func (f *fleet) endFleet() {
	if f.X.State() == tcpx.STATE_RUNNING {
		within(longWait, func() { f.X.Stop(true) })
	}
	f.callsReturn("after the final Stop")
}

// randKinds picks the doors of a fleet.
func randKinds(g *rand.Rand, tls bool) []string {
	all := []string{"tcp", "tcp4", "unix", "udp", "udp4", "raw", "tcpall", "rawunix", "udpbuf", "udpall", "unixgram"}
	if v6 {
		all = append(all, "tcp6", "udp6")
	}
	if !tls {
		all = append(all, "unixpacket")
	}
	g.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all[:1+g.Intn(4)]
}

var v6 = haveIPv6()
