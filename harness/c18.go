package main

import (
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C18"] = c18 }

// sentinel stands for the memory a connection or request owns.
type sentinel struct {
	pad [512]byte
}

type c18cfg struct {
	kind            string // tcp tls unix raw udp
	hb, auth        time.Duration
	pool, bcast, mw bool
}

func (c c18cfg) String() string {
	return fmt.Sprintf("%s/hb%v/auth%v/pool%v/bcast%v/mw%v", c.kind, c.hb, c.auth, c.pool, c.bcast, c.mw)
}

type c18srv struct {
	r              *Rep
	cfg            c18cfg
	X              *tcpx.TcpX
	addr, network  string
	done           chan struct{}
	opened, closed int64
	running        int64 // handlers running
	handled        int64
	made, freed    int64
	act            string // set before each client of a generation
	release        chan struct{}
}

func (s *c18srv) mark(c *tcpx.Context, perReq bool) {
	v := &sentinel{}
	atomic.AddInt64(&s.made, 1)
	runtime.SetFinalizer(v, func(*sentinel) { atomic.AddInt64(&s.freed, 1) })
	if perReq {
		c.SetCtxPerRequest("sentinel", v)
	} else {
		c.SetCtxPerConn("sentinel", v)
	}
}

func newC18(r *Rep, cfg c18cfg) *c18srv {
	s := &c18srv{r: r, cfg: cfg, X: tcpx.NewTcpX(nil), release: make(chan struct{})}
	x := s.X
	if cfg.pool {
		x.WithBuiltInPool(true)
	}
	if cfg.bcast {
		x.WithBroadCastSignal(true)
	}
	if cfg.hb > 0 {
		x.HeartBeatModeDetail(true, cfg.hb, cfg.mw, 1392)
	}
	if cfg.auth > 0 {
		x.WithAuthDetail(true, cfg.auth, cfg.mw, 1393, func(c *tcpx.Context) {
			atomic.AddInt64(&s.running, 1)
			defer atomic.AddInt64(&s.running, -1)
			b, _ := c.RawStream()
			for _, v := range string(b) {
				if v == 'd' {
					c.RecvAuthDeny()
				} else {
					c.RecvAuthPass()
				}
			}
		})
	}
	if cfg.mw {
		x.UseGlobal(func(c *tcpx.Context) { c.SetCtxPerRequest("a", 1) })
		x.Use("m", func(c *tcpx.Context) { c.Next() })
	}
	wrap := func(h func(c *tcpx.Context)) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			atomic.AddInt64(&s.running, 1)
			defer atomic.AddInt64(&s.running, -1)
			if strings.HasPrefix(cfg.kind, "udp") {
				s.mark(c, true)
			}
			h(c)
			atomic.AddInt64(&s.handled, 1)
		}
	}
	x.AddHandler(echoID, wrap(func(c *tcpx.Context) {
		b, _ := c.RawStream()
		c.ReplyWithMarshaller(rawMarshaller{}, echoID, b)
	}))
	x.AddHandler(2, wrap(func(c *tcpx.Context) { // online under a name
		b, _ := c.RawStream()
		c.Online(string(b))
	}))
	x.AddHandler(3, wrap(func(c *tcpx.Context) { // close from the handler, and go on
		c.CloseConn()
		c.CloseConn()
		c.RecvHeartBeat()
		c.RecvAuthPass()
		c.RecvAuthDeny()
		c.ReplyWithMarshaller(rawMarshaller{}, 1, []byte("gone"))
		c.SetDeadline(time.Now().Add(time.Hour))
	}))
	x.AddHandler(4, wrap(func(c *tcpx.Context) { // outlives its connection
		select {
		case <-s.release:
		case <-time.After(20 * time.Millisecond):
		}
		c.RecvHeartBeat()
		c.ReplyWithMarshaller(rawMarshaller{}, 1, []byte("late"))
	}))
	x.AddHandler(5, wrap(func(c *tcpx.Context) { // a big answer nobody reads
		c.ReplyWithMarshaller(rawMarshaller{}, 1, make([]byte, 16<<20))
	}))
	x.AddHandler(6, wrap(func(c *tcpx.Context) { c.RecvHeartBeat(); c.RecvAuthPass() }))
	x.AddHandler(7, wrap(func(c *tcpx.Context) { c.SetReadDeadline(time.Now().Add(-time.Second)) }))
	x.AddHandler(8, wrap(func(c *tcpx.Context) { c.Offline() }))
	x.HandleRaw = wrap(func(c *tcpx.Context) {
		b := make([]byte, 256)
		for {
			n, err := c.Conn.Read(b)
			if err != nil {
				return
			}
			for _, ch := range b[:n] {
				switch ch {
				case 'h':
					c.RecvHeartBeat()
				case 'q':
					return
				case 'c':
					c.CloseConn()
					c.RecvHeartBeat()
				case 'o':
					c.Online("raw")
				default:
					c.Conn.Write([]byte{ch})
				}
			}
		}
	})
	x.OnConnect = func(c *tcpx.Context) {
		s.mark(c, false)
		if s.act == "closed-in-onconnect" {
			c.CloseConn()
		}
		atomic.AddInt64(&s.opened, 1)
	}
	x.OnClose = func(c *tcpx.Context) { atomic.AddInt64(&s.closed, 1) }
	return s
}

func (s *c18srv) start() {
	s.network, s.addr = s.cfg.kind, nextAddr()
	switch s.cfg.kind {
	case "unix":
		s.addr = sockPath()
	case "tls":
		certOnce.Do(func() { sharedCert = testCert(s.r) })
		s.X.TLSConfig = tlsConf()
		s.network = "tcp"
	case "raw":
		s.network = "tcp"
	}
	s.listen()
}

func (s *c18srv) listen() {
	done := make(chan struct{})
	s.done = done
	go func() {
		defer close(done)
		if s.cfg.kind == "raw" {
			s.X.ListenAndServeRaw(s.network, s.addr)
		} else {
			s.X.ListenAndServe(s.network, s.addr)
		}
	}()
	s.up()
}

func (s *c18srv) up() {
	if !until(longWait, func() bool { return s.X.State() == tcpx.STATE_RUNNING && bound(s.network, s.addr) }) {
		s.r.Violation("%v: does not come up", s.cfg)
	}
}

func (s *c18srv) dial() net.Conn {
	c := s.r.dial(s.network, s.addr)
	if s.cfg.kind == "tls" {
		return tlsClient(c)
	}
	return c
}

var c18acts = []string{"idle", "ping", "reset", "halfclose", "half-frame", "bad-length", "bad-header", "closed-by-handler", "closed-in-onconnect",
	"late-handler", "unread-answer", "beats", "beats-after", "verdicts", "deny", "online", "online-offline", "pipe", "cut-pipe", "deadline", "burst", "plaintext"}

// visit is one client life.
func (s *c18srv) visit(g *rand.Rand, act string) {
	r := s.r
	s.act = act
	n := atomic.LoadInt64(&s.opened)
	var c net.Conn
	if act == "plaintext" {
		c = r.dial(s.network, s.addr)
	} else {
		c = s.dial()
	}
	defer c.Close()
	if s.cfg.kind == "raw" {
		s.visitRaw(g, c, act)
		until(longWait, func() bool { return atomic.LoadInt64(&s.opened) > n })
		return
	}
	send := func(id int32, body string) { c.Write(frame(id, nil, []byte(body))) }
	switch act {
	case "idle", "closed-in-onconnect":
	case "ping", "burst":
		k := 1
		if act == "burst" {
			k = 30
		}
		for i := 0; i < k; i++ {
			send(echoID, "x")
		}
		for i := 0; i < k; i++ {
			if _, err := recv(c); err != nil {
				if s.cfg.hb > 0 && s.cfg.hb < time.Second || s.cfg.auth > 0 && s.cfg.auth < time.Second {
					break // cut by a watcher
				}
				r.Violation("%v: no echo: %v", s.cfg, err)
			}
		}
	case "reset":
		send(echoID, "x")
		if t, ok := rawOf(c).(*net.TCPConn); ok {
			t.SetLinger(0)
			t.Close()
		}
	case "halfclose":
		send(echoID, "x")
		if h, ok := rawOf(c).(interface{ CloseWrite() error }); ok {
			h.CloseWrite()
			ended(c, longWait)
		}
	case "half-frame":
		f := frame(echoID, nil, []byte("hello"))
		c.Write(f[:1+g.Intn(len(f)-1)])
	case "bad-length":
		c.Write([]byte{0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0})
		ended(c, longWait)
	case "bad-header":
		c.Write(frame(echoID, []byte("{{"), nil))
		ended(c, longWait)
	case "closed-by-handler":
		send(3, "")
		send(3, "")
		ended(c, longWait)
	case "late-handler":
		send(4, "")
		send(4, "")
		time.Sleep(time.Millisecond)
	case "unread-answer":
		send(5, "")
		time.Sleep(time.Millisecond)
	case "beats":
		for i := 0; i < 12; i++ {
			send(1392, "")
		}
		time.Sleep(time.Millisecond)
	case "beats-after":
		send(4, "")
		send(6, "")
		send(6, "")
		send(3, "")
		ended(c, longWait)
	case "verdicts":
		for _, v := range []string{"p", "pp", "d", "pd", "p"} {
			send(1393, v)
		}
		send(6, "")
		time.Sleep(time.Millisecond)
	case "deny":
		send(1393, "dddp")
		if s.cfg.auth > 0 {
			ended(c, longWait)
		}
	case "online":
		send(2, fmt.Sprintf("u%d", g.Intn(3)))
		send(echoID, "x")
		recv(c)
	case "online-offline":
		send(2, fmt.Sprintf("u%d", g.Intn(3)))
		send(8, "")
		send(2, "again")
		send(echoID, "x")
		recv(c)
	case "pipe", "cut-pipe":
		n := 4
		c.Write(frame(echoID, jsonOf(map[string]string{"[tcpx-buffer-in-serial]": fmt.Sprintf("enable;%d", n)}), []byte("p")))
		if act == "pipe" {
			for i := 1; i < n; i++ {
				send(echoID, "p")
			}
			for i := 0; i < n; i++ {
				recv(c)
			}
		}
	case "deadline":
		send(7, "")
		ended(c, longWait)
	case "plaintext":
		c.Write([]byte("GET / HTTP/1.0\r\n\r\n"))
		if s.cfg.kind == "tls" {
			ended(c, longWait)
		}
	}
	until(longWait, func() bool { return atomic.LoadInt64(&s.opened) > n })
}

func (s *c18srv) visitRaw(g *rand.Rand, c net.Conn, act string) {
	switch act {
	case "ping", "burst", "pipe":
		c.Write([]byte("abc"))
		recvN(c, 3)
	case "reset":
		c.(*net.TCPConn).SetLinger(0)
	case "halfclose":
		c.(*net.TCPConn).CloseWrite()
		ended(c, longWait)
	case "beats", "beats-after":
		c.Write([]byte("hhhhhhhhhh"))
		time.Sleep(time.Millisecond)
	case "closed-by-handler", "bad-length", "deadline":
		c.Write([]byte("hc"))
		ended(c, longWait)
	case "online", "online-offline":
		c.Write([]byte("oa"))
		recvN(c, 1)
	case "deny", "verdicts":
		c.Write([]byte("q"))
		ended(c, longWait)
	}
}

// quiet waits until the framework holds as many goroutines and sockets as want.
func (s *c18srv) quiet(goroutines, fds int, after string) {
	r := s.r
	if !until(longWait, func() bool {
		return atomic.LoadInt64(&s.opened) == atomic.LoadInt64(&s.closed) && atomic.LoadInt64(&s.running) == 0
	}) {
		r.Violation("%v: after %s %d connections were opened and %d ended, %d handlers run", s.cfg, after, s.opened, s.closed, s.running)
	}
	var gs []string
	if !until(longWait, func() bool { gs = tcpxGoroutines(); return len(gs) <= goroutines }) {
		r.Violation("%v: after %s %d goroutines of the framework remain where there were %d; for example\n%s", s.cfg, after, len(gs), goroutines, trunc(sampleStack(gs), 3000))
	}
	var n int
	if !until(longWait, func() bool { n = sockFDs(); return n <= fds }) {
		r.Violation("%v: after %s %d sockets remain open where there were %d", s.cfg, after, n, fds)
	}
}

// sampleStack gives the most frequent kind of stack.
func sampleStack(gs []string) string {
	cnt := map[string]int{}
	ex := map[string]string{}
	for _, g := range gs {
		var fn []string
		for _, ln := range strings.Split(g, "\n") {
			if strings.Contains(ln, "fwhezfwhez/tcpx.") {
				fn = append(fn, strings.SplitN(ln, "(", 2)[0])
			}
		}
		k := strings.Join(fn, "<")
		cnt[k]++
		ex[k] = g
	}
	best := ""
	for k := range cnt {
		if cnt[k] > cnt[best] {
			best = k
		}
	}
	return ex[best]
}

// memory checks that what past connections owned is collectable.
func (s *c18srv) memory(after string) {
	made := atomic.LoadInt64(&s.made)
	if made < 20 {
		return
	}
	ok := until(600, func() bool {
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
		return made-atomic.LoadInt64(&s.freed) <= made/4
	})
	if !ok {
		s.r.Violation("%v: after %s the framework still holds %d of the %d values attached to ended connections or datagrams", s.cfg, after, made-atomic.LoadInt64(&s.freed), made)
	}
	s.r.Count("values_collected", atomic.LoadInt64(&s.freed))
}

func c18(r *Rep) {
	r.Rule("one case = one generation of connections or datagrams (all lives of a kind, or a mix) or one stop of the server, after which goroutines with the framework on their stack, open sockets and uncollectable per-connection values are compared with the idle server; distinct by transport, options and kind of life")
	g := r.Sub(1)
	h := time.Hour
	cfgs := []c18cfg{
		{kind: "tcp"},
		{kind: "tcp", hb: h, auth: h, pool: true, bcast: true, mw: true},
		{kind: "tcp", hb: h, pool: true},
		{kind: "tcp", auth: h, bcast: true},
		{kind: "tls", hb: h, auth: h, pool: true},
		{kind: "unix", hb: h, auth: h, pool: true, mw: true},
		{kind: "raw", hb: h, pool: true, bcast: true},
		{kind: "raw"},
		{kind: "udp", hb: h, auth: h, pool: true, bcast: true, mw: true},
		{kind: "udp"},
		{kind: "udp4", pool: true, bcast: true},
		{kind: "tcp4", hb: h, bcast: true},
		{kind: "tcp", hb: 15 * time.Millisecond, pool: true},
		{kind: "tcp", auth: 15 * time.Millisecond},
		{kind: "tls", hb: 20 * time.Millisecond, auth: 20 * time.Millisecond},
		{kind: "raw", hb: 15 * time.Millisecond},
		{kind: "udp", hb: 5 * time.Millisecond, pool: true},
	}
	rounds := r.N(1)
	for round := 0; round < rounds; round++ {
		for _, cfg := range cfgs {
			c18run(r, g, cfg)
		}
	}
}

func c18run(r *Rep, g *rand.Rand, cfg c18cfg) {
	if n := len(tcpxGoroutines()); n != 0 {
		r.HarnessError("%d framework goroutines before the server exists", n)
	}
	fd0 := sockFDs()
	s := newC18(r, cfg)
	s.start()
	base, fds := len(tcpxGoroutines()), sockFDs()
	if strings.HasPrefix(cfg.kind, "udp") {
		until(100, func() bool { base = len(tcpxGoroutines()); return base >= 2 })
		s.udp(g, base, fds)
	} else {
		for _, act := range c18acts {
			if cfg.hb > 0 && cfg.hb < time.Second && (act == "online" || act == "pipe" || act == "burst") {
				continue // may be cut by the watchers
			}
			for i := 0; i < 6; i++ {
				s.visit(g, act)
			}
			s.quiet(base, fds, "connections of kind "+act)
			r.Case(cfg.String() + "/" + act)
			r.Step(cfg.String() + " " + act)
		}
		// watchers end their connections themselves
		if cfg.hb > 0 && cfg.hb < time.Second || cfg.auth > 0 && cfg.auth < time.Second {
			var cs []net.Conn
			s.act = ""
			for i := 0; i < 10; i++ {
				c := s.dial()
				if cfg.kind == "tls" {
					c.Write(frame(echoID, nil, []byte("x")))
				}
				cs = append(cs, c)
			}
			for _, c := range cs {
				if _, ok := ended(c, longWait); !ok {
					r.Violation("%v: a connection without heartbeat or verdict stays open", cfg)
				}
				c.Close()
			}
			s.quiet(base, fds, "connections ended by their watcher")
			r.Case(cfg.String() + "/watcher")
		}
		// a mix at once
		done := make(chan int)
		for w := 0; w < 8; w++ {
			go func(g *rand.Rand) {
				for i := 0; i < 12; i++ {
					c := s.dial()
					for j := g.Intn(5); j > 0; j-- {
						id := []int32{1, 2, 3, 4, 6, 8, 1392, 1393}[g.Intn(8)]
						c.Write(frame(id, nil, []byte([]string{"p", "d", "u", ""}[g.Intn(4)])))
					}
					if g.Intn(2) == 0 {
						time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
					}
					c.Close()
				}
				done <- 1
			}(rand.New(rand.NewSource(g.Int63())))
		}
		for w := 0; w < 8; w++ {
			<-done
		}
		time.Sleep(20 * time.Millisecond)
		s.quiet(base, fds, "a mix of connections")
		r.Case(cfg.String() + "/mix")
		s.memory("a mix of connections")
	}
	// stop and start again, with and without connections open
	for cyc := 0; cyc < 4; cyc++ {
		s.act = ""
		var cs []net.Conn
		if !strings.HasPrefix(cfg.kind, "udp") {
			for i := 0; i < 5; i++ {
				c := s.dial()
				switch {
				case cfg.kind == "raw":
					c.Write([]byte("h"))
				case i%2 == 0:
					c.Write(frame(6, nil, nil))
					c.Write(frame(1393, nil, []byte("p")))
				default:
					c.Write(frame(2, nil, []byte("z")))
				}
				cs = append(cs, c)
			}
			if cfg.kind == "tls" {
				for _, c := range cs[:3] {
					c.SetReadDeadline(time.Now().Add(3 * time.Millisecond))
					c.Read(make([]byte, 1)) // some shake hands, others do not
				}
			}
			until(longWait, func() bool {
				return atomic.LoadInt64(&s.opened) >= atomic.LoadInt64(&s.closed)+1 || cfg.hb > 0 && cfg.hb < time.Second || cfg.auth > 0
			})
		}
		all := cyc%2 == 0
		if err := s.X.Stop(all); err != nil {
			r.Violation("%v: Stop returned %v", cfg, err)
		}
		if !all {
			time.Sleep(2 * time.Millisecond)
		}
		if all {
			for _, c := range cs {
				if _, ok := ended(rawOf(c), longWait); !ok {
					r.Violation("%v: Stop(true) left a connection open", cfg)
				}
			}
		}
		for _, c := range cs {
			c.Close()
		}
		if cyc == 0 && !waitCh(longWait, s.done) {
			r.Violation("%v: the listen call does not return after Stop", cfg)
		}
		s.quiet(0, fd0, fmt.Sprintf("Stop(%v) and the end of all connections", all))
		r.Case(fmt.Sprintf("%v/stop%v/%d", cfg, all, cyc))
		if cyc < 3 {
			if err := s.X.Start(); err != nil {
				r.Violation("%v: Start returned %v", cfg, err)
			}
			s.up()
			if !strings.HasPrefix(cfg.kind, "udp") { // known to be in its accept loop
				n := atomic.LoadInt64(&s.opened)
				c := r.dial(s.network, s.addr)
				until(longWait, func() bool { return atomic.LoadInt64(&s.opened) > n })
				c.Close()
			}
		}
	}
	s.memory("the server was stopped")
	r.Sample(map[string]interface{}{"config": cfg.String(), "idle_goroutines": base, "connections": s.opened, "handlers": s.handled, "values": s.made, "values_collected": s.freed})
}

func (s *c18srv) udp(g *rand.Rand, base, fds int) {
	r := s.r
	c := s.dial()
	defer c.Close()
	fds++
	for _, kind := range []string{"echo", "beats", "online", "close-nothing", "hostile", "late", "unknown"} {
		n := 40
		h0 := atomic.LoadInt64(&s.handled)
		for i := 0; i < n; i++ {
			switch kind {
			case "echo":
				c.Write(frame(echoID, nil, []byte("x")))
			case "beats":
				c.Write(frame([]int32{1392, 6, 1393}[i%3], nil, []byte("pd")))
			case "online":
				c.Write(frame(2, nil, []byte("u")))
			case "close-nothing":
				c.Write(nil)
			case "hostile":
				b := frame(echoID, []byte("{"), nil)
				c.Write(b[:1+g.Intn(len(b))])
			case "late":
				c.Write(frame(4, nil, nil))
			case "unknown":
				c.Write(frame(999, nil, nil))
			}
			if i%8 == 7 {
				time.Sleep(time.Millisecond)
			}
		}
		c2 := s.dial()
		if err := udpPing(c2); err != nil {
			r.Violation("%v: not served after datagrams of kind %s: %v", s.cfg, kind, err)
		}
		c2.Close()
		r.Count("datagrams_handled", atomic.LoadInt64(&s.handled)-h0)
		time.Sleep(5 * time.Millisecond)
		s.quiet(base, fds, "datagrams of kind "+kind)
		r.Case(s.cfg.String() + "/" + kind)
		r.Step(s.cfg.String() + " " + kind)
	}
	s.memory("datagrams")
}
