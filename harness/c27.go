package main

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C27"] = c27 }

// tagM is a server's own marshaller: what it encodes carries the server's name.
type tagM struct{ name string }

func (m tagM) Marshal(v interface{}) ([]byte, error) {
	return []byte(fmt.Sprintf("%s|%s", m.name, v)), nil
}
func (m tagM) Unmarshal(b []byte, d interface{}) error {
	*(d.(*string)) = m.name + "/" + string(b)
	return nil
}
func (m tagM) MarshalName() string { return "tag" } // the same on every server

// c27srv is one of several servers of the process.
type c27srv struct {
	r     *Rep
	name  string
	x     *tcpx.TcpX
	w     *world
	uw    *world
	raw   *world
	even  bool
	pool  bool
	onMsg bool
	limit int32
	watch string // "", hb, auth, past: its silent connections end
	chain string // of id 1
	uchn  string // of /who

	opened, closed, dialed int64
	alien                  atomic.Value // what was seen of another server

	lk      sync.RWMutex // held while the server is operated on
	running bool
	cls     []*c27cli
	names   map[string]*c27cli
	silent  net.Conn
	bg      net.Conn
}

type c27cli struct {
	c    net.Conn
	name string
}

func (s *c27srv) steady() bool { return s.watch == "" }

func (s *c27srv) what() string {
	return fmt.Sprintf("%s/%s pool=%v onMessage=%v limit=%d watch=%s", s.name, s.w.kind, s.pool, s.onMsg, s.limit, s.watch)
}

func c27new(r *Rep, g *rand.Rand, n int, steady bool) *c27srv {
	s := &c27srv{r: r, name: fmt.Sprintf("S%d", n), even: n%2 == 0, names: map[string]*c27cli{}}
	x := tcpx.NewTcpX(tagM{s.name})
	s.x = x
	s.pool = g.Intn(3) > 0
	s.onMsg = g.Intn(5) == 0
	s.limit = []int32{0, 0, 1000, 100000}[g.Intn(4)]
	if !steady {
		s.watch = []string{"hb", "auth", "past"}[g.Intn(3)]
	}
	if s.pool {
		x.WithBuiltInPool(true)
	}
	if g.Intn(2) == 0 {
		x.WithBroadCastSignal(true)
	}
	x.SetMaxBytePerMessage(s.limit)
	pass := func(c *tcpx.Context) { c.RecvAuthPass() }
	switch s.watch {
	case "hb":
		x.HeartBeatModeDetail(true, 150*time.Millisecond, false, 800)
	case "auth":
		x.WithAuthDetail(true, 250*time.Millisecond, false, 801, pass)
	case "past":
		if g.Intn(2) == 0 {
			x.SetReadDeadline(time.Now().Add(-time.Hour))
		} else {
			x.SetDeadline(time.Now().Add(-time.Hour))
		}
	default:
		switch g.Intn(4) {
		case 0:
			x.HeartBeatModeDetail(true, time.Hour, false, 800)
		case 1:
			x.WithAuthDetail(true, time.Hour, false, 801, pass)
		case 2:
			x.SetDeadline(time.Now().Add(time.Hour))
		}
	}
	foreign := func(f string, a ...interface{}) {
		s.alien.Store(fmt.Sprintf(f, a...))
	}
	mid := func(m string) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			v, _ := c.GetCtxPerRequest("trace")
			t, _ := v.(string)
			c.SetCtxPerRequest("trace", t+m+"@"+s.name+",")
			c.Next()
		}
	}
	var gl, us []string
	for i := g.Intn(3); i > 0; i-- {
		m := fmt.Sprintf("g%d", i)
		gl = append(gl, m)
		x.UseGlobal(mid(m))
	}
	for i := g.Intn(3); i > 0; i-- { // the same keys on every server
		m := fmt.Sprintf("key%d", i)
		us = append(us, m)
		x.Use(m, mid(m))
	}
	chainOf := func(own ...string) string {
		t := ""
		for _, m := range append(append(append([]string{}, gl...), us...), own...) {
			t += m + "@" + s.name + ","
		}
		return t
	}
	s.chain = chainOf("own")
	s.uchn = chainOf("url")
	who := func(id int32) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			v, _ := c.GetCtxPerRequest("trace")
			t, _ := v.(string)
			if c.PacketConn == nil {
				if o, _ := c.GetCtxPerConn("owner"); o != s.name {
					foreign("connection data of %v", o)
				}
			}
			if _, ok := c.GetCtxPerRequest("seen"); ok {
				foreign("request data of another request")
			}
			c.SetCtxPerRequest("seen", s.name)
			var b string
			if _, err := c.Bind(&b); err != nil || !strings.HasPrefix(b, s.name+"/") {
				foreign("a body bound as %q (%v)", trunc(b, 60), err)
			}
			b = strings.TrimPrefix(b, s.name+"/")
			if len(b) > 40 {
				b = b[:40]
			}
			c.Reply(id, t+b)
		}
	}
	text := func(err error) string {
		if err != nil {
			return "err"
		}
		return "ok"
	}
	online := func(c *tcpx.Context) {
		b, _ := c.RawStream()
		c.Reply(4, text(c.Online(string(b))))
	}
	send := func(c *tcpx.Context) {
		b, _ := c.RawStream()
		p := strings.SplitN(string(b), " ", 2)
		c.Reply(5, text(c.SendToUsername(p[0], 50, p[1])))
	}
	offline := func(c *tcpx.Context) {
		c.Reply(6, text(c.Offline()))
	}
	if s.onMsg {
		s.chain = chainOf()
		s.uchn = s.chain
		x.OnMessage = func(c *tcpx.Context) {
			id, _ := tcpx.MessageIDOf(c.Stream)
			switch id {
			case 1, 9:
				who(id)(c)
			case 4:
				online(c)
			case 5:
				send(c)
			case 6:
				offline(c)
			}
		}
	} else {
		x.AddHandler(1, mid("own"), who(1))
		x.Any("/who", mid("url"), who(9))
		x.AddHandler(4, online)
		x.AddHandler(5, send)
		x.AddHandler(6, offline)
		only := int32(3)
		if s.even {
			only = 2
		}
		x.AddHandler(only, func(c *tcpx.Context) { c.Reply(only, "own id") })
		x.Any(fmt.Sprintf("/only%d", only), func(c *tcpx.Context) { c.Reply(only, "own url") })
	}
	x.OnConnect = func(c *tcpx.Context) {
		atomic.AddInt64(&s.opened, 1)
		if o, ok := c.GetCtxPerConn("owner"); ok {
			foreign("a new connection with data of %v", o)
		}
		c.SetCtxPerConn("owner", s.name)
		if (c.GetPoolRef() != nil) != s.pool {
			foreign("a pool it does not have")
		}
	}
	x.OnClose = func(c *tcpx.Context) {
		atomic.AddInt64(&s.closed, 1)
		if o, _ := c.GetCtxPerConn("owner"); o != s.name {
			foreign("the end of a connection of %v", o)
		}
	}
	x.HandleRaw = func(c *tcpx.Context) {
		if o, _ := c.GetCtxPerConn("owner"); o != s.name {
			foreign("a raw connection of %v", o)
		}
		b := make([]byte, 100)
		for {
			n, err := c.Conn.Read(b)
			if err != nil {
				return
			}
			c.Conn.Write([]byte(s.name + ">" + string(b[:n])))
		}
	}
	s.w = r.serveKind(x, []string{"tcp", "tcp4", "unix", "tls", "tcp"}[g.Intn(5)])
	s.running = true
	if g.Intn(2) == 0 && s.watch != "past" { // a past deadline is for sockets of connections
		s.uw = &world{r.serve(x, "udp", nextAddr()), "udp"}
	}
	if g.Intn(3) == 0 && s.steady() {
		a := nextAddr()
		s.raw = &world{r.serveWith(x, "tcp", a, func() error { return x.ListenAndServeRaw("tcp", a) }), "tcp"}
	}
	return s
}

func (s *c27srv) dial() net.Conn {
	c := s.w.dial()
	n := atomic.AddInt64(&s.dialed, 1)
	if !until(longWait, func() bool { return atomic.LoadInt64(&s.opened) >= n }) {
		s.r.Violation("server %s: OnConnect does not run for a connection made to it (%d of %d)", s.what(), s.opened, n)
	}
	return c
}

// hush opens the connection that stays silent.
func (s *c27srv) hush() {
	s.silent = s.dial()
	if s.w.kind == "tls" {
		s.silent.Write(frame(77, nil, nil)) // completes the handshake
	}
}

// ask sends one request and compares the answer.
func (s *c27srv) ask(c net.Conn, id int32, hdr map[string]interface{}, body, want string, wantID int32) error {
	var h []byte
	if hdr != nil {
		h = jsonOf(hdr)
	}
	if _, err := c.Write(frame(id, h, []byte(body))); err != nil {
		return err
	}
	m, err := recv(c)
	if err != nil {
		return err
	}
	if m.ID != wantID || string(m.Body) != s.name+"|"+want {
		return fmt.Errorf("answered %q under id %d, want %q under id %d", trunc(string(m.Body), 200), m.ID, s.name+"|"+want, wantID)
	}
	return nil
}

// who checks that a connection is served by s, with its own chain, routes and marshaller.
func (s *c27srv) who(c net.Conn) error {
	t := fmt.Sprintf("q%d", atomic.AddInt64(&echoCtr, 1))
	if !s.onMsg { // an id and a pattern only others have
		id := int32(2)
		if s.even {
			id = 3
		}
		c.Write(frame(id, nil, nil))
		c.Write(frame(0, jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": fmt.Sprintf("/only%d", id)}), nil))
	}
	if !s.onMsg {
		id := int32(3)
		if s.even {
			id = 2
		}
		if err := s.ask(c, id, nil, t, "own id", id); err != nil {
			return err
		}
		if err := s.ask(c, 0, map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": fmt.Sprintf("/only%d", id)}, t, "own url", id); err != nil {
			return err
		}
	}
	if err := s.ask(c, 1, nil, t, s.chain+t, 1); err != nil {
		return err
	}
	return s.ask(c, 9, map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/who"}, t, s.uchn+t, 9)
}

// probe checks a running steady server completely; c27cli state must not change meanwhile.
func (s *c27srv) probe(g *rand.Rand, when string) {
	r := s.r
	for i, k := range s.cls {
		if err := s.who(k.c); err != nil {
			r.Violation("server %s: established connection %d %s: %v", s.what(), i, when, err)
		}
	}
	if !s.running {
		return
	}
	c := s.dial()
	if err := s.who(c); err != nil {
		r.Violation("server %s: a new connection %s: %v", s.what(), when, err)
	}
	if s.pool {
		for _, n := range []string{"bob", "al", "eve"} {
			t := fmt.Sprintf("m%d", atomic.AddInt64(&echoCtr, 1))
			want, tgt := "err", s.names[n]
			if tgt != nil {
				want = "ok"
			}
			if err := s.ask(c, 5, nil, n+" "+t, want, 5); err != nil {
				r.Violation("server %s: sending to user %s (online here: %v) %s: %v", s.what(), n, tgt != nil, when, err)
			}
			if tgt != nil {
				m, err := recv(tgt.c)
				if err != nil || m.ID != 50 || string(m.Body) != s.name+"|"+t {
					r.Violation("server %s: what was sent to its user %s %s did not arrive: %v %q", s.what(), n, when, err, m.Body)
				}
			}
		}
	}
	// its own size limit
	size := 3000
	if s.limit > 3000 {
		size = []int{3000, 120000}[g.Intn(2)]
	}
	pad := strings.Repeat("x", size)
	if s.limit > 0 && int(s.limit) < size {
		c.Write(frame(1, nil, []byte(pad)))
		if b, ok := ended(c, longWait); !ok || len(b) > 0 {
			r.Violation("server %s: a message of %d bytes is not refused %s (ended %v, got %s)", s.what(), size, when, ok, short(b))
		}
	} else if err := s.ask(c, 1, nil, pad, s.chain+pad[:40], 1); err != nil {
		r.Violation("server %s: a message of %d bytes %s: %v", s.what(), size, when, err)
	}
	c.Close()
	if s.uw != nil {
		c := s.uw.dial()
		ok := false
		for try := 0; try < 60 && !ok; try++ {
			t := fmt.Sprintf("u%d", atomic.AddInt64(&echoCtr, 1))
			c.Write(frame(1, nil, []byte(t)))
			b := make([]byte, 4096)
			c.SetReadDeadline(time.Now().Add(400 * time.Millisecond))
			n, err := c.Read(b)
			if err != nil {
				continue
			}
			m, err := parseFrame(b[:n])
			if err != nil || m.ID != 1 || !strings.HasPrefix(string(m.Body), s.name+"|"+s.chain+"u") {
				r.Violation("server %s: a datagram %s is answered with %q (%v), want %q", s.what(), when, b[:n], err, s.name+"|"+s.chain+t)
			}
			ok = true
		}
		if !ok {
			r.Violation("server %s: no datagram is answered %s", s.what(), when)
		}
		c.Close()
	}
	if s.raw != nil {
		c := s.raw.dial()
		atomic.AddInt64(&s.dialed, 1)
		c.Write([]byte("hello"))
		want := s.name + ">hello"
		b, err := recvN(c, len(want))
		if err != nil || string(b) != want {
			r.Violation("server %s: a raw connection %s: %q %v", s.what(), when, b, err)
		}
		c.Close()
	}
	r.Case(fmt.Sprintf("%s/pool%v/om%v/lim%d/%s", s.w.kind, s.pool, s.onMsg, s.limit, when))
}

func c27world(r *Rep, g *rand.Rand, no int) {
	n := 2 + g.Intn(4)
	var srv []*c27srv
	for i := 0; i < n; i++ {
		srv = append(srv, c27new(r, g, i, i < 2 || g.Intn(2) == 0))
	}
	stop := make(chan struct{})
	var bg sync.WaitGroup
	for _, s := range srv {
		s := s
		s.hush()
		if !s.steady() {
			continue
		}
		for k := 0; k < 1+g.Intn(3); k++ {
			s.cls = append(s.cls, &c27cli{c: s.dial()})
		}
		for _, k := range s.cls {
			if err := s.who(k.c); err != nil {
				r.Violation("server %s among %d: %v", s.what(), n, err)
			}
		}
		s.bg = s.dial()
		if err := s.who(s.bg); err != nil {
			r.Violation("server %s among %d: %v", s.what(), n, err)
		}
		bg.Add(1)
		go func() {
			defer bg.Done()
			for !isClosed(stop) {
				s.lk.RLock()
				if s.bg != nil {
					if err := s.who(s.bg); err != nil {
						r.Violation("server %s: traffic while other servers are operated on: %v", s.what(), err)
					}
					r.Count("background_requests", 1)
				}
				s.lk.RUnlock()
				time.Sleep(200 * time.Microsecond)
			}
		}()
	}
	var hist []string
	for k := 5 + g.Intn(8); k > 0; k-- {
		t := srv[g.Intn(n)]
		op := ""
		t.lk.Lock()
		switch {
		case !t.running:
			op = "start"
			if err := t.x.Start(); err != nil {
				r.Violation("Start of a stopped server: %v", err)
			}
			t.running = true
			t.await(r)
			if t.silent == nil {
				t.hush()
			}
		case g.Intn(5) < 2 && t.steady() && len(t.cls) > 0 && t.pool:
			c := t.cls[g.Intn(len(t.cls))]
			if c.name == "" {
				name := []string{"bob", "al"}[g.Intn(2)]
				op = "online " + name
				if err := t.ask(c.c, 4, nil, name, "ok", 4); err != nil {
					r.Violation("Online on %s: %v", t.what(), err)
				}
				if o := t.names[name]; o != nil {
					o.name = ""
				}
				c.name, t.names[name] = name, c
			} else {
				op = "offline"
				if err := t.ask(c.c, 6, nil, "", "ok", 6); err != nil {
					r.Violation("Offline on %s: %v", t.what(), err)
				}
				delete(t.names, c.name)
				c.name = ""
			}
		case g.Intn(4) == 0 && len(t.cls) > 0:
			op = "close"
			i := g.Intn(len(t.cls))
			c := t.cls[i]
			was := atomic.LoadInt64(&t.closed)
			c.c.Close()
			if !until(longWait, func() bool { return atomic.LoadInt64(&t.closed) > was }) {
				r.Violation("server %s: a connection its peer closed is not closed", t.what())
			}
			// OnClose and the pool entry: CloseConn comes right after OnClose
			if c.name != "" {
				delete(t.names, c.name)
				t.settleName(r, c.name)
			}
			t.cls = append(t.cls[:i], t.cls[i+1:]...)
		default:
			all := g.Intn(2) == 0
			op = fmt.Sprintf("stop(%v)", all)
			again := g.Intn(2) == 0
			var err error
			if again {
				op = "re" + op
				err = t.x.Restart(all)
			} else {
				err = t.x.Stop(all)
				t.running = false
			}
			if err != nil {
				r.Violation("%s of a running server: %v", op, err)
			}
			if all {
				for _, c := range append(append([]*c27cli{}, t.cls...), &c27cli{c: t.silent}) {
					if c.c == nil {
						continue
					}
					if _, ok := ended(c.c, longWait); !ok {
						r.Violation("server %s: %s leaves a connection open", t.what(), op)
					}
					c.c.Close()
				}
				t.cls, t.names = nil, map[string]*c27cli{}
				if t.bg != nil {
					ended(t.bg, longWait)
					t.bg.Close()
					t.bg = nil
				}
			}
			if again {
				t.await(r)
				if all {
					t.hush()
				}
			} else if all {
				t.silent = nil
			}
		}
		if t.running && t.steady() && len(t.cls) == 0 {
			t.cls = append(t.cls, &c27cli{c: t.dial()})
		}
		t.lk.Unlock()
		hist = append(hist, t.name+"."+op)
		for _, s := range srv {
			if s != t && s.steady() {
				s.lk.Lock()
				s.probe(g, fmt.Sprintf("after %s of another server", op))
				s.lk.Unlock()
			}
			if v, _ := s.alien.Load().(string); v != "" {
				r.Violation("server %s saw %s (history %v)", s.what(), v, hist)
			}
		}
		r.Count("operations", 1)
	}
	close(stop)
	bg.Wait()
	// every server treats silence by its own rules
	for _, s := range srv {
		if s.silent == nil {
			continue
		}
		if s.steady() {
			if err := s.who(s.silent); err != nil {
				r.Violation("server %s (neither heartbeat nor auth due): a silent connection is not served at the end: %v (history %v)", s.what(), err, hist)
			}
		} else if _, ok := ended(s.silent, longWait); !ok {
			r.Violation("server %s: a silent connection is not closed (history %v)", s.what(), hist)
		}
		s.silent.Close()
	}
	for _, s := range srv {
		for _, c := range s.cls {
			c.c.Close()
		}
		if s.bg != nil {
			s.bg.Close()
		}
		if s.running {
			s.x.Stop(true)
		}
	}
	for _, s := range srv {
		if !until(longWait, func() bool {
			return atomic.LoadInt64(&s.opened) == atomic.LoadInt64(&s.dialed) && atomic.LoadInt64(&s.closed) == atomic.LoadInt64(&s.opened)
		}) {
			r.Violation("server %s: %d connections were made to it, OnConnect ran %d times and OnClose %d times (history %v)", s.what(), s.dialed, s.opened, s.closed, hist)
		}
		if v, _ := s.alien.Load().(string); v != "" {
			r.Violation("server %s saw %s (history %v)", s.what(), v, hist)
		}
	}
	r.Count("servers", int64(n))
	r.Sample(strings.Join(hist, " "))
}

// await waits until the doors of a started server are open.
func (s *c27srv) await(r *Rep) {
	for _, w := range []*world{s.w, s.uw, s.raw} {
		if w != nil && !until(longWait, func() bool { return bound(w.Network, w.Addr) }) {
			r.Violation("server %s: %s is not served again", s.what(), w.Network)
		}
	}
	until(longWait, func() bool { return s.x.State() == tcpx.STATE_RUNNING })
}

// settleName waits for the entry of a closed connection to go.
func (s *c27srv) settleName(r *Rep, name string) {
	if !s.running {
		return
	}
	c := s.dial()
	defer c.Close()
	if !until(longWait, func() bool { return s.ask(c, 5, nil, name+" late", "err", 5) == nil }) {
		r.Violation("server %s: the pool entry of a closed connection stays", s.what())
	}
}

func c27(r *Rep) {
	r.Rule("one case = one complete probe (established and new connections, datagrams, raw connections, routes, middleware, marshaller, pool, size limit) of a server after an operation on another server of the same process; distinct by transport, options and operation")
	r.Assume("a datagram may be lost: 60 are sent before silence counts")
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for i := 0; i < r.N(240); i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			c27world(r, r.Sub(int64(70000+i)), i)
			<-sem
		}(i)
	}
	wg.Wait()
}
