package main

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C25"] = c25 }

// c25jam is one thing that holds up a handler, a callback or a connection.
type c25jam struct {
	kind string
	d    *door
	n    int // how many at once
	cs   []*fclient
	open bool // its clients' connections are open and their replies are read
	read bool // the server still reads what its clients send
}

func (j *c25jam) String() string { return fmt.Sprintf("%s(%d) on %v", j.kind, bucket(j.n), j.d) }

type c25run struct {
	r       *Rep
	f       *fleet
	release chan struct{}
	blocked int64
	left    int64
	wanted  int64
	jams    []*c25jam
	known   []*fclient              // connections that are nobody's obstacle
	ways    []func(b []byte) []byte // messages that lead to the hook
}

func c25(r *Rep) {
	r.Rule("one case = one server with handlers, middleware, batches, callbacks or peers held up on one of its addresses, while every address, the other connections, later messages of the same connection, the pool, CloseConn, Stop and Start are probed; distinct by transport, options and kinds of obstacle")
	r.Assume("held up means unanswered for 25 s of running time; OnConnect runs in the accept loop and is not obstructed here")
	n := r.N(400)
	for i := 0; i < n; i++ {
		c25one(r, r.Sub(int64(2500+i)), i)
	}
	for i := 0; i < r.N(20); i++ {
		c25loss(r, r.Sub(int64(2700+i)), i)
	}
	for i := 0; i < r.N(12); i++ {
		c25crowd(r, r.Sub(int64(2800+i)), i)
	}
}

func (s *c25run) park() {
	atomic.AddInt64(&s.blocked, 1)
	<-s.release
	atomic.AddInt64(&s.left, 1)
}

func c25one(r *Rep, g *rand.Rand, i int) {
	kinds := [][]string{{"tcp", "udp", "raw"}, {"unix", "udp4", "rawunix"}, {"tcp4", "tcp", "unixgram"}, {"tcp", "unix", "udp", "raw"}}[i%4]
	o := fopt{kinds: kinds, pool: g.Intn(3) > 0, bcast: g.Intn(2) == 0, onMsg: g.Intn(5) == 0, tls: i%5 == 2, auth: false}
	s := &c25run{r: r, f: r.newFleet(o), release: make(chan struct{})}
	f := s.f
	const beat, auth = 1392, 1393
	s.ways = []func(b []byte) []byte{func(b []byte) []byte { return frame(fHook, nil, b) }}
	hooked := func(c *tcpx.Context) { f.hook.Load().(func(*tcpx.Context))(c) }
	if g.Intn(2) == 0 {
		f.X.HeartBeatModeDetail(true, time.Hour, g.Intn(2) == 0, beat)
		if !o.onMsg && g.Intn(3) > 0 {
			f.X.RewriteHeartBeatHandler(beat, func(c *tcpx.Context) { c.RecvHeartBeat(); hooked(c) })
			s.ways = append(s.ways, func(b []byte) []byte { return frame(beat, nil, b) })
		}
	}
	if g.Intn(3) == 0 {
		f.X.WithAuthDetail(true, time.Hour, g.Intn(2) == 0, auth, func(c *tcpx.Context) { c.RecvAuthPass(); hooked(c) })
		if !o.onMsg {
			s.ways = append(s.ways, func(b []byte) []byte { return frame(auth, nil, b) })
		}
	}
	if !o.onMsg && g.Intn(2) == 0 {
		f.X.Any("/hook", hooked)
		s.ways = append(s.ways, func(b []byte) []byte {
			return frame(0, jsonOf(map[string]string{tcpx.HEADER_ROUTER_KEY: tcpx.URLPATTERN, tcpx.HEADER_ROUTER_VALUE: "/hook"}), b)
		})
	}
	if g.Intn(3) == 0 {
		f.X.SetMaxBytePerMessage(1 << 20)
	}
	if g.Intn(3) == 0 {
		f.X.SetDeadline(time.Now().Add(time.Hour))
	}
	f.X.UseGlobal(func(c *tcpx.Context) {
		if c.Stream != nil {
			if b, _ := c.RawStream(); strings.HasPrefix(string(b), "mw") {
				s.park()
			}
		}
	})
	f.hook.Store(func(c *tcpx.Context) {
		if c.Stream == nil {
			s.park()
			return
		}
		b, _ := c.RawStream()
		switch {
		case strings.HasPrefix(string(b), "send "):
			atomic.AddInt64(&s.blocked, 1)
			c.SendToUsername(string(b)[5:], 9, make([]byte, 6<<20))
			atomic.AddInt64(&s.left, 1)
			return
		case strings.HasPrefix(string(b), "gone"):
			c.SetCtxPerConn("gone", true)
		default:
			s.park()
		}
		c.ReplyWithMarshaller(rawMarshaller{}, fHook, b)
	})
	f.onGone = func(c *tcpx.Context) {
		if v, ok := c.GetCtxPerConn("gone"); ok && v == true {
			s.park()
		}
	}
	f.start()
	for _, d := range f.doors {
		s.known = append(s.known, f.dial(d))
	}
	for k := 1 + g.Intn(3); k > 0; k-- {
		s.jam(g)
	}
	name := fmt.Sprintf("%v %v", o, s.jams)
	r.Step(name)
	s.probe(name, "")
	if g.Intn(2) == 0 { // stopping and starting is not held up either
		var err error
		if !within(longWait, func() { err = f.X.Stop(false) }) || err != nil {
			r.Violation("%s: Stop(false) does not return: %v", name, err)
		}
		if !within(longWait, func() { err = f.X.Start() }) || err != nil {
			r.Violation("%s: Start does not return: %v", name, err)
		}
		f.up("after a restart with obstacles " + name)
		for k, c := range s.known {
			if c.d.network == "unixgram" { // connected to the socket file of the former start
				c.close()
				s.known[k] = f.dial(c.d)
			}
		}
		s.probe(name, " after a restart")
	}
	released := g.Intn(2) == 0
	if released {
		close(s.release)
		s.resume(name)
	} else {
		s.closeOne(g, name)
	}
	var err error
	if !within(longWait, func() { err = f.X.Stop(true) }) || err != nil {
		r.Violation("%s: Stop(true) does not return: %v", name, err)
	}
	for _, j := range s.jams {
		if j.d.mode == "udp" || j.kind == "onclose" {
			continue
		}
		for _, c := range j.cs {
			if _, ok := ended(c.c, longWait); !ok {
				r.Violation("%s: a connection obstructed by %v is not closed by Stop(true)", name, j)
			}
		}
	}
	for _, c := range s.known {
		if c.d.mode != "udp" {
			if _, ok := ended(c.c, longWait); !ok {
				r.Violation("%s: a connection is not closed by Stop(true) while others are obstructed", name)
			}
		}
	}
	if !released {
		close(s.release)
	}
	for _, j := range s.jams {
		for _, c := range j.cs {
			c.close()
		}
	}
	for _, c := range s.known {
		c.close()
	}
	if !until(longWait, func() bool { return atomic.LoadInt64(&s.left) == atomic.LoadInt64(&s.blocked) }) {
		r.Violation("%s: %d of %d held up handlers and callbacks went on when released", name, s.left, s.blocked)
	}
	if !until(longWait, func() bool { return atomic.LoadInt64(&f.opened) == atomic.LoadInt64(&f.closed) }) {
		r.Violation("%s: %d connections opened, %d closed in the end", name, f.opened, f.closed)
	}
	for _, j := range s.jams {
		r.Case(fmt.Sprintf("%v/%s/%v/%d/tls%v", o, j.kind, j.d, bucket(j.n), o.tls))
		r.Count("obstacle_"+j.kind, int64(j.n))
	}
	r.Count("held_up", s.blocked)
	r.Sample(map[string]interface{}{"server": name, "held_up": s.blocked})
}

// jam adds an obstacle and waits until it is in place.
func (s *c25run) jam(g *rand.Rand) {
	f := s.f
	d := f.doors[g.Intn(len(f.doors))]
	j := &c25jam{d: d, n: []int{1, 3, 20, 300, 2500}[g.Intn(5)]}
	add := func() *fclient {
		c := f.dial(d)
		j.cs = append(j.cs, c)
		return c
	}
	want := func(n int) { s.wanted += int64(n) }
	hook := func(b string) []byte { return s.ways[g.Intn(len(s.ways))]([]byte(b)) }
	switch d.mode {
	case "raw":
		j.kind, j.n = "raw", 1+j.n%40
		for k := 0; k < j.n; k++ {
			add().c.Write([]byte("hook\n"))
		}
		want(j.n)
	case "udp":
		j.kind, j.n = "datagrams", 1+j.n%60
		c := add()
		for k := 0; k < j.n; k++ {
			c.c.Write(hook(fmt.Sprintf("b%d", k)))
			if k%8 == 7 || d.network == "unixgram" {
				n := int64(k + 1)
				if !until(300, func() bool { return atomic.LoadInt64(&s.blocked) >= s.wanted+n }) {
					break
				}
			}
		}
		// datagrams may be lost
		until(20, func() bool { return atomic.LoadInt64(&s.blocked) >= s.wanted+int64(j.n) })
		s.wanted = atomic.LoadInt64(&s.blocked)
		s.jams = append(s.jams, j)
		return
	default:
		ks := []string{"handlers", "handlers", "middleware", "batch", "half", "halfbatch", "noread", "onclose", "batches", "heads"}
		if f.opt.pool {
			ks = append(ks, "sendto")
		}
		if d.tls {
			ks = append(ks, "nohandshake", "nohandshake")
		}
		j.kind = ks[g.Intn(len(ks))]
		switch j.kind {
		case "handlers":
			j.open, j.read = true, true
			c := add()
			for k := 0; k < j.n; k++ {
				c.c.Write(hook(fmt.Sprintf("b%d", k)))
			}
			want(j.n)
		case "middleware":
			j.open, j.read = true, true
			c := add()
			for k := 0; k < j.n; k++ {
				c.c.Write(frame(echoID, nil, []byte(fmt.Sprintf("mw%d", k))))
			}
			want(j.n)
		case "batch", "batches":
			j.open, j.read = true, true
			c := add()
			if j.kind == "batch" {
				j.n = 1
			} else {
				j.n = 1 + j.n%30
			}
			for k := 0; k < j.n; k++ {
				c.c.Write(frame(echoID, jsonOf(map[string]string{tcpx.PIPED: "enable;3"}), []byte(fmt.Sprintf("x%d", k))))
				c.c.Write(hook(fmt.Sprintf("b%d", k)))
				c.c.Write(frame(echoID, nil, []byte(fmt.Sprintf("y%d", k))))
			}
			for k := 0; k < j.n; k++ {
				if m, err := recv(c.c); err != nil || m.Body[0] != 'x' {
					s.r.Violation("%v: the first message of a batch got %q, %v", f.opt, m.Body, err)
				}
			}
			want(j.n)
		case "heads": // batches whose first message is held up, every other one of that message alone
			j.open, j.read = true, true
			c := add()
			j.n = 1 + j.n%30
			for k := 0; k < j.n; k++ {
				c.c.Write(frame(fHook, jsonOf(map[string]string{tcpx.PIPED: fmt.Sprintf("enable;%d", 1+k%2)}), []byte(fmt.Sprintf("b%d", k))))
				if k%2 == 1 {
					c.c.Write(frame(echoID, nil, []byte(fmt.Sprintf("y%d", k))))
				}
			}
			want(j.n)
		case "nohandshake":
			j.n = 1 + j.n%100
			h := clientHello()
			for k := 0; k < j.n; k++ {
				c, err := dialFrom(d.network, d.addr)
				if err != nil {
					s.r.Violation("%v: cannot connect: %v", f.opt, err)
				}
				c.Write(h[:g.Intn(2)*g.Intn(len(h))])
				j.cs = append(j.cs, &fclient{f, d, c})
			}
		case "half":
			j.n = 1 + j.n%40
			for k := 0; k < j.n; k++ {
				m := frame(echoID, nil, make([]byte, 1000))
				add().c.Write(m[:1+g.Intn(len(m)-1)])
			}
		case "halfbatch":
			j.n = 1 + j.n%40
			for k := 0; k < j.n; k++ {
				c := add()
				c.c.Write(frame(echoID, jsonOf(map[string]string{tcpx.PIPED: "enable;4"}), []byte("x")))
				c.c.Write(frame(echoID, nil, []byte("y")))
			}
		case "noread":
			j.n = 1 + j.n%4
			j.read = true
			for k := 0; k < j.n; k++ {
				c := add()
				for l := 0; l < 3; l++ {
					c.c.Write(frame(fPush, nil, nil))
				}
				// the first bytes have come, so a handler is writing
				if _, err := recvN(c.c, 100); err != nil {
					s.r.Violation("%v: a large reply does not arrive: %v", f.opt, err)
				}
			}
		case "sendto":
			u := fmt.Sprintf("deaf%d", g.Int63())
			t := add()
			t.c.Write(frame(fOnline, nil, []byte(u)))
			if m, err := recv(t.c); err != nil || m.ID != fOnline {
				s.r.Violation("%v: going online: %v", f.opt, err)
			}
			j.n = 1 + j.n%4
			j.read = true
			for k := 0; k < j.n; k++ {
				add().c.Write(hook("send " + u))
			}
			want(j.n)
		case "onclose":
			j.n = 1 + j.n%40
			for k := 0; k < j.n; k++ {
				c := add()
				c.c.Write(hook("gone"))
				if _, err := recv(c.c); err != nil {
					s.r.Violation("%v: no reply: %v", f.opt, err)
				}
				c.close()
			}
			want(j.n)
		}
	}
	s.jams = append(s.jams, j)
	if !grows(longWait, func() int { return int(atomic.LoadInt64(&s.blocked)) }, func() bool { return atomic.LoadInt64(&s.blocked) >= s.wanted }) {
		s.r.Violation("%v: of %d messages (%v) sent while earlier handlers are held up only %d reach their handler", f.opt, s.wanted, s.jams, atomic.LoadInt64(&s.blocked))
	}
}

// probe asks for everything that must not be held up.
func (s *c25run) probe(name, when string) {
	f, r := s.f, s.r
	for _, d := range f.doors {
		c := f.knock(d, longWait)
		if c == nil {
			r.Violation("%s: a new client of %v is not served%s", name, d, when)
		}
		if f.opt.pool && d.mode == "framed" {
			c.c.Write(frame(fOnline, nil, []byte(fmt.Sprintf("p%d", atomic.AddInt64(&echoCtr, 1)))))
			if m, err := recv(c.c); err != nil || m.ID != fOnline || string(m.Body) != "<nil>" {
				r.Violation("%s: going online is held up%s: %v", name, when, err)
			}
		}
		c.close()
	}
	for _, c := range s.known {
		if err := c.ping(); err != nil {
			r.Violation("%s: an established client of %v is not served%s: %v", name, c.d, when, err)
		}
	}
	for _, j := range s.jams {
		for k, c := range j.cs {
			if k > 3 {
				break
			}
			if j.open {
				if err := c.ping(); err != nil {
					r.Violation("%s: a later message on the connection of %v is not served%s: %v", name, j, when, err)
				}
			} else if j.read {
				tag := fmt.Sprintf("later%d", atomic.AddInt64(&echoCtr, 1))
				c.c.SetWriteDeadline(time.Now().Add(60 * time.Second))
				_, err := c.c.Write(frame(echoID, nil, []byte(tag)))
				if err != nil || !until(longWait, func() bool { return f.saw(tag) == 1 }) {
					r.Violation("%s: a later message on the connection of %v is not handled%s: %v", name, j, when, err)
				}
			}
		}
	}
	// contexts of obstructed connections answer
	for k, o := range f.snapshot() {
		if k > 8 {
			break
		}
		if !within(longWait, func() { o.ctx.IsOnline(); o.ctx.ClientIP(); o.ctx.Username(); o.ctx.GetPoolRef() }) {
			r.Violation("%s: asking a context for its state is held up%s", name, when)
		}
	}
}

// resume checks that held up handlers answer once released.
func (s *c25run) resume(name string) {
	for _, j := range s.jams {
		if !j.open {
			continue
		}
		c := j.cs[0]
		want := map[string]int{}
		for k := 0; k < j.n; k++ {
			switch j.kind {
			case "handlers":
				want[fmt.Sprintf("b%d", k)]++
			case "middleware":
				want[fmt.Sprintf("mw%d", k)]++
			case "heads":
				want[fmt.Sprintf("b%d", k)]++
				if k%2 == 1 {
					want[fmt.Sprintf("y%d", k)]++
				}
			default:
				want[fmt.Sprintf("b%d", k)]++
				want[fmt.Sprintf("y%d", k)]++
			}
		}
		total := len(want)
		for k := 0; k < total; k++ {
			m, err := recv(c.c)
			if err != nil {
				s.r.Violation("%s: %d of %d held up messages of %v are not answered after their release: %v", name, total-k, total, j, err)
			}
			b := string(m.Body)
			if want[b] != 1 {
				s.r.Violation("%s: an unexpected reply %q after the release of %v", name, b, j)
			}
			want[b]--
		}
		s.r.Count("resumed", int64(total))
	}
}

// closeOne closes obstructed connections from the server's side.
func (s *c25run) closeOne(g *rand.Rand, name string) {
	f := s.f
	var open []*fconn
	for _, k := range f.snapshot() {
		if atomic.LoadInt32(&k.closes) == 0 {
			open = append(open, k)
		}
	}
	g.Shuffle(len(open), func(a, b int) { open[a], open[b] = open[b], open[a] })
	for i := 0; i < 3 && i < len(open); i++ {
		k := open[i]
		if !within(longWait, func() { k.ctx.CloseConn() }) {
			s.r.Violation("%s: CloseConn is held up", name)
		}
		if k.ctx.IsOnline() {
			s.r.Violation("%s: a closed connection reports online", name)
		}
	}
}

// c25loss: loss callbacks that do not return.
func c25loss(r *Rep, g *rand.Rand, i int) {
	x := tcpx.NewTcpX(nil)
	addEcho(x)
	release := make(chan struct{})
	var in, out int64
	x.HeartBeatMode(true, 30*time.Millisecond)
	x.SetEventOnHeartbeatLoss(func(c *tcpx.Context) {
		atomic.AddInt64(&in, 1)
		<-release
		atomic.AddInt64(&out, 1)
	})
	w := r.serveKind(x, []string{"tcp", "unix", "tls"}[i%3])
	n := 1 + g.Intn(60)
	var cs []net.Conn
	for k := 0; k < n; k++ {
		c := w.dial()
		if w.kind == "tls" {
			c.Write(frame(echoID, nil, []byte("x")))
		}
		cs = append(cs, c)
	}
	if !until(longWait, func() bool { return atomic.LoadInt64(&in) >= int64(n) }) {
		r.Violation("%s: while the loss callbacks of some connections last, those of others do not start: %d of %d", w.kind, in, n)
	}
	ok := until(longWait, func() bool { // the watcher may end it before it is served
		c := w.dial()
		defer c.Close()
		return ping(c) == nil
	})
	if !ok {
		r.Violation("%s: new connections are not served while loss callbacks last", w.kind)
	}
	if !within(longWait, func() { x.Stop(true) }) {
		r.Violation("%s: Stop(true) does not return while loss callbacks last", w.kind)
	}
	for _, c := range cs {
		if _, ok := ended(c, longWait); !ok {
			r.Violation("%s: a connection whose loss callback lasts is not closed by Stop(true)", w.kind)
		}
		c.Close()
	}
	close(release)
	if !until(longWait, func() bool { return atomic.LoadInt64(&in) == atomic.LoadInt64(&out) }) {
		r.Violation("%s: loss callbacks did not go on", w.kind)
	}
	r.Case(fmt.Sprintf("loss/%s/%d", w.kind, bucket(n)))
	r.Count("obstacle_loss", int64(n))
}

// c25crowd holds up a crowd of connections: idle, in a handler, or in the middle of a message.
func c25crowd(r *Rep, g *rand.Rand, i int) {
	x := tcpx.NewTcpX(nil)
	addEcho(x)
	x.WithBuiltInPool(g.Intn(2) == 0)
	release := make(chan struct{})
	var in, out int64
	x.AddHandler(2, func(c *tcpx.Context) {
		atomic.AddInt64(&in, 1)
		<-release
		c.ReplyWithMarshaller(rawMarshaller{}, 2, nil)
		atomic.AddInt64(&out, 1)
	})
	w := r.serveKind(x, []string{"tcp", "unix", "tls"}[i%3])
	n := 270 + g.Intn(900)
	if w.kind == "tls" {
		n = 270 + g.Intn(60)
	}
	var cs, stuck []net.Conn
	for k := 0; k < n; k++ {
		c := w.dial()
		cs = append(cs, c)
		c.SetDeadline(time.Now().Add(120 * time.Second))
		switch g.Intn(3) {
		case 0:
			c.Write(frame(2, nil, nil))
			stuck = append(stuck, c)
		case 1:
			b := frame(2, nil, []byte("half"))
			c.Write(b[:1+g.Intn(len(b)-1)])
		default:
			if w.kind == "tls" {
				c.(*tls.Conn).Handshake()
			}
		}
	}
	if !until(longWait, func() bool { return atomic.LoadInt64(&in) == int64(len(stuck)) }) {
		r.Violation("%s: of %d connections idle or held up, %d sent a message and only %d messages are handled", w.kind, n, len(stuck), atomic.LoadInt64(&in))
	}
	for k := 0; k < 3; k++ {
		c := w.dial()
		if err := ping(c); err != nil {
			r.Violation("%s: a new connection is not served while %d connections are idle or held up: %v", w.kind, n, err)
		}
		c.Close()
	}
	for _, c := range stuck {
		if g.Intn(10) == 0 {
			if err := ping(c); err != nil {
				r.Violation("%s: a later message is not served while %d connections are idle or held up: %v", w.kind, n, err)
			}
		}
	}
	close(release)
	if !until(longWait, func() bool { return atomic.LoadInt64(&out) == int64(len(stuck)) }) {
		r.Violation("%s: of %d handlers released only %d ended", w.kind, len(stuck), atomic.LoadInt64(&out))
	}
	for _, c := range stuck {
		if m, err := recv(c); err != nil || m.ID != 2 {
			r.Violation("%s: the reply of a handler that was held up does not arrive: %v", w.kind, err)
		}
	}
	if !within(longWait, func() { x.Stop(true) }) {
		r.Violation("%s: Stop(true) does not return with %d connections open", w.kind, n)
	}
	for _, c := range cs {
		if _, ok := ended(c, longWait); !ok {
			r.Violation("%s: one of %d connections is not closed by Stop(true)", w.kind, n)
		}
		c.Close()
	}
	r.Case(fmt.Sprintf("crowd/%s/%d", w.kind, bucket(n)))
	r.Count("crowd_connections", int64(n))
}
