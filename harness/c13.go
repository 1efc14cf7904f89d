package main

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C13"] = c13 }

// hbRef is the harness's own heartbeat watcher: same rule, fed by the observed heartbeats.
type hbRef struct {
	ch    chan int
	stop  chan struct{}
	lost  int64 // time at which three intervals had passed, 0 when not
	worst int32 // most consecutive empty intervals seen
}

func newHbRef(d time.Duration) *hbRef {
	h := &hbRef{ch: make(chan int, 1), stop: make(chan struct{})}
	go func() {
		times := int32(0)
		for {
			select {
			case <-h.ch:
				times = 0
			case <-time.After(d):
				times++
				if times > atomic.LoadInt32(&h.worst) {
					atomic.StoreInt32(&h.worst, times)
				}
				if times == 3 {
					atomic.StoreInt64(&h.lost, now())
					return
				}
			case <-h.stop:
				return
			}
		}
	}()
	return h
}

func (h *hbRef) beat() {
	select {
	case h.ch <- 1:
	default:
	}
}

type c13conn struct {
	ref    *hbRef
	ctx    *tcpx.Context
	upAt   int64 // OnConnect done
	loss   int32
	closes int32
	openIn int32 // loss callback found the connection open
	beats  int32 // RecvHeartBeat calls that returned
	begun  int32
}

type c13cfg struct {
	kind   string
	d      time.Duration
	set    string // mode, detail, detailmw, rewrite, rewritemw, raw
	id     int32
	cb     bool
	off    bool
	noBeat bool // rewritten handler does not report heartbeats
	onMsg  bool
	opt    string // further options: pool, auth, bcast, limit, stopped
}

func (c c13cfg) String() string {
	return fmt.Sprintf("%s/%s/id%d/cb%v/off%v/%s", c.kind, c.set, c.id, c.cb, c.off, c.opt)
}

func (c c13cfg) has(o string) bool { return strings.Contains(c.opt, o) }

type c13srv struct {
	r   *Rep
	w   *world
	cfg c13cfg
	mu  sync.Mutex
	in  chan *c13conn
}

var c13user int64

func c13start(r *Rep, cfg c13cfg) *c13srv {
	s := &c13srv{r: r, cfg: cfg, in: make(chan *c13conn, 256)}
	x := tcpx.NewTcpX(nil)
	addEchoReply(x)
	if cfg.has("pool") {
		x.WithBuiltInPool(true)
	}
	if cfg.has("auth") {
		x.WithAuthDetail(true, time.Hour, true, 60001, func(c *tcpx.Context) {})
	}
	if cfg.has("bcast") {
		x.WithBroadCastSignal(true)
	}
	if cfg.has("limit") {
		x.SetMaxBytePerMessage(2000)
		x.SetDeadline(time.Now().Add(time.Hour))
	}
	get := func(c *tcpx.Context) *c13conn {
		v, ok := c.GetCtxPerConn("k")
		if !ok {
			return nil
		}
		return v.(*c13conn)
	}
	beatH := func(c *tcpx.Context) {
		k := get(c)
		atomic.AddInt32(&k.begun, 1)
		if !cfg.noBeat {
			c.RecvHeartBeat()
			k.ref.beat()
		}
		atomic.AddInt32(&k.beats, 1)
	}
	switch cfg.set {
	case "mode":
		x.HeartBeatMode(!cfg.off, cfg.d)
	case "detail":
		x.HeartBeatModeDetail(!cfg.off, cfg.d, false, cfg.id)
	case "detailmw":
		x.HeartBeatModeDetail(!cfg.off, cfg.d, true, cfg.id)
		x.UseGlobal(func(c *tcpx.Context) {
			if id, _ := tcpx.MessageIDOf(c.Stream); id == cfg.id {
				if k := get(c); k != nil {
					atomic.AddInt32(&k.begun, 1)
					c.Next()
					atomic.AddInt32(&k.beats, 1)
				}
			}
		})
	case "rewrite":
		x.HeartBeatMode(!cfg.off, cfg.d)
		x.RewriteHeartBeatHandler(cfg.id, beatH)
	case "rewritemw":
		x.HeartBeatModeDetail(!cfg.off, cfg.d, true, 77)
		x.RewriteHeartBeatHandler(cfg.id, beatH)
	case "raw":
		x.HeartBeatMode(!cfg.off, cfg.d)
		x.HandleRaw = func(c *tcpx.Context) {
			b := make([]byte, 100)
			for {
				n, err := c.ConnReader.Read(b)
				if err != nil {
					return
				}
				for i := 0; i < n; i++ {
					if b[i] == 'h' {
						c.RecvHeartBeat()
						get(c).ref.beat()
					}
				}
			}
		}
	}
	if cfg.onMsg {
		x.OnMessage = func(c *tcpx.Context) {
			if id, _ := tcpx.MessageIDOf(c.Stream); id == cfg.id {
				c.RecvHeartBeat()
				get(c).ref.beat()
			}
		}
	}
	if cfg.cb {
		x.SetEventOnHeartbeatLoss(func(c *tcpx.Context) {
			k := get(c)
			if k == nil {
				return
			}
			if c.IsOnline() && atomic.LoadInt32(&k.closes) == 0 {
				atomic.AddInt32(&k.openIn, 1)
			}
			if cfg.set != "raw" {
				c.JSON(999, "loss")
			}
			atomic.AddInt32(&k.loss, 1)
		})
	}
	x.OnConnect = func(c *tcpx.Context) {
		k := &c13conn{ctx: c}
		c.SetCtxPerConn("k", k)
		k.ref = newHbRef(cfg.d)
		k.upAt = now()
		if n := atomic.AddInt64(&c13user, 1); cfg.has("pool") && (n%3 > 0 || cfg.has("name")) {
			if err := c.Online(fmt.Sprintf("u%d", n)); err != nil {
				r.Violation("%v: Online in OnConnect failed: %v", cfg, err)
			}
		}
		if cfg.has("auth") {
			c.RecvAuthPass()
		}
		s.in <- k
	}
	x.OnClose = func(c *tcpx.Context) {
		if k := get(c); k != nil {
			atomic.AddInt32(&k.closes, 1)
		}
	}
	if cfg.set == "raw" {
		addr := nextAddr()
		s.w = &world{r.serveWith(x, "tcp", addr, func() error { return x.ListenAndServeRaw("tcp", addr) }), "tcp"}
	} else {
		s.w = r.serveKind(x, cfg.kind)
	}
	return s
}

func addEchoReply(x *tcpx.TcpX) {
	x.Any("/ordinary", func(c *tcpx.Context) {})
	x.AddHandler(1, func(c *tcpx.Context) {
		b, err := c.RawStream()
		if err != nil {
			return
		}
		c.ReplyWithMarshaller(rawMarshaller{}, 1, b)
	})
}

// rawMarshaller sends bytes as they are.
type rawMarshaller struct{}

func (rawMarshaller) Marshal(v interface{}) ([]byte, error)   { return v.([]byte), nil }
func (rawMarshaller) Unmarshal(b []byte, d interface{}) error { *(d.(*[]byte)) = b; return nil }
func (rawMarshaller) MarshalName() string                     { return "raw" }

func (s *c13srv) open() (net.Conn, *c13conn, int64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := now()
	c := s.w.dial()
	if s.cfg.kind == "tls" {
		c.Write(frame(1, nil, []byte("x"))) // completes the handshake
	}
	var k *c13conn
	if !until(longWait, func() bool {
		select {
		case k = <-s.in:
			return true
		default:
			return false
		}
	}) {
		s.r.Violation("%v: OnConnect never ran", s.cfg)
	}
	if s.cfg.kind == "tls" {
		recv(c)
	}
	return c, k, t
}

func (s *c13srv) beat(c net.Conn) error {
	if s.cfg.set == "raw" {
		_, err := c.Write([]byte("h"))
		return err
	}
	_, err := c.Write(frame(s.cfg.id, nil, nil))
	return err
}

// closeWatch reads a client connection to its end.
type closeWatch struct {
	done  chan struct{}
	at    int64
	bytes []byte
}

func watchClose(c net.Conn) *closeWatch {
	w := &closeWatch{done: make(chan struct{})}
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := c.Read(b)
			w.bytes = append(w.bytes, b[:n]...)
			if err != nil {
				w.at = now()
				close(w.done)
				return
			}
		}
	}()
	return w
}

func c13(r *Rep) {
	r.Rule("one case = one connection watched for its whole life under a heartbeat pattern (silent, regular, sparse with gaps just under three intervals, burst, ordinary traffic only, left early); distinct by transport, way of configuring, pattern, interval and whether a loss callback is set")
	r.Assume("a connection counts as closed too late only when every connection of a group is late against the harness's own timers, in repeated rounds with growing intervals; too early is judged per connection by the monotonic clock")
	g := r.Sub(1)
	sets := []c13cfg{
		{kind: "tcp", set: "mode", id: 1392, cb: true},
		{kind: "tls", set: "detail", id: 5, cb: true},
		{kind: "unix", set: "detailmw", id: 6, cb: false},
		{kind: "tcp", set: "rewrite", id: 7, cb: true},
		{kind: "unix", set: "rewritemw", id: -8, cb: true},
		{kind: "tcp", set: "raw", id: 1392, cb: true},
		{kind: "tcp", set: "mode", id: 1392, cb: false},
		{kind: "tcp", set: "rewrite", id: 1392, cb: true},
		{kind: "tcp", set: "mode", id: 1392, cb: true, onMsg: true},
		{kind: "tcp", set: "detail", id: 0, cb: true},
	}
	idle := c13idle(r)
	defer func() {
		for _, f := range idle {
			f()
		}
	}()
	c13first(r, r.Sub(2))
	rounds := r.N(6)
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		for i, cfg := range sets {
			cfg.d = []time.Duration{160, 240, 400}[round%3] * time.Millisecond
			if round > 0 {
				for _, o := range []string{"pool", "pool+name", "auth", "bcast", "limit", "stopped"} {
					if g.Intn(3) == 0 {
						cfg.opt += "+" + o
					}
				}
			}
			wg.Add(1)
			go func(i int, cfg c13cfg, g *rand.Rand) {
				defer wg.Done()
				c13group(r, g, cfg)
			}(i, cfg, rand.New(rand.NewSource(g.Int63())))
		}
		// rewritten handler that reports nothing, old id after a rewrite, mode off
		for _, f := range []func(){
			func() { c13noBeat(r) },
			func() { c13rescue(r, round) },
			func() { c13off(r) },
			func() { c13burst(r, g.Int63()) },
		} {
			f := f
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		wg.Wait()
		r.Step(fmt.Sprintf("round %d", round))
	}
}

// c13group runs one server with connections of every pattern.
func c13group(r *Rep, g *rand.Rand, cfg c13cfg) {
	late, odd := 0, 0
	d := cfg.d
	for try := 0; try < 4; try++ {
		cfg.d = d
		l, suspect := c13once(r, g, cfg, try == 0 || odd > 0)
		if l > 0 {
			late++
			r.Count("late_groups", 1)
		}
		if suspect != "" {
			odd++
			r.Count("suspicions", 1)
			r.Inconclusive("%s", suspect)
		}
		if late == try+1 && late == 4 {
			r.Violation("%v: silent connections are closed too late: with interval %v every one of them was closed at least %v after three intervals had passed (confirmed in %d rounds)", cfg, d, time.Duration(l), late)
		}
		if odd == try+1 && odd == 3 {
			r.Violation("%s (confirmed in %d rounds with growing intervals)", suspect, odd)
		}
		if late <= try && odd <= try {
			return
		}
		d *= 2
	}
}

// c13once returns how late all silent connections were (0: at least one in time).
func c13once(r *Rep, g *rand.Rand, cfg c13cfg, full bool) (lateBy int64, suspect string) {
	s := c13start(r, cfg)
	I := int64(cfg.d)
	name := cfg.String()
	type life struct {
		pat   string
		c     net.Conn
		k     *c13conn
		t0    int64
		w     *closeWatch
		wrote []int64
		left  int64
		stop  chan struct{}
	}
	var lives []*life
	pats := []string{"silent", "silent", "silent", "silent"}
	if full {
		pats = append(pats, "regular", "regular", "regular", "sparse", "sparse", "chatter", "leave", "leaveclose", "once", "burst", "several")
	}
	var wg sync.WaitGroup
	for _, p := range pats {
		c, k, t0 := s.open()
		l := &life{pat: p, c: c, k: k, t0: t0, stop: make(chan struct{})}
		l.w = watchClose(c)
		lives = append(lives, l)
		wg.Add(1)
		go func(l *life, g *rand.Rand) {
			defer wg.Done()
			nap := func(x float64) bool {
				select {
				case <-l.w.done:
					return false
				case <-l.stop:
					return false
				case <-time.After(time.Duration(x * float64(I))):
					return true
				}
			}
			beat := func() {
				l.wrote = append(l.wrote, now())
				s.beat(l.c)
				// the default handler cannot be observed: feed the reference at the write
				if cfg.set == "mode" || cfg.set == "detail" || cfg.set == "detailmw" {
					l.k.ref.beat()
				}
			}
			switch l.pat {
			case "regular":
				for i := 0; i < 22; i++ {
					beat()
					if !nap(0.2 + 0.3*g.Float64()) {
						return
					}
				}
			case "sparse":
				for i := 0; i < 3; i++ {
					if !nap(2.4) {
						return
					}
					beat()
				}
			case "chatter":
				// until the connection is closed for lack of heartbeats
				start := atomic.LoadInt64(&ticks)
				for i := 0; ; i++ {
					switch {
					case cfg.set == "raw":
						l.c.Write([]byte("zzz"))
					case i%3 == 0:
						l.c.Write(frame(1, nil, []byte("x")))
					case i%3 == 1:
						l.c.Write(frame(4444, nil, []byte("nobody")))
					default:
						l.c.Write(frame(0x7ffffff0, []byte(`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/ordinary"}`), nil))
					}
					if !nap(0.1) {
						return
					}
					if atomic.LoadInt64(&ticks)-start > longWait {
						r.Violation("%s: interval %v: a connection that sends ordinary messages but no heartbeat stays open", name, cfg.d)
					}
				}
			case "leave":
				nap(1.5)
				l.c.Close()
				l.left = now()
			case "leaveclose":
				nap(1.5)
				l.k.ctx.CloseConn()
				l.left = now()
			case "once":
				nap(1.3)
				beat()
			case "several":
				for i := 0; i < 4; i++ {
					beat()
					if !nap(0.9) {
						return
					}
				}
			case "burst":
				for i := 0; i < 40; i++ {
					beat()
				}
			}
		}(l, rand.New(rand.NewSource(g.Int63())))
	}
	if cfg.has("stopped") { // the connections that remain are watched all the same
		if err := s.w.X.Stop(false); err != nil {
			r.Violation("%s: Stop(false): %v", name, err)
		}
	}
	if !within(2*longWait, wg.Wait) {
		r.Violation("%s: writing heartbeats blocks", name)
	}
	endOfTraffic := now()
	// kept-alive connections: usable now, and not lost
	for _, l := range lives {
		if l.pat != "regular" && l.pat != "sparse" {
			continue
		}
		if isClosed(l.w.done) || atomic.LoadInt32(&l.k.loss) > 0 {
			worst := atomic.LoadInt32(&l.k.ref.worst)
			gap := maxGap(l.k.upAt, l.wrote, min64(endOfTraffic, orNow(l.w)))
			txt := fmt.Sprintf("%s: interval %v: a connection that kept sending heartbeats (%s; widest gap %v) was closed (loss callback ran %d times)", name, cfg.d, l.pat, time.Duration(gap), l.k.loss)
			if l.pat == "regular" && worst == 0 {
				r.Violation("%s", txt)
			}
			if (l.pat == "regular" && worst < 3) || (l.pat == "sparse" && worst < 3 && gap < 2*I+3*I/4) {
				suspect = txt
			}
		}
	}
	// now all fall silent and must be closed
	minLate := int64(1 << 62)
	for _, l := range lives {
		if l.pat == "leave" || l.pat == "leaveclose" {
			continue
		}
		if !waitCh(longWait, l.w.done) {
			r.Violation("%s: interval %v: a silent connection (%s) is never closed", name, cfg.d, l.pat)
		}
		from := last(l.wrote, l.t0)
		if dt := l.w.at - from; dt < 3*I && maxGap(l.k.upAt, l.wrote, l.w.at) < 2*I+3*I/4 {
			txt := fmt.Sprintf("%s: interval %v: a connection (%s) was closed %v after its last heartbeat (or its start), before three intervals had passed", name, cfg.d, l.pat, time.Duration(dt))
			if len(l.wrote) == 0 {
				r.Violation("%s", txt)
			}
			suspect = txt
		}
		if l.pat == "silent" || l.pat == "chatter" {
			if l.w.at-l.t0 < 3*I {
				r.Violation("%s: interval %v: a %s connection was closed %v after it was made", name, cfg.d, l.pat, time.Duration(l.w.at-l.t0))
			}
		}
		if l.pat == "silent" {
			// the harness's own watcher tells when three intervals had passed
			until(longWait, func() bool { return atomic.LoadInt64(&l.k.ref.lost) > 0 })
			if d := l.w.at - atomic.LoadInt64(&l.k.ref.lost); d < minLate {
				minLate = d
			}
		}
		if !until(longWait, func() bool { return atomic.LoadInt32(&l.k.closes) > 0 }) {
			r.Violation("%s: OnClose never ran after heartbeat loss", name)
		}
	}
	time.Sleep(cfg.d / 2)
	for _, l := range lives {
		n, lost := atomic.LoadInt32(&l.k.loss), l.pat != "leave" && l.pat != "leaveclose"
		want := int32(0)
		if cfg.cb && lost {
			want = 1
		}
		if l.left > 0 && l.left-l.k.upAt > 5*I/2 {
			r.Inconclusive("%s: the harness was late leaving", name)
			continue
		}
		if n != want {
			r.Violation("%s: the loss callback ran %d times for a connection (%s), expected %d", name, n, l.pat, want)
		}
		if want == 1 && atomic.LoadInt32(&l.k.openIn) != 1 {
			r.Violation("%s: the loss callback ran when the connection had already been closed", name)
		}
		if want == 1 && cfg.set != "raw" {
			// what the callback sent reached the peer before the end
			found := false
			b := l.w.bytes
			for len(b) >= 16 {
				m, rest, ok := cutFrame(b)
				if !ok {
					break
				}
				if m.ID == 999 {
					found = true
				}
				b = rest
			}
			if !found {
				r.Violation("%s: what the loss callback sent never reached the peer: it ran after the close", name)
			}
		}
		if cfg.set == "rewrite" || cfg.set == "rewritemw" || cfg.set == "detailmw" {
			if a, b := atomic.LoadInt32(&l.k.begun), atomic.LoadInt32(&l.k.beats); a != b {
				until(longWait, func() bool { return atomic.LoadInt32(&l.k.begun) == atomic.LoadInt32(&l.k.beats) })
				if a, b := atomic.LoadInt32(&l.k.begun), atomic.LoadInt32(&l.k.beats); a != b {
					r.Violation("%s: %d of %d heartbeat handlers are blocked", name, a-b, a)
				}
			}
		}
		l.c.Close()
		close(l.stop)
		r.Case(fmt.Sprintf("%s/%s/%v", name, l.pat, cfg.d))
		r.Count("heartbeats", int64(len(l.wrote)))
	}
	r.Sample(map[string]interface{}{"config": name, "interval": cfg.d.String(), "connections": len(lives), "earliest_close_after_three_intervals_us": minLate / 1000})
	s.w.stop()
	if minLate > I*6/10 {
		return minLate, suspect
	}
	return 0, suspect
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func orNow(w *closeWatch) int64 {
	if isClosed(w.done) {
		return w.at
	}
	return now()
}

func last(w []int64, t0 int64) int64 {
	if len(w) == 0 {
		return t0
	}
	return w[len(w)-1]
}

// maxGap is the widest pause between consecutive heartbeats written, from the start to the last one before end.
func maxGap(from int64, w []int64, end int64) int64 {
	m := int64(0)
	p := from
	for _, t := range w {
		if t > end {
			break
		}
		if t-p > m {
			m = t - p
		}
		p = t
	}
	return m
}

func cutFrame(b []byte) (msg, []byte, bool) {
	if len(b) < 16 {
		return msg{}, nil, false
	}
	l := int(uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]))
	if l < 12 || len(b) < 4+l {
		return msg{}, nil, false
	}
	m, err := parseFrame(b[:4+l])
	return m, b[4+l:], err == nil
}

// c13noBeat: a rewritten handler that does not report a heartbeat, and the id it was moved from, do not count.
func c13noBeat(r *Rep) {
	cfg := c13cfg{kind: "tcp", set: "rewrite", id: 44, cb: true, noBeat: true, d: 60 * time.Millisecond}
	s := c13start(r, cfg)
	for _, id := range []int32{44, 1392} {
		c, k, t0 := s.open()
		w := watchClose(c)
		if !until(longWait, func() bool {
			c.Write(frame(id, nil, nil))
			time.Sleep(15 * time.Millisecond)
			return isClosed(w.done)
		}) {
			r.Violation("messages of id %d, which no handler reports as heartbeats, keep the connection open", id)
		}
		if w.at-t0 < 3*int64(cfg.d) {
			r.Violation("connection closed %v after its start, before three intervals of %v", time.Duration(w.at-t0), cfg.d)
		}
		until(longWait, func() bool { return atomic.LoadInt32(&k.loss) == 1 })
		r.Case(fmt.Sprintf("nobeat/%d", id))
		c.Close()
	}
	s.w.stop()
}

// c13off: with the mode off nobody is closed, and reporting heartbeats blocks nobody.
func c13off(r *Rep) {
	for _, set := range []string{"mode", "detail", "rewrite", "raw", "none"} {
		cfg := c13cfg{kind: "tcp", set: set, id: 45, cb: true, off: true, d: 10 * time.Millisecond}
		s := c13start(r, cfg)
		c, k, _ := s.open()
		if set == "rewrite" {
			for i := 0; i < 30; i++ {
				s.beat(c)
			}
			if !until(longWait, func() bool { return atomic.LoadInt32(&k.beats) == 30 }) {
				r.Violation("with heartbeat mode off %d of 30 heartbeat handlers are blocked", 30-atomic.LoadInt32(&k.beats))
			}
		}
		time.Sleep(400 * time.Millisecond)
		if atomic.LoadInt32(&k.closes) > 0 || atomic.LoadInt32(&k.loss) > 0 || !stillOpen(c, 20*time.Millisecond) {
			r.Violation("heartbeat mode is off (%s) and yet a silent connection was closed", set)
		}
		if set != "raw" {
			if err := ping(c); err != nil {
				r.Violation("silent connection with heartbeat mode off is no longer served: %v", err)
			}
		}
		c.Close()
		s.w.stop()
		r.Case("off/" + set)
	}
}

// c13burst: many heartbeats at once from several connections; all handlers return and the connections stay usable.
func c13burst(r *Rep, seed int64) {
	cfg := c13cfg{kind: "tcp", set: "rewrite", id: 46, cb: true, d: 2 * time.Second}
	s := c13start(r, cfg)
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		c, k, _ := s.open()
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			n := 50 + i*40
			for j := 0; j < n; j++ {
				s.beat(c)
			}
			if !until(longWait, func() bool { return atomic.LoadInt32(&k.beats) == int32(n) }) {
				r.Violation("%d of %d heartbeat handlers of a burst are blocked", int32(n)-atomic.LoadInt32(&k.beats), n)
			}
			if err := ping(c); err != nil {
				r.Violation("connection unusable after a burst of %d heartbeats: %v", n, err)
			}
			c.Close()
			r.Case(fmt.Sprintf("burst/%d", n))
			r.Count("heartbeats", int64(n))
		}(i)
	}
	wg.Wait()
	s.w.stop()
}

// c13first lets the first users of a connection's heartbeat channel meet: a heartbeat reported
// then must be seen by whoever watches the connection.
func c13first(r *Rep, g *rand.Rand) {
	for i, n := 0, r.N(3000); i < n; i++ {
		a, b := net.Pipe()
		base := tcpx.NewContext(a, nil)
		k := 2 + g.Intn(3)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for j := 0; j < k; j++ {
			watch := j > 0 && g.Intn(2) == 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if watch {
					base.HeartBeatChan()
				} else {
					base.RecvHeartBeat()
				}
			}()
		}
		close(start)
		wg.Wait()
		select {
		case <-base.HeartBeatChan():
		default:
			r.Violation("a heartbeat reported while the watcher first asked for the heartbeat channel is lost (%d goroutines, round %d)", k, i)
		}
		a.Close()
		b.Close()
		r.Case(fmt.Sprintf("first/%d", k))
	}
}

// c13rescue: heartbeats that come while the loss callback runs come too late.
func c13rescue(r *Rep, round int) {
	kinds := []string{"tcp", "unix", "tls"}
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		kind, how := kinds[(i+round)%3], i%3
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x := tcpx.NewTcpX(nil)
			addEchoReply(x)
			var losses, closes, beats, after int32
			x.AddHandler(10, func(c *tcpx.Context) { atomic.AddInt32(&after, 1) })
			d := 60 * time.Millisecond
			thr := (round+i)%2 == 0
			x.HeartBeatModeDetail(true, d, thr, 1392)
			if i >= 3 {
				x.RewriteHeartBeatHandler(9, func(c *tcpx.Context) { c.RecvHeartBeat(); atomic.AddInt32(&beats, 1) })
			}
			x.SetEventOnHeartbeatLoss(func(c *tcpx.Context) {
				atomic.AddInt32(&losses, 1)
				c.JSON(999, "loss")
				switch how {
				case 0: // the peer's heartbeats arrive while it runs
					n := atomic.LoadInt32(&beats)
					until(100, func() bool { return i >= 3 && atomic.LoadInt32(&beats) > n })
					time.Sleep(d)
				case 1:
					c.RecvHeartBeat()
				case 2:
					c.RecvHeartBeat()
					if !until(longWait, func() bool { return atomic.LoadInt32(&after) > 0 }) {
						r.Violation("%s: a message that followed heartbeats in a batch is not handled while the loss callback runs (own handler %v, through middleware %v)", kind, i >= 3, thr)
					}
					time.Sleep(4 * d)
				}
			})
			x.OnClose = func(c *tcpx.Context) { atomic.AddInt32(&closes, 1) }
			w := r.serveKind(x, kind)
			c := w.dial()
			c.Write(frame(1, nil, []byte("x")))
			if _, err := recv(c); err != nil {
				r.Inconclusive("the harness was too slow: %v", err)
			}
			cw := watchClose(c)
			if !until(longWait, func() bool { return atomic.LoadInt32(&losses) > 0 }) {
				r.Violation("%s: no loss callback for a silent connection", kind)
			}
			if how == 2 {
				// heartbeats nobody waits for any longer are still messages like others: what follows them
				// in a batch is handled
				hb := int32(1392)
				if i >= 3 {
					hb = 9
				}
				var b []byte
				b = append(b, frame(hb, jsonOf(map[string]string{tcpx.PIPED: "enable;5"}), nil)...)
				for k := 0; k < 3; k++ {
					b = append(b, frame(hb, nil, nil)...)
				}
				b = append(b, frame(10, nil, []byte("after"))...)
				if _, err := c.Write(b); err != nil {
					r.Violation("%s: the connection was closed before its loss callback returned: %v", kind, err)
				}
			}
			for k := 0; k < 20 && how == 0; k++ {
				if i >= 3 {
					c.Write(frame(9, nil, nil))
				} else {
					c.Write(frame(1392, nil, nil))
				}
				time.Sleep(2 * time.Millisecond)
			}
			if !waitCh(longWait, cw.done) || !until(longWait, func() bool { return atomic.LoadInt32(&closes) > 0 }) {
				r.Violation("%s: a connection that lost its heartbeat for three intervals is not closed: heartbeats came while the loss callback ran (%d)", kind, how)
			}
			time.Sleep(d / 2)
			if l := atomic.LoadInt32(&losses); l != 1 {
				r.Violation("%s: the loss callback ran %d times for one connection (%d)", kind, l, how)
			}
			c.Close()
			w.stop()
			r.Case(fmt.Sprintf("rescue/%s/%d/%v", kind, how, i >= 3))
		}(i)
	}
	wg.Wait()
}

// c13idle opens connections of servers without heartbeats that stay silent until the functions returned are called.
func c13idle(r *Rep) (finish []func()) {
	for i, kind := range []string{"tcp", "unix", "tls", "tcp"} {
		i, kind := i, kind
		x := tcpx.NewTcpX(nil)
		addEcho(x)
		var lost int64
		x.SetEventOnHeartbeatLoss(func(c *tcpx.Context) { atomic.AddInt64(&lost, 1) })
		switch i {
		case 1:
			x.WithBuiltInPool(true)
		case 2:
			x.HeartBeatMode(false, 10*time.Millisecond)
		case 3:
			x.HeartBeatModeDetail(false, 10*time.Millisecond, true, 5)
		}
		w := r.serveKind(x, kind)
		var cs []net.Conn
		for k := 0; k < 3; k++ {
			c := w.dial()
			if k == 0 || kind == "tls" {
				if err := ping(c); err != nil {
					r.Violation("%s: a connection of a server without heartbeats is not served: %v", kind, err)
				}
			}
			if k == 2 {
				c.Write([]byte{0, 0}) // in the middle of a message
			}
			cs = append(cs, c)
		}
		start := time.Now()
		finish = append(finish, func() {
			waited := time.Since(start).Round(time.Second)
			for k, c := range cs {
				if k == 2 {
					c.Write(frame(echoID, nil, []byte("half"))[2:])
					c.SetReadDeadline(time.Now().Add(60 * time.Second))
					if m, err := recv(c); err != nil || string(m.Body) != "half" {
						r.Violation("%s: with heartbeat mode off a connection that kept silent in the middle of a message for %v is not served: %v", kind, waited, err)
					}
				}
				if err := ping(c); err != nil {
					r.Violation("%s: with heartbeat mode off a connection that kept silent for %v is not served: %v", kind, waited, err)
				}
				c.Close()
			}
			if atomic.LoadInt64(&lost) != 0 {
				r.Violation("%s: with heartbeat mode off the loss callback ran", kind)
			}
			r.Case(fmt.Sprintf("idle/%s/%d", kind, i))
			w.stop()
		})
	}
	return finish
}
