package main

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C14"] = c14 }

type c14conn struct {
	ctx     *tcpx.Context
	upAt    int64 // start of OnConnect
	verdict int64 // first verdict call returned
	begun   int32
	ended   int32
	closes  int32
	refLate int64 // the harness's own deadline timer fired
}

type c14cfg struct {
	kind string
	d    time.Duration
	id   int32
	mw   bool
	on   bool
	via  string // handler, onconnect, outside, url, onmessage
	opt  string // further options: pool, name, hb, bcast, limit, stopped
}

func (c c14cfg) String() string {
	return fmt.Sprintf("%s/id%d/mw%v/on%v/%s/%v/%s", c.kind, c.id, c.mw, c.on, c.via, c.d, c.opt)
}

func (c c14cfg) has(o string) bool { return strings.Contains(c.opt, o) }

// c14opts draws further server options.
func c14opts(g *rand.Rand, round int) string {
	s := ""
	if round > 0 {
		for _, o := range []string{"pool", "name", "hb", "bcast", "limit", "stopped"} {
			if g.Intn(3) == 0 {
				s += "+" + o
			}
		}
	}
	return s
}

type c14srv struct {
	r    *Rep
	w    *world
	cfg  c14cfg
	mu   sync.Mutex
	in   chan *c14conn
	next string // verdicts OnConnect gives
}

// say gives verdicts in order: p pass, d deny.
func (k *c14conn) say(c *tcpx.Context, vs string) {
	atomic.AddInt32(&k.begun, 1)
	for _, v := range vs {
		if v == 'p' {
			c.RecvAuthPass()
		} else if v == 'd' {
			c.RecvAuthDeny()
		}
		if atomic.LoadInt64(&k.verdict) == 0 {
			atomic.StoreInt64(&k.verdict, now())
		}
	}
	atomic.AddInt32(&k.ended, 1)
}

func c14start(r *Rep, cfg c14cfg) *c14srv {
	s := &c14srv{r: r, cfg: cfg, in: make(chan *c14conn, 256)}
	x := tcpx.NewTcpX(nil)
	addEchoReply(x)
	if cfg.has("pool") {
		x.WithBuiltInPool(true)
	}
	if cfg.has("hb") {
		x.HeartBeatMode(true, time.Hour)
	}
	if cfg.has("bcast") {
		x.WithBroadCastSignal(true)
	}
	if cfg.has("limit") {
		x.SetMaxBytePerMessage(2000)
		x.SetReadDeadline(time.Now().Add(time.Hour))
	}
	get := func(c *tcpx.Context) *c14conn {
		v, ok := c.GetCtxPerConn("k")
		if !ok {
			r.Violation("%v: a message was handled before OnConnect", cfg)
		}
		return v.(*c14conn)
	}
	h := func(c *tcpx.Context) {
		b, _ := c.RawStream()
		get(c).say(c, string(b))
	}
	x.WithAuthDetail(cfg.on, cfg.d, cfg.mw, cfg.id, h)
	if !cfg.on {
		x.AddHandler(cfg.id, h)
	}
	x.Any("/auth", h)
	if cfg.mw {
		x.UseGlobal(func(c *tcpx.Context) {})
		x.Use("m", func(c *tcpx.Context) { c.Next() })
	}
	if cfg.via == "onmessage" {
		x.OnMessage = func(c *tcpx.Context) {
			if id, _ := tcpx.MessageIDOf(c.Stream); id == cfg.id {
				h(c)
				return
			}
			b, _ := c.RawStream()
			c.ReplyWithMarshaller(rawMarshaller{}, 1, b)
		}
	}
	x.OnConnect = func(c *tcpx.Context) {
		k := &c14conn{ctx: c, upAt: now()}
		c.SetCtxPerConn("k", k)
		n := atomic.AddInt64(&c13user, 1)
		if cfg.has("pool") && n%3 > 0 {
			if err := c.Online(fmt.Sprintf("u%d", n)); err != nil {
				r.Violation("%v: Online in OnConnect failed: %v", cfg, err)
			}
		} else if cfg.has("name") && n%3 > 0 {
			c.SetUsername(fmt.Sprintf("u%d", n))
		}
		if s.next != "" {
			k.say(c, s.next)
		}
		s.in <- k
		go func() {
			time.Sleep(cfg.d)
			atomic.StoreInt64(&k.refLate, now())
		}()
	}
	x.OnClose = func(c *tcpx.Context) { atomic.AddInt32(&get(c).closes, 1) }
	s.w = r.serveKind(x, cfg.kind)
	return s
}

func (s *c14srv) open(onc string) (net.Conn, *c14conn, int64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.next = onc
	t := now()
	c := s.w.dial()
	if s.cfg.kind == "tls" {
		c.Write(frame(1, nil, []byte("x")))
	}
	var k *c14conn
	if !until(longWait, func() bool {
		select {
		case k = <-s.in:
			return true
		default:
			return false
		}
	}) {
		s.r.Violation("%v: OnConnect never ran", s.cfg)
	}
	if s.cfg.kind == "tls" {
		recv(c)
	}
	return c, k, t
}

// give sends the verdicts the configured way; the message form sends one message per group.
func (s *c14srv) give(c net.Conn, k *c14conn, vs ...string) {
	for _, v := range vs {
		switch s.cfg.via {
		case "outside":
			k.say(k.ctx, v)
		case "url":
			c.Write(frame(0, jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/auth"}), []byte(v)))
		default:
			c.Write(frame(s.cfg.id, nil, []byte(v)))
		}
	}
}

func c14(r *Rep) {
	r.Rule("one case = one connection followed past its auth deadline (or to its close) under a verdict script; distinct by transport, way of giving the verdict, script, deadline and middleware option")
	r.Assume("lateness of a close is judged per group of connections against the harness's own timers and confirmed in further rounds; too early a close is judged by the monotonic clock")
	g := r.Sub(1)
	rounds := r.N(8)
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		ids := []int32{1393, 9, 0, -5}
		for i, via := range []string{"handler", "outside", "url", "onmessage", "handler", "onconnect", "handler"} {
			cfg := c14cfg{kind: []string{"tcp", "tls", "unix"}[(i+round)%3], d: []time.Duration{300, 200, 500}[round%3] * time.Millisecond, id: ids[(i+round)%4], mw: (i+round)%2 == 0, on: true, via: via, opt: c14opts(g, round)}
			wg.Add(1)
			go func(cfg c14cfg, g *rand.Rand) {
				defer wg.Done()
				c14group(r, g, cfg)
			}(cfg, rand.New(rand.NewSource(g.Int63())))
		}
		for i, via := range []string{"handler", "outside", "url"} {
			cfg := c14cfg{kind: "tcp", d: 20 * time.Millisecond, id: 1393, mw: i == 1, on: false, via: via, opt: c14opts(g, round)}
			wg.Add(1)
			go func(cfg c14cfg) { defer wg.Done(); c14off(r, cfg) }(cfg)
		}
		for i, via := range []string{"handler", "url", "outside", "onmessage", "onconnect"} {
			cfg := c14cfg{kind: []string{"tcp", "tls", "unix"}[i%3], d: time.Hour, id: 1393, mw: i%2 == 1, on: true, via: via, opt: c14opts(g, round)}
			wg.Add(1)
			go func(cfg c14cfg, g *rand.Rand) { defer wg.Done(); c14deny(r, g, cfg) }(cfg, rand.New(rand.NewSource(g.Int63())))
		}
		wg.Wait()
		r.Step(fmt.Sprintf("round %d", round))
	}
}

func c14group(r *Rep, g *rand.Rand, cfg c14cfg) {
	late, odd := 0, 0
	for try := 0; try < 4; try++ {
		l, suspect := c14once(r, g, cfg, try == 0 || odd > 0)
		if l > 0 {
			late++
		}
		if suspect != "" {
			odd++
			r.Inconclusive("%s", suspect)
		}
		if late == 4 {
			r.Violation("%v: every connection without a verdict is closed at least %v after the auth deadline (confirmed in %d rounds)", cfg, time.Duration(l), late)
		}
		if odd == 3 {
			r.Violation("%s (confirmed in %d rounds with growing deadlines)", suspect, odd)
		}
		if late <= try && odd <= try {
			return
		}
		cfg.d *= 2
	}
}

func c14once(r *Rep, g *rand.Rand, cfg c14cfg, full bool) (lateBy int64, suspect string) {
	s := c14start(r, cfg)
	D := int64(cfg.d)
	type life struct {
		pat string
		c   net.Conn
		k   *c14conn
		t0  int64
		w   *closeWatch
		sat int64 // verdict sent
	}
	pats := []string{"none", "none", "none", "none", "chatter"}
	if full {
		pats = append(pats, "p", "p", "p,d", "pd", "p*", "p,later-d", "mid-p", "late-p", "empty")
	}
	var lives []*life
	var wg sync.WaitGroup
	for _, p := range pats {
		onc := ""
		if cfg.via == "onconnect" {
			switch p {
			case "p", "pd":
				onc = p
			}
		}
		c, k, t0 := s.open(onc)
		l := &life{pat: p, c: c, k: k, t0: t0, w: watchClose(c)}
		lives = append(lives, l)
		wg.Add(1)
		go func(l *life, given bool) {
			defer wg.Done()
			switch l.pat {
			case "chatter":
				for i := 0; i < 30; i++ {
					l.c.Write(frame(1, nil, []byte("x")))
					time.Sleep(cfg.d / 20)
				}
			case "p", "pd":
				if !given {
					s.give(l.c, l.k, l.pat)
				}
			case "p,d":
				s.give(l.c, l.k, "p")
				if !until(longWait, func() bool { return atomic.LoadInt32(&l.k.ended) == 1 || isClosed(l.w.done) }) {
					r.Violation("%v: an auth handler is blocked", cfg)
				}
				s.give(l.c, l.k, "d")
			case "p*":
				for i := 0; i < 30; i++ {
					s.give(l.c, l.k, "p")
				}
			case "p,later-d":
				s.give(l.c, l.k, "p")
				until(longWait, func() bool { return atomic.LoadInt32(&l.k.ended) == 1 || isClosed(l.w.done) })
				time.Sleep(cfg.d / 3)
				s.give(l.c, l.k, "d", "d", "d")
			case "mid-p":
				time.Sleep(cfg.d / 3)
				s.give(l.c, l.k, "p")
			case "late-p":
				time.Sleep(cfg.d * 3 / 2)
				s.give(l.c, l.k, "p")
			case "empty": // the auth message comes, but the handler gives no verdict
				s.give(l.c, l.k, "")
			}
		}(l, onc != "")
	}
	if cfg.has("stopped") {
		if err := s.w.X.Stop(false); err != nil {
			r.Violation("%v: Stop(false): %v", cfg, err)
		}
	}
	if !within(longWait*2, wg.Wait) {
		r.Violation("%v: giving verdicts blocks", cfg)
	}
	// those without a verdict
	minLate := int64(1 << 62)
	for _, l := range lives {
		switch l.pat {
		case "none", "chatter", "late-p", "empty":
		default:
			continue
		}
		if !waitCh(longWait, l.w.done) {
			r.Violation("%v: a connection without a verdict in time (%s) is never closed", cfg, l.pat)
		}
		if l.w.at-l.t0 < D {
			r.Violation("%v: a connection without a verdict (%s) was closed %v after it was made, before the deadline", cfg, l.pat, time.Duration(l.w.at-l.t0))
		}
		if l.pat == "none" {
			until(longWait, func() bool { return atomic.LoadInt64(&l.k.refLate) > 0 })
			if d := l.w.at - l.k.refLate; d < minLate {
				minLate = d
			}
		}
		if !until(longWait, func() bool { return atomic.LoadInt32(&l.k.closes) == 1 }) {
			r.Violation("%v: OnClose did not run after an auth timeout", cfg)
		}
		r.Case(fmt.Sprintf("%v/%s", cfg, l.pat))
	}
	// those accepted: wait until well after the deadline
	time.Sleep(cfg.d)
	for _, l := range lives {
		switch l.pat {
		case "none", "chatter", "late-p", "empty":
			l.c.Close()
			continue
		}
		v := atomic.LoadInt64(&l.k.verdict)
		inTime := v > 0 && v-l.k.upAt < D*6/10
		if isClosed(l.w.done) || atomic.LoadInt32(&l.k.closes) > 0 {
			txt := fmt.Sprintf("%v: a connection accepted %v after its start (%s) was closed %v after its start", cfg, time.Duration(v-l.k.upAt), l.pat, time.Duration(orNow(l.w)-l.k.upAt))
			if inTime {
				suspect = txt
			} else {
				r.Inconclusive("verdict came late: %s", txt)
			}
			continue
		}
		if v == 0 {
			r.Violation("%v: a connection without any verdict (%s) outlived the deadline", cfg, l.pat)
		}
		// usable: an echo comes back
		l.c.Write(frame(1, nil, []byte("alive")))
		if !until(longWait, func() bool { return isClosed(l.w.done) || l.k.ended == l.k.begun }) {
			r.Violation("%v: %d auth handlers are blocked (%s)", cfg, l.k.begun-l.k.ended, l.pat)
		}
		r.Case(fmt.Sprintf("%v/%s", cfg, l.pat))
	}
	time.Sleep(20 * time.Millisecond)
	for _, l := range lives {
		switch l.pat {
		case "none", "chatter", "late-p", "empty":
			continue
		}
		if !isClosed(l.w.done) {
			l.k.ctx.CloseConn()
			waitCh(longWait, l.w.done)
			found := false
			for b := l.w.bytes; len(b) >= 16; {
				m, rest, ok := cutFrame(b)
				if !ok {
					break
				}
				found = found || string(m.Body) == "alive"
				b = rest
			}
			if !found && suspect == "" {
				// answered a moment late is fine: CloseConn may have come first; judged by handlers
				r.Count("alive_answer_missed", 1)
			}
		}
		l.c.Close()
	}
	r.Sample(map[string]interface{}{"config": cfg.String(), "connections": len(lives), "earliest_timeout_close_us": minLate / 1000})
	s.w.stop()
	if minLate > D*6/10 {
		return minLate, suspect
	}
	return 0, suspect
}

// c14deny: a denial closes at once (the deadline is an hour away); the first verdict decides.
func c14deny(r *Rep, g *rand.Rand, cfg c14cfg) {
	slow := 0
	for try := 0; try < 3; try++ {
		s := c14start(r, cfg)
		best := int64(1 << 62)
		scripts := [][]string{{"d"}, {"dp"}, {"d", "p"}, {"dpppp"}, {"d", "d", "d"}}
		by, bk, _ := s.open("p")
		if cfg.via == "onconnect" {
			scripts = [][]string{{"d"}, {"dp"}}
		}
		for _, sc := range scripts {
			onc := ""
			if cfg.via == "onconnect" {
				onc = sc[0]
			}
			c, k, _ := s.open0(onc)
			w := watchClose(c)
			if onc == "" {
				s.give(c, k, sc[0])
				if !until(longWait, func() bool { return atomic.LoadInt64(&k.verdict) > 0 }) {
					r.Violation("%v: an auth message is not handled", cfg)
				}
				s.give(c, k, sc[1:]...)
			}
			if !waitCh(longWait, w.done) {
				r.Violation("%v: a connection the handler denied (%v) is not closed", cfg, sc)
			}
			if d := w.at - k.verdict; d < best {
				best = d
			}
			if !until(longWait, func() bool { return atomic.LoadInt32(&k.closes) == 1 }) {
				r.Violation("%v: OnClose did not run once after a denial", cfg)
			}
			if !until(longWait, func() bool { return atomic.LoadInt32(&k.begun) == atomic.LoadInt32(&k.ended) }) {
				r.Violation("%v: an auth handler is blocked after the denial", cfg)
			}
			c.Close()
			r.Case(fmt.Sprintf("deny/%v/%v", cfg, sc))
		}
		if err := ping(by); err != nil || atomic.LoadInt32(&bk.closes) > 0 {
			r.Violation("%v: an accepted connection was ended by denials on others: %v", cfg, err)
		}
		// repeated messages on an accepted connection
		n := int32(40)
		if cfg.via != "onconnect" {
			before := atomic.LoadInt32(&bk.ended)
			for i := int32(0); i < n; i++ {
				s.give(by, bk, []string{"p", "d", "dp"}[i%3])
			}
			if !until(longWait, func() bool { return atomic.LoadInt32(&bk.ended) == before+n }) {
				r.Violation("%v: %d of %d repeated auth messages block their handlers", cfg, before+n-atomic.LoadInt32(&bk.ended), n)
			}
			if err := ping(by); err != nil {
				r.Violation("%v: verdicts after the first one changed it: the accepted connection is gone: %v", cfg, err)
			}
			r.Case(fmt.Sprintf("repeat/%v", cfg))
		}
		by.Close()
		s.w.stop()
		if best < int64(time.Second) {
			return
		}
		slow++
	}
	r.Violation("%v: denied connections are closed only more than a second after the denial", cfg)
}

// open0 is open without the TLS warm-up answer, which a denied connection may not give.
func (s *c14srv) open0(onc string) (net.Conn, *c14conn, int64) {
	if onc == "" || s.cfg.kind != "tls" {
		return s.open(onc)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.next = onc
	t := now()
	c := s.w.dial()
	var k *c14conn
	if !until(longWait, func() bool {
		select {
		case k = <-s.in:
			return true
		default:
			return false
		}
	}) {
		s.r.Violation("%v: OnConnect never ran", s.cfg)
	}
	return c, k, t
}

// c14off: with auth off nobody is closed for lack of a verdict and verdicts block nobody.
func c14off(r *Rep, cfg c14cfg) {
	s := c14start(r, cfg)
	c, k, _ := s.open("")
	c2, k2, _ := s.open("")
	for i := 0; i < 20; i++ {
		s.give(c2, k2, "p")
	}
	if !until(longWait, func() bool { return atomic.LoadInt32(&k2.ended) == 20 }) {
		r.Violation("%v: with auth off %d of 20 handlers giving a verdict are blocked", cfg, 20-atomic.LoadInt32(&k2.ended))
	}
	time.Sleep(400 * time.Millisecond)
	for i, x := range []net.Conn{c, c2} {
		if err := ping(x); err != nil || atomic.LoadInt32(&[]*c14conn{k, k2}[i].closes) > 0 {
			r.Violation("%v: auth is off and yet a connection was closed: %v", cfg, err)
		}
		x.Close()
	}
	r.Case("off/" + cfg.String())
	s.w.stop()
}
