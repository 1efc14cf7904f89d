package main

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C22"] = c22 }

const (
	dlUnset = iota
	dlPast
	dlFuture
	dlSoon
)

var dlName = []string{"unset", "past", "future", "soon"}

type c22cfg struct {
	d, rd, wr int // kind of overall, read and write deadline
	kind      string
	soon      time.Duration
	order     int // order of the three setter calls
	restart   bool
}

func (c c22cfg) String() string {
	return fmt.Sprintf("%s/all=%s/read=%s/write=%s/restart%v", c.kind, dlName[c.d], dlName[c.rd], dlName[c.wr], c.restart)
}

// effective deadlines per direction
func (c c22cfg) eff() (rd, wr int) {
	rd, wr = c.d, c.d
	if c.rd != dlUnset {
		rd = c.rd
	}
	if c.wr != dlUnset {
		wr = c.wr
	}
	return
}

type c22conn struct {
	ctx    *tcpx.Context
	closes int32
	rerr   chan error // raw: result of the read that failed
}

type c22srv struct {
	r       *Rep
	cfg     c22cfg
	X       *tcpx.TcpX
	s       *server
	at      time.Time // the soon deadline
	mu      sync.Mutex
	in      chan *c22conn
	handled int64
	replied chan error
	errs    sync.Map // body -> error of its reply
}

func newC22(r *Rep, g *rand.Rand, cfg c22cfg) *c22srv {
	s := &c22srv{r: r, cfg: cfg, X: tcpx.NewTcpX(nil), in: make(chan *c22conn, 100)}
	x := s.X
	echo := func(c *tcpx.Context) {
		b, _ := c.RawStream()
		atomic.AddInt64(&s.handled, 1)
		err := c.ReplyWithMarshaller(rawMarshaller{}, echoID, b)
		if err == nil {
			s.errs.Store(string(b), "")
		} else {
			s.errs.Store(string(b), err.Error())
		}
	}
	x.AddHandler(echoID, echo)
	x.HandleRaw = func(c *tcpx.Context) {
		v, _ := c.GetCtxPerConn("k")
		k := v.(*c22conn)
		b := make([]byte, 4096)
		for {
			n, err := c.ConnReader.Read(b)
			if err != nil {
				k.rerr <- err
				return
			}
			atomic.AddInt64(&s.handled, 1)
			_, err = c.ConnWriter.Write(b[:n])
			if err == nil {
				s.errs.Store(string(b[:n]), "")
			} else {
				s.errs.Store(string(b[:n]), err.Error())
			}
		}
	}
	x.OnConnect = func(c *tcpx.Context) {
		k := &c22conn{ctx: c, rerr: make(chan error, 1)}
		c.SetCtxPerConn("k", k)
		s.in <- k
	}
	x.OnClose = func(c *tcpx.Context) {
		v, _ := c.GetCtxPerConn("k")
		atomic.AddInt32(&v.(*c22conn).closes, 1)
	}
	s.at = time.Now().Add(cfg.soon)
	val := func(k int) time.Time {
		switch k {
		case dlPast:
			return []time.Time{time.Now().Add(-time.Hour), time.Unix(1, 0), time.Now().Add(-time.Millisecond)}[g.Intn(3)]
		case dlFuture:
			return time.Now().Add([]time.Duration{time.Hour, 100 * time.Hour, 30 * time.Minute}[g.Intn(3)])
		case dlSoon:
			return s.at
		}
		return time.Time{}
	}
	set := []func(){
		func() {
			if cfg.d != dlUnset {
				x.SetDeadline(val(cfg.d))
			}
		},
		func() {
			if cfg.rd != dlUnset {
				x.SetReadDeadline(val(cfg.rd))
			}
		},
		func() {
			if cfg.wr != dlUnset {
				x.SetWriteDeadline(val(cfg.wr))
			}
		},
	}
	for _, i := range [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}[cfg.order%3] {
		set[i]()
	}
	network, addr := "tcp", nextAddr()
	switch cfg.kind {
	case "unix":
		network, addr = "unix", sockPath()
	case "rawunix":
		network, addr = "unix", sockPath()
	case "tls":
		certOnce.Do(func() { sharedCert = testCert(r) })
		x.TLSConfig = tlsConf()
	}
	s.s = r.serveWith(x, network, addr, func() error {
		if cfg.kind == "raw" || cfg.kind == "rawunix" {
			return x.ListenAndServeRaw(network, addr)
		}
		return x.ListenAndServe(network, addr)
	})
	return s
}

func (s *c22srv) raw() bool { return s.cfg.kind == "raw" || s.cfg.kind == "rawunix" }

func (s *c22srv) open() (net.Conn, *c22conn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := s.s.dial()
	var k *c22conn
	if !until(longWait, func() bool {
		select {
		case k = <-s.in:
			return true
		default:
			return false
		}
	}) {
		s.r.Violation("deadlines %v: OnConnect did not run", s.cfg)
	}
	if s.cfg.kind == "tls" {
		c = tlsClient(c)
	}
	return c, k
}

var c22ctr int64

func (s *c22srv) send(c net.Conn) string {
	b := fmt.Sprintf("m%d", atomic.AddInt64(&c22ctr, 1))
	if s.raw() {
		c.Write([]byte(b))
	} else {
		c.Write(frame(echoID, nil, []byte(b)))
	}
	return b
}

// exchange sends and expects the echo.
func (s *c22srv) exchange(c net.Conn) error {
	b := s.send(c)
	if s.raw() {
		got, err := recvN(c, len(b))
		if err != nil {
			return err
		}
		if string(got) != b {
			return fmt.Errorf("got %q for %q", got, b)
		}
		return nil
	}
	m, err := recv(c)
	if err != nil {
		return err
	}
	if string(m.Body) != b {
		return fmt.Errorf("got %q for %q", m.Body, b)
	}
	return nil
}

// gone expects the connection to end without an answer; it returns when it ended.
func (s *c22srv) gone(c net.Conn, k *c22conn, what string) int64 {
	w := watchClose(c)
	if !waitCh(longWait, w.done) {
		s.r.Violation("deadlines %v: %s is not ended after its read deadline", s.cfg, what)
	}
	if !until(longWait, func() bool { return atomic.LoadInt32(&k.closes) == 1 }) {
		s.r.Violation("deadlines %v: OnClose did not run for %s", s.cfg, what)
	}
	return w.at
}

// answerErr waits for the reply to b to be attempted and gives its error.
func (s *c22srv) answerErr(b string) (string, bool) {
	var v interface{}
	ok := until(longWait, func() bool {
		var ok bool
		v, ok = s.errs.Load(b)
		return ok
	})
	if !ok {
		return "", false
	}
	return v.(string), true
}

func c22(r *Rep) {
	r.Rule("one case = one connection on a server (framed, raw, TLS; TCP or unix) with one combination of overall/read/write deadline kinds, exercised before, at and after the deadlines, or one deadline changed through a context next to an untouched connection; distinct by transport, combination, restart and the action")
	r.Assume("deadlines in the past at accept time and far in the future are judged exactly; for a deadline falling during the run only ending before it, or not within 25 s after it, is a violation")
	var cfgs []c22cfg
	kinds := []string{"tcp", "raw", "unix", "tls", "rawunix"}
	for rep := 0; rep < r.N(3); rep++ {
		for d := 0; d < 3; d++ {
			for rd := 0; rd < 3; rd++ {
				for wr := 0; wr < 3; wr++ {
					for _, k := range kinds {
						cfgs = append(cfgs, c22cfg{d: d, rd: rd, wr: wr, kind: k, order: rep + d + rd + wr, restart: (d+rd+wr+rep)%4 == 3})
					}
				}
			}
		}
		for _, k := range kinds {
			for _, m := range [][3]int{{dlSoon, 0, 0}, {0, dlSoon, 0}, {0, 0, dlSoon}, {dlSoon, dlFuture, 0}, {dlSoon, 0, dlFuture}, {dlSoon, dlFuture, dlFuture}, {dlFuture, dlSoon, 0}, {dlFuture, 0, dlSoon}, {dlPast, dlSoon, dlSoon}, {dlSoon, dlSoon, dlSoon}} {
				cfgs = append(cfgs, c22cfg{d: m[0], rd: m[1], wr: m[2], kind: k, order: rep, soon: 350 * time.Millisecond})
			}
		}
	}
	sem := make(chan int, 12)
	var wg sync.WaitGroup
	for i, cfg := range cfgs {
		sem <- 1
		wg.Add(1)
		go func(i int, cfg c22cfg) {
			defer wg.Done()
			defer func() { <-sem }()
			g := r.Sub(int64(1100 + i))
			if cfg.soon > 0 {
				c22soon(r, g, cfg)
			} else {
				c22fixed(r, g, cfg)
			}
		}(i, cfg)
	}
	for i := 0; i < r.N(30); i++ {
		for _, k := range kinds {
			sem <- 1
			wg.Add(1)
			go func(i int, k string) {
				defer wg.Done()
				defer func() { <-sem }()
				c22ctx(r, r.Sub(int64(5000+i)), k, i)
			}(i, k)
		}
	}
	wg.Wait()
}

// c22fixed: all deadlines unset, past or far.
func c22fixed(r *Rep, g *rand.Rand, cfg c22cfg) {
	s := newC22(r, g, cfg)
	defer s.s.stop()
	if cfg.restart {
		if err := s.X.Restart(true); err != nil {
			r.Violation("deadlines %v: Restart: %v", cfg, err)
		}
		until(longWait, func() bool { return s.X.State() == tcpx.STATE_RUNNING && bound(s.s.Network, s.s.Addr) })
	}
	rd, wr := cfg.eff()
	for n := 0; n < 3; n++ {
		h0 := atomic.LoadInt64(&s.handled)
		switch {
		case rd == dlPast:
			// input sent at once, and none at all
			for _, talk := range []bool{true, false} {
				c, k := s.open()
				if talk {
					go s.send(c)
				}
				s.gone(rawOf(c), k, "a connection accepted after the read deadline")
				if s.raw() {
					select {
					case err := <-k.rerr:
						if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
							r.Violation("deadlines %v: reading after the deadline failed with %v, not with a timeout", cfg, err)
						}
					default:
						r.Violation("deadlines %v: the raw handler's read did not fail", cfg)
					}
				}
				c.Close()
			}
			time.Sleep(2 * time.Millisecond)
			if atomic.LoadInt64(&s.handled) != h0 {
				r.Violation("deadlines %v: input was served although the read deadline had passed", cfg)
			}
		case wr == dlPast && cfg.kind == "tls":
			// not even a handshake gets out
			c, _ := s.open()
			go s.send(c)
			time.Sleep(20 * time.Millisecond)
			if atomic.LoadInt64(&s.handled) != h0 {
				r.Violation("deadlines %v: a request was served without a handshake", cfg)
			}
			c.Close()
		case wr == dlPast:
			c, k := s.open()
			w := watchClose(c)
			for j := 0; j < 3; j++ {
				b := s.send(c)
				e, ok := s.answerErr(b)
				if !ok {
					r.Violation("deadlines %v: with only the write deadline passed a request is not served", cfg)
				}
				if e == "" {
					r.Violation("deadlines %v: a reply after the write deadline reported success", cfg)
				}
			}
			time.Sleep(3 * time.Millisecond)
			if isClosed(w.done) || atomic.LoadInt32(&k.closes) > 0 {
				r.Count("closed_after_failed_reply", 1)
			}
			c.Close()
			waitCh(longWait, w.done)
			if len(w.bytes) > 0 {
				r.Violation("deadlines %v: %d bytes were sent after the write deadline", cfg, len(w.bytes))
			}
		default:
			c, k := s.open()
			for j := 0; j < 4; j++ {
				if err := s.exchange(c); err != nil {
					r.Violation("deadlines %v: traffic is disturbed although no deadline has passed: %v", cfg, err)
				}
			}
			if n == 0 {
				time.Sleep(20 * time.Millisecond)
				if err := s.exchange(c); err != nil || atomic.LoadInt32(&k.closes) > 0 {
					r.Violation("deadlines %v: an idle connection was ended although no deadline has passed: %v", cfg, err)
				}
			}
			c.Close()
		}
		r.Case(fmt.Sprintf("%v/order%d", cfg, cfg.order%3))
		r.Step(cfg.String())
	}
	r.Sample(map[string]interface{}{"config": cfg.String(), "effective_read": dlName[rd], "effective_write": dlName[wr], "handled": s.handled})
}

// c22soon: a deadline falls while connections are open.
func c22soon(r *Rep, g *rand.Rand, cfg c22cfg) {
	s := newC22(r, g, cfg)
	defer s.s.stop()
	rd, wr := cfg.eff()
	var cs []net.Conn
	var ks []*c22conn
	for i := 0; i < 3; i++ {
		c, k := s.open()
		cs, ks = append(cs, c), append(ks, k)
	}
	// before the deadline traffic works
	early := 0
	for i, c := range cs {
		err := s.exchange(c)
		if now := time.Now(); now.Before(s.at) {
			if err != nil {
				r.Violation("deadlines %v: an exchange %v before the deadline failed: %v", cfg, s.at.Sub(now), err)
			}
			early++
		} else if err != nil {
			r.Inconclusive("deadline passed before the first exchange")
			cs[i].Close()
			return
		}
	}
	if rd == dlSoon {
		var ends []int64
		for i, c := range cs {
			ends = append(ends, s.gone(c, ks[i], "a waiting connection"))
		}
		lim := int64(s.at.Sub(epoch))
		for _, e := range ends {
			if e < lim {
				r.Violation("deadlines %v: a connection was ended %v before its read deadline", cfg, time.Duration(lim-e))
			}
		}
		// a late comer is not served
		h0 := atomic.LoadInt64(&s.handled)
		c, k := s.open()
		go s.send(c)
		s.gone(rawOf(c), k, "a connection accepted after the deadline")
		if atomic.LoadInt64(&s.handled) != h0 {
			r.Violation("deadlines %v: a connection accepted after the read deadline was served", cfg)
		}
		c.Close()
	} else {
		for time.Now().Before(s.at.Add(5 * time.Millisecond)) {
			time.Sleep(5 * time.Millisecond)
		}
	}
	if rd != dlSoon {
		for i, c := range cs {
			if wr == dlSoon {
				ok := until(longWait, func() bool {
					b := s.send(c)
					e, ok := s.answerErr(b)
					return ok && e != ""
				})
				if !ok {
					r.Violation("deadlines %v: replies still succeed after the write deadline", cfg)
				}
				if time.Now().Before(s.at) {
					r.Violation("deadlines %v: a reply failed before the write deadline", cfg)
				}
				// from then on nothing is sent
				drain(c)
				for j := 0; j < 2; j++ {
					b := s.send(c)
					if e, ok := s.answerErr(b); !ok || e == "" {
						r.Violation("deadlines %v: after a reply failed at the write deadline another one succeeded (%v)", cfg, ok)
					}
				}
				if b := drain(c); len(b) > 0 {
					r.Violation("deadlines %v: %d bytes were sent after the write deadline", cfg, len(b))
				}
			} else {
				if err := s.exchange(c); err != nil || atomic.LoadInt32(&ks[i].closes) > 0 {
					r.Violation("deadlines %v: a deadline that does not apply disturbed the traffic: %v", cfg, err)
				}
			}
		}
	}
	for _, c := range cs {
		c.Close()
	}
	if early > 0 {
		r.Case(cfg.String())
	}
	r.Step(cfg.String())
}

// drain reads what arrives within a few milliseconds.
func drain(c net.Conn) []byte {
	var out []byte
	b := make([]byte, 4096)
	for {
		c.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
		n, err := c.Read(b)
		out = append(out, b[:n]...)
		if err != nil {
			c.SetReadDeadline(time.Time{})
			return out
		}
	}
}

// c22ctx: a deadline set through one connection's context.
func c22ctx(r *Rep, g *rand.Rand, kind string, i int) {
	base := c22cfg{kind: kind}
	if g.Intn(2) == 0 {
		base.d = dlFuture
	}
	rescue := i%4 == 3 // the server's deadline is near, one connection moves its own
	if rescue {
		base.d, base.soon = dlSoon, 400*time.Millisecond
	}
	s := newC22(r, g, base)
	defer s.s.stop()
	a, ka := s.open()
	b, kb := s.open()
	defer a.Close()
	defer b.Close()
	for _, c := range []net.Conn{a, b} {
		if err := s.exchange(c); err != nil {
			if rescue && !time.Now().Before(s.at) {
				r.Inconclusive("deadline passed before the first exchange")
				return
			}
			r.Violation("deadlines %v: %v", base, err)
		}
	}
	if rescue {
		to := []time.Time{{}, time.Now().Add(time.Hour)}[g.Intn(2)]
		apart := g.Intn(2) == 0
		if apart {
			ka.ctx.SetReadDeadline(to)
			ka.ctx.SetWriteDeadline(to)
		} else {
			ka.ctx.SetDeadline(to)
		}
		if time.Now().After(s.at) {
			r.Inconclusive("deadline passed before it was moved")
			return
		}
		s.gone(b, kb, "the connection whose deadline was not moved")
		time.Sleep(10 * time.Millisecond)
		if err := s.exchange(a); err != nil || atomic.LoadInt32(&ka.closes) > 0 {
			r.Violation("deadlines %v: a connection whose deadline was moved through its context was ended at the old one: %v", base, err)
		}
		r.Case(fmt.Sprintf("%s/ctx/rescue/%v/%v", kind, to.IsZero(), apart))
		return
	}
	act := []string{"read-past", "all-past", "write-past", "read-soon", "all-future", "write-reset", "all-soon"}[(i/2+i)%7]
	soon := time.Now().Add(60 * time.Millisecond)
	var err error
	switch act {
	case "read-past":
		err = ka.ctx.SetReadDeadline(time.Now().Add(-time.Second))
	case "all-past":
		err = ka.ctx.SetDeadline(time.Now().Add(-time.Second))
	case "write-past", "write-reset":
		err = ka.ctx.SetWriteDeadline(time.Now().Add(-time.Second))
	case "read-soon":
		err = ka.ctx.SetReadDeadline(soon)
	case "all-soon":
		err = ka.ctx.SetDeadline(soon)
	case "all-future":
		err = ka.ctx.SetDeadline(time.Now().Add(time.Hour))
		ka.ctx.SetReadDeadline(time.Now().Add(2 * time.Hour))
		ka.ctx.SetWriteDeadline(time.Now().Add(2 * time.Hour))
	}
	if err != nil {
		r.Violation("deadlines %v: setting a deadline through the context: %v", base, err)
	}
	switch act {
	case "read-past", "all-past", "read-soon", "all-soon":
		at := s.gone(a, ka, "a connection whose context set a read deadline")
		if (act == "read-soon" || act == "all-soon") && at < int64(soon.Sub(epoch)) {
			r.Violation("deadlines %v: a connection was ended before the deadline its context set", base)
		}
	case "write-past", "write-reset":
		for j := 0; j < 2; j++ {
			m := s.send(a)
			e, ok := s.answerErr(m)
			if !ok {
				r.Violation("deadlines %v: a write deadline set through the context stops requests", base)
			}
			if e == "" {
				r.Violation("deadlines %v: a reply succeeded after the write deadline set through the context", base)
			}
		}
		if x := drain(rawOf(a)); len(x) > 0 {
			r.Violation("deadlines %v: %d bytes were sent after the write deadline", base, len(x))
		}
		if act == "write-reset" && kind != "tls" { // crypto/tls keeps a write error
			ka.ctx.SetWriteDeadline(time.Time{})
			if err := s.exchange(a); err != nil {
				r.Violation("deadlines %v: after the write deadline was removed a reply still fails: %v", base, err)
			}
		}
	case "all-future":
		if err := s.exchange(a); err != nil {
			r.Violation("deadlines %v: a future deadline set through the context disturbs traffic: %v", base, err)
		}
	}
	// the other one never notices, nor does a new one
	time.Sleep(5 * time.Millisecond)
	if err := s.exchange(b); err != nil || atomic.LoadInt32(&kb.closes) > 0 {
		r.Violation("deadlines %v: a deadline set through one connection's context (%s) affected another: %v", base, act, err)
	}
	c, _ := s.open()
	if err := s.exchange(c); err != nil {
		r.Violation("deadlines %v: a deadline set through one connection's context (%s) affected a later one: %v", base, act, err)
	}
	c.Close()
	r.Case(fmt.Sprintf("%s/ctx/%s/%s", kind, dlName[base.d], act))
}
