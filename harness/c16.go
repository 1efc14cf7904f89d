package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C16"] = c16 }

func c16(r *Rep) {
	r.Rule("one case = one stop/start cycle of a server, after which every address is probed in its mode and every connection kept is used; distinct by listening kinds, options, kind of cycle and its position in the history")
	rounds := r.N(110)
	sem := make(chan int, 6)
	var wg sync.WaitGroup
	for i := 0; i < rounds; i++ {
		sem <- 1
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			c16history(r, r.Sub(int64(300+i)), i)
		}(i)
	}
	wg.Wait()
}

type c16state struct {
	r    *Rep
	g    *rand.Rand
	f    *fleet
	kept []*guest
	gone []*guest
}

func c16history(r *Rep, g *rand.Rand, i int) {
	o := r.c15opts(g, i)
	if o.hb > 0 {
		o.hb = 400 * time.Millisecond
	}
	f := r.newFleet(o)
	f.start()
	s := &c16state{r: r, g: g, f: f}
	s.invite()
	cycles := 5
	if i%10 == 0 {
		cycles = 12
	}
	var hist []string
	for c := 0; c < cycles; c++ {
		how := []string{"stop-start", "stopall-start", "restart", "restartall", "inside", "relisten", "relistenall", "insideall"}[g.Intn(8)]
		hist = append(hist, how)
		if len(s.kept) > 40 {
			for _, k := range s.kept[:20] {
				k.leave()
			}
			s.kept = s.kept[20:]
		}
		s.cycle(how, strings.Join(hist, ","))
		s.invite()
		r.Case(fmt.Sprintf("%v/%s/%d", o, how, c))
		r.Step("cycle")
	}
	// a last silence check: nobody is closed any more although the history is full of stops
	if o.hb > 0 {
		s.heartbeats()
	}
	s.alive("at the end of " + strings.Join(hist, ","))
	if err := f.X.Stop(true); err != nil {
		r.Violation("%v: the final Stop(true) returned %v", o, err)
	}
	for _, k := range s.kept {
		if _, ok := ended(k.c, longWait); !ok {
			r.Violation("%v: Stop(true) left a connection of an earlier generation open (history %v)", o, hist)
		}
		k.leave()
	}
	f.callsReturn("after the final Stop")
	f.shut("after the final Stop")
	if !f.settle() {
		r.Violation("%v: %d of %d connections saw OnClose after the final Stop(true)", o, f.closed, f.opened)
	}
	for _, k := range f.snapshot() {
		if n := atomic.LoadInt32(&k.closes); n != 1 {
			r.Violation("%v: OnClose ran %d times for one connection", o, n)
		}
	}
	r.Sample(map[string]interface{}{"config": o.String(), "history": hist, "connections": f.opened})
}

// invite adds a connection on every stream address.
func (s *c16state) invite() {
	for _, d := range s.f.doors {
		if d.mode == "udp" || d.network == "unixpacket" {
			continue
		}
		k := s.f.admit(d, "kept")
		if s.f.opt.hb > 0 {
			k.keepBeating(s.f.opt.hb)
		}
		if s.f.opt.pool {
			k.name = d.String() // the same name in every generation: the newest connection holds it
			for _, q := range s.kept {
				if q.name == k.name {
					q.name = ""
				}
			}
			if err := k.online(k.name); err != nil {
				s.r.Violation("%v: Online fails: %v", s.f.opt, err)
			}
		}
		s.kept = append(s.kept, k)
	}
}

func (s *c16state) alive(when string) {
	var snd *guest
	for _, k := range s.kept {
		if err := k.ping(); err != nil && !s.f.starved(k) {
			s.r.Violation("%v: a connection (%v) does not work %s: %v", s.f.opt, k.d, when, err)
		}
		if k.name == "" || s.f.starved(k) {
			continue
		}
		p := k.k.ctx.GetPoolRef()
		if p == nil || p.GetClientPool(k.name) == nil {
			s.r.Violation("%v: %q is connected but not in the pool %s", s.f.opt, k.name, when)
		}
		if snd == nil {
			snd = k
		}
		if k.d.mode == "framed" {
			if err := snd.k.ctx.SendToUsername(k.name, 9, []byte("x")); err != nil {
				s.r.Violation("%v: SendToUsername %s: %v", s.f.opt, when, err)
			}
			if m, err := recv(k.c); err != nil || m.ID != 9 {
				s.r.Violation("%v: a message sent to %q does not reach its newest connection %s: %v", s.f.opt, k.name, when, err)
			}
		}
	}
}

// heartbeats: after the last restart a silent connection is closed in time, beating ones stay.
func (s *c16state) heartbeats() {
	for _, d := range s.f.doors {
		if d.mode == "udp" || d.network == "unixpacket" {
			continue
		}
		t := now()
		k := s.f.admit(d, "silent")
		w := watchClose(k.c)
		if !waitCh(longWait, w.done) {
			s.r.Violation("%v: heartbeat watching does not work after restarts (%v)", s.f.opt, d)
		}
		if w.at-t < int64(3*s.f.opt.hb) {
			s.r.Violation("%v: a connection made after restarts was closed after %v, before three heartbeat intervals", s.f.opt, time.Duration(w.at-t))
		}
		k.leave()
		return
	}
}

// remodel serves some of the addresses in another mode than before; that mode counts from then on.
func (s *c16state) remodel() {
	f := s.f
	for i, d := range f.doors {
		if d.tls || d.network == "unixpacket" || s.g.Intn(2) == 0 {
			continue
		}
		n := *d
		switch d.mode {
		case "framed":
			n.mode = "raw"
		case "raw":
			if f.opt.tls {
				continue
			}
			n.mode = "framed"
		case "udp":
			n.buf = 128 + 64*s.g.Intn(3)
		}
		f.doors[i] = &n
		s.r.Step("remodel")
	}
}

// modes checks what a plain echo does not show.
func (s *c16state) modes(when string) {
	f := s.f
	for _, d := range f.doors {
		if d.mode == "udp" {
			max := 4096
			if d.buf > 0 {
				max = d.buf
			}
			k := f.dial(d)
			big := frame(echoID, nil, []byte(fmt.Sprintf("%0*d", max-15, atomic.AddInt64(&echoCtr, 1)))) // one byte too long
			fit := frame(echoID, nil, []byte(fmt.Sprintf("%0*d", max-16, atomic.AddInt64(&echoCtr, 1))))
			k.c.Write(big)
			ok := until(longWait, func() bool {
				k.c.Write(fit)
				return until(20, func() bool { return f.saw(string(fit[16:])) > 0 })
			})
			if !ok {
				s.r.Violation("%v: %v does not handle a datagram of its buffer size %s", f.opt, d, when)
			}
			if f.saw(string(big[16:])) > 0 {
				s.r.Violation("%v: %v handles a datagram larger than its buffer size %s", f.opt, d, when)
			}
			k.close()
		}
		if d.tls { // in clear it must not answer
			p := *d
			p.tls = false
			pc, err := f.tryDial(&p)
			if err != nil {
				continue
			}
			c := pc.c
			b := fmt.Sprintf("clear-%d", atomic.AddInt64(&echoCtr, 1))
			c.Write(frame(echoID, nil, []byte(b)))
			ended(c, longWait)
			if f.saw(b) > 0 {
				s.r.Violation("%v: %v obeys plaintext %s", f.opt, d, when)
			}
			c.Close()
		}
	}
}

func (s *c16state) cycle(how, hist string) {
	r, f, g := s.r, s.f, s.g
	all := strings.HasSuffix(how, "all") || strings.HasPrefix(how, "stopall")
	// a running server cannot be started
	var err error
	if !within(longWait, func() { err = f.X.Start() }) {
		r.Violation("%v: Start on a running server does not return", f.opt)
	}
	if err == nil {
		r.Violation("%v: Start on a running server returned no error (history %s)", f.opt, hist)
	}
	calls := f.calls
	f.calls = nil
	var log []string
	var mu sync.Mutex
	n := g.Intn(4)
	var cbs []func()
	for j := 0; j < n; j++ {
		j := j
		cbs = append(cbs, func() {
			mu.Lock()
			log = append(log, fmt.Sprint(j))
			mu.Unlock()
			if f.X.State() != tcpx.STATE_STOP {
				r.Violation("%v: a Restart callback ran while the server was not stopped", f.opt)
			}
			if j == 0 || j == n-1 {
				f.shutStream("in a Restart callback", true)
			}
		})
	}
	restart := func() error { return f.X.Restart(all, cbs...) }
	doStop := func() {
		if !within(longWait, func() { err = f.X.Stop(all) }) {
			r.Violation("%v: Stop(%v) does not return (history %s)", f.opt, all, hist)
		}
		if err != nil {
			r.Violation("%v: Stop(%v) of a running server returned %v (history %s)", f.opt, all, err, hist)
		}
		if g.Intn(2) == 0 {
			f.shutStream("between Stop and Start", true)
		}
	}
	usedRestart := false
	switch how {
	case "stop-start", "stopall-start":
		doStop()
		for _, c := range calls {
			if !waitCh(longWait, c) {
				r.Violation("%v: a listen call is still blocked after Stop", f.opt)
			}
		}
		if !within(longWait, func() { err = f.X.Start() }) {
			r.Violation("%v: Start does not return (history %s)", f.opt, hist)
		}
		if err != nil {
			r.Violation("%v: Start of a stopped server returned %v (history %s)", f.opt, err, hist)
		}
	case "relisten", "relistenall":
		doStop()
		for _, c := range calls {
			waitCh(longWait, c)
		}
		if g.Intn(2) == 0 {
			s.remodel()
		}
		f.start()
	case "restart", "restartall":
		usedRestart = true
		if !within(longWait, func() { err = restart() }) {
			r.Violation("%v: Restart does not return (history %s)", f.opt, hist)
		}
		if err != nil {
			r.Violation("%v: Restart of a running server returned %v (history %s)", f.opt, err, hist)
		}
	default: // called by a handler
		usedRestart = true
		done := make(chan struct{})
		var once sync.Once
		f.hook.Store(func(c *tcpx.Context) {
			once.Do(func() { err = restart(); close(done) })
		})
		d := f.doors[g.Intn(len(f.doors))]
		if d.network == "unixpacket" {
			go f.hook.Load().(func(*tcpx.Context))(nil)
		} else {
			k := f.dial(d)
			k.hook()
			defer k.close()
		}
		if !waitCh(longWait, done) {
			r.Violation("%v: Restart called in a handler of %v does not return", f.opt, d)
		}
		if err != nil {
			r.Violation("%v: Restart called in a handler returned %v", f.opt, err)
		}
	}
	if usedRestart {
		mu.Lock()
		if got, want := strings.Join(log, ""), "0123"[:n]; got != want {
			r.Violation("%v: Restart ran its callbacks in the order %q, not %q", f.opt, got, want)
		}
		mu.Unlock()
	}
	f.up(fmt.Sprintf("after %s (history %s)", how, hist))
	if s.g.Intn(3) == 0 {
		s.modes("after " + how)
	}
	if all {
		for _, k := range s.kept {
			if _, ok := ended(k.c, longWait); !ok {
				r.Violation("%v: a connection is still open after %s (history %s)", f.opt, how, hist)
			}
			k.leave()
		}
		s.kept = nil
		// their successors are not affected by what is left of that stop
	} else {
		s.alive(fmt.Sprintf("after %s (history %s)", how, hist))
	}
	mu.Lock()
	if usedRestart && len(log) != n {
		r.Violation("%v: Restart ran %d callbacks, not %d", f.opt, len(log), n)
	}
	mu.Unlock()
}
