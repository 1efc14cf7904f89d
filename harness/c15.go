package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C15"] = c15 }

// guest is a client kept over a Stop.
type guest struct {
	*fclient
	what string
	k    *fconn // server's view, nil for unixpacket
	name string
	stop chan struct{}
	sent int64 // last heartbeat sent (silent guests)
}

// admit dials and finds the server's view of the connection.
func (f *fleet) admit(d *door, what string) *guest {
	f.r.Step("admit " + d.String())
	var k *fconn
	n := len(f.snapshot())
	c := f.dial(d)
	if !until(longWait, func() bool {
		o := f.snapshot()
		if len(o) > n {
			k = o[len(o)-1]
			return true
		}
		return false
	}) {
		f.r.Violation("%v: OnConnect did not run on %v", f.opt, d)
	}
	return &guest{fclient: c, what: what, k: k, stop: make(chan struct{})}
}

func (g *guest) keepBeating(d time.Duration) {
	go func() {
		for {
			select {
			case <-g.stop:
				return
			case <-time.After(d / 20):
				g.beat()
			}
		}
	}()
}

func (g *guest) leave() {
	select {
	case <-g.stop:
	default:
		close(g.stop)
	}
	g.close()
}

func c15(r *Rep) {
	r.Rule("one case = one server generation taken through Stop: doors probed afterwards, listen calls, and each kept or closed connection judged; distinct by listening kinds, options, how and from where Stop was called")
	r.Assume("a door counts as closed when a message sent after Stop returned reaches no handler and gets no answer within 60 to 300 ms; the listen calls have returned by then")
	by := r.newFleet(fopt{kinds: []string{"tcp", "udp", "raw"}, pool: true})
	by.start()
	var byc []*guest
	for _, d := range by.doors {
		if d.mode != "udp" {
			byc = append(byc, by.admit(d, "bystander"))
		}
	}
	// never started, and started in vain
	x := tcpx.NewTcpX(nil)
	for _, all := range []bool{true, false} {
		if !within(longWait, func() {
			if err := x.Stop(all); err == nil {
				r.Violation("Stop(%v) of a server that was never started returned no error", all)
			}
		}) {
			r.Violation("Stop of a server that was never started hangs")
		}
	}
	r.Case("never-started")
	c15failedListen(r)

	for i := 0; i < r.N(16); i++ {
		c15generations(r, r.Sub(int64(50+i)), i)
	}
	rounds := r.N(180)
	par := 6
	sem := make(chan int, par)
	var wg sync.WaitGroup
	for i := 0; i < rounds; i++ {
		sem <- 1
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			g := r.Sub(int64(100 + i))
			switch {
			case i%6 == 5:
				c15storm(r, g, i)
			default:
				c15round(r, g, i)
			}
		}(i)
	}
	wg.Wait()
	for _, b := range byc {
		if err := b.ping(); err != nil {
			r.Violation("a connection of another server was disturbed by stops: %v", err)
		}
		b.leave()
	}
	by.up("although only other servers were stopped")
	by.endFleet()
}

// c15failedListen: an address already in use returns an error and leaves the server stopped.
func c15failedListen(r *Rep) {
	f := r.newFleet(fopt{kinds: []string{"tcp", "raw", "udp", "unix"}})
	f.start()
	for _, d := range f.doors {
		y := tcpx.NewTcpX(nil)
		addEcho(y)
		y.HandleRaw = func(c *tcpx.Context) {}
		var err error
		if !within(longWait, func() {
			switch d.mode {
			case "raw":
				err = y.ListenAndServeRaw(d.network, d.addr)
			default:
				err = y.ListenAndServe(d.network, d.addr)
			}
		}) {
			r.Violation("listening on the used address %v does not return", d)
		}
		if err == nil {
			r.Violation("listening on the used address %v returned no error", d)
		}
		if e := y.Stop(true); e == nil {
			r.Violation("a server whose only listen call failed (%v) does not count as stopped", d)
		}
		k := f.dial(d)
		if err := k.ping(); err != nil {
			r.Violation("%v was disturbed by a second server that failed to listen there: %v", d, err)
		}
		k.close()
		r.Case("failed-listen/" + d.String())
	}
	f.endFleet()
}

func (r *Rep) c15opts(g *rand.Rand, i int) fopt {
	o := fopt{pool: g.Intn(3) > 0, bcast: g.Intn(2) == 0, onMsg: g.Intn(4) == 0, tls: i%4 == 1, auth: g.Intn(4) == 0}
	if g.Intn(3) == 0 {
		o.hb = 500 * time.Millisecond
	}
	o.kinds = randKinds(g, o.tls)
	must := []string{"tcp", "unix", "raw", "tcp4", "udp", "tcpall", "rawunix", "udp4", "tcp6", "udpbuf", "unixpacket", "udp6", "unixgram", "tcp46", "udp46", "tcpudp"}
	m := must[i%len(must)]
	if strings.HasSuffix(m, "6") && !v6 || m == "unixpacket" && o.tls {
		m = "tcp"
	}
	have := false
	for _, k := range o.kinds {
		have = have || k == m
	}
	if !have {
		o.kinds = append([]string{m}, o.kinds...)
	}
	if i%19 == 7 { // many doors
		for k := 0; k < 9; k++ {
			o.kinds = append(o.kinds, []string{"tcp", "unix", "udp", "raw", "tcp4", "udp4", "rawunix"}[g.Intn(7)])
		}
	}
	return o
}

// c15guests fills a served fleet with connections in every state.
func (f *fleet) c15guests(g *rand.Rand, hb bool) []*guest {
	var gs []*guest
	for _, d := range f.doors {
		if d.mode == "udp" {
			continue
		}
		if d.network == "unixpacket" {
			if f.opt.hb == 0 {
				gs = append(gs, f.admit(d, "unixpacket"))
			}
			continue
		}
		whats := []string{"idle", "half", "parked"}
		if f.opt.pool {
			whats = append(whats, "online", "online")
		}
		if f.opt.hb > 0 && hb {
			whats = append(whats, "silent")
		}
		if d.mode == "raw" {
			whats = []string{"idle"}
			if f.opt.pool {
				whats = append(whats, "online")
			}
			if f.opt.hb > 0 && hb {
				whats = append(whats, "silent")
			}
		}
		for _, w := range whats {
			c := f.admit(d, w)
			gs = append(gs, c)
			if f.opt.hb > 0 && w != "silent" {
				c.beat()
				c.keepBeating(f.opt.hb)
			}
			if f.opt.auth && g.Intn(2) == 0 && d.mode == "framed" {
				c.c.Write(frame(1393, nil, nil))
			}
			if w == "online" {
				c.name = fmt.Sprintf("u%d", atomic.AddInt64(&echoCtr, 1))
				if err := c.online(c.name); err != nil {
					f.r.Violation("%v: %v: %v", f.opt, d, err)
				}
			}
		}
	}
	return gs
}

func c15round(r *Rep, g *rand.Rand, i int) {
	o := r.c15opts(g, i)
	closeAll := i%2 == 0
	if closeAll && o.hb > 0 && g.Intn(2) == 0 {
		o.hb = time.Hour
	}
	f := r.newFleet(o)
	f.start()
	if !f.settle() {
		r.Violation("%v: connections the peer closed are not closed", o)
	}
	gs := f.c15guests(g, !closeAll)
	// peers that went online over a datagram door: entries no closing connection removes
	var poolOf *tcpx.ClientPool
	var dgrams []string
	if o.pool {
		for _, d := range f.doors {
			if d.mode != "udp" {
				continue
			}
			name := fmt.Sprintf("d%d", atomic.AddInt64(&echoCtr, 1))
			c := f.dial(d)
			if !until(longWait, func() bool {
				c.c.Write(frame(fOnline, nil, []byte(name)))
				return until(30, func() bool { p := f.poolRef(); return p != nil && p.GetClientPool(name) != nil })
			}) {
				r.Violation("%v: Online over %v leaves no entry in the pool", o, d)
			}
			dgrams = append(dgrams, name)
			c.close()
		}
		poolOf = f.poolRef()
	}
	release := make(chan struct{})
	var parked, resumed int64
	var stopErr error
	var stopAt int64
	from := []string{"outside", "handler", "outside", "onconnect", "onclose", "raw"}[g.Intn(6)]
	doStop := func() { stopErr = f.X.Stop(closeAll); atomic.StoreInt64(&stopAt, now()) }
	// parked handlers
	f.hook.Store(func(c *tcpx.Context) {
		if c.Conn == nil {
			return
		}
		atomic.AddInt64(&parked, 1)
		<-release
		c.ReplyWithMarshaller(rawMarshaller{}, fHook, []byte("resumed"))
		atomic.AddInt64(&resumed, 1)
	})
	want := int64(0)
	late := frame(echoID, nil, []byte(fmt.Sprintf("half-%d", atomic.AddInt64(&echoCtr, 1))))
	cut := 1 + g.Intn(len(late)-1)
	for _, c := range gs {
		switch c.what {
		case "parked":
			c.hook()
			want++
		case "half":
			if f.opt.hb == 0 {
				c.c.Write(late[:cut])
			}
		}
	}
	if !until(longWait, func() bool { return atomic.LoadInt64(&parked) == want }) {
		r.Violation("%v: a message was not handled before Stop", o)
	}
	// silent guests: last heartbeat before Stop
	for _, c := range gs {
		if c.what == "silent" {
			atomic.StoreInt64(&c.sent, now())
			c.beat()
			if !until(longWait, func() bool { return atomic.LoadInt32(&c.k.beats) >= 1 }) {
				r.Violation("%v: a heartbeat was not handled", o)
			}
		}
	}
	openBefore := atomic.LoadInt64(&f.opened)
	closedBefore := atomic.LoadInt64(&f.closed)
	extraOpen, extraClose := int64(0), int64(0)
	var starter *fclient
	trig := func(mode string) *door {
		for _, d := range f.doors {
			if d.mode == mode && d.network != "unixpacket" {
				return d
			}
		}
		return nil
	}
	var stopped chan struct{}
	switch from {
	case "handler", "raw":
		mode := map[string]string{"handler": "framed", "raw": "raw"}[from]
		d := trig(mode)
		if d == nil && from == "handler" {
			d = trig("udp")
		}
		if d == nil {
			from = "outside"
			break
		}
		starter = f.dial(d)
		if d.mode != "udp" {
			extraOpen = 1
			if closeAll {
				extraClose = 1
			}
		}
		stopped = make(chan struct{})
		var once sync.Once
		f.hook.Store(func(c *tcpx.Context) { once.Do(func() { doStop(); close(stopped) }) })
		starter.hook()
		if !waitCh(longWait, stopped) {
			r.Violation("%v: Stop(%v) called in a %s handler of %v does not return", o, closeAll, from, d)
		}
	case "onconnect", "onclose":
		d := trig("framed")
		if d == nil {
			d = trig("raw")
		}
		if d == nil {
			from = "outside"
			break
		}
		stopped = make(chan struct{})
		var once sync.Once
		cb := func(c *tcpx.Context) { once.Do(func() { doStop(); close(stopped) }) }
		if from == "onclose" {
			starter = f.dial(d)
			f.onGone = cb
			starter.close()
			extraClose = 1
		} else {
			f.onOpen = cb
			if c, err := f.tryDial(d); err == nil {
				starter = c
			}
			if closeAll {
				extraClose = 1
			}
		}
		extraOpen = 1
		if !waitCh(longWait, stopped) {
			r.Violation("%v: Stop(%v) called in %s of %v does not return", o, closeAll, from, d)
		}
	}
	if from == "outside" {
		if i%5 == 0 { // several at once: one of them stops the server
			n := 4
			errs := make([]error, n)
			var ready, wg sync.WaitGroup
			ready.Add(1)
			for j := 0; j < n; j++ {
				wg.Add(1)
				go func(j int) { defer wg.Done(); ready.Wait(); errs[j] = f.X.Stop(closeAll) }(j)
			}
			ready.Done()
			if !within(longWait, wg.Wait) {
				r.Violation("%v: concurrent Stop calls do not return", o)
			}
			ok := 0
			for _, e := range errs {
				if e == nil {
					ok++
				}
			}
			if ok != 1 {
				r.Violation("%v: of %d concurrent Stop calls %d succeeded, not one", o, n, ok)
			}
			from = "concurrent"
		} else if !within(longWait, doStop) {
			r.Violation("%v: Stop(%v) does not return", o, closeAll)
		}
	}
	if stopErr != nil {
		r.Violation("%v: Stop(%v) of a running server returned %v", o, closeAll, stopErr)
	}
	if s := f.X.State(); s != tcpx.STATE_STOP {
		r.Violation("%v: State() is %d after Stop", o, s)
	}
	f.shutStream(fmt.Sprintf("after Stop(%v) returned", closeAll), from == "onconnect")
	f.callsReturn(fmt.Sprintf("after Stop(%v)", closeAll))
	r.Step("stopped")
	if from == "onconnect" {
		// the connection that triggered it
		if !until(longWait, func() bool { return atomic.LoadInt64(&f.opened) == openBefore+extraOpen }) {
			r.Violation("%v: OnConnect that stopped the server did not finish", o)
		}
	}

	pool := func() *tcpx.ClientPool {
		for _, c := range gs {
			return c.k.ctx.GetPoolRef()
		}
		return nil
	}()
	if closeAll {
		if poolOf != nil {
			for _, n := range dgrams {
				if poolOf.GetClientPool(n) != nil {
					r.Violation("%v: after Stop(true) the pool still has %q, who went online over UDP", o, n)
				}
			}
		}
		for _, c := range gs {
			if _, ok := ended(c.c, longWait); !ok {
				r.Violation("%v: Stop(true) left a connection open (%v, %s, from %s)", o, c.d, c.what, from)
			}
		}
		close(release)
		if !until(longWait, func() bool {
			return atomic.LoadInt64(&f.opened) == atomic.LoadInt64(&f.closed)
		}) {
			r.Violation("%v: after Stop(true) OnClose ran for %d of %d connections", o, f.closed, f.opened)
		}
		if pool != nil {
			for _, c := range gs {
				if c.name != "" && !until(longWait, func() bool { return pool.GetClientPool(c.name) == nil }) {
					r.Violation("%v: Stop(true) left %q in the pool", o, c.name)
				}
			}
		}
		if err := f.X.Stop(g.Intn(2) == 0); err == nil {
			r.Violation("%v: a second Stop returned no error", o)
		}
		time.Sleep(10 * time.Millisecond)
		for _, k := range f.snapshot() {
			if n := atomic.LoadInt32(&k.closes); n != 1 {
				r.Violation("%v: OnClose ran %d times for one connection", o, n)
			}
		}
		f.shutStream("after a second Stop", false)
	} else {
		alive := func(when string) {
			for _, c := range gs {
				if c.what == "silent" || c.what == "parked" || c.what == "half" {
					continue
				}
				if c.what == "unixpacket" {
					if !stillOpen(c.c, 5*time.Millisecond) {
						r.Violation("%v: a unixpacket connection was closed %s", o, when)
					}
					continue
				}
				if err := c.ping(); err != nil {
					if f.starved(c) {
						continue
					}
					r.Violation("%v: an established connection (%v, %s) does not work %s (Stop from %s): %v", o, c.d, c.what, when, from, err)
				}
			}
		}
		alive("after Stop(false)")
		// a half message is completed
		for _, c := range gs {
			if c.what == "half" && o.hb == 0 {
				c.c.Write(late[cut:])
				if m, err := recv(c.c); err != nil || m.ID != echoID || string(m.Body) != string(late[16:]) {
					r.Violation("%v: a message half sent before Stop(false) and completed after it is not served: %v", o, err)
				}
			}
		}
		for _, all := range []bool{true, false, true}[g.Intn(2):] {
			var err error
			if !within(longWait, func() { err = f.X.Stop(all) }) {
				r.Violation("%v: Stop(%v) of a stopped server does not return", o, all)
			}
			if err == nil {
				r.Violation("%v: Stop(%v) of a stopped server returned no error", o, all)
			}
		}
		time.Sleep(5 * time.Millisecond)
		alive("after a second Stop, which failed")
		if o.hb > 0 {
			end := time.Now().Add(o.hb*3 + o.hb/2)
			for time.Now().Before(end) {
				time.Sleep(50 * time.Millisecond)
				r.Step("heartbeats after Stop(false)")
			}
			alive("after three and a half heartbeat intervals of regular heartbeats")
			for _, c := range gs {
				if c.what != "silent" {
					continue
				}
				w := watchClose(c.c)
				if !waitCh(longWait, w.done) {
					r.Violation("%v: after Stop(false) a silent connection (%v) is not closed any more", o, c.d)
				}
				if w.at-c.sent < int64(3*o.hb) {
					r.Violation("%v: a connection was closed %v after its last heartbeat, before three intervals (Stop(false) in between)", o, time.Duration(w.at-c.sent))
				}
				r.Count("silent_closed_after_stop", 1)
			}
		}
		// handlers that were running finish and their replies arrive
		close(release)
		for _, c := range gs {
			if c.what != "parked" {
				continue
			}
			if m, err := recv(c.c); (err != nil || string(m.Body) != "resumed") && !f.starved(c) {
				r.Violation("%v: the reply of a handler that was running during Stop(false) is lost: %v %q", o, err, m.Body)
			}
		}
		if pool != nil {
			var snd *guest
			for _, c := range gs {
				if c.name == "" || f.starved(c) {
					continue
				}
				if pool.GetClientPool(c.name) == nil {
					r.Violation("%v: Stop(false) dropped %q from the pool", o, c.name)
				}
				if snd == nil {
					snd = c
				}
				if c.d.mode == "raw" {
					continue
				}
				if err := snd.k.ctx.SendToUsername(c.name, 9, []byte("x")); err == nil {
					if m, err := recv(c.c); err != nil || m.ID != 9 {
						r.Violation("%v: after Stop(false) a message sent to %q does not arrive: %v", o, c.name, err)
					}
				} else {
					r.Violation("%v: after Stop(false) SendToUsername(%q): %v", o, c.name, err)
				}
			}
		}
		f.shutStream("after Stop(false)", false)
		if n, silent := atomic.LoadInt64(&f.closed), f.silent(gs); n != closedBefore+extraClose+silent && !f.anyStarved(gs) && !(o.hb > 0 && starter != nil && n == closedBefore+1+silent) {
			r.Violation("%v: %d connections were closed by Stop(false)", o, n-closedBefore-extraClose-silent)
		}
		for _, c := range gs {
			c.leave()
		}
		if starter != nil {
			starter.close()
		}
		if !f.settle() {
			r.Violation("%v: after Stop(false) connections closed by their peers are not ended: OnClose ran %d of %d times", o, f.closed, f.opened)
		}
		if pool != nil {
			for _, c := range gs {
				if c.name != "" && !until(longWait, func() bool { return pool.GetClientPool(c.name) == nil }) {
					r.Violation("%v: %q stays in the pool although its connection ended after Stop(false)", o, c.name)
				}
			}
		}
	}
	for _, c := range gs {
		c.leave()
	}
	if starter != nil {
		starter.close()
	}
	r.Case(fmt.Sprintf("%v/all=%v/from=%s", o, closeAll, from))
	r.Count("connections_judged", int64(len(gs)))
	r.Sample(map[string]interface{}{"config": o.String(), "closeAll": closeAll, "from": from, "connections": len(gs), "opened": f.opened, "closed": f.closed})
}

// starved tells whether the harness's own heartbeats came too late for this guest, so that its
// loss proves nothing.
func (f *fleet) starved(c *guest) bool {
	if f.opt.hb == 0 || c.k == nil || c.k.ref == nil {
		return false
	}
	if atomic.LoadInt32(&c.k.ref.worst) >= 2 {
		f.r.Inconclusive("heartbeats of a kept connection were late")
		return true
	}
	return false
}

func (f *fleet) anyStarved(gs []*guest) bool {
	for _, c := range gs {
		if c.what != "silent" && f.starved(c) {
			return true
		}
	}
	return false
}

func (f *fleet) silent(gs []*guest) (n int64) {
	for _, c := range gs {
		if c.what == "silent" {
			n++
		}
	}
	return
}

// shutStream is shut; lenient skips the OnConnect count while one is known to be in progress.
func (f *fleet) shutStream(when string, lenient bool) {
	f.lenient = lenient
	f.shut(when)
	f.lenient = false
}

// c15storm: connections and datagrams keep coming while Stop is called.
func c15storm(r *Rep, g *rand.Rand, i int) {
	o := r.c15opts(g, i)
	o.hb, o.onMsg = 0, false
	closeAll := g.Intn(2) == 0
	o.kinds = append(o.kinds, "tcp")
	f := r.newFleet(o)
	f.start()
	f.onOpen = func(c *tcpx.Context) {
		if g := c.GetPoolRef(); g != nil {
			c.Online("s" + c.Conn.RemoteAddr().String())
		}
	}
	if !f.settle() {
		r.Violation("%v: connections the peer closed are not closed", o)
	}
	base := atomic.LoadInt64(&f.opened)
	var after int32
	var mu sync.Mutex
	var kept []*fclient
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		d := f.doors[w%len(f.doors)]
		if d.network == "unixpacket" {
			continue
		}
		wg.Add(1)
		go func(d *door, w int) {
			defer wg.Done()
			for n := 0; n < 4000; n++ {
				late := atomic.LoadInt32(&after) == 1
				c, err := f.tryDial(d)
				if err != nil {
					if late {
						return
					}
					continue
				}
				if d.mode == "udp" {
					err = c.once(20 * time.Millisecond)
				} else {
					err = c.ping()
				}
				if err == nil && late {
					r.Violation("%v: %v answers a client that came after Stop(%v) returned", o, d, closeAll)
				}
				if err == nil && d.mode != "udp" {
					mu.Lock()
					kept = append(kept, c)
					n := len(kept)
					mu.Unlock()
					if n > 400 {
						time.Sleep(5 * time.Millisecond)
					}
				} else {
					c.close()
				}
				if late {
					return
				}
			}
		}(d, w)
	}
	time.Sleep(time.Duration(g.Intn(15000)) * time.Microsecond)
	var err error
	if !within(longWait, func() { err = f.X.Stop(closeAll) }) {
		r.Violation("%v: Stop(%v) does not return while clients keep coming", o, closeAll)
	}
	atomic.StoreInt32(&after, 1)
	if err != nil {
		r.Violation("%v: Stop(%v) returned %v", o, closeAll, err)
	}
	f.callsReturn("after Stop under load")
	wg.Wait()
	if closeAll {
		for _, c := range kept {
			if _, ok := ended(c.c, longWait); !ok {
				r.Violation("%v: a connection made while Stop(true) ran stays open", o)
			}
		}
	} else {
		for _, c := range kept {
			if err := c.ping(); err != nil {
				r.Violation("%v: a connection served before or while Stop(false) ran was lost: %v", o, err)
			}
		}
		if n := atomic.LoadInt64(&f.opened) - base; n != int64(len(kept)) && !until(longWait, func() bool {
			return atomic.LoadInt64(&f.opened)-atomic.LoadInt64(&f.closed) == int64(len(kept))
		}) {
			r.Violation("%v: %d connections opened, %d closed since, %d are working after Stop(false)", o, n, atomic.LoadInt64(&f.closed)-base, len(kept))
		}
	}
	f.shut("after Stop under load")
	for _, c := range kept {
		c.close()
	}
	if !f.settle() {
		r.Violation("%v: connections of a stopped server are not ended: OnClose ran %d of %d times", o, f.closed, f.opened)
	}
	if o.pool {
		for _, k := range f.snapshot() {
			p := k.ctx.GetPoolRef()
			k := k
			if p != nil && k.peer != "" && !until(longWait, func() bool { return p.GetClientPool("s"+k.peer) == nil }) {
				r.Violation("%v: an ended connection stays in the pool", o)
			}
			break
		}
	}
	r.Case(fmt.Sprintf("storm/%v/all=%v", o, closeAll))
	r.Count("storm_connections", int64(len(kept)))
}

// c15generations: connections kept over several stops are closed by a later Stop(true).
func c15generations(r *Rep, g *rand.Rand, i int) {
	kinds := [][]string{{"tcp", "raw"}, {"unix", "rawunix"}, {"tcp4", "tcp"}, {"raw", "unix", "udp"}}[i%4]
	f := r.newFleet(fopt{kinds: kinds, pool: g.Intn(2) == 0, bcast: g.Intn(2) == 0, tls: i%5 == 3})
	f.start()
	var gs []*guest
	gens := 1 + g.Intn(4)
	for k := 0; ; k++ {
		for _, d := range f.doors {
			if d.mode != "udp" {
				gs = append(gs, f.admit(d, fmt.Sprintf("generation %d of %d", k, gens)))
			}
		}
		if k == gens {
			break
		}
		how := "Stop and Start"
		if g.Intn(2) == 0 {
			how = "Restart"
			if err := f.X.Restart(false); err != nil {
				r.Violation("%v: Restart(false): %v", f.opt, err)
			}
		} else {
			if err := f.X.Stop(false); err != nil {
				r.Violation("%v: Stop(false): %v", f.opt, err)
			}
			f.callsReturn("after Stop(false)")
			if err := f.X.Start(); err != nil {
				r.Violation("%v: Start: %v", f.opt, err)
			}
		}
		f.up("after " + how)
		for _, c := range gs {
			if err := c.ping(); err != nil {
				r.Violation("%v: a connection of %s is not served after %s: %v", f.opt, c.what, how, err)
			}
		}
	}
	if !within(longWait, func() { f.X.Stop(true) }) {
		r.Violation("%v: Stop(true) does not return", f.opt)
	}
	for _, c := range gs {
		if _, ok := ended(c.c, longWait); !ok {
			r.Violation("%v: Stop(true) did not close a connection of %s on %v", f.opt, c.what, c.d)
		}
		c.leave()
	}
	if !until(longWait, func() bool { return atomic.LoadInt64(&f.opened) == atomic.LoadInt64(&f.closed) }) {
		r.Violation("%v: after Stop(true) OnClose ran for %d of %d connections", f.opt, atomic.LoadInt64(&f.closed), atomic.LoadInt64(&f.opened))
	}
	r.Case(fmt.Sprintf("generations/%v/%d", kinds, gens))
}
