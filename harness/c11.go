package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C11"] = c11 }

type c11conn struct {
	cid      int
	ctx      *tcpx.Context
	connects int
	connEnd  int64 // sequence number of the end of OnConnect
	closes   int
	closeAt  int64
	msgs     int
}

type c11srv struct {
	r     *Rep
	w     *world
	name  string
	mu    sync.Mutex
	seq   int64
	conns []*c11conn
	bad   []string

	dialed    int32 // connections the peers have opened
	nextPass  int32 // OnConnect of the next connection gives an auth pass
	nextClose int32 // OnConnect of the next connection closes it
	slow      int   // microseconds OnConnect may take
	closeBack bool  // OnClose calls CloseConn itself
	stale     []*tcpx.Context
	limit     int32
	hb, auth  string
}

func (s *c11srv) fail(f string, a ...interface{}) {
	s.mu.Lock()
	s.bad = append(s.bad, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

func (s *c11srv) of(c *tcpx.Context) *c11conn {
	v, ok := c.GetCtxPerConn("cid")
	if !ok {
		return nil
	}
	return v.(*c11conn)
}

// dial opens a connection to the server.
func (s *c11srv) dial() net.Conn {
	c := s.w.dial()
	atomic.AddInt32(&s.dialed, 1)
	return c
}

// settle waits until every connection opened so far was announced, so that "the next" one is the one opened next.
func (s *c11srv) settle() {
	if !until(longWait, func() bool { return s.opened() >= int(atomic.LoadInt32(&s.dialed)) }) {
		s.r.Violation("%s: %d connections were opened, OnConnect ran for %d", s.name, atomic.LoadInt32(&s.dialed), s.opened())
	}
}

func (s *c11srv) opened() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.conns) }
func (s *c11srv) closedOf(k *c11conn) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return k.closes
}
func (s *c11srv) at(i int) *c11conn { s.mu.Lock(); defer s.mu.Unlock(); return s.conns[i] }

// verify judges the event log; final: every connection must have ended.
func (s *c11srv) verify(final bool, when string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.bad) > 0 {
		s.r.Violation("%s: %s", s.name, s.bad[0])
	}
	for _, k := range s.conns {
		if k.connects != 1 {
			s.r.Violation("%s: OnConnect ran %d times for one connection", s.name, k.connects)
		}
		if k.closes > 1 {
			s.r.Violation("%s: OnClose ran %d times for one connection (%s)", s.name, k.closes, when)
		}
		if k.closes == 1 && (k.connEnd == 0 || k.closeAt < k.connEnd) {
			s.r.Violation("%s: OnClose ran before OnConnect had returned", s.name)
		}
		if final && k.closes != 1 {
			s.r.Violation("%s: OnClose never ran for a connection (%s)", s.name, when)
		}
	}
}

func c11start(r *Rep, g *rand.Rand, kind string) *c11srv {
	s := &c11srv{r: r, hb: []string{"off", "long", "off"}[g.Intn(3)], auth: []string{"off", "long", "short"}[g.Intn(3)], closeBack: g.Intn(4) == 0}
	if g.Intn(5) == 0 {
		s.hb, s.auth = "short", "off"
	}
	if g.Intn(2) == 0 {
		s.limit = 4000
	}
	if g.Intn(2) == 0 {
		s.slow = 1500
	}
	x := tcpx.NewTcpX(nil)
	pool := g.Intn(2) == 0
	x.WithBuiltInPool(pool)
	x.SetMaxBytePerMessage(s.limit)
	if g.Intn(4) == 0 {
		x.WithBroadCastSignal(true)
	}
	switch s.hb {
	case "long":
		x.HeartBeatMode(true, time.Hour)
	case "short":
		x.HeartBeatModeDetail(true, 15*time.Millisecond, false, 1392)
	}
	authH := func(c *tcpx.Context) {
		b, _ := c.RawStream()
		if string(b) == "no" {
			c.RecvAuthDeny()
		} else {
			c.RecvAuthPass()
		}
	}
	switch s.auth {
	case "long":
		x.WithAuthDetail(true, time.Hour, false, 1393, authH)
	case "short":
		x.WithAuthDetail(true, 150*time.Millisecond, false, 1393, authH)
	}
	s.name = fmt.Sprintf("%s hb=%s auth=%s limit=%d pool=%v", kind, s.hb, s.auth, s.limit, pool)
	x.OnConnect = func(c *tcpx.Context) {
		if k := s.of(c); k != nil {
			s.mu.Lock()
			k.connects++
			s.mu.Unlock()
			return
		}
		if !c.IsOnline() || c.IsOffline() {
			s.fail("context is not online in OnConnect")
		}
		s.mu.Lock()
		k := &c11conn{cid: len(s.conns), ctx: c, connects: 1}
		s.conns = append(s.conns, k)
		mine := atomic.CompareAndSwapInt32(&s.nextClose, 1, 0)
		s.mu.Unlock()
		c.SetCtxPerConn("cid", k)
		if s.auth != "off" && atomic.CompareAndSwapInt32(&s.nextPass, 1, 0) {
			c.RecvAuthPass()
		}
		if s.slow > 0 {
			time.Sleep(time.Duration(k.cid*7919%s.slow) * time.Microsecond)
		}
		if s.slow > 0 && k.cid%23 == 4 {
			time.Sleep(time.Duration(30+k.cid*7919%200) * time.Millisecond)
		}
		if pool && k.cid%2 == 0 {
			c.Online(fmt.Sprintf("u%d", k.cid%5))
		}
		if mine {
			c.CloseConn()
			if !c.IsOffline() || c.IsOnline() {
				s.fail("context is not offline after CloseConn in OnConnect")
			}
		}
		s.mu.Lock()
		s.seq++
		k.connEnd = s.seq
		s.mu.Unlock()
	}
	x.OnClose = func(c *tcpx.Context) {
		k := s.of(c)
		if k == nil {
			s.fail("OnClose ran for a connection OnConnect had not run for")
			return
		}
		s.mu.Lock()
		s.seq++
		k.closes++
		k.closeAt = s.seq
		s.mu.Unlock()
		if s.closeBack {
			c.CloseConn()
		}
	}
	msg := func(c *tcpx.Context) (*c11conn, bool) {
		k := s.of(c)
		if k == nil {
			s.fail("a message was handled before OnConnect of its connection")
			return nil, false
		}
		s.mu.Lock()
		k.msgs++
		early := k.connEnd == 0
		s.mu.Unlock()
		if early {
			s.fail("a message was handled while OnConnect of its connection was still running")
		}
		return k, true
	}
	x.AddHandler(1, func(c *tcpx.Context) {
		b, err := c.RawStream()
		if _, ok := msg(c); !ok || err != nil {
			return
		}
		c.Reply(1, json.RawMessage(b))
	})
	x.AddHandler(2, func(c *tcpx.Context) { // hello: who am I
		if k, ok := msg(c); ok {
			if !c.IsOnline() || c.IsOffline() {
				s.fail("context of an open connection reports offline in a handler")
			}
			c.JSON(2, k.cid)
		}
	})
	x.AddHandler(3, func(c *tcpx.Context) { // close
		if _, ok := msg(c); ok {
			c.CloseConn()
			if !c.IsOffline() || c.IsOnline() {
				s.fail("context is not offline after CloseConn")
			}
		}
	})
	x.AddHandler(4, func(c *tcpx.Context) { // close from many goroutines
		if _, ok := msg(c); ok {
			for i := 0; i < 6; i++ {
				go func() {
					c.CloseConn()
					if !c.IsOffline() {
						s.fail("context is not offline after CloseConn")
					}
				}()
			}
		}
	})
	x.AddHandler(5, func(c *tcpx.Context) { // deadline passed
		if _, ok := msg(c); ok {
			c.SetReadDeadline(time.Now().Add(-time.Second))
		}
	})
	x.AddHandler(6, func(c *tcpx.Context) { // stay
		if _, ok := msg(c); ok {
			time.Sleep(5 * time.Millisecond)
		}
	})
	s.w = r.serveKind(x, kind)
	return s
}

func c11hello(s *c11srv, c net.Conn) (*c11conn, error) {
	if _, err := c.Write(frame(2, nil, nil)); err != nil {
		return nil, err
	}
	m, err := recv(c)
	if err != nil {
		return nil, err
	}
	var id int
	if json.Unmarshal(m.Body, &id) != nil || id >= s.opened() {
		return nil, fmt.Errorf("bad hello %s", short(m.Body))
	}
	return s.at(id), nil
}

func pingJSON(c net.Conn) error {
	want := fmt.Sprintf(`"p%d"`, atomic.AddInt64(&echoCtr, 1))
	if _, err := c.Write(frame(1, nil, []byte(want))); err != nil {
		return err
	}
	m, err := recv(c)
	if err != nil {
		return err
	}
	if m.ID != 1 || string(m.Body) != want {
		return fmt.Errorf("echo of %s returned id %d body %q", want, m.ID, m.Body)
	}
	return nil
}

func c11(r *Rep) {
	r.Rule("one case = one accepted connection followed from OnConnect to OnClose; distinct by transport, server options, cause of the end and concurrent activity")
	var all []*c11srv
	for i := 0; i < r.N(250); i++ {
		all = append(all, c11round(r, r.Sub(int64(i)), []string{"tcp", "tls", "unix", "tcp"}[i%4]))
	}
	for i := 0; i < r.N(40); i++ {
		c11some(r, r.Sub(int64(11000+i)), i)
	}
	// nothing may fire later
	time.Sleep(30 * time.Millisecond)
	for _, s := range all {
		s.verify(true, "end of run")
		r.Count("connections", int64(len(s.conns)))
	}
}

var c11causes = []string{"close", "rst", "half", "handler", "many", "outside", "oversize", "negative", "badheader", "truncated", "deny", "authtimeout", "hbloss", "immediate", "batchcut", "readdeadline", "busy", "tlsgarbage", "mix", "closesend"}

func c11round(r *Rep, g *rand.Rand, kind string) *c11srv {
	s := c11start(r, g, kind)
	r.Step("c11 " + s.name)
	var by []net.Conn
	var byK []*c11conn
	if s.hb != "short" {
		for i := 0; i < 2; i++ {
			atomic.StoreInt32(&s.nextPass, 1)
			c := s.dial()
			k, err := c11hello(s, c)
			if err != nil {
				r.Violation("%s: a fresh connection is not served: %v", s.name, err)
			}
			by, byK = append(by, c), append(byK, k)
		}
		atomic.StoreInt32(&s.nextPass, 0)
	}
	check := func(when string) {
		for i, c := range by {
			if err := pingJSON(c); err != nil {
				s.verify(false, when)
				r.Violation("%s: %s on another connection ended or broke an established one: %v", s.name, when, err)
			}
			if s.closedOf(byK[i]) != 0 {
				r.Violation("%s: OnClose ran for an open connection after %s on another", s.name, when)
			}
		}
	}
	W := 1 + g.Intn(4)
	var wg sync.WaitGroup
	var solo sync.Mutex // causes that steer OnConnect of "the next" connection
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func(g *rand.Rand, w int) {
			defer wg.Done()
			for j := 0; j < 7; j++ {
				cause := c11causes[g.Intn(len(c11causes))]
				switch {
				case cause == "deny" && s.auth == "off", cause == "authtimeout" && s.auth != "short", cause == "hbloss" && s.hb != "short", cause == "oversize" && s.limit == 0, cause == "tlsgarbage" && s.w.kind != "tls":
					cause = "handler"
				}
				c11one(s, g, cause, &solo)
				r.Case(fmt.Sprintf("%s/%s/w%d", s.name, cause, W))
				if w == 0 && g.Intn(3) == 0 {
					check(cause)
				}
			}
		}(rand.New(rand.NewSource(g.Int63())), w)
	}
	wg.Wait()
	check("connections ending")
	for i := 0; i < 3; i++ {
		c11one(s, g, "onconnect", &solo)
		r.Case(s.name + "/onconnect")
	}
	check("CloseConn in OnConnect")
	// a few connections alive at Stop(true)
	s.settle()
	var live []net.Conn
	for i := 0; i < 3; i++ {
		atomic.StoreInt32(&s.nextPass, 1)
		c := s.dial()
		if k, err := c11hello(s, c); err != nil && s.hb != "short" {
			r.Violation("%s: a fresh connection is not served: %v", s.name, err)
		} else if k != nil && i == 0 {
			c.Write(frame(6, nil, nil))
		}
		live = append(live, c)
	}
	n := s.opened()
	s.w.stop()
	for _, c := range append(live, by...) {
		if _, ok := ended(c, longWait); !ok {
			r.Violation("%s: Stop(true) does not end a connection", s.name)
		}
		c.Close()
	}
	until(longWait, func() bool {
		for i := 0; i < n; i++ {
			if s.closedOf(s.at(i)) == 0 {
				return false
			}
		}
		return true
	})
	s.verify(true, "after Stop(true)")
	for i := 0; i < n; i++ {
		k := s.at(i)
		if !until(longWait, func() bool { return k.ctx.IsOffline() && !k.ctx.IsOnline() }) {
			r.Violation("%s: context of an ended connection reports online", s.name)
		}
		if !until(longWait, func() bool { return errors.Is(k.ctx.Conn.SetDeadline(time.Time{}), net.ErrClosed) }) {
			r.Violation("%s: the socket of an ended connection is still open after OnClose", s.name)
		}
	}
	r.Sample(map[string]interface{}{"server": s.name, "connections": n, "workers": W})
	return s
}

// c11one runs one connection to its end and waits for its OnClose.
func c11one(s *c11srv, g *rand.Rand, cause string, solo *sync.Mutex) {
	r := s.r
	fresh := func() net.Conn { return s.dial() }
	switch cause {
	case "onconnect", "immediate", "tlsgarbage":
		solo.Lock()
		before := s.opened()
		if cause == "onconnect" {
			s.settle()
			before = s.opened()
			atomic.StoreInt32(&s.nextClose, 1)
		}
		c := fresh()
		switch cause {
		case "immediate":
			raw := rawOf(c)
			if t, ok := raw.(*net.TCPConn); ok && g.Intn(2) == 0 {
				t.SetLinger(0)
			}
			if g.Intn(2) == 0 {
				raw.Write(frame(6, nil, nil))
			}
			raw.Close()
		case "tlsgarbage":
			raw := rawOf(c)
			raw.Write(randBytes(g, 1+g.Intn(200)))
			if g.Intn(2) == 0 {
				raw.Close()
			} else if _, ok := ended(raw, 50); !ok {
				// too little for the server to judge
				raw.Close()
			}
		case "onconnect":
			if _, ok := ended(rawOf(c), longWait); !ok {
				r.Violation("%s: CloseConn in OnConnect does not end the connection (%d connections before, %d after, flag %d, dialed %d)", s.name, before, s.opened(), atomic.LoadInt32(&s.nextClose), atomic.LoadInt32(&s.dialed))
			}
			until(longWait, func() bool { return s.opened() > before && s.closedOf(s.at(before)) > 0 })
		}
		solo.Unlock()
		c.Close()
		return
	}
	c := fresh()
	defer c.Close()
	if s.auth != "off" && cause != "deny" && cause != "authtimeout" {
		c.Write(frame(1393, nil, []byte("ok")))
	}
	k, err := c11hello(s, c)
	if err != nil {
		if s.auth == "short" || s.hb == "short" {
			// a slow machine may have let the deadline pass first; the log is still judged at the end
			r.Count("ended_before_hello", 1)
			return
		}
		s.verify(false, "hello")
		r.Violation("%s: a fresh connection is not served: %v", s.name, err)
	}
	// context is online while open (when nothing can have closed it yet)
	if s.hb != "short" && s.auth != "short" {
		if !k.ctx.IsOnline() || s.closedOf(k) != 0 {
			s.verify(false, "open")
			r.Violation("%s: an open connection is reported closed (IsOnline %v, OnClose ran %d times)", s.name, k.ctx.IsOnline(), s.closedOf(k))
		}
	}
	raw := rawOf(c)
	rst := func() {
		if t, ok := raw.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		raw.Close()
	}
	serverCloses := false
	switch cause {
	case "close":
		c.Close()
	case "closesend":
		c.Write(append(frame(6, nil, nil), frame(6, nil, nil)...))
		c.Close()
	case "rst":
		c.Write(frame(6, nil, nil))
		rst()
	case "half":
		if t, ok := c.(interface{ CloseWrite() error }); ok {
			t.CloseWrite()
		} else {
			c.Close()
		}
		serverCloses = true
	case "handler":
		c.Write(frame(3, nil, nil))
		serverCloses = true
	case "many":
		c.Write(append(append(frame(6, nil, nil), frame(4, nil, nil)...), frame(3, nil, nil)...))
		serverCloses = true
	case "outside":
		var w sync.WaitGroup
		for i := 0; i < 1+g.Intn(8); i++ {
			w.Add(1)
			go func() { k.ctx.CloseConn(); w.Done() }()
		}
		w.Wait()
		if !k.ctx.IsOffline() || k.ctx.IsOnline() {
			r.Violation("%s: context is online after CloseConn returned", s.name)
		}
		serverCloses = true
	case "oversize":
		c.Write(append(be32(uint32(s.limit)+1), 0, 0, 0))
		serverCloses = true
	case "negative":
		c.Write(be32(0x80000000 + g.Uint32()>>1))
		serverCloses = true
	case "badheader":
		c.Write(frame(1, []byte(`{"a":`), []byte("x")))
		serverCloses = true
	case "truncated":
		b := frame(1, nil, randBytes(g, 50))
		c.Write(b[:1+g.Intn(len(b)-1)])
		c.Close()
	case "batchcut":
		c.Write(frame(6, jsonOf(map[string]string{"[tcpx-buffer-in-serial]": "enable;3"}), nil))
		c.Write(frame(6, nil, nil))
		c.Close()
	case "deny":
		c.Write(frame(1393, nil, []byte("no")))
		serverCloses = true
	case "authtimeout", "hbloss":
		serverCloses = true
	case "readdeadline":
		c.Write(frame(5, nil, nil))
		serverCloses = true
	case "busy":
		for i := 0; i < 5; i++ {
			c.Write(frame(6, nil, nil))
		}
		c.Write(frame(3, nil, nil))
		serverCloses = true
	case "mix":
		go k.ctx.CloseConn()
		if g.Intn(2) == 0 {
			rst()
		} else {
			c.Write(frame(4, nil, nil))
			c.Close()
		}
	}
	if serverCloses {
		if _, ok := ended(c, longWait); !ok {
			r.Violation("%s: connection does not end after %s", s.name, cause)
		}
	}
	if !until(longWait, func() bool { return s.closedOf(k) > 0 }) {
		s.verify(false, cause)
		r.Violation("%s: OnClose never ran for a connection ended by %s", s.name, cause)
	}
	if !until(longWait, func() bool { return k.ctx.IsOffline() && !k.ctx.IsOnline() }) {
		r.Violation("%s: context still reports online after its connection ended by %s", s.name, cause)
	}
	if !until(longWait, func() bool { return errors.Is(k.ctx.Conn.SetDeadline(time.Time{}), net.ErrClosed) }) {
		r.Violation("%s: the server's socket is still open after OnClose (%s)", s.name, cause)
	}
	// closing it again, also from stale contexts, must touch nobody else
	s.mu.Lock()
	s.stale = append(s.stale, k.ctx)
	old := s.stale[g.Intn(len(s.stale))]
	s.mu.Unlock()
	if g.Intn(2) == 0 {
		old.CloseConn()
		if !old.IsOffline() {
			r.Violation("%s: a closed context reports online after another CloseConn", s.name)
		}
	}
}

// c11some runs a server with only some of the callbacks set.
func c11some(r *Rep, g *rand.Rand, i int) {
	kind := []string{"tcp", "tls", "unix"}[i%3]
	onConnect, onClose := i&1 == 0, i&2 == 0
	if onConnect && onClose {
		onConnect = false
	}
	x := tcpx.NewTcpX(nil)
	addEcho(x)
	x.WithBuiltInPool(g.Intn(2) == 0)
	x.SetMaxBytePerMessage(5000)
	hb := g.Intn(3) == 0
	if hb {
		x.HeartBeatMode(true, time.Hour)
	}
	name := fmt.Sprintf("%s OnConnect=%v OnClose=%v", kind, onConnect, onClose)
	var mu sync.Mutex
	opens, closes := map[*tcpx.Context]int{}, map[*tcpx.Context]int{}
	if onConnect {
		x.OnConnect = func(c *tcpx.Context) { mu.Lock(); opens[c]++; mu.Unlock() }
	}
	if onClose {
		x.OnClose = func(c *tcpx.Context) {
			mu.Lock()
			closes[c]++
			mu.Unlock()
		}
	}
	x.AddHandler(2, func(c *tcpx.Context) { c.CloseConn() })
	w := r.serveKind(x, kind)
	n := 1 + g.Intn(12)
	var cs []net.Conn
	causes := []string{"close", "handler", "oversize", "stop"}
	for k := 0; k < n; k++ {
		c := w.dial()
		if err := ping(c); err != nil {
			r.Violation("%s: a fresh connection is not served: %v", name, err)
		}
		cs = append(cs, c)
	}
	if onConnect {
		mu.Lock()
		if len(opens) != n {
			r.Violation("%s: %d connections were served, OnConnect ran for %d", name, n, len(opens))
		}
		mu.Unlock()
	}
	left := n
	for _, c := range cs {
		cause := causes[g.Intn(len(causes))]
		r.Case(fmt.Sprintf("some/%s/%s/hb%v", name, cause, hb))
		switch cause {
		case "close":
			c.Close()
		case "handler":
			c.Write(frame(2, nil, nil))
		case "oversize":
			c.Write([]byte{0x7f, 0, 0, 0})
		default:
			continue
		}
		left--
	}
	count := func(m map[*tcpx.Context]int) (k int) {
		mu.Lock()
		defer mu.Unlock()
		return len(m)
	}
	if onClose && !until(longWait, func() bool { return count(closes) == n-left }) {
		r.Violation("%s: %d of %d connections ended, OnClose ran for %d", name, n-left, n, count(closes))
	}
	within(longWait, func() { x.Stop(true) })
	if onClose && !until(longWait, func() bool { return count(closes) == n }) {
		r.Violation("%s: all %d connections ended with Stop(true), OnClose ran for %d", name, n, count(closes))
	}
	for _, c := range cs {
		if _, ok := ended(c, longWait); !ok {
			r.Violation("%s: a connection that was ended is still open", name)
		}
		c.Close()
	}
	mu.Lock()
	for _, m := range []map[*tcpx.Context]int{opens, closes} {
		for _, k := range m {
			if k != 1 {
				r.Violation("%s: a callback ran %d times for one connection", name, k)
			}
		}
	}
	mu.Unlock()
	r.Count("connections", int64(n))
}
