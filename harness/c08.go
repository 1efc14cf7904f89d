package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C08"] = c08 }

// c08q is what a request asks its chain to do and to find.
type c08q struct {
	T    string            // unique tag
	ID   int32             // its own message id
	R, U string            // its own routing type and URL pattern
	Set  map[string]string // connection-scope values to store
	Get  map[string]string // connection-scope values that must be found ("" = absent)
	User string            // username to set
	Hold int               // microseconds to stay in the handler
	Bar  string            // barrier to meet between storing and reading request-scope values
	N    int               // parties at the barrier
	Ab   bool              // abort in the second element
	Pad  string
}

type c08state struct {
	mu     sync.Mutex
	bad    []string
	bars   map[string]*c08bar
	done   sync.Map // tag -> 1
	closed sync.Map // remote addr -> map of conn-scope values seen in OnClose
}

type c08bar struct {
	n  int
	ch chan struct{}
}

func (s *c08state) fail(f string, a ...interface{}) {
	s.mu.Lock()
	s.bad = append(s.bad, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

func (s *c08state) meet(name string, n int) {
	s.mu.Lock()
	b := s.bars[name]
	if b == nil {
		b = &c08bar{ch: make(chan struct{})}
		s.bars[name] = b
	}
	b.n++
	if b.n == n {
		close(b.ch)
	}
	s.mu.Unlock()
	waitCh(500, b.ch)
}

func (s *c08state) check(r *Rep) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.bad) > 0 {
		r.Violation("%s", s.bad[0])
	}
}

func (s *c08state) parse(c *tcpx.Context) (c08q, bool) {
	var q c08q
	m, err := parseFrame(c.Stream)
	if err != nil || json.Unmarshal(m.Body, &q) != nil {
		s.fail("an element saw bytes that are no message sent to it: %s", short(c.Stream))
		return q, false
	}
	if m.ID != q.ID {
		s.fail("stream of message %s has id %d, was sent as %d", q.T, m.ID, q.ID)
	}
	return q, true
}

// verify that everything the element observes about its message is its own.
func (s *c08state) own(c *tcpx.Context, q c08q, where string) {
	if id, err := tcpx.MessageIDOf(c.Stream); err != nil || id != q.ID {
		s.fail("%s of message %s: MessageIDOf says %d (%v), message has id %d", where, q.T, id, err, q.ID)
	}
	if rt := c.RouterType(); rt != q.R {
		s.fail("%s of message %s: RouterType %q, message asked for %q", where, q.T, rt, q.R)
	}
	if u, err := c.GetURLPattern(); err == nil && u != q.U {
		s.fail("%s of message %s: GetURLPattern %q, message carries %q", where, q.T, u, q.U)
	}
	if q.R == "URL_PATTERN" {
		if u, err := c.GetURLPattern(); err != nil || u != q.U {
			s.fail("%s of message %s: GetURLPattern %q (%v), message carries %q", where, q.T, u, err, q.U)
		}
	}
	var b c08q
	if _, err := c.Bind(&b); err != nil || b.T != q.T {
		s.fail("%s of message %s: Bind gives %q (%v)", where, q.T, b.T, err)
	}
}

var reqKeys = []interface{}{"rk", "rk2", 7, "router", "url", struct{ A int }{3}}

func (s *c08state) first(c *tcpx.Context) {
	q, ok := s.parse(c)
	if !ok {
		return
	}
	for _, k := range reqKeys {
		if v, ok := c.GetCtxPerRequest(k); ok {
			s.fail("message %s starts with request-scope value %v=%v of another request", q.T, k, v)
		}
	}
	for _, k := range reqKeys {
		c.SetCtxPerRequest(k, q.T)
	}
	s.own(c, q, "first middleware")
	if q.Bar != "" {
		s.meet(q.Bar, q.N)
	}
}

func (s *c08state) mid(c *tcpx.Context) {
	q, ok := s.parse(c)
	if !ok {
		return
	}
	for _, k := range reqKeys {
		if v, ok := c.GetCtxPerRequest(k); !ok || v != q.T {
			s.fail("message %s: request-scope value %v stored by the first middleware reads %v,%v in the second", q.T, k, v, ok)
		}
	}
	c.SetCtxPerRequest("rk2", q.T+"/mid")
	s.own(c, q, "second middleware")
	if q.Ab {
		s.done.Store(q.T, 1)
		c.Abort()
	}
}

func (s *c08state) last(c *tcpx.Context) {
	q, ok := s.parse(c)
	if !ok {
		return
	}
	before := append([]byte(nil), c.Stream...)
	s.own(c, q, "handler")
	if v, ok := c.GetCtxPerRequest("rk2"); !ok || v != q.T+"/mid" {
		s.fail("message %s: request-scope value overwritten by the second middleware reads %v,%v in the handler", q.T, v, ok)
	}
	udp := c.Conn == nil
	if !udp {
		if v, ok := c.GetCtxPerConn("addr"); !ok || v != c.Conn.RemoteAddr().String() {
			s.fail("connection %s: value stored by its OnConnect reads %v,%v", c.Conn.RemoteAddr(), v, ok)
		}
	} else if v, ok := c.GetCtxPerConn("addr"); ok {
		s.fail("a datagram starts with connection-scope value %v", v)
	}
	for k, want := range q.Get {
		v, ok := c.GetCtxPerConn(k)
		if want == "" && ok {
			s.fail("message %s: connection-scope %q reads %v, never stored on this connection", q.T, k, v)
		}
		if want != "" && (!ok || v != want) {
			s.fail("message %s: connection-scope %q reads %v,%v, last stored on this connection was %q", q.T, k, v, ok, want)
		}
	}
	for k, v := range q.Set {
		c.SetCtxPerConn(k, v)
		if g, ok := c.GetCtxPerConn(k); !ok || g != v {
			s.fail("message %s: connection-scope %q reads %v,%v right after storing %q", q.T, k, g, ok, v)
		}
	}
	if q.User != "" {
		c.SetUsername(q.User)
		if u, ok := c.Username(); !ok || u != q.User || c.GetUsername() != q.User {
			s.fail("message %s: Username reads %q,%v after SetUsername(%q)", q.T, u, ok, q.User)
		}
	}
	if q.Hold > 0 {
		for i := 0; i < 4; i++ {
			time.Sleep(time.Duration(q.Hold/4) * time.Microsecond)
			s.own(c, q, "running handler")
			if !bytes.Equal(before, c.Stream) {
				s.fail("message %s: its bytes changed while its handler ran, from %s to %s", q.T, short(before), short(c.Stream))
			}
			for _, k := range []interface{}{"rk", 7} {
				if v, ok := c.GetCtxPerRequest(k); !ok || v != q.T {
					s.fail("message %s: request-scope value changed to %v,%v while its handler ran", q.T, v, ok)
				}
			}
		}
	}
	s.done.Store(q.T, 1)
}

func c08(r *Rep) {
	r.Rule("one case = one request whose chain stores and reads request- and connection-scope values and re-reads its own message while others run; distinct by (transport, route kind, concurrency, what was stored and read, position after what kind of request); a lone request that stores nothing is trivial")
	g := r.Sub(8)
	for i := 0; i < r.N(60); i++ {
		c08server(r, rand.New(rand.NewSource(g.Int63())), i)
	}
	for i := 0; i < r.N(25); i++ {
		c08raw(r, rand.New(rand.NewSource(g.Int63())))
	}
	c08reserved(r)
	for i, kind := range []string{"tcp", "unix", "tls"} {
		c08keys(r, r.Sub(int64(900+i)), kind)
	}
}

type c08key struct {
	A string
	B int
}

// c08same: the very value that was stored (identity for maps, slices, functions, pointers, channels).
func c08same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Func:
		return true
	case reflect.Map, reflect.Slice, reflect.Ptr, reflect.Chan:
		if va.Kind() == reflect.Slice && va.Len() != vb.Len() {
			return false
		}
		return va.Pointer() == vb.Pointer()
	}
	return a == b
}

// c08keys: the two scopes of a stream connection are separate stores, whatever the keys and the values:
// keys that only look alike are different keys, and what is read is what was stored.
func c08keys(r *Rep, g *rand.Rand, kind string) {
	p := &c08key{"p", 1}
	keys := []interface{}{"k", "K", " k", "k ", "", "k1", "1", 1, int32(1), int64(1), 1.0, true, false, 'k', c08key{"k", 1}, c08key{"K", 1}, p, &c08key{"p", 1}, [2]string{"k", "1"},
		"tcpx", "username", "Username", "\u212a", "k\x00", "\xff", strings.Repeat("long", 5000), strings.Repeat("long", 5000) + "x"}
	for i := 0; i < 300; i++ {
		keys = append(keys, fmt.Sprintf("key%d", i))
	}
	vals := func() []interface{} {
		n := atomic.AddInt64(&c08tag, 1)
		return []interface{}{nil, "", 0, false, n, fmt.Sprint(n), &n, map[string]int64{"n": n}, []byte{1, byte(n)}, []int64(nil), (*int64)(nil), map[string]int(nil), func() {}, make(chan int), c08key{"v", int(n)}, error(nil), fmt.Errorf("e%d", n), strings.Repeat("v", 70000), []byte(strings.Repeat("b", 70000))}
	}
	s := &c08state{bars: map[string]*c08bar{}}
	x := tcpx.NewTcpX(nil)
	var mu sync.Mutex
	type store struct{ conn, req map[interface{}]interface{} }
	ref := map[string]map[interface{}]interface{}{} // connection -> its connection scope
	cur := map[string]map[interface{}]interface{}{} // connection -> scope of the request being handled
	look := func(c *tcpx.Context, where string) store {
		a := c08peer(c)
		mu.Lock()
		st := store{ref[a], cur[a]}
		mu.Unlock()
		for _, k := range keys {
			for _, sc := range []struct {
				name string
				m    map[interface{}]interface{}
				get  func(interface{}) (interface{}, bool)
			}{{"connection", st.conn, c.GetCtxPerConn}, {"request", st.req, c.GetCtxPerRequest}} {
				w, want := sc.m[k]
				v, ok := sc.get(k)
				if ok != want {
					s.fail("%s over %s: %s-scope key %s found: %v, stored: %v (in the other scope: %v)", where, kind, sc.name, c08show(k), ok, want, c08has(st.conn, k) || c08has(st.req, k))
				} else if !c08same(v, w) {
					s.fail("%s over %s: %s-scope key %s reads %s, stored was %s", where, kind, sc.name, c08show(k), c08show(v), c08show(w))
				}
			}
		}
		return st
	}
	change := func(c *tcpx.Context, st store, n int) {
		for i := 0; i < n; i++ {
			mu.Lock()
			k, toConn := keys[g.Intn(len(keys))], g.Intn(2) == 0
			v := vals()
			val := v[g.Intn(len(v))]
			mu.Unlock()
			if toConn {
				c.SetCtxPerConn(k, val)
				st.conn[k] = val
			} else {
				c.SetCtxPerRequest(k, val)
				st.req[k] = val
			}
		}
	}
	x.OnConnect = func(c *tcpx.Context) {
		mu.Lock()
		ref[c08peer(c)], cur[c08peer(c)] = map[interface{}]interface{}{}, map[interface{}]interface{}{}
		mu.Unlock()
		st := look(c, "OnConnect")
		change(c, st, 20)
		look(c, "OnConnect, later")
	}
	x.UseGlobal(func(c *tcpx.Context) {
		mu.Lock()
		cur[c08peer(c)] = map[interface{}]interface{}{} // a request starts with an empty scope of its own
		mu.Unlock()
		change(c, look(c, "first middleware"), 40)
	})
	x.UseGlobal(func(c *tcpx.Context) { change(c, look(c, "second middleware"), 40) })
	n := int64(0)
	h := func(c *tcpx.Context) {
		change(c, look(c, "handler"), 40)
		look(c, "handler, later")
		atomic.AddInt64(&n, 1)
		c.JSON(7, "done")
	}
	x.AddHandler(5, h)
	x.Any("/keys", h)
	w := r.serveKind(x, kind)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := w.dial()
			defer c.Close()
			for j := 0; j < 12; j++ {
				f := frame(5, nil, []byte(`"x"`))
				if (i+j)%2 == 0 {
					f = frame(0, jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/keys"}), []byte(`"x"`))
				}
				c.Write(f)
				if _, err := recv(c); err != nil {
					s.check(r)
					r.Violation("over %s: a request storing scoped values is not answered: %v", kind, err)
				}
				s.check(r)
				r.Case(fmt.Sprintf("keys/%s/%d/%d", kind, i, j))
			}
		}()
	}
	wg.Wait()
	s.check(r)
	r.Count("scope_lookups", n*int64(len(keys))*8)
	w.stop()
}

func c08has(m map[interface{}]interface{}, k interface{}) bool { _, ok := m[k]; return ok }

func c08show(v interface{}) string { return trunc(fmt.Sprintf("%T(%v)", v, v), 60) }

var c08seq sync.Map // net.Conn -> name; peers of Unix sockets have no address of their own

func c08peer(c *tcpx.Context) string {
	if v, ok := c08seq.Load(c.Conn); ok {
		return v.(string)
	}
	v, _ := c08seq.LoadOrStore(c.Conn, fmt.Sprintf("conn%d", atomic.AddInt64(&c08tag, 1)))
	return v.(string)
}

var c08tag int64

func c08server(r *Rep, g *rand.Rand, round int) {
	x := tcpx.NewTcpX(nil)
	s := &c08state{bars: map[string]*c08bar{}}
	x.UseGlobal(s.first)
	x.Use("mid", s.mid)
	ids := []int32{2, 3, 5, 100000, -4, 0}
	for _, id := range ids {
		x.AddHandler(id, s.last)
	}
	urls := []string{"/s", "/s/1", "/s/2", "/t"}
	for _, u := range urls {
		x.Any(u, s.last)
	}
	x.OnConnect = func(c *tcpx.Context) {
		for _, k := range []string{"addr", "k0", "k1"} {
			if v, ok := c.GetCtxPerConn(k); ok {
				s.fail("new connection starts with connection-scope value %s=%v", k, v)
			}
		}
		if u, ok := c.Username(); ok {
			s.fail("new connection starts with username %q", u)
		}
		c.SetCtxPerConn("addr", c.Conn.RemoteAddr().String())
		for _, k := range reqKeys { // OnConnect is no request of this connection
			c.SetCtxPerRequest(k, "onconnect")
		}
	}
	x.OnClose = func(c *tcpx.Context) {
		m := map[string]string{}
		for _, k := range []string{"addr", "k0", "k1", "k2"} {
			if v, ok := c.GetCtxPerConn(k); ok {
				m[k] = fmt.Sprint(v)
			}
		}
		m["username"] = c.GetUsername()
		s.closed.Store(c.Conn.RemoteAddr().String(), m)
	}
	if round%3 == 1 {
		x.OnMessage = s.last
	}
	if round%2 == 1 {
		x.WithBuiltInPool(true)
		x.HeartBeatModeDetail(true, time.Hour, false, 5555)
	}
	tlsOn := round%4 == 2
	if tlsOn {
		x.TLSConfig = &tls.Config{Certificates: []tls.Certificate{testCert(r)}}
	}
	srv := r.serve(x, "tcp", nextAddr())
	su := r.serve(x, "udp", nextAddr())
	var wg sync.WaitGroup
	for ci := 0; ci < 5; ci++ {
		wg.Add(1)
		go func(g *rand.Rand, ci int) {
			defer wg.Done()
			var c net.Conn = srv.dial()
			local := c.LocalAddr().String()
			if tlsOn {
				c = tls.Client(c, &tls.Config{InsecureSkipVerify: true})
			}
			defer c.Close()
			shadow := map[string]string{}
			user := ""
			mk := func(kind string, q c08q, hdr map[string]interface{}) ([]byte, string) {
				q.T = fmt.Sprintf("t%d", atomic.AddInt64(&c08tag, 1))
				q.ID = ids[g.Intn(len(ids))]
				q.R = "MESSAGE_ID"
				if g.Intn(2) == 0 {
					q.R, q.U = "URL_PATTERN", urls[g.Intn(len(urls))]
					hdr["Router-Type"], hdr["Router-Pattern-Value"] = q.R, q.U
				}
				q.Pad = strings.Repeat("p", g.Intn(2000))
				if g.Intn(15) == 0 {
					q.Pad = strings.Repeat("P", 70000)
				}
				var h []byte
				if len(hdr) > 0 {
					h = jsonOf(hdr)
				}
				r.Case(fmt.Sprintf("%v/%d/%s/%s/set%d/get%d/%v%v", tlsOn, round%3, kind, q.R, len(q.Set), len(q.Get), q.Ab, q.Hold > 0))
				r.Sample(map[string]interface{}{"kind": kind, "request": trunc(string(jsonOf(q)), 200)})
				return frame(q.ID, h, jsonOf(q)), q.T
			}
			wait := func(tags ...string) {
				for _, t := range tags {
					if !until(longWait, func() bool { _, ok := s.done.Load(t); return ok }) {
						s.check(r)
						r.Violation("request %s did not run to its end", t)
					}
				}
			}
			for step := 0; step < 12; step++ {
				switch g.Intn(4) {
				case 0, 1: // sequential set/get against the shadow
					q := c08q{Set: map[string]string{}, Get: map[string]string{}, Hold: g.Intn(2) * g.Intn(600)}
					for _, k := range []string{"k0", "k1", "k2"} {
						if g.Intn(2) == 0 {
							q.Get[k] = shadow[k]
						}
					}
					if g.Intn(6) > 0 {
						k := fmt.Sprintf("k%d", g.Intn(3))
						v := fmt.Sprintf("c%d-%d", ci, atomic.AddInt64(&c08tag, 1))
						q.Set[k] = v
						q.Ab = false
						shadow[k] = v
					} else if x.OnMessage == nil {
						q.Ab, q.Get, q.Set = true, nil, nil
					}
					if g.Intn(4) == 0 && !q.Ab {
						user = fmt.Sprintf("user%d-%d", ci, step)
						q.User = user
					}
					b, t := mk("seq", q, map[string]interface{}{})
					c.Write(b)
					wait(t)
				case 2: // concurrent requests on one connection, all of which store before any reads
					n := 2 + g.Intn(6)
					bar := fmt.Sprintf("b%d", atomic.AddInt64(&c08tag, 1))
					var buf []byte
					var tags []string
					for i := 0; i < n; i++ {
						b, t := mk("conc", c08q{Bar: bar, N: n, Hold: g.Intn(1500), Get: map[string]string{"k0": shadow["k0"]}}, map[string]interface{}{})
						buf = append(buf, b...)
						tags = append(tags, t)
					}
					c.Write(buf)
					wait(tags...)
				case 3: // batch
					n := 1 + g.Intn(5)
					var buf []byte
					var tags []string
					for i := 0; i < n; i++ {
						h := map[string]interface{}{}
						if i == 0 {
							h[tcpx.PIPED] = fmt.Sprintf("enable;%d", n)
						}
						v := fmt.Sprintf("c%d-%d", ci, atomic.AddInt64(&c08tag, 1))
						b, t := mk("batch", c08q{Set: map[string]string{"k1": v}, Get: map[string]string{"k1": shadow["k1"]}, Hold: g.Intn(300)}, h)
						shadow["k1"] = v
						buf = append(buf, b...)
						tags = append(tags, t)
					}
					c.Write(buf)
					wait(tags...)
				}
				s.check(r)
			}
			c.Close()
			if !until(longWait, func() bool { _, ok := s.closed.Load(local); return ok }) {
				r.Violation("OnClose of %s did not run", local)
			}
			v, _ := s.closed.Load(local)
			m := v.(map[string]string)
			for k, want := range shadow {
				if m[k] != want {
					r.Violation("OnClose of %s sees %s=%q, last stored on that connection was %q", local, k, m[k], want)
				}
			}
			if m["addr"] != local || m["username"] != user {
				r.Violation("OnClose of %s sees addr %q and username %q, want username %q", local, m["addr"], m["username"], user)
			}
			r.Count("connections_checked_in_OnClose", 1)
		}(rand.New(rand.NewSource(g.Int63())), ci)
	}
	if x.OnMessage == nil {
		for ui := 0; ui < 2; ui++ {
			wg.Add(1)
			go func(g *rand.Rand) {
				defer wg.Done()
				c := su.dial()
				defer c.Close()
				for i := 0; i < 6; i++ {
					ok := false
					for try := 0; try < 5 && !ok; try++ {
						q := c08q{T: fmt.Sprintf("t%d", atomic.AddInt64(&c08tag, 1)), ID: 5, R: "MESSAGE_ID", Get: map[string]string{"k0": "", "k1": ""}, Set: map[string]string{"k0": "x", "k1": "y"}, User: "u", Hold: g.Intn(800)}
						var h []byte
						if g.Intn(2) == 0 {
							q.R, q.U = "URL_PATTERN", urls[g.Intn(len(urls))]
							h = jsonOf(map[string]interface{}{"Router-Type": q.R, "Router-Pattern-Value": q.U})
						}
						c.Write(frame(5, h, jsonOf(q)))
						ok = until(300, func() bool { _, ok := s.done.Load(q.T); return ok })
						s.check(r)
						r.Case(fmt.Sprintf("udp/%s/%v", q.R, q.Hold > 0))
					}
					if !ok {
						r.Violation("udp request did not run in 5 tries")
					}
				}
			}(rand.New(rand.NewSource(g.Int63())))
		}
	}
	wg.Wait()
	s.check(r)
	within(longWait, func() { x.Stop(true) })
	waitCh(longWait, srv.done)
	waitCh(longWait, su.done)
}

func c08raw(r *Rep, g *rand.Rand) {
	x := tcpx.NewTcpX(nil)
	s := &c08state{bars: map[string]*c08bar{}}
	x.OnConnect = func(c *tcpx.Context) {
		if v, ok := c.GetCtxPerConn("k"); ok {
			s.fail("new raw connection starts with value %v", v)
		}
		c.SetCtxPerConn("k", c.Conn.RemoteAddr().String())
		c.SetCtxPerRequest("rk", "onconnect")
	}
	x.UseGlobal(func(c *tcpx.Context) {
		if v, ok := c.GetCtxPerRequest("rk"); ok {
			s.fail("raw connection starts with request-scope value %v of another", v)
		}
		c.SetCtxPerRequest("rk", c.Conn.RemoteAddr().String())
		s.meet("bar", 5)
	})
	x.HandleRaw = func(c *tcpx.Context) {
		a := c.Conn.RemoteAddr().String()
		if v, ok := c.GetCtxPerRequest("rk"); !ok || v != a {
			s.fail("raw handler of %s reads request-scope value %v,%v", a, v, ok)
		}
		if v, ok := c.GetCtxPerConn("k"); !ok || v != a {
			s.fail("raw handler of %s reads connection-scope value %v,%v", a, v, ok)
		}
		c.SetCtxPerConn("h", a)
		bufio.NewReader(c.ConnReader).ReadString('\n')
	}
	x.OnClose = func(c *tcpx.Context) {
		a := c.Conn.RemoteAddr().String()
		for _, k := range []string{"k", "h"} {
			if v, ok := c.GetCtxPerConn(k); !ok || v != a {
				s.fail("OnClose of raw connection %s reads %s=%v,%v", a, k, v, ok)
			}
		}
		s.closed.Store(a, map[string]string{})
	}
	addr := nextAddr()
	srv := r.serveWith(x, "tcp", addr, func() error { return x.ListenAndServeRaw("tcp", addr) })
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := srv.dial()
			c.Write([]byte("x\n"))
			a := c.LocalAddr().String()
			if !until(longWait, func() bool { _, ok := s.closed.Load(a); return ok }) {
				s.check(r)
				r.Violation("raw connection: OnClose did not run")
			}
			c.Close()
			r.Case("raw")
		}()
	}
	wg.Wait()
	s.check(r)
	srv.stop()
}

// keys the framework reserves are refused, so user values cannot disturb it
func c08reserved(r *Rep) {
	c := tcpx.NewContext(connReader{bytes.NewReader(nil)}, nil)
	if !panics(func() { c.SetCtxPerConn("tcpx-username", "x") }) {
		r.Violation("SetCtxPerConn accepted the reserved key tcpx-username")
	}
	if u, ok := c.Username(); ok {
		r.Violation("a refused SetCtxPerConn set the username to %q", u)
	}
	r.Case("reserved")
}
