package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C12"] = c12 }

func c12(r *Rep) {
	r.Rule("one case = one concurrent history of pool operations (recorded with call and return times, deliveries observed at the clients) accepted by the linearizability checker, or one sequential script step checked against the reference map; distinct by transport, mix, numbers of connections and names, and the multiset of operation outcomes")
	r.Assume("operations of one connection on its own name are issued by one goroutine at a time; different connections are driven concurrently")
	for i := 0; i < r.N(200); i++ {
		c12seq(r, r.Sub(int64(i)), []string{"unix", "tcp"}[i%2])
	}
	for i := 0; i < r.N(700); i++ {
		c12hist(r, r.Sub(int64(10000+i)), []string{"unix", "tcp", "unix"}[i%3])
	}
	for i := 0; i < r.N(300); i++ {
		c12pool(r, r.Sub(int64(20000+i)))
	}
	for i := 0; i < r.N(40); i++ {
		c12relogin(r, r.Sub(int64(30000+i)))
	}
	c12misc(r)
	c12many(r)
}

// c12many: as many names as there are clients, each leading to its own connection; and a pool used directly.
func c12many(r *Rep) {
	pool := tcpx.NewClientPool()
	n := 6000
	ctxs := make([]*tcpx.Context, n)
	name := func(i int) string { return fmt.Sprintf("name-%d", i) }
	for i := range ctxs {
		ctxs[i] = tcpx.NewContext(&scriptConn{}, nil)
		pool.Online(name(i), ctxs[i])
	}
	want := func(i int) *tcpx.Context { return ctxs[i] }
	look := func(when string) {
		for i := range ctxs {
			if got := pool.GetClientPool(name(i)); got != want(i) {
				r.Violation("a pool of %d names, %s: name %d has entry %v, the entry set for it is %v", n, when, i, got != nil, want(i) != nil)
			}
		}
		r.Count("pool_operations", int64(n))
	}
	look("all online")
	for i := 0; i < n; i += 3 {
		pool.Offline(name(i))
		ctxs[i] = nil
	}
	look("every third offline")
	for i := 0; i < n; i += 2 {
		ctxs[i] = tcpx.NewContext(&scriptConn{}, nil)
		pool.SetClientPool(name(i), ctxs[i])
	}
	look("every second set again")
	r.Case("many/direct")

	s := c12start(r, "unix")
	k := 700
	peers := make([]*c12peer, k)
	var script string
	for i := range peers {
		peers[i] = s.open(i)
		if err := peers[i].ctx.Online(name(i)); err != nil {
			r.Violation("Online of connection %d of %d fails: %v", i, k, err)
		}
	}
	check := func() {
		tag := int32(now() & 0xfffffff)
		for i, p := range peers {
			err := peers[(i*7+1)%k].ctx.SendToUsername(name(i), tag+int32(i), i)
			if p.gone {
				if err == nil {
					r.Violation("with %d connections online, %s: SendToUsername to one that is offline returned nil", k, script)
				}
				continue
			}
			if err != nil {
				r.Violation("with %d connections online, %s: SendToUsername(%q) fails: %v", k, script, name(i), err)
			}
		}
		for i, p := range peers {
			if !p.gone && !until(longWait, func() bool { a := p.col.all(); return len(a) > 0 && a[len(a)-1].ID == tag+int32(i) }) {
				r.Violation("with %d connections online, %s: what was sent to %q did not reach the connection online under it", k, script, name(i))
			}
		}
		r.Case("many/" + script)
	}
	script = "all online"
	check()
	for i := 0; i < k; i += 5 {
		if err := peers[i].ctx.Offline(); err != nil {
			r.Violation("Offline of connection %d of %d fails: %v", i, k, err)
		}
		peers[i].gone = true
	}
	script = "every fifth offline"
	check()
	for i := 0; i < k; i += 10 {
		if err := peers[i].ctx.Online(name(i)); err != nil {
			r.Violation("Online again of connection %d of %d fails: %v", i, k, err)
		}
		peers[i].gone = false
	}
	script = "every tenth online again"
	check()
	s.w.stop()
	for _, p := range peers {
		p.c.Close()
	}
}

// ---------------------------------------------------------------- server with captured contexts

type c12srv struct {
	r  *Rep
	w  *world
	mu sync.Mutex
	in chan *tcpx.Context
}

type c12peer struct {
	n    int
	ctx  *tcpx.Context
	c    net.Conn
	col  *collector
	cur  string
	gone bool // closed by the client
	dead bool // closed by the server
}

func c12start(r *Rep, kind string) *c12srv {
	s := &c12srv{r: r, in: make(chan *tcpx.Context, 64)}
	x := tcpx.NewTcpX(nil)
	x.WithBuiltInPool(true)
	x.OnConnect = func(c *tcpx.Context) { s.in <- c }
	s.w = r.serveKind(x, kind)
	return s
}

// open makes a connection and pairs it with its server-side context.
func (s *c12srv) open(n int) *c12peer {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := s.w.dial()
	p := &c12peer{n: n, c: c}
	if !until(longWait, func() bool {
		select {
		case p.ctx = <-s.in:
			return true
		default:
			return false
		}
	}) {
		s.r.Violation("OnConnect never ran for a new connection")
	}
	p.col = collect(c, false, nil)
	return p
}

// ---------------------------------------------------------------- sequential scripts

func c12seq(r *Rep, g *rand.Rand, kind string) {
	s := c12start(r, kind)
	names := [][]string{{"a", "b", "c"}, {"a", "b", "c"}, {"a", "A", "a "}, {"\u00e9", "e\u0301", "\u00c9"}, {"1", "01", " 1"}, {"a\x00", "a", "a\n"}, {"a/b", "a", "b"}, {"k", "\u212a", "K"}, {strings.Repeat("n", 3000) + "1", strings.Repeat("n", 3000) + "2", "n"}}[g.Intn(9)]
	names = names[:1+g.Intn(3)]
	peers := []*c12peer{s.open(0), s.open(1), s.open(2)}
	probe := s.open(99)
	entry := map[string]*c12peer{}
	var script []string
	tag := 0
	look := func() {
		for _, nm := range append(names, "nobody") {
			tag++
			from := append(peers, probe)[g.Intn(len(peers)+1)]
			err := from.ctx.SendToUsername(nm, int32(tag), fmt.Sprint(tag))
			e := entry[nm]
			if e == nil || e.dead {
				if err == nil {
					r.Violation("SendToUsername(%q) succeeded although nobody live is online under that name; script %v", nm, script)
				}
				continue
			}
			if err != nil {
				r.Violation("SendToUsername(%q) fails (%v) although connection %d is online under it; script %v", nm, err, e.n, script)
			}
			id := int32(tag)
			if !until(longWait, func() bool {
				a := e.col.all()
				return len(a) > 0 && a[len(a)-1].ID == id
			}) {
				for _, p := range peers {
					if a := p.col.all(); len(a) > 0 && a[len(a)-1].ID == id {
						r.Violation("SendToUsername(%q) reached connection %d, most recently online under the name is %d; script %v", nm, p.n, e.n, script)
					}
				}
				r.Violation("SendToUsername(%q) returned nil and never reached connection %d; script %v", nm, e.n, script)
			}
		}
		pool := probe.ctx.GetPoolRef()
		for _, nm := range names {
			e := entry[nm]
			got := pool.GetClientPool(nm)
			if e == nil && got != nil {
				r.Violation("the pool still has an entry for %q; script %v", nm, script)
			}
			if e != nil && !e.dead && (got == nil || got.Conn != e.ctx.Conn) {
				r.Violation("the pool has no entry of connection %d for %q; script %v", e.n, nm, script)
			}
		}
	}
	nops := 12
	for i := 0; i < nops; i++ {
		p := peers[g.Intn(len(peers))]
		k := g.Intn(10)
		switch {
		case k < 5:
			nm := names[g.Intn(len(names))]
			script = append(script, fmt.Sprintf("online(%d,%s)", p.n, nm))
			if err := p.ctx.Online(nm); err != nil {
				r.Violation("Online(%q) failed: %v", nm, err)
			}
			p.cur = nm
			entry[nm] = p
			if u, ok := p.ctx.Username(); !ok || u != nm || p.ctx.GetUsername() != nm {
				r.Violation("Username is %q,%v after Online(%q)", u, ok, nm)
			}
		case k < 7:
			script = append(script, fmt.Sprintf("offline(%d)", p.n))
			err := p.ctx.Offline()
			if p.cur == "" && err == nil {
				r.Violation("Offline of a connection that was never online returned nil; script %v", script)
			}
			if p.cur != "" && err != nil {
				r.Violation("Offline failed: %v; script %v", err, script)
			}
			if entry[p.cur] == p {
				entry[p.cur] = nil
			}
		default:
			// late: brought online after it was closed, and closed again
			how := []string{"CloseConn", "peer", "CloseConn2", "late"}[g.Intn(4)]
			script = append(script, fmt.Sprintf("%s(%d)", how, p.n))
			if how == "peer" {
				p.c.Close()
			} else {
				p.ctx.CloseConn()
				if how == "CloseConn2" {
					p.ctx.CloseConn()
				}
				if how == "late" {
					if entry[p.cur] == p {
						entry[p.cur] = nil
					}
					nm := names[g.Intn(len(names))]
					script = append(script, "online:"+nm)
					if err := p.ctx.Online(nm); err != nil {
						r.Violation("Online(%q) failed: %v", nm, err)
					}
					p.cur = nm
					entry[nm] = p
					p.ctx.CloseConn()
				}
			}
			if !until(longWait, func() bool { return p.ctx.IsOffline() }) {
				r.Violation("connection closed by %s is never offline; script %v", how, script)
			}
			p.dead = true
			if entry[p.cur] == p {
				entry[p.cur] = nil
				if how == "peer" {
					nm := p.cur
					until(longWait, func() bool { return probe.ctx.GetPoolRef().GetClientPool(nm) == nil })
				}
			}
			p.c.Close()
			for j := range peers {
				if peers[j] == p {
					peers[j] = s.open(10*(i+1) + j)
				}
			}
		}
		look()
		r.Case(fmt.Sprintf("seq/%s/%d/%v", kind, len(names), script))
	}
	r.Sample(map[string]interface{}{"script": script})
	for _, p := range append(peers, probe) {
		p.c.Close()
	}
	s.w.stop()
}

// ---------------------------------------------------------------- concurrent histories

type c12in struct {
	op   string // online offline close gone send
	conn int
	name string // name affected (current name for offline and close, "" when none)
	// for send: connections that may have been closed by the server or left by their peer by the time it
	// returned, and those left by their peer at some time (what was written to them may be unread)
	dying, left uint64
}
type c12out struct {
	fail   bool
	target int // -1 lost
}

// state of one name: holder (-1 none), connections closed by the server
type c12state struct {
	holder int
	closed uint64
}

var c12model = porcupine.Model{
	Init: func() interface{} { return c12state{holder: -1} },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, i := st.(c12state), in.(c12in)
		switch i.op {
		case "online":
			s.holder = i.conn
			return true, s
		case "offline":
			if s.holder == i.conn {
				s.holder = -1
			}
			return true, s
		case "closeHere": // its current name is this one
			s.closed |= 1 << uint(i.conn)
			if s.holder == i.conn {
				s.holder = -1
			}
			return true, s
		case "close":
			s.closed |= 1 << uint(i.conn)
			return true, s
		case "send":
			o := out.(c12out)
			// a send looks the name up at one moment; whether the connection found is still there when it is
			// written to is settled by the time the send returns
			bit := uint64(0)
			if s.holder >= 0 {
				bit = 1 << uint(s.holder)
			}
			if o.fail {
				return s.holder < 0 || i.dying&bit != 0, s
			}
			if o.target < 0 {
				return i.left&bit != 0 && s.closed&bit == 0, s
			}
			return s.holder == o.target && s.closed&bit == 0, s
		}
		return false, s
	},
	Equal: func(a, b interface{}) bool { return a == b },
	DescribeOperation: func(in, out interface{}) string {
		return fmt.Sprintf("%+v -> %+v", in, out)
	},
}

func c12hist(r *Rep, g *rand.Rand, kind string) {
	s := c12start(r, kind)
	mix := []string{"mixed", "takeover", "flap"}[g.Intn(3)]
	names := []string{"a", "b", "c"}[:1+g.Intn(3)]
	if mix == "takeover" {
		names = names[:1]
	}
	W := 2 + g.Intn(3)
	S := 1 + g.Intn(2)
	var mu sync.Mutex
	var ops []porcupine.Operation
	type sendRec struct {
		idx int
		tag int32
	}
	var sends []sendRec
	var peersAll []*c12peer
	var ids int32 = -1
	open := func() *c12peer {
		n := int(atomic.AddInt32(&ids, 1))
		if n >= 62 {
			return nil
		}
		p := s.open(n)
		mu.Lock()
		peersAll = append(peersAll, p)
		mu.Unlock()
		return p
	}
	rec := func(client int, in c12in, f func() c12out) int {
		t := now()
		o := f()
		e := now()
		mu.Lock()
		defer mu.Unlock()
		ops = append(ops, porcupine.Operation{ClientId: client, Input: in, Call: t, Output: o, Return: e})
		return len(ops) - 1
	}
	var tagCtr int32
	probe := s.open(99)
	var wg sync.WaitGroup
	nops := 10
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func(w int, g *rand.Rand) {
			defer wg.Done()
			p := open()
			for i := 0; i < nops && p != nil; i++ {
				k := g.Intn(12)
				if mix == "takeover" && k >= 5 && k < 8 {
					k = 11
				}
				if mix == "flap" && k >= 8 {
					k = g.Intn(8)
				}
				switch {
				case k < 5:
					nm := names[g.Intn(len(names))]
					p.cur = nm
					rec(w, c12in{op: "online", conn: p.n, name: nm}, func() c12out { p.ctx.Online(nm); return c12out{} })
				case k < 8:
					if p.cur != "" {
						rec(w, c12in{op: "offline", conn: p.n, name: p.cur}, func() c12out { p.ctx.Offline(); return c12out{} })
					}
				case k < 10:
					rec(w, c12in{op: "close", conn: p.n, name: p.cur}, func() c12out { p.ctx.CloseConn(); return c12out{} })
					p = open()
				default:
					p.gone = true
					rec(w, c12in{op: "gone", conn: p.n}, func() c12out { p.c.Close(); return c12out{} })
					// the server closes it in its own time
					rec(w, c12in{op: "close", conn: p.n, name: p.cur}, func() c12out {
						q := p
						if !until(longWait, func() bool { return q.ctx.IsOffline() }) {
							r.Violation("a connection closed by its peer never goes offline")
						}
						return c12out{}
					})
					p = open()
				}
				if g.Intn(3) == 0 {
					time.Sleep(time.Duration(g.Intn(60)) * time.Microsecond)
				}
			}
		}(w, rand.New(rand.NewSource(g.Int63())))
	}
	for w := 0; w < S; w++ {
		wg.Add(1)
		go func(w int, g *rand.Rand) {
			defer wg.Done()
			for i := 0; i < nops+4; i++ {
				nm := names[g.Intn(len(names))]
				tag := atomic.AddInt32(&tagCtr, 1)
				idx := rec(W+w, c12in{op: "send", name: nm}, func() c12out {
					return c12out{fail: probe.ctx.SendToUsername(nm, tag, "x") != nil}
				})
				mu.Lock()
				sends = append(sends, sendRec{idx, tag})
				mu.Unlock()
				time.Sleep(time.Duration(g.Intn(120)) * time.Microsecond)
			}
		}(w, rand.New(rand.NewSource(g.Int63())))
	}
	wg.Wait()
	// where did every send go? A marker on each open connection ends its stream of deliveries.
	for _, p := range peersAll {
		if p.ctx.IsOnline() {
			p.ctx.Reply(-9, "end")
		}
	}
	for _, p := range peersAll {
		q := p
		until(longWait, func() bool {
			if isClosed(q.col.done) {
				return true
			}
			a := q.col.all()
			return len(a) > 0 && a[len(a)-1].ID == -9
		})
	}
	where := map[int32]int{}
	for _, p := range peersAll {
		for _, m := range p.col.all() {
			if m.ID == -9 {
				continue
			}
			if o, dup := where[m.ID]; dup {
				r.Violation("one SendToUsername was delivered twice (connections %d and %d)", o, p.n)
			}
			where[m.ID] = p.n
		}
	}
	outcomes := map[string]int{}
	for _, sr := range sends {
		o := ops[sr.idx].Output.(c12out)
		t, ok := where[sr.tag]
		if !ok {
			t = -1
		}
		if o.fail && ok {
			r.Violation("SendToUsername(%q) returned an error and yet reached connection %d", ops[sr.idx].Input.(c12in).name, t)
		}
		o.target = t
		ops[sr.idx].Output = o
		switch {
		case o.fail:
			outcomes["fail"]++
		case t < 0:
			outcomes["lost"]++
		default:
			outcomes["ok"]++
		}
	}
	for i := range ops {
		in := ops[i].Input.(c12in)
		if in.op != "send" {
			continue
		}
		for _, o := range ops {
			d := o.Input.(c12in)
			if d.op == "gone" {
				in.left |= 1 << uint(d.conn)
			}
			if (d.op == "gone" || d.op == "close") && o.Call <= ops[i].Return {
				in.dying |= 1 << uint(d.conn)
			}
		}
		ops[i].Input = in
	}
	for _, nm := range names {
		var h []porcupine.Operation
		for _, o := range ops {
			in := o.Input.(c12in)
			switch in.op {
			case "online", "offline", "send":
				if in.name != nm {
					continue
				}
			case "gone":
				continue
			case "close":
				if in.name == nm {
					in.op = "closeHere"
					o.Input = in
				}
			}
			h = append(h, o)
		}
		res := porcupine.CheckOperationsTimeout(c12model, h, 20*time.Second)
		if res == porcupine.Illegal {
			txt := ""
			for _, o := range h {
				txt += fmt.Sprintf("[%d %d] client %d %+v -> %+v\n", o.Call, o.Return, o.ClientId, o.Input, o.Output)
			}
			r.Violation("no order of the pool operations explains what was observed for name %q over %s:\n%s", nm, kind, trunc(txt, 12000))
		}
		if res == porcupine.Unknown {
			r.Inconclusive("history of %d operations not decided in time", len(h))
			continue
		}
		r.Case(fmt.Sprintf("hist/%s/%s/%d/%d/%d/ok%dfail%dlost%d", kind, mix, len(names), W, S, outcomes["ok"], outcomes["fail"], outcomes["lost"]))
		r.Count("history_operations", int64(len(h)))
	}
	r.Count("sends_delivered", int64(outcomes["ok"]))
	r.Count("sends_failed", int64(outcomes["fail"]))
	// at rest: the pool holds no entry of a dead connection under its last name
	pool := probe.ctx.GetPoolRef()
	for _, p := range peersAll {
		if p.cur == "" || p.ctx.IsOnline() {
			continue
		}
		q := p
		if !until(longWait, func() bool {
			e := pool.GetClientPool(q.cur)
			return e == nil || e.Conn != q.ctx.Conn
		}) {
			r.Violation("the pool keeps the entry of a closed connection under its name %q", p.cur)
		}
	}
	for _, p := range append(peersAll, probe) {
		p.c.Close()
	}
	s.w.stop()
}

// ---------------------------------------------------------------- ClientPool by itself

type c12pin struct {
	op  string
	ctx int
}

func c12pool(r *Rep, g *rand.Rand) {
	pool := tcpx.NewClientPool()
	if g.Intn(3) == 0 {
		pool = tcpx.GlobalClientPool
	}
	ctxs := make([]*tcpx.Context, 5)
	for i := range ctxs {
		ctxs[i] = tcpx.NewContext(&scriptConn{}, nil)
	}
	names := []string{"x", "y"}
	pool.DeleteFromClientPool("x")
	pool.DeleteFromClientPool("y")
	model := porcupine.Model{
		Init: func() interface{} { return -1 },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			i := in.(c12pin)
			switch i.op {
			case "set":
				return true, i.ctx
			case "del":
				return true, -1
			default:
				return out.(int) == st.(int), st
			}
		},
		Equal:             func(a, b interface{}) bool { return a == b },
		DescribeOperation: func(in, out interface{}) string { return fmt.Sprintf("%+v -> %v", in, out) },
	}
	hist := make([][]porcupine.Operation, len(names))
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int, g *rand.Rand) {
			defer wg.Done()
			for i := 0; i < 12; i++ {
				ni := g.Intn(len(names))
				nm := names[ni]
				ci := g.Intn(len(ctxs))
				in, out := c12pin{"get", 0}, interface{}(0)
				k := g.Intn(8)
				t := now()
				switch {
				case k == 0:
					in = c12pin{"set", ci}
					pool.SetClientPool(nm, ctxs[ci])
				case k < 3:
					in = c12pin{"set", ci}
					pool.Online(nm, ctxs[ci])
				case k == 3:
					in = c12pin{"del", 0}
					pool.Offline(nm)
				case k == 4:
					in = c12pin{"del", 0}
					pool.DeleteFromClientPool(nm)
				default:
					c := pool.GetClientPool(nm)
					out = -1
					for j := range ctxs {
						if ctxs[j] == c {
							out = j
						}
					}
					if c != nil && out == -1 {
						out = -2
					}
				}
				e := now()
				mu.Lock()
				hist[ni] = append(hist[ni], porcupine.Operation{ClientId: w, Input: in, Call: t, Output: out, Return: e})
				mu.Unlock()
			}
		}(w, rand.New(rand.NewSource(g.Int63())))
	}
	wg.Wait()
	for ni, h := range hist {
		res := porcupine.CheckOperationsTimeout(model, h, 20*time.Second)
		if res == porcupine.Illegal {
			r.Violation("ClientPool operations on %q are not atomic: %+v", names[ni], h)
		}
		r.Case(fmt.Sprintf("pool/%d", len(h)))
		r.Count("pool_operations", int64(len(h)))
	}
}

// ---------------------------------------------------------------- re-login storms through handlers

func c12relogin(r *Rep, g *rand.Rand) {
	x := tcpx.NewTcpX(nil)
	x.WithBuiltInPool(true)
	type login struct {
		User string
		N    int
	}
	x.AddHandler(1, func(c *tcpx.Context) {
		var l login
		if _, err := c.Bind(&l); err != nil {
			r.Violation("bind: %v", err)
		}
		c.Online(l.User)
		c.JSON(2, l.N)
	})
	x.AddHandler(3, func(c *tcpx.Context) {
		var u string
		c.Bind(&u)
		if err := c.SendToUsername(u, 4, "hello"); err != nil {
			c.JSON(5, "no")
		} else {
			c.JSON(5, "yes")
		}
	})
	if g.Intn(2) == 0 {
		x.OnClose = func(c *tcpx.Context) { c.Offline() }
	}
	w := r.serveKind(x, "tcp")
	asker := w.dial()
	user := "u"
	mk := func(n int) (net.Conn, *collector) {
		c := w.dial()
		c.Write(frame(1, nil, jsonOf(login{user, n})))
		col := collect(c, false, nil)
		if !until(longWait, func() bool { return col.n() > 0 }) {
			r.Violation("login is not answered")
		}
		return c, col
	}
	ask := func() bool {
		asker.Write(frame(3, nil, jsonOf(user)))
		m, err := recv(asker)
		if err != nil {
			r.Violation("SendToUsername handler did not answer: %v", err)
		}
		var s string
		json.Unmarshal(m.Body, &s)
		return s == "yes"
	}
	old, _ := mk(0)
	for i := 1; i < 12; i++ {
		// the new connection logs in while the old one goes away
		if g.Intn(2) == 0 {
			old.Close()
		}
		c, col := mk(i)
		old.Close()
		time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
		if !ask() {
			r.Violation("SendToUsername fails although a connection logged in under the name after the previous one; the old connection's end removed the new entry")
		}
		if !until(longWait, func() bool { return col.n() == 2 }) {
			r.Violation("SendToUsername did not reach the connection most recently online under the name")
		}
		old = c
		r.Case(fmt.Sprintf("relogin/%d", i))
	}
	old.Close()
	if !until(longWait, func() bool { return !ask() }) {
		r.Violation("SendToUsername keeps succeeding after the only connection under the name has been closed")
	}
	asker.Close()
	w.stop()
}

func c12misc(r *Rep) {
	s := c12start(r, "tcp")
	p := s.open(0)
	if p.ctx.Online("") == nil {
		r.Violation("Online with an empty name returned nil")
	}
	if p.ctx.Offline() == nil {
		r.Violation("Offline of a connection never online returned nil")
	}
	if p.ctx.SendToUsername("x", 1, "y") == nil {
		r.Violation("SendToUsername to an unknown name returned nil")
	}
	s.w.stop()
	p.c.Close()
	c := tcpx.NewContext(&scriptConn{}, nil)
	if c.Online("a") == nil || c.Offline() == nil || c.SendToUsername("a", 1, "x") == nil {
		r.Violation("pool operations without a pool returned nil")
	}
	r.Case("misc")
}
