package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C10"] = c10 }

type c10ev struct {
	at    int64
	start bool
	key   string // handler that ran
	i     int    // element
	raw   string
}

type c10log struct {
	mu  sync.Mutex
	n   int64
	ev  map[string][]c10ev // batch tag -> events
	run int64
}

func (l *c10log) add(batch string, e c10ev) {
	l.mu.Lock()
	l.n++
	e.at = l.n
	l.ev[batch] = append(l.ev[batch], e)
	l.mu.Unlock()
}

func (l *c10log) get(batch string) []c10ev {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]c10ev(nil), l.ev[batch]...)
}

type c10body struct {
	B   string // batch tag
	I   int    // element
	Us  int    // time the handler takes
	Ab  bool
	Re  bool // reply
	Cl  bool // close the connection
	Pad string
}

type c10elem struct {
	id   int32
	url  string
	body c10body
	bad  bool // unregistered
	raw  []byte
}

type c10srv struct {
	w      *world
	l      *c10log
	ids    []int32
	urls   []string
	onMsg  bool
	limit  int32
	closed int64
	opened int64
}

func (s *c10srv) handler(r *Rep, key string) func(c *tcpx.Context) {
	return func(c *tcpx.Context) {
		var b c10body
		atomic.AddInt64(&s.l.run, 1)
		defer atomic.AddInt64(&s.l.run, -1)
		raw, err := c.RawStream()
		if err != nil || json.Unmarshal(raw, &b) != nil {
			s.l.add("?", c10ev{key: key, raw: string(c.Stream)})
			return
		}
		s.l.add(b.B, c10ev{start: true, key: key, i: b.I, raw: string(c.Stream)})
		if b.Us > 0 {
			time.Sleep(time.Duration(b.Us) * time.Microsecond)
		}
		if b.Re {
			c.JSON(int32(1000000+b.I), b.B)
		}
		if b.Cl {
			c.CloseConn()
		}
		if b.Ab {
			c.Abort()
		}
		s.l.add(b.B, c10ev{key: key, i: b.I})
	}
}

func c10start(r *Rep, g *rand.Rand, kind string, limit int32) *c10srv {
	s := &c10srv{l: &c10log{ev: map[string][]c10ev{}}, limit: limit, onMsg: g.Intn(5) == 0}
	x := tcpx.NewTcpX(nil)
	x.SetMaxBytePerMessage(limit)
	x.OnConnect = func(c *tcpx.Context) { atomic.AddInt64(&s.opened, 1) }
	x.OnClose = func(c *tcpx.Context) { atomic.AddInt64(&s.closed, 1) }
	if g.Intn(2) == 0 {
		x.UseGlobal(func(c *tcpx.Context) {})
	}
	special := g.Intn(4)
	if special&1 > 0 {
		x.HeartBeatModeDetail(true, time.Hour, g.Intn(2) == 0, 1392)
	}
	for i := 0; i < 5; i++ {
		id := int32(10 + i)
		s.ids = append(s.ids, id)
		x.AddHandler(id, s.handler(r, fmt.Sprintf("id:%d", id)))
	}
	// a heartbeat or an auth message in a batch is a message of the batch
	if special&1 > 0 {
		s.ids = append(s.ids, 15)
		x.RewriteHeartBeatHandler(15, s.handler(r, "id:15"))
	}
	if special&2 > 0 {
		s.ids = append(s.ids, 16)
		x.WithAuthDetail(true, time.Hour, g.Intn(2) == 0, 16, s.handler(r, "id:16"))
	}
	for i := 0; i < 3; i++ {
		u := fmt.Sprintf("/c10/%d", i)
		s.urls = append(s.urls, u)
		x.Any(u, s.handler(r, "url:"+u))
	}
	if s.onMsg {
		x.OnMessage = s.handler(r, "onmessage")
	}
	s.w = r.serveKind(x, kind)
	return s
}

func (e *c10elem) key(s *c10srv) string {
	if s.onMsg {
		return "onmessage"
	}
	if e.bad {
		return ""
	}
	if e.url != "" {
		return "url:" + e.url
	}
	return fmt.Sprintf("id:%d", e.id)
}

var c10ctr int64

func (s *c10srv) batch(g *rand.Rand, n, maxPad int, urls bool) (string, []*c10elem) {
	tag := fmt.Sprintf("b%d", atomic.AddInt64(&c10ctr, 1))
	var es []*c10elem
	for i := 0; i < n; i++ {
		e := &c10elem{id: s.ids[g.Intn(len(s.ids))], body: c10body{B: tag, I: i, Ab: g.Intn(6) == 0, Re: g.Intn(2) == 0}}
		switch g.Intn(4) {
		case 0:
			e.body.Us = g.Intn(3000)
		case 1:
			e.body.Us = g.Intn(100)
		}
		if n > 40 {
			e.body.Us /= 20
		}
		if g.Intn(8) == 0 {
			e.id, e.bad = 9000+int32(g.Intn(100)), true
		} else if urls && g.Intn(3) == 0 {
			e.url = s.urls[g.Intn(len(s.urls))]
			if g.Intn(2) == 0 {
				e.id = 0
			}
		}
		if g.Intn(3) == 0 && maxPad > 0 {
			e.body.Pad = plainStr(g, g.Intn(maxPad))
		}
		es = append(es, e)
	}
	return tag, es
}

// rawBatch is the wire form of a batch, built by hand.
func rawBatch(es []*c10elem) []byte {
	var out []byte
	for i, e := range es {
		h := map[string]interface{}{}
		if i == 0 {
			h["[tcpx-buffer-in-serial]"] = fmt.Sprintf("enable;%d", len(es))
		}
		if e.url != "" {
			h["Router-Type"], h["Router-Pattern-Value"] = "URL_PATTERN", e.url
		}
		var hb []byte
		if len(h) > 0 {
			hb = jsonOf(h)
		}
		e.raw = frame(e.id, hb, jsonOf(e.body))
		out = append(out, e.raw...)
	}
	return out
}

// chunkConn splits each write.
type chunkConn struct {
	net.Conn
	g *rand.Rand
}

func (c chunkConn) Write(b []byte) (int, error) {
	t := 0
	ch := genChunks(c.g, len(b))
	small := 0
	for _, n := range ch {
		if n > len(b)-t {
			n = len(b) - t
		}
		if n == 0 {
			continue
		}
		if _, err := c.Conn.Write(b[t : t+n]); err != nil {
			return t, err
		}
		t += n
		if small++; small < 20 && c.g.Intn(4) == 0 {
			time.Sleep(time.Duration(c.g.Intn(200)) * time.Microsecond)
		}
	}
	if t < len(b) {
		if _, err := c.Conn.Write(b[t:]); err != nil {
			return t, err
		}
	}
	return len(b), nil
}

// verify checks the events of one batch; full says every element must have been handled, most is the
// number of elements that had completely arrived.
func (s *c10srv) verify(r *Rep, tag string, es []*c10elem, full bool, most int, what string) int {
	ev := s.l.get(tag)
	var want []*c10elem
	var pos []int
	for i, e := range es {
		if e.key(s) != "" {
			want = append(want, e)
			pos = append(pos, i)
		}
	}
	if len(ev)%2 != 0 {
		r.Violation("%s: a handler of batch %s started and has not returned", what, tag)
	}
	for k := 0; k < len(ev); k += 2 {
		if k/2 >= len(want) {
			r.Violation("%s: batch of %d elements: more handler runs than elements; run %d is element %d", what, len(es), k/2, ev[k].i)
		}
		e := want[k/2]
		a, b := ev[k], ev[k+1]
		if !a.start || b.start || a.i != b.i {
			r.Violation("%s: batch of %d elements: the handler of element %d started before the handler of element %d had returned", what, len(es), b.i, a.i)
		}
		if a.i != e.body.I {
			r.Violation("%s: batch of %d elements: element %d was handled where element %d was due", what, len(es), a.i, e.body.I)
		}
		if a.key != e.key(s) {
			r.Violation("%s: element %d of a batch went to handler %s, registered for it: %s", what, a.i, a.key, e.key(s))
		}
		if e.raw != nil && a.raw != string(e.raw) {
			r.Violation("%s: element %d of a batch was handled with other bytes: %s, sent %s", what, a.i, short([]byte(a.raw)), short(e.raw))
		}
		if pos[k/2] >= most {
			r.Violation("%s: element %d was handled although only %d elements of the batch had been sent", what, pos[k/2], most)
		}
	}
	if full && len(ev)/2 != len(want) {
		r.Violation("%s: batch of %d elements: only %d of %d elements with a handler were handled", what, len(es), len(ev)/2, len(want))
	}
	return len(ev) / 2
}

func c10(r *Rep) {
	r.Rule("one case = one batch (sent by PipeJSON or by hand) with its handler start/end events checked, or one cut batch, or one refused PipeJSON call; distinct by transport, size class, way of sending, cut class, neighbours on the connection; batches of one element are trivial")
	for i := 0; i < r.N(60); i++ {
		c10flow(r, r.Sub(int64(i)), []string{"tcp", "unix", "tls"}[i%3])
	}
	for i := 0; i < r.N(30); i++ {
		c10cut(r, r.Sub(int64(5000+i)), []string{"tcp", "unix", "tcp", "tls"}[i%4])
	}
	c10args(r)
	c10big(r)
	var wg sync.WaitGroup
	for i, kind := range []string{"tcp", "unix", "tls"} {
		wg.Add(1)
		go func(g *rand.Rand, kind string) {
			defer wg.Done()
			c10slow(r, g, kind)
		}(r.Sub(int64(300+i)), kind)
	}
	for i, kind := range []string{"tcp", "unix", "tls"} {
		c10same(r, r.Sub(int64(200+i)), kind)
	}
	c10huge(r)
	wg.Wait()
}

// c10slow: one element takes its time, and the rest of the batch waits for it, while other requests of the
// connection do not.
func c10slow(r *Rep, g *rand.Rand, kind string) {
	s := c10start(r, g, kind, 0)
	c := s.w.dial()
	defer c.Close()
	n := 5
	tag, es := s.batch(g, n, 50, true)
	for i, e := range es {
		e.bad, e.body.Us = false, 0
		if e.url == "" {
			e.id = s.ids[i%5]
		}
	}
	k := 1 + g.Intn(2)
	es[k].body.Us = 6000000
	if r.Thorough() {
		es[k].body.Us = 20000000
	}
	c.Write(rawBatch(es))
	if !until(longWait+int64(es[k].body.Us/1000), func() bool { return len(s.l.get(tag)) == 2*n }) {
		s.verify(r, tag, es, true, n, "batch with a slow element over "+kind)
	}
	s.verify(r, tag, es, true, n, "batch with a slow element over "+kind)
	r.Case(fmt.Sprintf("slow/%s/%d", kind, k))
	s.w.stop()
}

// c10same: elements that are equal byte for byte are as many messages.
func c10same(r *Rep, g *rand.Rand, kind string) {
	for _, pat := range []string{"aaa", "aab", "abab", "baa", "aabbaa", "aaaaaaaaaa"} {
		x := tcpx.NewTcpX(nil)
		var mu sync.Mutex
		got := map[string]string{}
		h := func(c *tcpx.Context) {
			m, _ := parseFrame(c.Stream)
			k, v, _ := strings.Cut(strings.Trim(string(m.Body), "\""), "/")
			mu.Lock()
			got[k] += v
			mu.Unlock()
		}
		x.AddHandler(5, h)
		x.Any("/same", h)
		onMsg := g.Intn(3) == 0
		if onMsg {
			x.OnMessage = h
		}
		w := r.serveKind(x, kind)
		c := w.dial()
		var want []string
		for i := 0; i < 6; i++ {
			key := fmt.Sprintf("k%d", i)
			want = append(want, key)
			if i%2 == 0 {
				var args []interface{}
				for _, ch := range pat {
					args = append(args, 5, key+"/"+string(ch))
				}
				if err := tcpx.PipeJSON(c, args...); err != nil {
					r.Violation("PipeJSON of %d equal messages fails: %v", len(pat), err)
				}
			} else {
				var b []byte
				for j, ch := range pat {
					hd := map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/same"}
					if j == 0 {
						hd[tcpx.PIPED] = fmt.Sprintf("enable;%d", len(pat))
					}
					b = append(b, frame(0, jsonOf(hd), []byte(key+"/"+string(ch)))...)
				}
				c.Write(b)
			}
		}
		for _, key := range want {
			until(longWait, func() bool { mu.Lock(); defer mu.Unlock(); return len(got[key]) >= len(pat) })
			time.Sleep(time.Millisecond)
			mu.Lock()
			if got[key] != pat {
				r.Violation("batch %s of repeated elements over %s (OnMessage %v) was handled as %s", pat, kind, onMsg, got[key])
			}
			mu.Unlock()
		}
		c.Close()
		w.stop()
		r.Case(fmt.Sprintf("same/%s/%s/%v", kind, pat, onMsg))
	}
}

// c10huge: very many small elements.
func c10huge(r *Rep) {
	x := tcpx.NewTcpX(nil)
	var next, bad, busy int64
	bad = -1
	x.AddHandler(5, func(c *tcpx.Context) {
		if atomic.AddInt64(&busy, 1) != 1 {
			atomic.CompareAndSwapInt64(&bad, -1, atomic.LoadInt64(&next))
		}
		m, _ := parseFrame(c.Stream)
		var i int64
		json.Unmarshal(m.Body, &i)
		if i != atomic.LoadInt64(&next) {
			atomic.CompareAndSwapInt64(&bad, -1, i)
		}
		atomic.AddInt64(&next, 1)
		atomic.AddInt64(&busy, -1)
	})
	w := r.serveKind(x, "unix")
	n := 70000
	var b []byte
	for i := 0; i < n; i++ {
		var hd []byte
		if i == 0 {
			hd = jsonOf(map[string]string{tcpx.PIPED: fmt.Sprintf("enable;%d", n)})
		}
		b = append(b, frame(5, hd, []byte(fmt.Sprint(i)))...)
	}
	c := w.dial()
	defer c.Close()
	go c.Write(b)
	grows(longWait, func() int { return int(atomic.LoadInt64(&next)) }, func() bool { return atomic.LoadInt64(&next) >= int64(n) })
	if k := atomic.LoadInt64(&bad); k >= 0 {
		r.Violation("batch of %d elements: element %d was not handled in its turn", n, k)
	}
	if k := atomic.LoadInt64(&next); k != int64(n) {
		r.Violation("batch of %d elements: %d were handled", n, k)
	}
	r.Count("elements", int64(n))
	r.Case("huge")
	w.stop()
}

func c10flow(r *Rep, g *rand.Rand, kind string) {
	s := c10start(r, g, kind, 0)
	K := 1 + g.Intn(4)
	var wg sync.WaitGroup
	type sent struct {
		tag string
		es  []*c10elem
	}
	var mu sync.Mutex
	var all []sent
	for k := 0; k < K; k++ {
		wg.Add(1)
		go func(g *rand.Rand) {
			defer wg.Done()
			c := s.w.dial()
			defer c.Close()
			cc := net.Conn(c)
			chunked := g.Intn(2) == 0
			if chunked {
				cc = chunkConn{c, g}
			}
			col := collect(c, false, nil)
			wantRe := 0
			var mine []sent
			for j := 1 + g.Intn(6); j > 0; j-- {
				n := []int{1, 2, 2, 3, 5, 8, 20, 60}[g.Intn(8)]
				byHand := g.Intn(2) == 0
				tag, es := s.batch(g, n, []int{0, 50, 5000, 70000}[g.Intn(4)], byHand)
				// neighbours: plain messages before and after
				for q := g.Intn(3); q > 0; q-- {
					t2, e2 := s.batch(g, 1, 20, true)
					fr := frame(e2[0].id, nil, jsonOf(e2[0].body))
					if e2[0].url != "" {
						fr = frame(e2[0].id, jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": e2[0].url}), jsonOf(e2[0].body))
					}
					e2[0].raw = fr
					cc.Write(fr)
					mine = append(mine, sent{t2, e2})
				}
				var err error
				if byHand {
					_, err = cc.Write(rawBatch(es))
				} else {
					var args []interface{}
					for _, e := range es {
						args = append(args, int(e.id), e.body)
					}
					err = tcpx.PipeJSON(cc, args...)
				}
				if err != nil {
					r.Violation("sending a batch of %d over %s failed: %v", n, kind, err)
				}
				mine = append(mine, sent{tag, es})
				if n > 1 {
					r.Case(fmt.Sprintf("flow/%s/%d/%v/%v/%v", kind, n, byHand, chunked, s.onMsg))
				} else {
					r.Case("")
				}
				if g.Intn(3) == 0 {
					time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
				}
			}
			for _, m := range mine {
				for _, e := range m.es {
					if e.body.Re && e.key(s) != "" {
						wantRe++
					}
				}
			}
			mu.Lock()
			all = append(all, mine...)
			mu.Unlock()
			if !until(longWait, func() bool {
				for _, m := range mine {
					n := 0
					for _, e := range m.es {
						if e.key(s) != "" {
							n++
						}
					}
					if len(s.l.get(m.tag)) < 2*n {
						return false
					}
				}
				return col.n() >= wantRe
			}) {
				for _, m := range mine {
					s.verify(r, m.tag, m.es, true, len(m.es), "over "+kind)
				}
				r.Violation("over %s: %d replies of batch handlers arrived instead of %d", kind, col.n(), wantRe)
			}
			// replies of one batch arrive in batch order
			last := map[string]int{}
			for _, m := range col.all() {
				var tag string
				json.Unmarshal(m.Body, &tag)
				i := int(m.ID - 1000000)
				if p, ok := last[tag]; ok && i <= p {
					r.Violation("over %s: reply of element %d of a batch came after that of element %d", kind, i, p)
				}
				last[tag] = i
			}
		}(rand.New(rand.NewSource(g.Int63())))
	}
	wg.Wait()
	s.w.stop()
	until(longWait, func() bool { return atomic.LoadInt64(&s.l.run) == 0 })
	for _, m := range all {
		s.verify(r, m.tag, m.es, true, len(m.es), "over "+kind)
		r.Count("elements", int64(len(m.es)))
	}
	if ev := s.l.get("?"); len(ev) > 0 {
		r.Violation("a handler got bytes nobody sent: %s", short([]byte(ev[0].raw)))
	}
}

// c10cut: batches that never complete.
func c10cut(r *Rep, g *rand.Rand, kind string) {
	limit := int32(0)
	if g.Intn(2) == 0 {
		limit = 2000
	}
	s := c10start(r, g, kind, limit)
	by := s.w.dial()
	bystander := func(when string) {
		tag, es := s.batch(g, 2, 20, true)
		by.Write(rawBatch(es))
		if !until(longWait, func() bool {
			n := 0
			for _, e := range es {
				if e.key(s) != "" {
					n++
				}
			}
			return len(s.l.get(tag)) == 2*n
		}) {
			r.Violation("after %s on another connection a batch on an established connection is no longer handled", when)
		}
		s.verify(r, tag, es, true, 2, "bystander")
	}
	type job struct {
		tag  string
		es   []*c10elem
		most int
		what string
		full bool
	}
	var jobs []job
	for j := 0; j < 12; j++ {
		n := []int{2, 3, 4, 6, 12}[g.Intn(5)]
		tag, es := s.batch(g, n, 100, true)
		how := []string{"close", "rst", "half", "oversize", "negative", "short", "badcount", "claimsmore", "whole", "wholehalf", "wholeserver"}[g.Intn(11)]
		if strings.HasPrefix(how, "whole") {
			// complete, and over before its handlers are done: what has been read is still handled. No
			// replies, so that nothing unread makes the client's kernel discard the batch.
			for _, e := range es {
				e.body.Re = false
				e.body.Us = g.Intn(4000)
			}
			if how == "wholeserver" {
				e := es[g.Intn(n)]
				e.body.Cl, e.bad, e.id, e.url = true, false, s.ids[0], ""
			}
		}
		b := rawBatch(es)
		var ends []int
		t := 0
		for _, e := range es {
			t += len(e.raw)
			ends = append(ends, t)
		}
		complete := func(cut int) int {
			k := 0
			for _, e := range ends {
				if e <= cut {
					k++
				}
			}
			return k
		}
		if how == "oversize" && limit == 0 {
			how = "negative"
		}
		var most int
		var send []byte
		class := ""
		switch how {
		case "whole", "wholehalf", "wholeserver":
			send, most = b, n
		case "close", "rst", "half":
			cut := g.Intn(len(b))
			if g.Intn(3) == 0 { // on or next to a boundary
				e := g.Intn(len(ends) - 1)
				cut = ends[e] + g.Intn(3) - 1
				class = "boundary"
			}
			send, most = b[:cut], complete(cut)
		case "oversize", "negative", "short":
			k := 1 + g.Intn(n-1)
			l := uint32(limit) + 1 + uint32(g.Intn(3000))
			if how == "negative" {
				l = 0x80000000 + g.Uint32()>>1
			}
			if how == "short" {
				l = uint32(g.Intn(12))
			}
			send = append(append([]byte{}, b[:ends[k-1]]...), be32(l)...)
			send = append(send, b[ends[k-1]:]...)
			most = k
			if how == "short" && limit > 0 {
				// a block of fewer than 12 bytes is no message; whatever follows must not be handled as part of it
				most = n
			}
			if how == "short" {
				how, send, most = "close", b[:ends[k-1]], k
			}
			class = bucketS(k)
		case "badcount":
			bad := []string{"enable;", "enable;x", "enable;0", "enable;-3", "enable", ";", "enable;3;4", "enable; 2", "enable;2.5", "enable;99999999999999999999", "enable;0x2"}[g.Intn(11)]
			fr := frame(es[0].id, jsonOf(map[string]string{"[tcpx-buffer-in-serial]": bad}), jsonOf(es[0].body))
			send = append(fr, b[len(es[0].raw):]...)
			es[0].raw = fr
			most = 0
			class = bad
		case "claimsmore":
			fr := frame(es[0].id, jsonOf(map[string]string{"[tcpx-buffer-in-serial]": fmt.Sprintf("enable;%d", []int{n + 1, n + 1000, 1 << 30, 1<<31 - 1}[g.Intn(4)])}), jsonOf(es[0].body))
			if es[0].url != "" {
				fr = frame(es[0].id, jsonOf(map[string]string{"[tcpx-buffer-in-serial]": fmt.Sprintf("enable;%d", n+1), "Router-Type": "URL_PATTERN", "Router-Pattern-Value": es[0].url}), jsonOf(es[0].body))
			}
			send = append(append([]byte{}, fr...), b[len(es[0].raw):]...)
			es[0].raw = fr
			most = n
		}
		opened := atomic.LoadInt64(&s.opened)
		closed := atomic.LoadInt64(&s.closed)
		c := s.w.dial()
		// an ordinary message first, so that the connection is known to be served
		t2, e2 := s.batch(g, 1, 20, false)
		e2[0].bad, e2[0].id = false, s.ids[0]
		e2[0].body.Re = e2[0].body.Re && !strings.HasPrefix(how, "whole")
		c.Write(frame(e2[0].id, nil, jsonOf(e2[0].body)))
		if !until(longWait, func() bool { return len(s.l.get(t2)) == 2 }) {
			r.Violation("a fresh %s connection is not served", kind)
		}
		c.Write(send)
		raw := rawOf(c)
		switch how {
		case "rst":
			if t, ok := raw.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			raw.Close()
		case "half":
			if t, ok := raw.(interface{ CloseWrite() error }); ok {
				t.CloseWrite()
			}
		case "close", "claimsmore", "whole":
			c.Close()
		case "wholehalf":
			if t, ok := c.(interface{ CloseWrite() error }); ok {
				t.CloseWrite()
			}
		case "wholeserver": // closed by one of its handlers
		default:
			if _, ok := ended(c, longWait); !ok {
				r.Violation("a batch with a %s element (%s) does not end its connection", how, class)
			}
		}
		if !until(longWait, func() bool {
			return atomic.LoadInt64(&s.opened) > opened && atomic.LoadInt64(&s.closed) > closed
		}) {
			r.Violation("a connection whose batch was cut (%s) does not end: OnClose never ran", how)
		}
		c.Close()
		jobs = append(jobs, job{tag, es, most, fmt.Sprintf("batch of %d cut by %s %s over %s after %d bytes", n, how, class, kind, len(send)), how == "whole" || how == "wholehalf"})
		if g.Intn(3) == 0 {
			bystander(how)
		}
		r.Case(fmt.Sprintf("cut/%s/%s/%s/%d/%d/%v", kind, how, class, n, most, limit > 0))
	}
	bystander("cut batches")
	until(longWait, func() bool { return atomic.LoadInt64(&s.l.run) == 0 })
	time.Sleep(5 * time.Millisecond)
	until(longWait, func() bool { return atomic.LoadInt64(&s.l.run) == 0 })
	for _, j := range jobs {
		if j.full {
			j := j
			until(longWait, func() bool {
				n := 0
				for _, e := range j.es {
					if e.key(s) != "" {
						n++
					}
				}
				return len(s.l.get(j.tag)) >= 2*n
			})
		}
		n := s.verify(r, j.tag, j.es, j.full, j.most, j.what)
		r.Count("cut_batch_elements_handled", int64(n))
	}
	by.Close()
	s.w.stop()
}

func bucketS(n int) string { return fmt.Sprint(bucket(n)) }

// c10args: PipeJSON calls that must be refused, and the bytes of accepted ones.
func c10args(r *Rep) {
	badv := map[string]interface{}{"f": func() {}}
	bad := [][]interface{}{
		{1}, {1, "a", 2}, {"1", "a"}, {int32(1), "a"}, {int64(1), "a"}, {1.0, "a"}, {1, "a", "2", "b"}, {1, "a", int32(2), "b"}, {1, badv}, {1, "a", 2, badv}, {1, "a", 2, "b", 3, make(chan int)}, {1, badv, 2, "b"},
	}
	for _, n := range []int{40, 700} { // refused late
		var a []interface{}
		for i := 0; i < n; i++ {
			a = append(a, i, strings.Repeat("x", 4000))
		}
		bad = append(bad, append(append([]interface{}{}, a...), 7, badv), append(append([]interface{}{}, a...), int32(7), "x"), append(append([]interface{}{}, a...), 7))
	}
	for i, a := range bad {
		sc := &scriptConn{}
		var err error
		if panics(func() { err = tcpx.PipeJSON(sc, a...) }) {
			r.Violation("PipeJSON(%s) panics", trunc(fmt.Sprint(a), 300))
		}
		if err == nil {
			r.Violation("PipeJSON accepted arguments %s", trunc(fmt.Sprint(a), 300))
		}
		if len(sc.writes) > 0 {
			r.Violation("PipeJSON refused %d arguments %s (%v) but wrote %d bytes", len(a), trunc(fmt.Sprint(a), 300), err, len(bytes.Join(sc.writes, nil)))
		}
		r.Case(fmt.Sprintf("args/%d", i))
	}
	g := r.Sub(77)
	for i := 0; i < 200; i++ {
		n := 1 + g.Intn(30)
		if i%25 == 24 {
			n = []int{64, 128, 255, 256, 257, 512, 1025, 3000}[i/25%8]
		}
		var args []interface{}
		var ids []int32
		var bodies [][]byte
		for j := 0; j < n; j++ {
			id := genID(g)
			v := genVal(g, 2)
			if v == nil {
				v = "n"
			}
			args = append(args, int(id), v)
			ids = append(ids, id)
			bodies = append(bodies, jsonOf(v))
		}
		sc := &scriptConn{}
		if err := tcpx.PipeJSON(sc, args...); err != nil {
			r.Violation("PipeJSON of %d messages failed: %v", n, err)
		}
		rd := bytes.NewReader(bytes.Join(sc.writes, nil))
		for j := 0; j < n; j++ {
			m, err := readFrame(rd)
			if err != nil {
				r.Violation("PipeJSON of %d messages wrote %d readable blocks: %v", n, j, err)
			}
			p, has := m.hdr()[tcpx.PIPED]
			if j == 0 && p != fmt.Sprintf("enable;%d", n) || j > 0 && has {
				r.Violation("PipeJSON of %d messages: message %d announces %v", n, j, p)
			}
			if m.ID != ids[j] || !bytes.Equal(m.Body, bodies[j]) {
				r.Violation("PipeJSON message %d of %d written as id %d body %s, given id %d body %s", j, n, m.ID, short(m.Body), ids[j], short(bodies[j]))
			}
		}
		if rd.Len() != 0 {
			r.Violation("PipeJSON of %d messages wrote %d bytes too many", n, rd.Len())
		}
		r.Case(fmt.Sprintf("bytes/%d", n))
	}
}

// c10big: long batches and big elements, other connections served meanwhile.
func c10big(r *Rep) {
	g := r.Sub(99)
	s := c10start(r, g, "tcp", 0)
	for i, n := range []int{300, 1500, 300, 700, 2500} {
		byHand := i < 2
		c := s.w.dial()
		col := collect(c, false, nil)
		tag, es := s.batch(g, n, 3000, true)
		es[n/2].body.Pad = strings.Repeat("y", 3<<20)
		if byHand {
			b := rawBatch(es)
			go c.Write(b)
		} else {
			var args []interface{}
			for _, e := range es {
				e.url = ""
				if e.id == 0 {
					e.id = s.ids[0]
				}
				args = append(args, int(e.id), e.body)
			}
			go tcpx.PipeJSON(c, args...)
		}
		if !grows(longWait, func() int { return len(s.l.get(tag)) }, func() bool {
			k := 0
			for _, e := range es {
				if e.key(s) != "" {
					k++
				}
			}
			return len(s.l.get(tag)) == 2*k
		}) {
			s.verify(r, tag, es, true, n, "long batch")
		}
		s.verify(r, tag, es, true, n, "long batch")
		_ = col
		c.Close()
		r.Count("elements", int64(n))
		r.Case(fmt.Sprintf("long/%d/%v", n, byHand))
	}
	s.w.stop()
}
