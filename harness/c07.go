package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C07"] = c07 }

// A request carries, for every chain element, a script: N = call Next, A = call Abort,
// y = yield. Elements log s<i>, n<i> (a Next returned) and e<i>.
type c07req struct {
	Tag     string
	Scripts []string
}

type c07log struct {
	sync.Mutex
	t    map[string][]string
	reqs sync.Map
}

// body registers q and gives the message body that names it.
func (l *c07log) body(q c07req) []byte {
	l.reqs.Store(q.Tag, q)
	return []byte(q.Tag)
}

func (l *c07log) add(tag, ev string) {
	l.Lock()
	l.t[tag] = append(l.t[tag], ev)
	l.Unlock()
}
func (l *c07log) get(tag string) []string {
	l.Lock()
	defer l.Unlock()
	return append([]string(nil), l.t[tag]...)
}

func (l *c07log) exec(c *tcpx.Context, q c07req, i int) {
	l.add(q.Tag, fmt.Sprintf("s%d", i))
	if i < len(q.Scripts) {
		for _, op := range q.Scripts[i] {
			switch op {
			case 'N':
				c.Next()
				l.add(q.Tag, fmt.Sprintf("n%d", i))
			case 'A':
				c.Abort()
			case 'y':
				runtime.Gosched()
				if len(q.Tag)%3 == 0 {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}
	}
	l.add(q.Tag, fmt.Sprintf("e%d", i))
}

// elem is chain element i of a framed server.
func (l *c07log) elem(i int) func(c *tcpx.Context) {
	return func(c *tcpx.Context) {
		if m, err := parseFrame(c.Stream); err == nil {
			if v, ok := l.reqs.Load(string(m.Body)); ok {
				l.exec(c, v.(c07req), i)
				return
			}
		}
		l.add("BAD", fmt.Sprintf("element %d got %s", i, short(c.Stream)))
	}
}

// c07model is the reference interpreter.
func c07model(n int, scripts []string) []string {
	var out []string
	next, aborted := 0, false
	var rest func()
	rest = func() {
		for next < n && !aborted {
			i := next
			next++
			out = append(out, fmt.Sprintf("s%d", i))
			if i < len(scripts) {
				for _, op := range scripts[i] {
					switch op {
					case 'N':
						rest()
						out = append(out, fmt.Sprintf("n%d", i))
					case 'A':
						aborted = true
					}
				}
			}
			out = append(out, fmt.Sprintf("e%d", i))
		}
	}
	rest()
	return out
}

func genScripts(g *rand.Rand, n int) []string {
	out := make([]string, n)
	mode := g.Intn(6)
	for i := range out {
		var s string
		switch mode {
		case 0:
			s = "N"
		case 1:
			s = []string{"", "N", "NN", "yN", "Ny"}[g.Intn(5)]
		case 2:
			s = []string{"", "", "", "", "A", "N", "AN", "NA"}[g.Intn(8)]
		case 3:
			s = []string{"", "y", "N", "NNN"}[g.Intn(4)]
		case 4:
			for k := g.Intn(4); k > 0; k-- {
				s += string("NNAy"[g.Intn(4)])
			}
		}
		out[i] = s
	}
	if mode == 5 && n > 0 {
		out[g.Intn(n)] = []string{"A", "AN", "NA", "ANNA", "AA"}[g.Intn(5)]
		out[g.Intn(n)] += "N"
	}
	return out
}

var c07tag int64

func c07(r *Rep) {
	r.Rule("one case = one request whose chain elements follow a random script of Next and Abort calls, run concurrently with others, its event trace compared with a reference interpreter; distinct by (route kind, chain length, scripts); scripts without any Next or Abort are trivial")
	c07long(r)
	g := r.Sub(7)
	for i := 0; i < r.N(500); i++ {
		c07server(r, rand.New(rand.NewSource(g.Int63())), i)
	}
	for i := 0; i < r.N(200); i++ {
		c07ending(r, rand.New(rand.NewSource(g.Int63())), i)
	}
	for i := 0; i < r.N(150); i++ {
		c07raw(r, rand.New(rand.NewSource(g.Int63())), i)
	}
}

// c07ending: the connection ends while the chain runs (closed by an element, by the peer or by
// Stop); without an Abort every element runs all the same.
func c07ending(r *Rep, g *rand.Rand, round int) {
	r.Step(fmt.Sprintf("c07 ending %d", round))
	x := tcpx.NewTcpX(nil)
	lg := &c07log{t: map[string][]string{}}
	n := 1 + g.Intn(6)
	type ending struct {
		at  int
		how string
		in  chan struct{}
	}
	var ends sync.Map // tag -> *ending
	elem := func(i int) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			m, err := parseFrame(c.Stream)
			v, ok := lg.reqs.Load(string(m.Body))
			if err != nil || !ok {
				lg.add("BAD", fmt.Sprintf("element %d got %s", i, short(c.Stream)))
				return
			}
			q := v.(c07req)
			if e, ok := ends.Load(q.Tag); ok && e.(*ending).at == i {
				e := e.(*ending)
				switch e.how {
				case "CloseConn":
					c.CloseConn()
				case "CloseConn elsewhere":
					done := make(chan struct{})
					go func() { c.CloseConn(); close(done) }()
					<-done
				default:
					close(e.in)
					if !until(longWait, c.IsOffline) {
						lg.add("BAD", "the connection stays online after "+e.how)
					}
				}
			}
			lg.exec(c, q, i)
		}
	}
	nG := g.Intn(n)
	var own []func(*tcpx.Context)
	for i := 0; i < n; i++ {
		switch {
		case i < nG:
			x.UseGlobal(elem(i))
		case i < n-1 && g.Intn(2) == 0 && len(own) == 0:
			x.Use(fmt.Sprintf("k%d", i), elem(i))
		default:
			own = append(own, elem(i))
		}
	}
	onMsg := round%5 == 4 && len(own) == 1
	x.AddHandler(5, own...)
	x.Any("/c", own...)
	if onMsg {
		x.OnMessage = own[0]
	}
	if round%2 == 0 {
		x.WithBuiltInPool(true)
	}
	if round%3 == 0 {
		x.WithBroadCastSignal(true)
	}
	kind := []string{"tcp", "unix", "tls"}[round%3]
	s := r.serveKind(x, kind)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var ws []c07want
	stopAt := make(chan struct{})
	var parked sync.WaitGroup
	for ci := 0; ci < 6; ci++ {
		wg.Add(1)
		e := &ending{at: g.Intn(n), how: []string{"CloseConn", "CloseConn elsewhere", "the peer left", "Stop"}[g.Intn(4)], in: make(chan struct{})}
		parked.Add(1)
		go func(g *rand.Rand) {
			defer wg.Done()
			c := s.dial()
			defer c.Close()
			q := c07req{Tag: fmt.Sprintf("t%d", atomic.AddInt64(&c07tag, 1)), Scripts: genScripts(g, n)}
			if g.Intn(2) == 0 {
				q.Scripts = make([]string, n)
			}
			for k := 0; k < e.at && k < n; k++ { // it must get that far
				q.Scripts[k] = strings.Replace(q.Scripts[k], "A", "", -1)
			}
			w := c07want{q.Tag, c07model(n, q.Scripts), fmt.Sprintf("%s request whose connection ends in element %d (%s), chain of %d, scripts %q", kind, e.at, e.how, n, q.Scripts)}
			ends.Store(q.Tag, e)
			id, h := int32(5), []byte(nil)
			if g.Intn(2) == 0 {
				h = jsonOf(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/c"})
			} else if g.Intn(2) == 0 {
				h = jsonOf(map[string]interface{}{tcpx.PIPED: "enable;1"})
			}
			c.Write(frame(id, h, lg.body(q)))
			switch e.how {
			case "the peer left":
				if !waitCh(longWait, e.in) {
					r.Violation("%s: element %d never started", w.desc, e.at)
				}
				c.Close()
			case "Stop":
				if !waitCh(longWait, e.in) {
					r.Violation("%s: element %d never started", w.desc, e.at)
				}
				parked.Done()
				<-stopAt
			}
			if e.how != "Stop" {
				defer parked.Done()
			}
			lg.verify(r, []c07want{w})
			mu.Lock()
			ws = append(ws, w)
			mu.Unlock()
			r.Case(fmt.Sprintf("ending/%s/%s/%d/%d/%s", kind, e.how, n, e.at, scriptKey(q.Scripts)))
		}(rand.New(rand.NewSource(g.Int63())))
	}
	parked.Wait()
	s.stop()
	close(stopAt)
	wg.Wait()
	lg.verify(r, ws)
}

func scriptKey(s []string) string {
	k := strings.Join(s, ",")
	if strings.Trim(k, ",y") == "" {
		return ""
	}
	return k
}

type c07want struct {
	tag  string
	want []string
	desc string
}

func (l *c07log) verify(r *Rep, ws []c07want) {
	for _, w := range ws {
		until(longWait, func() bool { return len(l.get(w.tag)) >= len(w.want) })
		if got := l.get(w.tag); strings.Join(got, " ") != strings.Join(w.want, " ") {
			r.Violation("%s: chain ran\n  %s\nexpected\n  %s", w.desc, trunc(strings.Join(got, " "), 1500), trunc(strings.Join(w.want, " "), 1500))
		}
	}
	if b := l.get("BAD"); len(b) > 0 {
		r.Violation("%s", b[0])
	}
}

func c07server(r *Rep, g *rand.Rand, round int) {
	x := tcpx.NewTcpX(nil)
	lg := &c07log{t: map[string][]string{}}
	nG, nU, nS := g.Intn(4), g.Intn(4), g.Intn(3)
	k := 0
	for i := 0; i < nG; i++ {
		x.UseGlobal(lg.elem(k))
		k++
	}
	for i := 0; i < nU; i++ {
		x.Use(fmt.Sprintf("k%d", i), lg.elem(k))
		k++
	}
	pre := k
	var fs []func(*tcpx.Context)
	for i := 0; i < nS; i++ {
		fs = append(fs, lg.elem(k))
		k++
	}
	fs = append(fs, lg.elem(k))
	k++
	n := k
	x.AddHandler(5, fs...)
	x.AddHandler(0, fs...)
	x.Any("/c", fs...)
	bare := lg.elem(0)
	x.WithAuthDetail(true, time.Hour, false, 9, bare)
	addEcho2 := round%3 == 0
	onMsg := round%5 == 4
	if onMsg {
		x.OnMessage = lg.elem(pre)
		n = pre + 1
	}
	_ = addEcho2
	s := r.serve(x, "tcp", nextAddr())
	su := r.serve(x, "udp", nextAddr())
	var wg sync.WaitGroup
	var mu sync.Mutex
	var ws []c07want
	for ci := 0; ci < 4; ci++ {
		wg.Add(1)
		go func(g *rand.Rand) {
			defer wg.Done()
			c := s.dial()
			defer c.Close()
			var mine []c07want
			var buf []byte
			for i := 0; i < 25; i++ {
				kind := []string{"id", "id0", "url", "pipe", "bare"}[g.Intn(5)]
				if onMsg && kind == "bare" {
					kind = "id"
				}
				mk := func(hdr map[string]interface{}) ([]byte, c07want) {
					ln := n
					if kind == "bare" {
						ln = 1
					}
					q := c07req{Tag: fmt.Sprintf("t%d", atomic.AddInt64(&c07tag, 1)), Scripts: genScripts(g, ln)}
					w := c07want{q.Tag, c07model(ln, q.Scripts), fmt.Sprintf("%s request (chain of %d, scripts %q, OnMessage %v)", kind, ln, q.Scripts, onMsg)}
					var h []byte
					id := int32(5)
					switch kind {
					case "id0":
						id = 0
					case "url":
						hdr["Router-Type"] = "URL_PATTERN"
						hdr["Router-Pattern-Value"] = "/c"
					case "bare":
						id = 9
					}
					if len(hdr) > 0 {
						h = jsonOf(hdr)
					}
					key := scriptKey(q.Scripts)
					if key != "" {
						key = kind + "/" + fmt.Sprint(onMsg, ln) + "/" + key
					}
					r.Case(key)
					r.Sample(map[string]interface{}{"kind": kind, "scripts": q.Scripts, "trace": strings.Join(w.want, " ")})
					return frame(id, h, lg.body(q)), w
				}
				if kind == "pipe" {
					m := 1 + g.Intn(4)
					for j := 0; j < m; j++ {
						h := map[string]interface{}{}
						if j == 0 {
							h[tcpx.PIPED] = fmt.Sprintf("enable;%d", m)
						}
						b, w := mk(h)
						buf = append(buf, b...)
						mine = append(mine, w)
					}
				} else {
					b, w := mk(map[string]interface{}{})
					buf = append(buf, b...)
					mine = append(mine, w)
				}
				if g.Intn(3) == 0 {
					c.Write(buf)
					buf = nil
				}
			}
			c.Write(buf)
			lg.verify(r, mine)
			mu.Lock()
			ws = append(ws, mine...)
			mu.Unlock()
		}(rand.New(rand.NewSource(g.Int63())))
	}
	wg.Add(1)
	go func(g *rand.Rand) {
		defer wg.Done()
		c := su.dial()
		defer c.Close()
		for i := 0; i < 5; i++ {
			ok := false
			for try := 0; try < 5 && !ok; try++ {
				q := c07req{Tag: fmt.Sprintf("t%d", atomic.AddInt64(&c07tag, 1)), Scripts: genScripts(g, n)}
				w := c07want{q.Tag, c07model(n, q.Scripts), fmt.Sprintf("udp request (chain of %d, scripts %q)", n, q.Scripts)}
				c.Write(frame(5, nil, lg.body(q)))
				if ok = until(200, func() bool { return len(lg.get(q.Tag)) > 0 }); ok {
					lg.verify(r, []c07want{w})
					mu.Lock()
					ws = append(ws, w)
					mu.Unlock()
					r.Case("udp/" + scriptKey(q.Scripts))
				}
			}
			if !ok {
				r.Violation("udp request ran no chain element in 5 tries")
			}
		}
	}(rand.New(rand.NewSource(g.Int63())))
	wg.Wait()
	within(longWait, func() { x.Stop(true) })
	waitCh(longWait, s.done)
	waitCh(longWait, su.done)
	lg.verify(r, ws) // nothing started late
}

func c07raw(r *Rep, g *rand.Rand, round int) {
	x := tcpx.NewTcpX(nil)
	lg := &c07log{t: map[string][]string{}}
	n := 1 + g.Intn(5)
	elem := func(i int) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			var q c07req
			if i == 0 {
				ln, err := bufio.NewReader(c.ConnReader).ReadString('\n')
				if err != nil || json.Unmarshal([]byte(ln), &q) != nil {
					lg.add("BAD", fmt.Sprintf("raw element 0 read %q %v", ln, err))
					return
				}
				c.SetCtxPerRequest("q", q)
			} else {
				v, ok := c.GetCtxPerRequest("q")
				if !ok {
					lg.add("BAD", fmt.Sprintf("raw element %d started before element 0 stored its data", i))
					return
				}
				q = v.(c07req)
			}
			lg.exec(c, q, i)
		}
	}
	nG := 0
	if n > 1 {
		nG = g.Intn(n)
	}
	for i := 0; i < n-1; i++ {
		if i < nG {
			x.UseGlobal(elem(i))
		} else {
			x.Use(fmt.Sprintf("k%d", i), elem(i))
		}
	}
	x.HandleRaw = elem(n - 1)
	addr := nextAddr()
	s := r.serveWith(x, "tcp", addr, func() error { return x.ListenAndServeRaw("tcp", addr) })
	var wg sync.WaitGroup
	var mu sync.Mutex
	var ws []c07want
	for ci := 0; ci < 6; ci++ {
		wg.Add(1)
		go func(g *rand.Rand) {
			defer wg.Done()
			c := s.dial()
			defer c.Close()
			q := c07req{Tag: fmt.Sprintf("t%d", atomic.AddInt64(&c07tag, 1)), Scripts: genScripts(g, n)}
			w := c07want{q.Tag, c07model(n, q.Scripts), fmt.Sprintf("raw connection (chain of %d, scripts %q)", n, q.Scripts)}
			c.Write(append(jsonOf(q), '\n'))
			lg.verify(r, []c07want{w})
			mu.Lock()
			ws = append(ws, w)
			mu.Unlock()
			r.Case("raw/" + scriptKey(q.Scripts))
		}(rand.New(rand.NewSource(g.Int63())))
	}
	wg.Wait()
	s.stop()
	lg.verify(r, ws)
}

// c07long runs chains much longer than any ordinary one.
func c07long(r *Rep) {
	for _, n := range []int{64, 130, 300, 2018, 2019, 2020, 2600} {
		for _, how := range []string{"own", "url", "split", "onmessage"} {
			if how != "own" && n > 130 && n != 300 {
				break
			}
			x := tcpx.NewTcpX(nil)
			lg := &c07log{t: map[string][]string{}}
			var fs []func(*tcpx.Context)
			for i := 0; i < n; i++ {
				switch {
				case (how == "split" && i < n/3 || how == "onmessage" && i < n/2):
					x.UseGlobal(lg.elem(i))
				case (how == "split" && i < 2*n/3 || how == "onmessage" && i < n-1):
					x.Use(fmt.Sprintf("k%d", i), lg.elem(i))
				default:
					fs = append(fs, lg.elem(i))
				}
			}
			hdr := []byte(nil)
			switch how {
			case "own", "split":
				x.AddHandler(5, fs...)
			case "url":
				x.Any("/long", fs...)
				hdr = jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/long"})
			case "onmessage":
				x.OnMessage = fs[0]
			}
			s := r.serveTCP(x)
			c := s.dial()
			var ws []c07want
			for _, at := range []int{-1, 0, 1, n / 2, n - 2, n - 1} {
				for _, sc := range []string{"N", "A", "AN", "NA"} {
					q := c07req{Tag: fmt.Sprintf("t%d", atomic.AddInt64(&c07tag, 1)), Scripts: make([]string, n)}
					if at >= 0 {
						q.Scripts[at] = sc
					}
					w := c07want{q.Tag, c07model(n, q.Scripts), fmt.Sprintf("chain of %d elements (%s), element %d runs %q", n, how, at, sc)}
					c.Write(frame(5, hdr, lg.body(q)))
					lg.verify(r, []c07want{w})
					ws = append(ws, w)
					r.Case(fmt.Sprintf("long/%d/%s/%d/%s", n, how, at, sc))
					if n > 400 && at > 1 && sc == "N" {
						break
					}
				}
			}
			c.Close()
			s.stop()
			lg.verify(r, ws)
		}
	}
}
