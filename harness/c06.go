package main

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C06"] = c06 }

// traceLog collects, per message tag, the chain elements that ran.
type traceLog struct {
	sync.Mutex
	t    map[string][]string
	stay []string
}

func (l *traceLog) elem(name string) func(c *tcpx.Context) {
	return func(c *tcpx.Context) {
		tag := ""
		if m, err := parseFrame(c.Stream); err == nil {
			tag = tagOf(m.Body)
		}
		l.Lock()
		if tag == "" {
			l.stay = append(l.stay, name+" on "+short(c.Stream))
		} else {
			l.t[tag] = append(l.t[tag], name)
		}
		l.Unlock()
	}
}

func (l *traceLog) get(tag string) []string {
	l.Lock()
	defer l.Unlock()
	return append([]string(nil), l.t[tag]...)
}

type c06key struct {
	name string
	f    func(c *tcpx.Context)
	on   bool
}

type c06reg struct {
	id    int32
	url   string
	isURL bool
	tail  []string // use-middleware in force, self middleware, handler
	bare  bool     // heartbeat/auth configured to skip middleware
}

func (c c06reg) String() string {
	if c.isURL {
		return "url " + c.url
	}
	return fmt.Sprintf("id %d", c.id)
}

type c06model struct {
	globals []string
	keys    []*c06key
	regs    []*c06reg
	byID    map[int32]*c06reg
	byURL   map[string]*c06reg
	prog    []string
}

func (m *c06model) inForce() []string {
	var out []string
	for _, k := range m.keys {
		if k.on {
			out = append(out, "use:"+k.name)
		}
	}
	return out
}

func c06(r *Rep) {
	r.Rule("one case = one request run against a server built by a random UseGlobal/Use/UnUse/AddHandler/Any program, its observed chain compared with a reference model; distinct by the expected chain's shape (numbers of globals, in-force and expired Use keys, own middleware; route type; special role); an empty middleware set is trivial")
	g := r.Sub(6)
	for i := 0; i < r.N(1200); i++ {
		c06prog(r, rand.New(rand.NewSource(g.Int63())), i)
	}
}

var c06tag int64

func c06prog(r *Rep, g *rand.Rand, round int) {
	x := tcpx.NewTcpX(nil)
	lg := &traceLog{t: map[string][]string{}}
	m := &c06model{byID: map[int32]*c06reg{}, byURL: map[string]*c06reg{}}
	log := func(f string, a ...interface{}) { m.prog = append(m.prog, fmt.Sprintf(f, a...)) }
	prog := func() string { return strings.Join(m.prog, "; ") }
	nOps := 3 + g.Intn(40)
	if round%20 == 19 {
		nOps = 200
	}
	nGlob, nKey, nH := 0, 0, 0
	regID := func(id int32, self []string) []func(*tcpx.Context) {
		nH++
		h := fmt.Sprintf("h%d", nH)
		var fs []func(*tcpx.Context)
		names := append([]string{}, self...)
		for _, s := range self {
			fs = append(fs, lg.elem(s))
		}
		fs = append(fs, lg.elem(h))
		names = append(names, h)
		reg := &c06reg{id: id, tail: append(m.inForce(), names...)}
		m.byID[id] = reg
		m.regs = append(m.regs, reg)
		return fs
	}
	selfs := func() []string {
		var s []string
		for i := g.Intn(4) - 1; i > 0; i-- {
			s = append(s, fmt.Sprintf("self%d.%d", nH+1, len(s)))
		}
		if g.Intn(15) == 0 {
			for n := 5 + g.Intn(30); len(s) < n; {
				s = append(s, fmt.Sprintf("self%d.%d", nH+1, len(s)))
			}
		}
		return s
	}
	// the slice given to a registering call stays the caller's, who may use it for the next one
	overwrite := func(fs []func(*tcpx.Context)) {
		for i := range fs {
			fs[i] = lg.elem("OVERWRITTEN")
		}
	}
	for op := 0; op < nOps; op++ {
		switch k := g.Intn(20); {
		case k < 3:
			n := 1 + g.Intn(3)
			if g.Intn(12) == 0 {
				n = 12
			}
			var fs []func(*tcpx.Context)
			for i := 0; i < n; i++ {
				nGlob++
				name := fmt.Sprintf("g%d", nGlob)
				m.globals = append(m.globals, name)
				fs = append(fs, lg.elem(name))
			}
			x.UseGlobal(fs...)
			overwrite(fs)
			log("UseGlobal×%d", n)
		case k < 7:
			n := 1 + g.Intn(3)
			if g.Intn(15) == 0 {
				n = 12
			}
			var args []interface{}
			for i := 0; i < n; i++ {
				var off []*c06key
				for _, kk := range m.keys {
					if !kk.on {
						off = append(off, kk)
					}
				}
				if len(off) > 0 && g.Intn(2) == 0 {
					kk := off[g.Intn(len(off))]
					kk.on = true
					args = append(args, kk.name, kk.f)
					log("Use(%s) again", kk.name)
				} else {
					nKey++
					// names not in alphabetical order of use
					name := fmt.Sprintf("k%c%d", 'z'-rune(nKey%26), nKey)
					kk := &c06key{name: name, f: lg.elem("use:" + name), on: true}
					m.keys = append(m.keys, kk)
					args = append(args, kk.name, kk.f)
					log("Use(%s)", name)
				}
			}
			x.Use(args...)
			for i := range args { // the caller's slice is the caller's
				if i%2 == 1 {
					args[i] = lg.elem("OVERWRITTEN")
				} else {
					args[i] = "overwritten"
				}
			}
		case k < 11:
			var on []*c06key
			for _, kk := range m.keys {
				if kk.on {
					on = append(on, kk)
				}
			}
			if len(on) == 0 {
				continue
			}
			g.Shuffle(len(on), func(i, j int) { on[i], on[j] = on[j], on[i] })
			n := 1 + g.Intn(len(on))
			if n > 3 && g.Intn(3) > 0 {
				n = 1
			}
			var ks []string
			for _, kk := range on[:n] {
				kk.on = false
				ks = append(ks, kk.name)
			}
			x.UnUse(ks...)
			log("UnUse(%s)", strings.Join(ks, ","))
		case k < 16:
			id := genID(g)
			if g.Intn(10) == 0 {
				id = 0
			}
			if m.byID[id] != nil || id == 900001 || id == 900002 || id == tcpx.DEFAULT_HEARTBEAT_MESSAGEID {
				if m.byID[id] != nil {
					if !panics(func() { x.AddHandler(id, lg.elem("DUPMID"), lg.elem("DUP")) }) {
						r.Violation("second AddHandler(%d) accepted", id)
					}
				}
				continue
			}
			fs := regID(id, selfs())
			x.AddHandler(id, fs...)
			overwrite(fs)
			log("AddHandler(%d,%d)", id, len(fs))
		case k < 18:
			url := fmt.Sprintf("/u/%d", g.Intn(40))
			if m.byURL[url] != nil {
				if !panics(func() { x.Any(url, lg.elem("DUPMID"), lg.elem("DUP")) }) {
					r.Violation("second Any(%s) accepted", url)
				}
				continue
			}
			nH++
			names := []string{}
			n := g.Intn(4)
			if g.Intn(8) == 0 {
				n = 5 + g.Intn(30)
			}
			for i := n; i > 0; i-- {
				names = append(names, fmt.Sprintf("uself%d.%d", nH, i))
			}
			names = append(names, fmt.Sprintf("h%d", nH))
			var fs []func(*tcpx.Context)
			for _, n := range names {
				fs = append(fs, lg.elem(n))
			}
			reg := &c06reg{url: url, isURL: true, tail: append(m.inForce(), names...)}
			m.byURL[url] = reg
			m.regs = append(m.regs, reg)
			x.Any(url, fs...)
			overwrite(fs)
			log("Any(%s,%d)", url, len(fs))
		default:
			// unbalanced calls are refused and change nothing
			if len(m.keys) == 0 || g.Intn(3) == 0 {
				if !panics(func() { x.UnUse("never-used") }) {
					r.Violation("UnUse of a key that was never used was accepted")
				}
				r.Case("refused-unuse-unknown")
				continue
			}
			kk := m.keys[g.Intn(len(m.keys))]
			if kk.on {
				if !panics(func() { x.Use(kk.name, lg.elem("REUSED")) }) {
					r.Violation("Use(%s) while already in force was accepted; program: %s", kk.name, prog())
				}
				r.Case("refused-use-twice")
			} else {
				if !panics(func() { x.UnUse(kk.name) }) {
					r.Violation("UnUse(%s) while not in force was accepted; program: %s", kk.name, prog())
				}
				r.Case("refused-unuse-twice")
			}
		}
		// heartbeat and auth configured somewhere in the middle
		if op == nOps/2 && g.Intn(2) == 0 {
			through := g.Intn(2) == 0
			on := g.Intn(4) > 0
			id := []int32{900001, 0}[g.Intn(2)]
			if m.byID[id] == nil {
				if on {
					x.HeartBeatModeDetail(true, time.Hour, through, tcpx.DEFAULT_HEARTBEAT_MESSAGEID)
					fs := regID(id, nil)
					x.RewriteHeartBeatHandler(id, fs[0])
				} else {
					x.HeartBeatModeDetail(false, time.Hour, through, id)
					fs := regID(id, nil)
					x.AddHandler(id, fs[0])
				}
				m.byID[id].bare = on && !through
				log("HeartBeat(on=%v,through=%v,id=%d)", on, through, id)
			}
		}
		if op == nOps/3 && g.Intn(2) == 0 {
			through := g.Intn(2) == 0
			on := g.Intn(4) > 0
			id := []int32{900002, 0}[g.Intn(2)]
			if m.byID[id] == nil {
				fs := regID(id, nil)
				x.WithAuthDetail(on, time.Hour, through, id, fs[0])
				if !on {
					x.AddHandler(id, fs[0])
				}
				m.byID[id].bare = on && !through
				log("Auth(on=%v,through=%v,id=%d)", on, through, id)
			}
		}
	}
	if len(m.regs) == 0 {
		fs := regID(5, nil)
		x.AddHandler(5, fs...)
	}
	onMsg := g.Intn(6) == 0
	if onMsg {
		x.OnMessage = lg.elem("onmessage")
		log("OnMessage")
	}
	tcpS := r.serve(x, "tcp", nextAddr())
	var udpS *server
	if round%4 == 0 {
		udpS = r.serve(x, "udp", nextAddr())
	}
	want := func(reg *c06reg) []string {
		if onMsg {
			out := append([]string{}, m.globals...)
			for _, k := range m.keys {
				out = append(out, "use:"+k.name)
			}
			return append(out, "onmessage")
		}
		if reg.bare {
			return reg.tail[len(reg.tail)-1:]
		}
		return append(append([]string{}, m.globals...), reg.tail...)
	}
	check := func(reg *c06reg, tag, via string) {
		w := want(reg)
		ok := until(longWait, func() bool { return len(lg.get(tag)) >= len(w) })
		got := lg.get(tag)
		if !ok || strings.Join(got, ",") != strings.Join(w, ",") {
			r.Violation("%s request for %v ran\n  %v\nexpected\n  %v\nprogram: %s", via, reg, got, w, prog())
		}
		exp := 0
		for _, k := range m.keys {
			if !k.on {
				exp++
			}
		}
		key := fmt.Sprintf("%s/%v/%v/%v/g%d/u%d/x%d/t%d", via, reg.isURL, reg.bare, onMsg, bucket(len(m.globals)), bucket(strings.Count(strings.Join(w, ","), "use:")), bucket(exp), bucket(len(reg.tail)))
		if len(m.globals)+len(m.keys) == 0 && len(reg.tail) == 1 {
			key = ""
		}
		r.Case(key)
		r.Sample(map[string]interface{}{"program": trunc(prog(), 300), "request": fmt.Sprint(reg), "chain": w})
	}
	bytesFor := func(g *rand.Rand, reg *c06reg, tag string) []byte {
		if reg.isURL {
			id := int32(0)
			if g.Intn(2) == 0 {
				id = m.regs[g.Intn(len(m.regs))].id // an id that has its own handler, perhaps the heartbeat's
			}
			return frame(id, jsonOf(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": reg.url}), []byte(tag))
		}
		return frame(reg.id, nil, []byte(tag))
	}
	var wg sync.WaitGroup
	for ci := 0; ci < 3; ci++ {
		wg.Add(1)
		go func(g *rand.Rand) {
			defer wg.Done()
			c := tcpS.dial()
			defer c.Close()
			var tags []string
			var regs []*c06reg
			n := len(m.regs)
			if n > 12 {
				n = 12
			}
			for _, i := range g.Perm(len(m.regs))[:n] {
				for rep := 0; rep < 2; rep++ {
					tag := fmt.Sprintf("<%d>", atomic.AddInt64(&c06tag, 1))
					tags = append(tags, tag)
					regs = append(regs, m.regs[i])
					c.Write(bytesFor(g, m.regs[i], tag))
				}
			}
			for i := range tags {
				check(regs[i], tags[i], "tcp")
			}
			// nothing ran late or twice
			for i := range tags {
				if got := lg.get(tags[i]); len(got) != len(want(regs[i])) {
					r.Violation("request for %v: chain kept growing: %v; program: %s", regs[i], got, prog())
				}
			}
		}(rand.New(rand.NewSource(g.Int63())))
	}
	if udpS != nil {
		wg.Add(1)
		go func(g *rand.Rand) {
			defer wg.Done()
			c := udpS.dial()
			defer c.Close()
			for i := 0; i < 5; i++ {
				reg := m.regs[g.Intn(len(m.regs))]
				ok := false
				for try := 0; try < 5 && !ok; try++ {
					tag := fmt.Sprintf("<%d>", atomic.AddInt64(&c06tag, 1))
					c.Write(bytesFor(g, reg, tag))
					if ok = until(200, func() bool { return len(lg.get(tag)) > 0 }); ok {
						check(reg, tag, "udp")
					}
				}
				if !ok {
					r.Violation("udp request for %v ran nothing in 5 tries; program: %s", reg, prog())
				}
			}
		}(rand.New(rand.NewSource(g.Int63())))
	}
	wg.Wait()
	lg.Lock()
	if len(lg.stay) > 0 {
		r.Violation("chain element ran for bytes nobody sent: %v", lg.stay[0])
	}
	lg.Unlock()
	within(longWait, func() { x.Stop(true) })
	waitCh(longWait, tcpS.done)
	if udpS != nil {
		waitCh(longWait, udpS.done)
	}
}

func bucket(n int) int {
	switch {
	case n < 4:
		return n
	case n < 8:
		return 4
	case n < 11:
		return 8
	default:
		return 11
	}
}

var _ net.Conn
