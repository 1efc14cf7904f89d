package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C19"] = c19 }

// c19plan is what one raw connection is to do, and what was observed.
type c19plan struct {
	mode   string // sink, source, echo, duplex, early, abort, park
	via    string // conn or rw or mix: through Context.Conn, ConnReader/ConnWriter, or both in turns
	taste  int    // bytes each middleware reads itself
	in     []byte // what the peer sends
	out    []byte // what the handler writes
	tag    string
	up     chan struct{}
	mu     sync.Mutex
	trace  []string
	got    []byte
	rerr   error
	werr   error
	ended  chan struct{} // handler returned
	closes int32
}

func (p *c19plan) log(s string) { p.mu.Lock(); p.trace = append(p.trace, s); p.mu.Unlock() }
func (p *c19plan) tr() string   { p.mu.Lock(); defer p.mu.Unlock(); return strings.Join(p.trace, " ") }

type c19cfg struct {
	kind    string
	globals int
	uses    int
	useNext bool
	opts    int
}

func (c c19cfg) String() string {
	return fmt.Sprintf("%s/g%d/u%d/next%v/opts%d", c.kind, c.globals, c.uses, c.useNext, c.opts)
}

func c19(r *Rep) {
	r.Rule("one case = one raw connection whose callback trace, bytes received by the handler and bytes received by the peer are compared with the plan; distinct by network, middleware chain, options, mode, access path, sizes and chunking class")
	n := r.N(600)
	sem := make(chan int, 4)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		sem <- 1
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			g := r.Sub(int64(500 + i))
			kinds := []string{"tcp", "tcp4", "unix"}
			if v6 {
				kinds = append(kinds, "tcp6")
			}
			c19run(r, g, c19cfg{kind: kinds[i%len(kinds)], globals: g.Intn(4), uses: g.Intn(4), useNext: g.Intn(2) == 0, opts: g.Intn(64)})
		}(i)
	}
	wg.Wait()
}

func c19run(r *Rep, g *rand.Rand, cfg c19cfg) {
	x := tcpx.NewTcpX(nil)
	var dialMu sync.Mutex
	var next *c19plan
	of := func(c *tcpx.Context) *c19plan {
		v, ok := c.GetCtxPerConn("plan")
		if !ok {
			r.Violation("raw/%v: the connection's values are not visible in its handlers", cfg)
		}
		return v.(*c19plan)
	}
	mid := func(name string) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			p := of(c)
			p.log(name)
			if p.taste > 0 {
				b := make([]byte, p.taste)
				var rd io.Reader = c.ConnReader
				if p.via == "conn" || p.via == "mix" && p.taste%2 == 0 {
					rd = c.Conn
				}
				n, _ := io.ReadFull(rd, b)
				p.got = append(p.got, b[:n]...)
			}
			if p.mode == "abort" && name == p.via {
				c.Abort()
				return
			}
			if cfg.useNext && (name[len(name)-1]-'0')%2 == 0 {
				c.Next()
				p.log("/" + name)
			}
		}
	}
	// options of framed servers must not matter
	if cfg.opts&1 != 0 {
		x.SetMaxBytePerMessage(8)
	}
	if cfg.opts&2 != 0 {
		x.WithBuiltInPool(true)
	}
	if cfg.opts&4 != 0 {
		x.HeartBeatMode(true, time.Hour)
	}
	if cfg.opts&8 != 0 {
		x.WithAuthDetail(true, 10*time.Millisecond, false, 1393, func(c *tcpx.Context) {})
	}
	if cfg.opts&16 != 0 {
		x.OnMessage = func(c *tcpx.Context) { r.Violation("raw/%v: OnMessage ran on a raw server", cfg) }
	}
	if cfg.opts&32 != 0 {
		x.WithBroadCastSignal(true)
	}
	x.AddHandler(1, func(c *tcpx.Context) { r.Violation("raw/%v: a message handler ran on a raw server", cfg) })
	var chain []string
	for i := 0; i < cfg.globals; i++ {
		name := fmt.Sprintf("g%d", i)
		chain = append(chain, name)
		x.UseGlobal(mid(name))
	}
	for i := 0; i < cfg.uses; i++ {
		name := fmt.Sprintf("u%d", i)
		chain = append(chain, name)
		x.Use(name, mid(name))
	}
	x.OnConnect = func(c *tcpx.Context) {
		p := next
		if p == nil {
			r.Violation("raw/%v: OnConnect ran although nobody connected", cfg)
		}
		next = nil
		c.SetCtxPerConn("plan", p)
		p.log("connect")
		close(p.up)
	}
	release := make(chan struct{})
	x.HandleRaw = func(c *tcpx.Context) {
		p := of(c)
		p.log("raw")
		c19handle(c, p, release)
		close(p.ended)
	}
	x.OnClose = func(c *tcpx.Context) {
		p := of(c)
		p.log("close")
		atomic.AddInt32(&p.closes, 1)
	}
	network, addr := cfg.kind, nextAddr()
	switch cfg.kind {
	case "unix":
		addr = sockPath()
	case "tcp6":
		addr = fmt.Sprintf("[::1]:%d", freePort6(r))
	}
	s := r.serveWith(x, network, addr, func() error { return x.ListenAndServeRaw(network, addr) })

	open := func(p *c19plan) net.Conn {
		dialMu.Lock()
		defer dialMu.Unlock()
		next = p
		c := s.dial()
		if !waitCh(longWait, p.up) {
			r.Violation("raw/%v: OnConnect did not run", cfg)
		}
		return c
	}
	// a connection that stays busy during all of this
	parked := newC19plan(g, "park", chain)
	pc := open(parked)
	conns := 24
	var wg sync.WaitGroup
	for j := 0; j < conns; j++ {
		modes := []string{"sink", "source", "echo", "duplex", "early", "duplex", "echo"}
		mode := modes[j%len(modes)]
		if len(chain) > 0 && j%8 == 7 {
			mode = "abort"
		}
		p := newC19plan(g, mode, chain)
		c := open(p)
		wg.Add(1)
		go func(p *c19plan, c net.Conn, g *rand.Rand) {
			defer wg.Done()
			c19client(r, g, cfg, p, c, chain)
		}(p, c, rand.New(rand.NewSource(g.Int63())))
		if j%6 == 5 {
			wg.Wait()
		}
	}
	wg.Wait()
	if cfg.opts&8 != 0 {
		time.Sleep(12 * time.Millisecond) // beyond the auth deadline, which is not for raw servers
	}
	if isClosed(parked.ended) || atomic.LoadInt32(&parked.closes) != 0 {
		r.Violation("raw/%v: a busy connection was ended by others: %s", cfg, parked.tr())
	}
	if !stillOpen(pc, time.Millisecond) {
		r.Violation("raw/%v: a busy connection was closed by others", cfg)
	}
	close(release)
	if b, ok := ended(pc, longWait); !ok || !bytes.Equal(b, parked.out) {
		r.Violation("raw/%v: the connection is not closed after its raw handler returned, or its bytes differ (closed %v, %d of %d bytes)", cfg, ok, len(b), len(parked.out))
	}
	pc.Close()
	s.stop()
}

func newC19plan(g *rand.Rand, mode string, chain []string) *c19plan {
	p := &c19plan{mode: mode, via: []string{"conn", "rw", "mix"}[g.Intn(3)], up: make(chan struct{}), ended: make(chan struct{})}
	size := func() int {
		switch g.Intn(7) {
		case 6:
			if g.Intn(4) > 0 {
				return 65535 + g.Intn(3)
			}
			if g.Intn(8) == 0 {
				return 16<<20 + g.Intn(18<<20)
			}
			return 1<<20 + g.Intn(4<<20)
		case 0:
			return 0
		case 1:
			return 1 + g.Intn(20)
		case 2:
			return 1 + g.Intn(5000)
		case 3:
			return 4096 * (1 + g.Intn(4))
		case 4:
			return g.Intn(300000)
		}
		return 1 << uint(g.Intn(20))
	}
	content := func(n int) []byte {
		b := randBytes(g, n)
		switch g.Intn(5) {
		case 0: // looks like blocks
			var o []byte
			for len(o) < n {
				o = append(o, frame(int32(g.Intn(3)), nil, randBytes(g, g.Intn(40)))...)
			}
			b = o[:n]
		case 1:
			copy(b, []byte{0xff, 0xff, 0xff, 0xff, 0, 0, 0, 1})
		case 2:
			for i := range b {
				b[i] = 0
			}
		case 3:
			for i := range b {
				b[i] = "a\r\nb\n\x00"[i%6]
			}
		}
		return b
	}
	switch mode {
	case "sink":
		p.in = content(size())
	case "source", "park":
		p.out = content(size())
		if mode == "park" && len(p.out) > 50000 {
			p.out = p.out[:50000]
		}
	case "echo":
		p.in = content(size())
		p.out = p.in
	case "duplex":
		p.in, p.out = content(size()), content(size())
	case "early":
		p.in = content(1 + g.Intn(3000))
	case "abort":
		p.via = chain[g.Intn(len(chain))]
	}
	if n := len(chain); n > 0 && (mode == "sink" || mode == "duplex") && len(p.in) > 40*n && g.Intn(2) == 0 {
		p.taste = 1 + g.Intn(40)
	}
	p.tag = fmt.Sprintf("%s/%s/in%d/out%d/taste%v", mode, p.via, bucket(len(p.in)), bucket(len(p.out)), p.taste > 0)
	return p
}

// turns uses two ways to the same connection by turns.
type turns struct {
	rs     [2]io.Reader
	ws     [2]io.Writer
	nr, nw int
}

func (t *turns) Read(b []byte) (int, error) {
	t.nr++
	if len(b) > 700 && t.nr%3 == 0 {
		b = b[:1+t.nr%700]
	}
	return t.rs[t.nr%2].Read(b)
}

type turnsW struct{ t *turns }

func (w turnsW) Write(b []byte) (int, error) { w.t.nw++; return w.t.ws[w.t.nw%2].Write(b) }

func c19handle(c *tcpx.Context, p *c19plan, release chan struct{}) {
	var rd io.Reader = c.Conn
	var wr io.Writer = c.Conn
	switch p.via {
	case "rw":
		rd, wr = c.ConnReader, c.ConnWriter
	case "mix":
		t := &turns{rs: [2]io.Reader{c.Conn, c.ConnReader}, ws: [2]io.Writer{c.ConnWriter, c.Conn}}
		rd, wr = t, turnsW{t}
	}
	write := func(b []byte) {
		for len(b) > 0 {
			n := 1 + len(b)/3
			m, err := wr.Write(b[:n])
			if err != nil {
				p.werr = err
				return
			}
			b = b[m:]
		}
	}
	switch p.mode {
	case "sink":
		b, err := io.ReadAll(rd)
		p.got, p.rerr = append(p.got, b...), err
	case "source":
		write(p.out)
	case "park":
		<-release
		write(p.out)
	case "echo":
		b := make([]byte, 1000)
		for {
			n, err := rd.Read(b)
			p.got = append(p.got, b[:n]...)
			if n > 0 {
				write(b[:n])
			}
			if err != nil {
				if err != io.EOF {
					p.rerr = err
				}
				return
			}
		}
	case "duplex":
		done := make(chan int)
		go func() {
			b, err := io.ReadAll(rd)
			p.got, p.rerr = append(p.got, b...), err
			close(done)
		}()
		write(p.out)
		<-done
	case "early":
		b := make([]byte, 1)
		io.ReadFull(rd, b)
		p.got = append(p.got, b...)
	}
}

func c19client(r *Rep, g *rand.Rand, cfg c19cfg, p *c19plan, c net.Conn, chain []string) {
	defer c.Close()
	where := fmt.Sprintf("raw/%v/%s", cfg, p.tag)
	k := watchClose(c)
	// write in chunks
	sent := make(chan struct{})
	go func() {
		defer close(sent)
		b := p.in
		for len(b) > 0 {
			n := len(b)
			switch g.Intn(3) {
			case 0:
				n = 1 + g.Intn(len(b))
			case 1:
				n = 1 + g.Intn(min(len(b), 700))
			}
			if _, err := c.Write(b[:n]); err != nil {
				return
			}
			b = b[n:]
			if g.Intn(4) == 0 {
				time.Sleep(time.Duration(g.Intn(300)) * time.Microsecond)
			}
		}
		if p.mode == "sink" || p.mode == "echo" || p.mode == "duplex" {
			c.(interface{ CloseWrite() error }).CloseWrite()
		}
	}()
	if !waitCh(longWait*2, k.done) {
		r.Violation("%s: the connection is not closed although its handler is done (returned: %v; trace %s)", where, isClosed(p.ended), p.tr())
	}
	waitCh(longWait, sent)
	if p.mode != "abort" && !waitCh(longWait, p.ended) {
		r.Violation("%s: the raw handler did not run or did not return (trace %s)", where, p.tr())
	}
	if !until(longWait, func() bool { return atomic.LoadInt32(&p.closes) > 0 }) {
		r.Violation("%s: OnClose did not run (trace %s)", where, p.tr())
	}
	time.Sleep(time.Millisecond)
	// expected trace
	want := []string{"connect"}
	var stack []string
	aborted := false
	for _, n := range chain {
		want = append(want, n)
		if p.mode == "abort" && n == p.via {
			aborted = true
			break
		}
		if cfg.useNext && (n[len(n)-1]-'0')%2 == 0 {
			stack = append(stack, "/"+n)
		}
	}
	if !aborted {
		want = append(want, "raw")
	}
	for i := len(stack) - 1; i >= 0; i-- {
		want = append(want, stack[i])
	}
	want = append(want, "close")
	if got := p.tr(); got != strings.Join(want, " ") {
		r.Violation("%s: callbacks ran as %q, not %q", where, got, strings.Join(want, " "))
	}
	if n := atomic.LoadInt32(&p.closes); n != 1 {
		r.Violation("%s: OnClose ran %d times", where, n)
	}
	switch p.mode {
	case "sink", "echo", "duplex":
		if p.rerr != nil || p.werr != nil {
			r.Violation("%s: the handler's read or write failed: %v %v", where, p.rerr, p.werr)
		}
		if !bytes.Equal(p.got, p.in) {
			r.Violation("%s: the handler read %d bytes that differ from the %d sent at %d", where, len(p.got), len(p.in), firstDiff(p.got, p.in))
		}
	case "source":
		if p.werr != nil {
			r.Violation("%s: a write failed: %v", where, p.werr)
		}
	case "early":
		if len(p.got) != 1 || p.got[0] != p.in[0] { // in early mode no middleware reads
			r.Violation("%s: the handler read %x first, the peer sent %x", where, p.got, p.in[:1])
		}
	}
	if p.mode == "early" || p.mode == "abort" {
		if len(k.bytes) != 0 {
			r.Violation("%s: the peer received %d bytes nobody wrote", where, len(k.bytes))
		}
	} else if !bytes.Equal(k.bytes, p.out) {
		r.Violation("%s: the peer received %d bytes that differ from the %d written at %d", where, len(k.bytes), len(p.out), firstDiff(k.bytes, p.out))
	}
	r.Case(fmt.Sprintf("%v/%s", cfg, p.tag))
	r.Count("bytes_compared", int64(len(p.in)+len(p.out)))
	if len(p.in) > 100 {
		r.Sample(map[string]interface{}{"case": where, "trace": p.tr(), "in": len(p.in), "out": len(p.out)})
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}
