package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C20"] = c20 }

// udpDrops sums the drop counters of the sockets with these local addresses; -1 when it cannot tell.
func udpDrops(addrs []string) int64 {
	want := map[string]bool{}
	for _, a := range addrs {
		host, port, err := net.SplitHostPort(a)
		if err != nil {
			return -1
		}
		var p int
		fmt.Sscan(port, &p)
		ip := net.ParseIP(host)
		if v4 := ip.To4(); v4 != nil {
			ip = v4
		}
		h := ""
		for i := 0; i+3 < len(ip); i += 4 {
			h += fmt.Sprintf("%02X%02X%02X%02X", ip[i+3], ip[i+2], ip[i+1], ip[i])
		}
		want[fmt.Sprintf("%s:%04X", h, p)] = true
	}
	var n int64
	for _, f := range []string{"/proc/net/udp", "/proc/net/udp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			return -1
		}
		for i, ln := range strings.Split(string(b), "\n") {
			w := strings.Fields(ln)
			if i == 0 || len(w) < 13 || !want[w[1]] {
				continue
			}
			var d int64
			fmt.Sscan(w[len(w)-1], &d)
			n += d
		}
	}
	return n
}

type c20seen struct {
	chain  []string
	stream []byte
	from   string
}

type c20srv struct {
	r       *Rep
	X       *tcpx.TcpX
	name    string
	buf     int
	mu      sync.Mutex
	seen    map[string]*c20seen
	stray   []string
	chains  map[string][]string // route -> expected chain
	done    chan struct{}
	onMsg   bool
	replies int64
	fail    []string
}

func (s *c20srv) elem(name string, next bool) func(c *tcpx.Context) {
	return func(c *tcpx.Context) {
		s.add(name, c)
		if next {
			c.Next()
		}
	}
}

func (s *c20srv) add(name string, c *tcpx.Context) string {
	tag := ""
	if len(c.Stream) >= 16 {
		tag = tagOf(c.Stream[16:])
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if tag == "" {
		s.stray = append(s.stray, name+" on "+short(c.Stream))
		return ""
	}
	k := s.seen[tag]
	if k == nil {
		k = &c20seen{}
		s.seen[tag] = k
	}
	k.chain = append(k.chain, name)
	return tag
}

func (s *c20srv) final(name string, g *rand.Rand) func(c *tcpx.Context) {
	var mu sync.Mutex
	return func(c *tcpx.Context) {
		mu.Lock()
		how, slow := g.Intn(5), g.Intn(6)
		mu.Unlock()
		if slow == 0 {
			time.Sleep(2 * time.Millisecond) // later datagrams must not overwrite this one
		}
		tag := s.add(name, c)
		if tag == "" {
			return
		}
		s.mu.Lock()
		k := s.seen[tag]
		k.stream = append([]byte(nil), c.Stream...)
		if c.Addr != nil {
			k.from = c.Addr.String()
		}
		s.mu.Unlock()
		reply := func() {
			var err error
			switch how {
			case 0:
				err = c.JSON(5, tag)
			case 1:
				err = c.ReplyWithMarshaller(rawMarshaller{}, 6, []byte(tag))
			case 2:
				err = c.YAML(7, tag)
			case 3:
				err = c.Reply(8, tag)
			default:
				err = c.SendToConn(c, 9, tag)
			}
			if err != nil {
				s.mu.Lock()
				s.fail = append(s.fail, fmt.Sprintf("replying to %s: %v", tag, err))
				s.mu.Unlock()
			}
			atomic.AddInt64(&s.replies, 1)
		}
		if slow == 1 {
			go func() { time.Sleep(time.Millisecond); reply() }()
		} else {
			reply()
		}
	}
}

func newC20(r *Rep, g *rand.Rand, i int) *c20srv {
	s := &c20srv{r: r, X: tcpx.NewTcpX(nil), seen: map[string]*c20seen{}, chains: map[string][]string{}, done: make(chan struct{})}
	x := s.X
	if i%5 == 3 {
		x = tcpx.NewTcpX(tcpx.JsonMarshaller{})
		s.X = x
	}
	var opts []string
	if g.Intn(2) == 0 {
		x.HeartBeatMode(true, []time.Duration{time.Duration(1+g.Intn(10)) * time.Millisecond, time.Hour}[g.Intn(2)])
		opts = append(opts, "hb")
	}
	if g.Intn(2) == 0 {
		x.WithAuthDetail(true, []time.Duration{time.Duration(1+g.Intn(10)) * time.Millisecond, time.Hour}[g.Intn(2)], false, 1393, func(c *tcpx.Context) {})
		opts = append(opts, "auth")
	}
	if g.Intn(2) == 0 {
		x.WithBuiltInPool(true)
		opts = append(opts, "pool")
	}
	if g.Intn(2) == 0 {
		x.WithBroadCastSignal(true)
		opts = append(opts, "bcast")
	}
	if g.Intn(4) == 0 {
		x.OnConnect = func(c *tcpx.Context) {}
		x.OnClose = func(c *tcpx.Context) {}
		opts = append(opts, "callbacks")
	}
	s.onMsg = g.Intn(5) == 0
	var globals, uses []string
	for j := g.Intn(4); j > 0; j-- {
		n := fmt.Sprintf("g%d", len(globals))
		globals = append(globals, n)
		x.UseGlobal(s.elem(n, g.Intn(2) == 0))
	}
	use := func(n string) {
		uses = append(uses, n)
		x.Use(n, s.elem(n, g.Intn(2) == 0))
	}
	for j := g.Intn(3); j > 0; j-- {
		use(fmt.Sprintf("u%d", len(uses)))
	}
	inForce := append([]string(nil), uses...)
	exp := func(route string, own ...string) {
		s.chains[route] = append(append(append([]string{}, globals...), inForce...), own...)
	}
	fg := func() *rand.Rand { return rand.New(rand.NewSource(g.Int63())) }
	if s.onMsg {
		x.OnMessage = s.final("onmessage", fg())
		for _, id := range []int32{1, 2, 77, 0, -3} {
			exp(fmt.Sprint(id), "onmessage")
		}
		exp("/a", "onmessage")
		exp("/none", "onmessage")
	} else {
		x.AddHandler(1, s.final("h1", fg()))
		exp("1", "h1")
		x.AddHandler(0, s.elem("s0", false), s.final("h0", fg()))
		exp("0", "s0", "h0")
		x.Any("/a", s.elem("sa", true), s.final("ha", fg()))
		exp("/a", "sa", "ha")
		if len(inForce) > 0 {
			x.UnUse(inForce[0])
			inForce = inForce[1:]
		}
		x.AddHandler(2, s.final("h2", fg()))
		exp("2", "h2")
		x.AddHandler(-3, s.elem("s1", true), s.elem("s2", false), s.final("h3", fg()))
		exp("-3", "s1", "s2", "h3")
		x.AddHandler(10, s.elem("early", false), func(c *tcpx.Context) { s.add("aborts", c); c.Abort() }, s.final("never", fg()))
		exp("10", "early", "aborts")
	}
	s.buf = []int{4096, 4096, 64, 128, 1000, 65535}[i%6]
	s.name = fmt.Sprintf("buf%d/onMessage%v/%s", s.buf, s.onMsg, strings.Join(opts, "+"))
	return s
}

var c20tag int64

// hostileDatagram makes one that holds no complete decodable message within buf bytes.
func hostileDatagram(g *rand.Rand, buf int, network string) ([]byte, string) {
	tag := fmt.Sprintf("<h%d>", atomic.AddInt64(&c20tag, 1))
	f := frame(1, nil, []byte(tag+"xxxxxxxxxxxxxxxxxxxx"))
	put := func(off int, v uint32) []byte { binary.BigEndian.PutUint32(f[off:], v); return f }
	switch k := g.Intn(12); k {
	case 0:
		return []byte{}, "empty"
	case 1:
		return f[:1+g.Intn(3)], "short-of-length"
	case 2:
		return f[:4+g.Intn(12)], "short-of-header"
	case 3:
		return f[:16+g.Intn(len(f)-16)], "cut"
	case 4:
		return put(0, 0x80000000|uint32(g.Uint32())), "negative-length"
	case 5:
		return put(0, []uint32{0x7fffffff, 0x7ffffffb, 0x7ffffffc, 0x10000000}[g.Intn(4)]), "huge-length"
	case 6:
		return put(0, uint32(g.Intn(12))), "length-below-fixed-part"
	case 7:
		return put(8, []uint32{0x7fffffff, 0xffffffff, 0x80000000, uint32(len(f)), uint32(len(f) - 15)}[g.Intn(5)]), "header-length"
	case 8:
		h := []string{"{", "[]", "\"x\"", "1", "{\"a\":}", "\x00\x01", "true", "{}}"}[g.Intn(8)]
		return frame(1, []byte(h), []byte(tag)), "header-not-decodable"
	case 9:
		if buf > 60000 || network == "unixgram" && buf > 60000 {
			return f[:len(f)-1], "cut"
		}
		b := []byte(tag)
		for 16+len(b) <= buf {
			b = append(b, 'z')
		}
		b = append(b, make([]byte, g.Intn(50))...)
		return frame(1, nil, b), "over-buffer"
	case 10:
		return put(0, uint32(len(f)-4+1+g.Intn(8))), "declares-more"
	}
	b := randBytes(g, g.Intn(60))
	if len(b) >= 4 && g.Intn(2) == 0 {
		b[0] |= 0x80
	} else if len(b) >= 1 {
		b[0] = 0x40 | b[0]&0x3f
	}
	return b, "noise"
}

func c20(r *Rep) {
	r.Rule("one case = one datagram sent: a valid one is followed to its handler chain, its bytes and its reply at the sender's address, a hostile one to the absence of all of these; distinct by network, buffer size, options, route, size class or kind of defect")
	r.Assume("a valid datagram that the kernel dropped (drop counters of /proc/net/udp moved) is not judged; loopback neither reorders across sockets nor duplicates")
	c20bind(r)
	nets := []string{"udp", "udp4", "unixgram"}
	if v6 {
		nets = append(nets, "udp6")
	}
	n := r.N(400)
	sem := make(chan int, 4)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		sem <- 1
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			g := r.Sub(int64(700 + i))
			c20run(r, g, i, nets[i%len(nets)])
		}(i)
	}
	wg.Wait()
	for i := 0; i < r.N(6); i++ {
		c20same(r, r.Sub(int64(90+i)), []string{"udp", "unixgram", "udp4"}[i%3], i%2 == 1)
	}
}

func c20bind(r *Rep) {
	ok := tcpx.NewTcpX(nil)
	addEcho(ok)
	s := r.serve(ok, "udp", nextAddr())
	if n := tcpx.NewTcpX(nil); true {
		addEcho(n)
		bad := [][2]string{{"udp", s.Addr}, {"udp4", s.Addr}, {"udp", "nonsense"}, {"udp", "127.0.0.1:70000"}, {"udp", "256.0.0.1:1"}, {"udp", "8.8.8.8:9"}, {"udp4", "[::1]:9"}, {"unixgram", filepath.Join(*flagTmp, "no/such/dir/s")}, {"udp", "127.0.0.1"}}
		for _, b := range bad {
			for _, direct := range []bool{false, true} {
				b := b
				var err error
				if !within(longWait, func() {
					if direct {
						err = n.ListenAndServeUDP(b[0], b[1], 512)
					} else {
						err = n.ListenAndServe(b[0], b[1])
					}
				}) {
					r.Violation("listening on %v, which cannot be bound, neither fails nor returns", b)
				}
				if err == nil {
					r.Violation("listening on %v, which cannot be bound, returned no error", b)
				}
				r.Case(fmt.Sprintf("bind/%s/%d/%v", b[0], len(b[1]), direct))
			}
		}
	}
	c := s.dial()
	if err := udpPing(c); err != nil {
		r.Violation("a server was disturbed by others that could not bind: %v", err)
	}
	c.Close()
	s.stop()
}

type c20want struct {
	tag, route string
	data       []byte // the block
	client     int
	handled    bool
	sizeClass  string
}

type c20cli struct {
	c    net.PacketConn
	to   net.Addr
	conn net.Conn
	mu   sync.Mutex
	got  map[string]int
	odd  []string
}

// c20same: a datagram that was sent again is handled again.
func c20same(r *Rep, g *rand.Rand, network string, onMessage bool) {
	x := tcpx.NewTcpX(nil)
	var mu sync.Mutex
	n := map[string]int{}
	h := func(c *tcpx.Context) {
		mu.Lock()
		n[string(c.Stream)]++
		mu.Unlock()
		c.JSON(77, "ok")
	}
	x.AddHandler(5, h)
	x.Any("/same", h)
	if onMessage {
		x.OnMessage = h
	}
	addr := nextAddr()
	if network == "unixgram" {
		addr = sockPath()
	}
	srv := r.serveWith(x, network, addr, func() error { return x.ListenAndServe(network, addr) })
	var cs []net.Conn
	var locals []string
	for i := 0; i < 2; i++ {
		c, err := dialFrom(network, addr)
		if err != nil {
			r.HarnessError("dial %s: %v", network, err)
		}
		defer c.Close()
		cs = append(cs, c)
		locals = append(locals, c.LocalAddr().String())
	}
	locals = append(locals, addr)
	for _, pat := range []string{"aaaa", "abab", "aabb", "aaaaaaaaaaaa", "aba", "AaAa", "aAbBaA"} {
		hdr := []byte(nil)
		if g.Intn(2) == 0 {
			hdr = jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/same"})
		}
		salt := fmt.Sprint(g.Int63())
		before := udpDrops(locals)
		want := map[string]int{}
		for _, ch := range pat {
			ci := 0
			if ch >= 'A' && ch <= 'Z' { // the same from another sender
				ci, ch = 1, ch+'a'-'A'
			}
			d := frame(5, hdr, []byte(salt+string(ch)))
			want[string(d)]++
			cs[ci].Write(d)
			if g.Intn(3) == 0 {
				time.Sleep(time.Duration(g.Intn(3000)) * time.Microsecond)
			}
		}
		ok := until(longWait, func() bool {
			mu.Lock()
			defer mu.Unlock()
			for d, k := range want {
				if n[d] < k {
					return false
				}
			}
			return true
		})
		time.Sleep(time.Millisecond)
		mu.Lock()
		for d, k := range want {
			if n[d] > k {
				r.Violation("%s: a datagram sent %d times was handled %d times", network, k, n[d])
			}
			if n[d] < k && network != "unixgram" && udpDrops(locals) != before {
				r.Inconclusive("%s: a repeated datagram was not handled, the kernel dropped some", network)
			} else if n[d] < k {
				r.Violation("%s: a datagram sent %d times (pattern %s) was handled %d times although the kernel dropped none", network, k, pat, n[d])
			}
		}
		mu.Unlock()
		r.Case(fmt.Sprintf("same/%s/%s/%v/%v", network, pat, onMessage, ok))
	}
	srv.stop()
}

func c20run(r *Rep, g *rand.Rand, i int, network string) {
	s := newC20(r, g, i)
	x := s.X
	addr := nextAddr()
	switch network {
	case "unixgram":
		addr = sockPath()
	case "udp6":
		addr = fmt.Sprintf("[::1]:%d", freePort6(r))
	}
	where := network + "/" + s.name
	srv := r.serveWith(x, network, addr, func() error {
		if s.buf == 4096 && g.Intn(2) == 0 {
			return x.ListenAndServe(network, addr)
		}
		return x.ListenAndServeUDP(network, addr, s.buf)
	})
	// clients
	var cls []*c20cli
	locals := []string{addr}
	for k := 0; k < 3; k++ {
		cl := &c20cli{got: map[string]int{}}
		if network == "unixgram" || k%2 == 0 {
			c, err := dialFrom(network, addr)
			if err != nil {
				r.HarnessError("dial %s: %v", network, err)
			}
			cl.conn = c
			locals = append(locals, c.LocalAddr().String())
		} else {
			la := "127.0.0.1:0"
			if network == "udp6" {
				la = "[::1]:0"
			}
			pc, err := net.ListenPacket(network, la)
			if err != nil {
				r.HarnessError("listen %s: %v", network, err)
			}
			cl.c = pc
			locals = append(locals, pc.LocalAddr().String())
			cl.to, _ = net.ResolveUDPAddr(network, addr)
		}
		cls = append(cls, cl)
		go func(cl *c20cli) {
			b := make([]byte, 70000)
			for {
				var n int
				var err error
				var from net.Addr
				if cl.conn != nil {
					n, err = cl.conn.Read(b)
				} else {
					n, from, err = cl.c.ReadFrom(b)
				}
				if err != nil {
					if strings.Contains(err.Error(), "refused") {
						continue
					}
					return
				}
				m, e := parseFrame(append([]byte(nil), b[:n]...))
				cl.mu.Lock()
				switch {
				case e != nil:
					cl.odd = append(cl.odd, fmt.Sprintf("%v: %s", e, short(b[:n])))
				case from != nil && from.String() != cl.to.String():
					cl.odd = append(cl.odd, "a reply came from "+from.String())
				default:
					cl.got[tagOf([]byte(strings.NewReplacer("\\u003c", "<", "\\u003e", ">", "&lt;", "<", "&gt;", ">").Replace(string(m.Body))))]++
				}
				cl.mu.Unlock()
			}
		}(cl)
	}
	var drops0 int64
	var routes []string
	for k := range s.chains {
		routes = append(routes, k)
	}
	sortStrings(routes)
	var all []*c20want
	hostile := map[string]int64{}
	batches := 14
	for b := 0; b < batches; b++ {
		var batch []*c20want
		flying := 0 // more than the socket buffers hold would be dropped
		for k := 1 + g.Intn(6); k > 0 && flying < 70000; k-- {
			ci := g.Intn(len(cls))
			cl := cls[ci]
			if g.Intn(3) == 0 {
				d, kind := hostileDatagram(g, s.buf, network)
				if network == "unixgram" && len(d) > 60000 {
					continue
				}
				hostile[kind]++
				cl.send(d)
				flying += len(d)
				r.Case(fmt.Sprintf("%s/hostile/%s", where, kind))
				continue
			}
			w := &c20want{tag: fmt.Sprintf("<%d>", atomic.AddInt64(&c20tag, 1)), client: ci, route: routes[g.Intn(len(routes))]}
			var hdr []byte
			id := int32(0)
			if strings.HasPrefix(w.route, "/") {
				hdr = jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": w.route})
				id = int32(g.Intn(3))
			} else {
				fmt.Sscan(w.route, &id)
				hdr = [][]byte{nil, nil, nil, []byte("{}"), []byte("null"), jsonOf(map[string]string{"k": "v"}), jsonOf(map[string]string{tcpx.PIPED: "enable;1"}), jsonOf(map[string]string{tcpx.PIPED: "enable;3"}), jsonOf(map[string]string{tcpx.PIPED: "x"})}[g.Intn(9)]
			}
			if !s.onMsg && g.Intn(8) == 0 { // nobody's
				w.route = "none"
				if g.Intn(2) == 0 {
					id, hdr = 4242, nil
				} else {
					hdr = jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/nobody"})
				}
			}
			max := s.buf
			if max > 65000 {
				max = 65000
			}
			if network == "unixgram" && max > 30000 {
				max = 30000
			}
			room := max - 16 - len(hdr)
			if room < len(w.tag) {
				hdr = nil
				id, w.route = 1, "1"
				room = max - 16
			}
			size := len(w.tag)
			w.sizeClass = "min"
			switch g.Intn(4) {
			case 0:
				size, w.sizeClass = room, "full"
			case 1:
				if room > size {
					size += g.Intn(room - size)
				}
				w.sizeClass = "some"
			}
			body := append([]byte(w.tag), make([]byte, size-len(w.tag))...)
			g.Read(body[len(w.tag):])
			w.data = frame(id, hdr, body)
			d := w.data
			if g.Intn(6) == 0 && len(d) < max { // something after the message
				d = append(append([]byte(nil), d...), randBytes(g, 1+g.Intn(max-len(d)))...)
				w.sizeClass += "+tail"
			}
			cl.send(d)
			flying += len(d)
			batch = append(batch, w)
		}
		// every valid one of the batch is handled and answered
		pending := ""
		ok := until(longWait, func() bool {
			pending = ""
			for _, w := range batch {
				if !s.complete(w, cls) {
					pending = w.tag + " route " + w.route
					return false
				}
			}
			return true
		})
		if !ok {
			if d := udpDrops(locals); network != "unixgram" && (d < 0 || d != drops0) {
				r.Inconclusive("%s: a datagram was not handled, the kernel dropped some (%d, %d)", where, drops0, d)
				drops0 = d
				continue
			}
			s.mu.Lock()
			fail := strings.Join(s.fail, "; ")
			s.mu.Unlock()
			r.Violation("%s: datagram %s is not handled and answered although it was not dropped by the kernel (%v, want chain %v) %s", where, pending, s.chainOf(pending), s.chains[routeOf(pending)], fail)
		}
		all = append(all, batch...)
		if b == batches/2 {
			time.Sleep(35 * time.Millisecond) // idle longer than the watchers' times
		}
	}
	time.Sleep(20 * time.Millisecond)
	s.mu.Lock()
	for _, w := range all {
		k := s.seen[w.tag]
		if w.route == "none" {
			if k != nil {
				r.Violation("%s: a datagram for nobody was handled by %v", where, k.chain)
			}
			continue
		}
		if fmt.Sprint(k.chain) != fmt.Sprint(s.chains[w.route]) {
			r.Violation("%s: datagram for %s ran %v, not %v once", where, w.route, k.chain, s.chains[w.route])
		}
		if w.route != "10" && !bytes.Equal(k.stream, w.data) {
			r.Violation("%s: the handler saw %s, the message was %s", where, short(k.stream), short(w.data))
		}
		r.Case(fmt.Sprintf("%s/%s/%s", where, w.route, w.sizeClass))
	}
	for t, k := range s.seen {
		if strings.HasPrefix(t, "<h") {
			r.Violation("%s: a hostile datagram (%s) reached %v", where, t, k.chain)
		}
	}
	if len(s.stray) > 0 {
		r.Violation("%s: a datagram that holds no message reached a handler: %s", where, s.stray[0])
	}
	if len(s.fail) > 0 {
		r.Violation("%s: %s", where, s.fail[0])
	}
	s.mu.Unlock()
	for ci, cl := range cls {
		cl.mu.Lock()
		if len(cl.odd) > 0 {
			r.Violation("%s: %s", where, cl.odd[0])
		}
		for t, n := range cl.got {
			mine := false
			for _, w := range all {
				mine = mine || w.tag == t && w.client == ci
			}
			if !mine {
				// replies to datagrams of batches that were not judged are possible
				if strings.HasPrefix(t, "<h") || t == "" {
					r.Violation("%s: the peer got a reply to nothing: %q", where, t)
				}
				for _, w := range all {
					if w.tag == t {
						r.Violation("%s: a reply went to another client than the one that asked", where)
					}
				}
			}
			if n != 1 {
				r.Violation("%s: %d replies to one datagram", where, n)
			}
		}
		cl.mu.Unlock()
	}
	if isClosed(srv.done) {
		r.Violation("%s: the server stopped serving by itself: %v", where, srv.err)
	}
	for _, cl := range cls {
		if cl.conn != nil {
			cl.conn.Close()
		} else {
			cl.c.Close()
		}
	}
	r.Count("valid", int64(len(all)))
	for k, n := range hostile {
		r.Count("hostile_"+k, n)
	}
	r.Sample(map[string]interface{}{"server": where, "valid": len(all), "hostile": hostile, "chains": s.chains})
	srv.stop()
}

func sortStrings(a []string) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func (cl *c20cli) send(b []byte) {
	for i := 0; i < 50; i++ { // a write that fails has sent nothing
		var err error
		if cl.conn != nil {
			_, err = cl.conn.Write(b)
		} else {
			_, err = cl.c.WriteTo(b, cl.to)
		}
		if err == nil || len(b) == 0 {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func routeOf(p string) string {
	if i := strings.Index(p, " route "); i >= 0 {
		return p[i+7:]
	}
	return ""
}

func (s *c20srv) chainOf(p string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := strings.SplitN(p, " ", 2)[0]
	if k := s.seen[t]; k != nil {
		return append([]string(nil), k.chain...)
	}
	return nil
}

func (s *c20srv) complete(w *c20want, cls []*c20cli) bool {
	if w.route == "none" {
		return true
	}
	s.mu.Lock()
	k := s.seen[w.tag]
	ok := k != nil && len(k.chain) >= len(s.chains[w.route])
	s.mu.Unlock()
	if !ok {
		return false
	}
	if w.route == "10" {
		return true
	}
	cl := cls[w.client]
	cl.mu.Lock()
	defer cl.mu.Unlock()
	return cl.got[w.tag] > 0
}
