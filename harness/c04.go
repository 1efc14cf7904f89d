package main

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C04"] = c04 }

// guardedReader hands out data and records how much was asked for beyond it.
type guardedReader struct {
	data []byte
	off  int
	over bool
	one  bool
}

func (g *guardedReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if g.off >= len(g.data) {
		g.over = true
		return 0, io.ErrUnexpectedEOF
	}
	if g.one {
		p = p[:1]
	}
	n := copy(p, g.data[g.off:])
	g.off += n
	return n, nil
}

func be32(v uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, v); return b }

func c04(r *Rep) {
	r.Rule("one case = one declared length met by a limited reader or by a server connection (limit, declared length relative to it, position in the stream or batch, prefix only or with content); distinct by those; messages far below the limit are trivial")
	c04readers(r)
	c04servers(r)
	c04unlimited(r)
}

func relLen(l, limit int64) string {
	switch {
	case l < 0 || l >= 0x80000000:
		return "neg"
	case l < limit-1:
		return "below"
	case l <= limit+1:
		return fmt.Sprintf("limit%+d", l-limit)
	case l < 0x7fffffff:
		return "above"
	default:
		return "max"
	}
}

func c04readers(r *Rep) {
	px := tcpx.NewPackx(nil)
	fns := []struct {
		name string
		f    func(rd io.Reader, limit int32) ([]byte, error)
	}{
		{"FirstBlockOfLimitMaxByte", func(rd io.Reader, l int32) ([]byte, error) { return tcpx.FirstBlockOfLimitMaxByte(rd, l) }},
		{"Packx.FirstBlockOfLimitMaxByte", func(rd io.Reader, l int32) ([]byte, error) { return px.FirstBlockOfLimitMaxByte(rd, l) }},
		{"UnpackToBlockFromReaderLimitMaxLengthOfByte", func(rd io.Reader, l int32) ([]byte, error) {
			return tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(rd, int(l))
		}},
	}
	limits := []int32{12, 13, 16, 20, 100, 255, 256, 257, 1023, 1024, 4096, 65535, 65536, 100000, 1 << 20, 1<<20 + 1, 0x7ffffffe}
	g := r.Sub(4)
	for i := 0; i < 20; i++ {
		limits = append(limits, int32(12+g.Intn(200000)))
	}
	for _, fn := range fns {
		for _, limit := range limits {
			L := int64(limit)
			for _, d := range []int64{12, L / 2, L - 1, L, L + 1, L + 2, L + 3, L + 4, L + 5, L + 12, L + 16, 2 * L, 10 * L, L + 65536, L + 0x1000000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0x80000000 + L, 0xffffffff - L, 0xfffffff0, 0xffffffff} {
				if d < 12 || d > 0xffffffff {
					continue
				}
				neg := d >= 0x80000000
				key := fmt.Sprintf("%s/%d/%s", fn.name, limit, relLen(d, L))
				if neg || d > L {
					for _, one := range []bool{false, true} {
						rd := &guardedReader{data: append(be32(uint32(d)), bytes.Repeat([]byte{7}, 64)...), one: one}
						var m0, m1 runtime.MemStats
						big := d-L > 1<<20
						if big {
							runtime.ReadMemStats(&m0)
						}
						b, err := fn.f(rd, limit)
						if err == nil {
							r.Violation("%s with limit %d returned a block for declared length %d", fn.name, limit, d)
						}
						if len(b) != 0 {
							r.Violation("%s with limit %d returned %d bytes with its error for declared length %d", fn.name, limit, len(b), d)
						}
						if rd.off != 4 {
							r.Violation("%s with limit %d consumed %d bytes on a message of declared length %d, only the 4-byte prefix may be read", fn.name, limit, rd.off, d)
						}
						if big {
							runtime.ReadMemStats(&m1)
							if a := m1.TotalAlloc - m0.TotalAlloc; a > uint64(1<<20) && int64(a) > (d-L)/4 {
								r.Violation("%s with limit %d allocated %d bytes on a message of declared length %d", fn.name, limit, a, d)
							}
						}
						r.Case(key + fmt.Sprint(one))
					}
				} else if d <= 2<<20 {
					blk := append(be32(uint32(d)), randBytes(g, int(d))...)
					rd := &guardedReader{data: append(append([]byte{}, blk...), 1, 2, 3), one: d < 300}
					b, err := fn.f(rd, limit)
					if err != nil || !bytes.Equal(b, blk) {
						r.Violation("%s with limit %d did not return the message of length %d: err=%v, %d bytes", fn.name, limit, d, err, len(b))
					}
					if rd.off != len(blk) {
						r.Violation("%s with limit %d consumed %d bytes for a block of %d", fn.name, limit, rd.off, len(blk))
					}
					r.Case(key)
				}
			}
		}
		// no limit
		for _, limit := range []int32{0, -1, -2147483648} {
			if fn.name == "UnpackToBlockFromReaderLimitMaxLengthOfByte" {
				continue
			}
			for _, n := range []int{12, 5000, 3 << 20} {
				blk := append(be32(uint32(n)), randBytes(g, n)...)
				b, err := fn.f(bytes.NewReader(blk), limit)
				if err != nil || !bytes.Equal(b, blk) {
					r.Violation("%s with limit %d (unlimited) did not return a message of length %d: %v", fn.name, limit, n, err)
				}
				r.Case(fmt.Sprintf("%s/unl%d/%d", fn.name, limit, n))
			}
		}
	}
}

// seen records handled bodies.
type seen struct {
	sync.Mutex
	n map[string]int
}

func newSeen() *seen { return &seen{n: map[string]int{}} }
func (s *seen) add(k string) {
	s.Lock()
	s.n[k]++
	s.Unlock()
}
func (s *seen) get(k string) int {
	s.Lock()
	defer s.Unlock()
	return s.n[k]
}
func (s *seen) total() int {
	s.Lock()
	defer s.Unlock()
	t := 0
	for _, v := range s.n {
		t += v
	}
	return t
}

type c04srv struct {
	s     *server
	seen  *seen
	limit int32
	name  string
	tls   bool
}

func (c *c04srv) dial() net.Conn {
	n := c.s.dial()
	if c.tls {
		return tls.Client(n, &tls.Config{InsecureSkipVerify: true})
	}
	return n
}

func c04start(r *Rep, name, network string, limit int32, tlsOn, onMsg bool, opts ...func(*tcpx.TcpX)) *c04srv {
	x := tcpx.NewTcpX(nil)
	for _, o := range opts {
		o(x)
	}
	sn := newSeen()
	h := func(c *tcpx.Context) {
		b, err := c.RawStream()
		if err != nil {
			sn.add("BAD " + err.Error())
			return
		}
		l := len(b)
		if l > 24 {
			l = 24
		}
		sn.add(fmt.Sprintf("%s/%d", b[:l], len(c.Stream)))
	}
	x.SetMaxBytePerMessage(limit)
	if onMsg {
		x.OnMessage = func(c *tcpx.Context) {
			if id, _ := tcpx.MessageIDOf(c.Stream); id == echoID {
				b, _ := c.RawStream()
				out, _ := c.Packx.PackWithBody(echoID, b)
				c.Conn.Write(out)
				return
			}
			h(c)
		}
	} else {
		addEcho(x)
		x.AddHandler(5, h)
		x.Any("/u", h)
	}
	if tlsOn {
		x.TLSConfig = &tls.Config{Certificates: []tls.Certificate{testCert(r)}}
	}
	addr := nextAddr()
	if network == "unix" {
		addr = sockPath()
	}
	return &c04srv{s: r.serve(x, network, addr), seen: sn, limit: limit, name: name, tls: tlsOn}
}

// sized builds a message of exactly l bytes after the prefix, with a unique body.
func sized(id int32, hdr []byte, tag string, l int) ([]byte, string) {
	if hdr == nil {
		hdr = []byte("{}")
	}
	bl := l - 12 - len(hdr)
	if bl < 0 {
		hdr = nil
		bl = l - 12
	}
	body := append([]byte(fmt.Sprintf("%-20s", tag)), bytes.Repeat([]byte{'.'}, bl)...)[:bl]
	b := frame(id, hdr, body)
	k := len(body)
	if k > 24 {
		k = 24
	}
	return b, fmt.Sprintf("%s/%d", body[:k], len(b))
}

var c04tag int64

func c04servers(r *Rep) {
	var srvs []*c04srv
	for _, l := range []int32{12, 40, 100, 1000, 4096, 65536, 1 << 20, 0x7fffffff} {
		srvs = append(srvs, c04start(r, fmt.Sprintf("tcp%d", l), "tcp", l, false, false))
	}
	for i, o := range []struct {
		name string
		f    func(*tcpx.TcpX)
	}{
		{"auth", func(x *tcpx.TcpX) { x.WithAuthDetail(true, time.Hour, true, 1393, func(c *tcpx.Context) {}) }},
		{"hb", func(x *tcpx.TcpX) { x.HeartBeatMode(true, time.Hour) }},
		{"pool", func(x *tcpx.TcpX) { x.WithBuiltInPool(true); x.WithBroadCastSignal(true) }},
		{"deadline", func(x *tcpx.TcpX) {
			x.SetDeadline(time.Now().Add(time.Hour))
			x.SetReadDeadline(time.Now().Add(time.Hour))
		}},
		{"all", func(x *tcpx.TcpX) {
			x.WithBuiltInPool(true)
			x.WithBroadCastSignal(true)
			x.HeartBeatModeDetail(true, time.Hour, true, 1392)
			x.WithAuthDetail(true, time.Hour, false, 1393, func(c *tcpx.Context) {})
			x.OnConnect = func(c *tcpx.Context) {}
			x.OnClose = func(c *tcpx.Context) {}
			x.UseGlobal(func(c *tcpx.Context) { c.Next() })
		}},
	} {
		for j, l := range []int32{100, 800, 5000} {
			srvs = append(srvs, c04start(r, o.name+fmt.Sprint(l), []string{"tcp", "tcp4", "unix"}[(i+j)%3], l, (i+j)%4 == 1, (i+2*j)%5 == 3, o.f))
		}
	}
	srvs = append(srvs, c04start(r, "tls", "tcp", 3000, true, false), c04start(r, "unix", "unix", 3000, false, false), c04start(r, "onmsg", "tcp", 500, false, true))
	type expect struct {
		s  *c04srv
		k  string
		n  int
		it string
	}
	var mu sync.Mutex
	var expects []expect
	total := map[*c04srv]int{}
	var bys []net.Conn
	for _, s := range srvs {
		if s.limit < 60 {
			bys = append(bys, nil)
			continue
		}
		c := s.dial()
		bys = append(bys, c)
	}
	var wg sync.WaitGroup
	tag := 0
	one := func(s *c04srv, g *rand.Rand, tagBase int) {
		lim := int(s.limit)
		if lim > 2<<20 {
			lim = 2 << 20
		}
		c := s.dial()
		defer c.Close()
		c.SetWriteDeadline(time.Now().Add(60 * time.Second))
		var stream []byte
		t := 0
		minLen := 40
		if lim < 40 {
			minLen = 12
		}
		add := func(l int, hdr []byte) {
			t++
			b, k := sized(5, hdr, fmt.Sprintf("t%d.%d", tagBase, t), l)
			stream = append(stream, b...)
			mu.Lock()
			expects = append(expects, expect{s, k, 1, ""})
			total[s]++
			mu.Unlock()
		}
		lens := func() int {
			switch g.Intn(4) {
			case 0:
				return lim
			case 1:
				return max(minLen, lim-1)
			default:
				return minLen + g.Intn(lim-minLen+1)
			}
		}
		pos := ""
		for i := g.Intn(3); i > 0; i-- {
			add(lens(), nil)
			pos += "m"
		}
		inPipe := false
		if lim >= 100 && g.Intn(3) == 0 {
			n := 2 + g.Intn(4)
			ph := jsonOf(map[string]string{tcpx.PIPED: fmt.Sprintf("enable;%d", n)})
			have := 1 + g.Intn(n-1)
			add(max(len(ph)+40, lens()), ph)
			for j := 1; j < have; j++ {
				add(lens(), nil)
			}
			inPipe = true
			pos += fmt.Sprintf("p%d.%d", have, n)
		}
		// the offender
		L := int64(s.limit)
		cands := []int64{L + 1, L + 2, L + 3, L + 4, L + 16, 2*L + 1, L + 100000, 0x7fffffff, 0x80000000, 0x80000000 + int64(g.Intn(1<<30)), 0xffffffff, 0xfffffff4}
		var d int64
		for {
			d = cands[g.Intn(len(cands))]
			if d <= 0xffffffff && (d > L || d >= 0x80000000) {
				break
			}
		}
		prefixOnly := g.Intn(2) == 0
		stream = append(stream, be32(uint32(d))...)
		bad := ""
		if !prefixOnly {
			// content and further messages, all of which must stay unread
			x, k := sized(5, nil, fmt.Sprintf("bad%d", tagBase), 60)
			content := append([]byte{0, 0, 0, 5, 0, 0, 0, 2, 0, 0, 0, 3, '{', '}', 'x', 'y', 'z'}, x...)
			for i := 0; i < 3; i++ {
				content = append(content, x...)
			}
			if d < 1<<20 && int64(len(content)) < d {
				content = append(content, make([]byte, d-int64(len(content)))...)
				content = append(content, x...)
			}
			stream = append(stream, content...)
			bad = k
		}
		if g.Intn(3) == 0 && len(stream) < 2000 {
			for i := range stream {
				if _, err := c.Write(stream[i : i+1]); err != nil {
					break
				}
			}
		} else {
			c.Write(stream)
		}
		desc := fmt.Sprintf("%s limit %d, declared length %d, position %s, prefix only %v", s.name, s.limit, d, pos, prefixOnly)
		data, ok := ended(c, longWait)
		if !ok {
			r.Violation("connection not ended after an over-limit length prefix: %s", desc)
		}
		if len(data) > 0 {
			r.Violation("bytes %s sent on a connection without replying handlers: %s", short(data), desc)
		}
		if bad != "" {
			mu.Lock()
			expects = append(expects, expect{s, bad, 0, desc})
			mu.Unlock()
		}
		_ = inPipe
		r.Case(fmt.Sprintf("srv/%s/%s/%s/%v", s.name, relLen(d, L), pos, prefixOnly))
		r.Sample(desc)
	}
	n := r.N(120)
	for si, s := range srvs {
		for w := 0; w < 2; w++ {
			wg.Add(1)
			tag += 100000
			go func(s *c04srv, g *rand.Rand, tb int) {
				defer wg.Done()
				k := n
				if s.limit > 1<<19 {
					k = n/4 + 1
				}
				for i := 0; i < k; i++ {
					one(s, g, tb+i)
				}
			}(s, r.Sub(int64(si*10+w+400)), tag)
		}
	}
	stopBy := make(chan struct{})
	var byWg sync.WaitGroup
	for i, c := range bys {
		if c == nil {
			continue
		}
		byWg.Add(1)
		go func(s *c04srv, c net.Conn) {
			defer byWg.Done()
			for !isClosed(stopBy) {
				if err := ping(c); err != nil {
					r.Violation("%s: another connection was disturbed by over-limit messages elsewhere: %v", s.name, err)
				}
				r.Count("bystander_pings", 1)
				time.Sleep(3 * time.Millisecond)
			}
		}(srvs[i], c)
	}
	wg.Wait()
	close(stopBy)
	byWg.Wait()
	// every legal message exactly once, no other
	for _, s := range srvs {
		if !until(longWait, func() bool { return s.seen.total() >= total[s] }) {
			r.Violation("%s: only %d of %d messages within the limit were handled", s.name, s.seen.total(), total[s])
		}
	}
	time.Sleep(50 * time.Millisecond)
	for _, s := range srvs {
		if s.seen.total() != total[s] {
			s.seen.Lock()
			ex := map[string]bool{}
			for _, e := range expects {
				if e.s == s && e.n > 0 {
					ex[e.k] = true
				}
			}
			for k := range s.seen.n {
				if !ex[k] {
					r.Violation("%s limit %d: a handler got %q, which belongs to no message within the limit", s.name, s.limit, k)
				}
			}
			s.seen.Unlock()
			if s.limit > 12 { // bodies are empty, so equal, at limit 12
				r.Violation("%s: %d handler calls for %d messages", s.name, s.seen.total(), total[s])
			}
		}
	}
	for _, e := range expects {
		if s := e.s; s.limit >= 60 && s.seen.get(e.k) != e.n {
			r.Violation("%s limit %d: message %q handled %d times, want %d %s", s.name, s.limit, e.k, s.seen.get(e.k), e.n, e.it)
		}
	}
	// memory: declared sizes must not be buffered
	for _, s := range srvs {
		if s.limit > 1<<20 {
			continue
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		const k = 8
		for i := 0; i < k; i++ {
			c := s.dial()
			c.Write(be32(0x20000000))
			if _, ok := ended(c, longWait); !ok {
				r.Violation("%s: connection not ended after declared length 0x20000000", s.name)
			}
			c.Close()
		}
		runtime.ReadMemStats(&m1)
		if a := m1.TotalAlloc - m0.TotalAlloc; a > k*0x20000000/4 {
			r.Violation("%s limit %d: server allocated %d bytes for %d prefixes declaring 512 MB each", s.name, s.limit, a, k)
		}
		r.Case("mem/" + s.name)
	}
	for i, s := range srvs {
		if bys[i] != nil {
			bys[i].Close()
		}
		s.s.stop()
	}
}

func c04unlimited(r *Rep) {
	for _, l := range []int32{0, -1, -2147483648, 0x7fffffff} {
		s := c04start(r, fmt.Sprintf("unl%d", l), "tcp", l, false, false)
		c := s.dial()
		for i, n := range []int{12, 13, 4096, 70000, 1 << 20, 6 << 20} {
			b, k := sized(5, nil, fmt.Sprintf("u%d", i), n)
			c.Write(b)
			if !until(longWait, func() bool { return s.seen.get(k) == 1 }) {
				r.Violation("limit %d (unlimited): a message of length %d was not delivered", l, n)
			}
			r.Case(fmt.Sprintf("unl/%d/%d", l, n))
		}
		if err := ping(c); err != nil {
			r.Violation("limit %d: connection unusable after large messages: %v", l, err)
		}
		c.Close()
		s.s.stop()
	}
}
