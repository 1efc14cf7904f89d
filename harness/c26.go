package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C26"] = c26 }

// recConn records what is written to it; it can fail after a number of bytes, or accept only a
// few bytes per write.
type recConn struct {
	net.Conn
	mu     sync.Mutex
	data   []byte
	writes int
	failAt int // -1: never
	short  int // bytes taken per write, 0: all
	err    error
	failed bool
}

func (c *recConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writes++
	n := len(b)
	if c.short > 0 && n > c.short {
		n = c.short
	}
	if c.failAt >= 0 && len(c.data)+n > c.failAt {
		n = c.failAt - len(c.data)
		if n < 0 {
			n = 0
		}
		c.data = append(c.data, b[:n]...)
		c.failed = true
		return n, c.err
	}
	c.data = append(c.data, b[:n]...)
	return n, nil
}
func (c *recConn) Close() error                       { return nil }
func (c *recConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *recConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *recConn) SetDeadline(t time.Time) error      { return nil }
func (c *recConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *recConn) SetWriteDeadline(t time.Time) error { return nil }

type c26bad struct{ A, B int }

func (c26bad) MarshalJSON() ([]byte, error) { return nil, errors.New("not today") }

type c26user struct {
	Name string            `json:"name"`
	Age  int64             `json:"age"`
	Tags []string          `json:"tags,omitempty"`
	M    map[string]string `json:"m"`
	P    *c26user          `json:"p"`
}

// c26unencodable are bodies encoding/json refuses.
func c26unencodable(g *rand.Rand) (interface{}, string) {
	switch g.Intn(7) {
	case 0:
		return make(chan int), "chan"
	case 1:
		return func() {}, "func"
	case 2:
		return math.NaN(), "NaN"
	case 3:
		return map[string]interface{}{"a": 1, "z": math.Inf(1)}, "inf in a map"
	case 4:
		return c26bad{1, 2}, "refusing marshaller"
	case 5:
		return []interface{}{"x", complex(1, 2)}, "complex in a list"
	}
	return struct{ F func() }{func() {}}, "func in a struct"
}

func c26body(g *rand.Rand, tag string) (interface{}, string) {
	switch g.Intn(12) {
	case 0:
		return nil, "nil"
	case 1:
		return tag, "string"
	case 2:
		return g.Int63() - g.Int63(), "int"
	case 3:
		return &c26user{Name: tag, Age: g.Int63(), Tags: []string{"a", "<&>", "\u2028"}, M: map[string]string{"k": "v", "": "x"}, P: &c26user{}}, "struct"
	case 4:
		return (*c26user)(nil), "nil pointer"
	case 5:
		return []byte(tag), "bytes"
	case 6:
		return map[string]interface{}{tag: []interface{}{1, nil, true, "s"}}, "map"
	case 7:
		return strings.Repeat(tag, 1+g.Intn(1<<uint(g.Intn(15)))), "long"
	case 8:
		return []interface{}{}, "empty list"
	case 9:
		return json.RawMessage(`{"raw": [1,2,3]}`), "raw json"
	case 10:
		return true, "bool"
	}
	return tcpx.H{"u": tag}, "H"
}

func sameJSON(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	dec := func(x []byte) (v interface{}, ok bool) {
		d := json.NewDecoder(bytes.NewReader(x))
		d.UseNumber()
		return v, d.Decode(&v) == nil && d.Decode(new(interface{})) == io.EOF
	}
	x, ok1 := dec(a)
	y, ok2 := dec(b)
	return ok1 && ok2 && reflect.DeepEqual(x, y)
}

type c26want struct {
	id   int32
	body []byte // JSON, empty for a nil body
	pipe int    // elements announced, 0 for none
}

func c26enc(v interface{}) []byte {
	if v == nil {
		return nil
	}
	return jsonOf(v)
}

// c26match says why message m is not w.
func c26match(m msg, w c26want) string {
	if m.ID != w.id {
		return fmt.Sprintf("id %d, want %d", m.ID, w.id)
	}
	if len(w.body) == 0 && len(m.Body) != 0 || len(w.body) > 0 && !sameJSON(m.Body, w.body) {
		return fmt.Sprintf("body %s, want %s", trunc(string(m.Body), 200), trunc(string(w.body), 200))
	}
	h := m.hdr()
	if w.pipe == 0 && len(h) != 0 {
		return fmt.Sprintf("header %s, want none", m.Header)
	}
	if w.pipe > 0 && !reflect.DeepEqual(h, map[string]interface{}{tcpx.PIPED: fmt.Sprintf("enable;%d", w.pipe)}) {
		return fmt.Sprintf("header %s, want a batch of %d", m.Header, w.pipe)
	}
	return ""
}

// c26stream compares a byte stream with the messages that were to be sent.
func c26stream(data []byte, want []c26want) string {
	rd := bytes.NewReader(data)
	for i, w := range want {
		m, err := readFrame(rd)
		if err != nil {
			return fmt.Sprintf("message %d of %d: %v", i, len(want), err)
		}
		if s := c26match(m, w); s != "" {
			return fmt.Sprintf("message %d of %d: %s", i, len(want), s)
		}
	}
	if rd.Len() > 0 {
		return fmt.Sprintf("%d bytes more than the %d messages asked for", rd.Len(), len(want))
	}
	return ""
}

// c26guard turns a panic of the helper into a violation.
func c26guard(r *Rep, what string, f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			r.Violation("%s panics: %v", what, e)
		}
	}()
	return f()
}

func c26id(g *rand.Rand) int32 {
	switch g.Intn(8) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return math.MaxInt32
	case 3:
		return math.MinInt32
	case 4:
		return 1392
	}
	return int32(g.Uint32())
}

// c26pairs builds the arguments of a PipeJSON call.
func c26pairs(g *rand.Rand, n int, tag string) (args []interface{}, want []c26want, cls string) {
	for k := 0; k < n; k++ {
		id := c26id(g)
		b, c := c26body(g, fmt.Sprintf("%s.%d", tag, k))
		w := c26want{id: id, body: c26enc(b)}
		if k == 0 {
			w.pipe = n
		}
		args = append(args, int(id), b)
		want = append(want, w)
		cls = c
	}
	return
}

type c26odd struct{ int }

// c26recorded judges single calls by the bytes they put on a recording connection.
func c26recorded(r *Rep, g *rand.Rand, i int) {
	tag := fmt.Sprintf("t%d", i)
	fresh := func() *recConn {
		return &recConn{failAt: -1, err: [...]error{errors.New("broken"), io.EOF, io.ErrClosedPipe, net.ErrClosed}[g.Intn(4)]}
	}
	// WriteJSON
	{
		c := fresh()
		id := c26id(g)
		b, cls := c26body(g, tag)
		want := []c26want{{id: id, body: c26enc(b)}}
		if err := c26guard(r, "WriteJSON", func() error { return tcpx.WriteJSON(c, id, b) }); err != nil {
			r.Violation("WriteJSON(id %d, %s) returned %v on a working connection", id, cls, err)
		}
		if s := c26stream(c.data, want); s != "" {
			r.Violation("WriteJSON(id %d, %s body): %s", id, cls, s)
		}
		r.Case("WriteJSON/" + cls)
		full := c.data
		c = fresh()
		c.failAt = g.Intn(len(full))
		if err := tcpx.WriteJSON(c, id, b); err == nil {
			r.Violation("WriteJSON returned nil although the connection took %d of %d bytes and failed with %v", len(c.data), len(full), c.err)
		}
		if !bytes.HasPrefix(full, c.data) {
			r.Violation("WriteJSON on a connection failing after %d bytes sent something else: %s", c.failAt, short(c.data))
		}
		r.Case(fmt.Sprintf("WriteJSON/fails/%v", c.err))
		c = fresh()
		u, ucls := c26unencodable(g)
		if err := c26guard(r, "WriteJSON of "+ucls, func() error { return tcpx.WriteJSON(c, id, u) }); err == nil || len(c.data) > 0 {
			r.Violation("WriteJSON of a body that cannot be encoded (%s) returned %v and sent %d bytes", ucls, err, len(c.data))
		}
		r.Case("WriteJSON/unencodable/" + ucls)
	}
	// PipeJSON
	{
		n := [...]int{0, 1, 2, 3, 4, 9, 10, 11, 99, 100, 257}[g.Intn(11)]
		if g.Intn(4) > 0 {
			n = g.Intn(8)
		}
		args, want, cls := c26pairs(g, n, tag)
		keep := append([]interface{}(nil), args...)
		c := fresh()
		if err := c26guard(r, "PipeJSON", func() error { return tcpx.PipeJSON(c, args...) }); err != nil {
			r.Violation("PipeJSON of %d messages returned %v on a working connection", n, err)
		}
		if s := c26stream(c.data, want); s != "" {
			r.Violation("PipeJSON of %d messages: %s", n, s)
		}
		for k := range args {
			if a, b := args[k], keep[k]; reflect.TypeOf(a) != reflect.TypeOf(b) || !reflect.DeepEqual(a, b) {
				r.Violation("PipeJSON changed its caller's argument %d", k)
			}
		}
		full := c.data
		r.Case(fmt.Sprintf("PipeJSON/%d/%s", n, cls))
		if len(full) > 0 {
			c = fresh()
			c.failAt = g.Intn(len(full))
			if err := tcpx.PipeJSON(c, args...); err == nil {
				r.Violation("PipeJSON of %d messages returned nil although the connection took %d of %d bytes and failed with %v", n, len(c.data), len(full), c.err)
			}
			if !bytes.HasPrefix(full, c.data) {
				r.Violation("PipeJSON on a connection failing after %d bytes sent something else", c.failAt)
			}
			r.Case(fmt.Sprintf("PipeJSON/fails/%d/%v", n, c.err))
		}
		// wrong calls send nothing
		m := 1 + g.Intn(6)
		args, _, _ = c26pairs(g, m, tag)
		at := g.Intn(m)
		why := ""
		switch g.Intn(4) {
		case 0:
			args = args[:2*m-1]
			why = "odd number of arguments"
		case 1:
			why = "body that cannot be encoded"
			var u string
			args[2*at+1], u = c26unencodable(g)
			why += " (" + u + ")"
		case 2:
			bad := []interface{}{nil, "1", int32(1), int64(1), uint(3), 1.0, c26odd{1}, []int{1}, (*int)(nil), true, map[string]int{}}
			k := g.Intn(len(bad))
			args[2*at] = bad[k]
			why = fmt.Sprintf("message id of type %T", bad[k])
		case 3:
			big := []int64{1 << 31, -(1 << 31) - 1, 1<<32 + 7, 1<<62 + 1, -(1 << 62), 1 << 32}
			args[2*at] = int(big[g.Intn(len(big))])
			why = "message id out of 32 bits"
		}
		if i%150 == 7 && at > 0 { // after a long good part
			args[2*g.Intn(at)+1] = strings.Repeat("long", 1<<uint(13+g.Intn(9)))
		}
		c = fresh()
		err := c26guard(r, fmt.Sprintf("PipeJSON with a wrong argument (%s, element %d of %d)", why, at, m), func() error { return tcpx.PipeJSON(c, args...) })
		if err == nil {
			r.Violation("PipeJSON with a wrong argument (%s, element %d of %d) returned no error", why, at, m)
		}
		if len(c.data) > 0 {
			r.Violation("PipeJSON with a wrong argument (%s, element %d of %d) returned %v but sent %d bytes", why, at, m, err, len(c.data))
		}
		r.Case(fmt.Sprintf("PipeJSON/wrong/%s/%d of %d", why, at, m))
	}
	// WriteConn
	{
		size := []int{0, 1, 17, 4096, 65535, 65536, 70000, 1 << 20}[g.Intn(8)]
		if size > 5000 && i%8 != 0 {
			size = g.Intn(5000)
		}
		buf := randBytes(g, size)
		keep := append([]byte(nil), buf...)
		c := fresh()
		if g.Intn(3) > 0 {
			c.short = 1 + g.Intn(size+1)
			if size/c.short > 3000 {
				c.short = size / 3000
			}
		}
		done := false
		var err error
		if done = within(longWait, func() { err = c26guard(r, "WriteConn", func() error { return tcpx.WriteConn(buf, c) }) }); !done {
			r.Violation("WriteConn of %d bytes to a connection taking %d per write does not return", size, c.short)
		}
		if err != nil || !bytes.Equal(c.data, keep) || !bytes.Equal(buf, keep) {
			r.Violation("WriteConn of %d bytes to a connection taking %d per write: error %v, %d bytes arrived, intact %v", size, c.short, err, len(c.data), bytes.Equal(c.data, keep))
		}
		r.Case(fmt.Sprintf("WriteConn/%d/%v", len(fmt.Sprint(size)), c.short > 0))
		if size > 0 {
			c2 := fresh()
			c2.failAt, c2.short = g.Intn(size), c.short
			if !within(longWait, func() { err = tcpx.WriteConn(buf, c2) }) {
				r.Violation("WriteConn to a failing connection does not return")
			}
			if err == nil || !bytes.HasPrefix(keep, c2.data) {
				r.Violation("WriteConn of %d bytes to a connection failing after %d with %v: returned %v, sent a prefix %v", size, c2.failAt, c2.err, err, bytes.HasPrefix(keep, c2.data))
			}
			if c2.err == io.EOF && err != io.EOF {
				r.Violation("WriteConn on a connection whose end is reached returned %v, documented to be io.EOF", err)
			}
			r.Case(fmt.Sprintf("WriteConn/fails/%v", c2.err))
		}
	}
}

// c26pair is a connected client and the listener's side of it.
func c26pair(r *Rep, kind string) (net.Conn, net.Conn) {
	network, addr := "tcp", nextAddr()
	if kind == "unix" {
		network, addr = "unix", sockPath()
	}
	l, err := net.Listen(network, addr)
	if err != nil {
		r.HarnessError("listen: %v", err)
	}
	defer l.Close()
	ch := make(chan net.Conn, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			r.HarnessError("accept: %v", err)
		}
		if kind == "tls" {
			certOnce.Do(func() { sharedCert = testCert(r) })
			c = tls.Server(c, &tls.Config{Certificates: []tls.Certificate{sharedCert}})
		}
		ch <- c
	}()
	c, err := tcpx.TCPConnect(network, addr)
	if err != nil {
		r.Violation("TCPConnect to a listening %s address: %v", network, err)
	}
	if c.RemoteAddr().Network() != network || kind != "unix" && c.RemoteAddr().String() != addr {
		r.Violation("TCPConnect(%s, %s) is connected to %v", network, addr, c.RemoteAddr())
	}
	if kind == "tls" {
		c = tls.Client(c, &tls.Config{InsecureSkipVerify: true})
	}
	return c, <-ch
}

type c26doc struct {
	W, K, I, N int // writer, call, element, elements
	Pad        string
}

// c26shared has many goroutines using the helpers on one connection.
func c26shared(r *Rep, g *rand.Rand, i int) {
	kind := []string{"tcp", "unix", "tls"}[i%3]
	c, far := c26pair(r, kind)
	defer c.Close()
	defer far.Close()
	writers := 2 + g.Intn(8)
	calls := 5 + g.Intn(12)
	big := g.Intn(3) == 0
	huge := 0
	if i%12 == 5 {
		huge = 1 + g.Intn(2500000)
	}
	total := int64(0)
	var wg sync.WaitGroup
	for w := 0; w < writers; w++ {
		wg.Add(1)
		go func(w int, g *rand.Rand) {
			defer wg.Done()
			for k := 0; k < calls; k++ {
				n := 1
				if w%2 == 0 || g.Intn(3) == 0 {
					n = 2 + g.Intn(6)
				}
				pad := g.Intn(300)
				if big && g.Intn(3) == 0 {
					pad = g.Intn(120000)
				}
				if k == 1 && w < 3 && huge > 0 {
					pad = huge
				}
				docs := make([]c26doc, n)
				for e := range docs {
					docs[e] = c26doc{w, k, e, n, strings.Repeat(string(rune('a'+(w+k+e)%26)), pad)}
				}
				var err error
				if n == 1 {
					err = tcpx.WriteJSON(c, int32(100+w), docs[0])
				} else {
					var args []interface{}
					for e := range docs {
						args = append(args, 100+w+1000*e, docs[e])
					}
					err = tcpx.PipeJSON(c, args...)
				}
				if err != nil {
					r.Violation("%s: sending on a connection that is being read returned %v", kind, err)
				}
				atomic.AddInt64(&total, int64(n))
			}
		}(w, rand.New(rand.NewSource(g.Int63())))
	}
	done := make(chan struct{})
	var fail string
	var got int64
	go func() {
		defer close(done)
		slow := rand.New(rand.NewSource(int64(i)))
		next := make([]int, writers)
		for {
			m, err := readFrame(far)
			if err != nil {
				if err != io.EOF {
					fail = fmt.Sprintf("after %d messages the stream is broken: %v", got, err)
				}
				return
			}
			if big && slow.Intn(10) == 0 {
				time.Sleep(time.Duration(slow.Intn(300)) * time.Microsecond)
			}
			var d c26doc
			if err := json.Unmarshal(m.Body, &d); err != nil {
				fail = fmt.Sprintf("message %d: body %s: %v", got, trunc(string(m.Body), 100), err)
				return
			}
			for e := 0; e < d.N; e++ { // the whole batch, back to back
				if e > 0 {
					if m, err = readFrame(far); err != nil {
						fail = fmt.Sprintf("inside a batch: %v", err)
						return
					}
				}
				var x c26doc
				json.Unmarshal(m.Body, &x)
				p := 0
				if e == 0 && d.N > 1 {
					p = d.N
				}
				want := c26doc{d.W, d.K, e, d.N, strings.Repeat(string(rune('a'+(d.W+d.K+e)%26)), len(x.Pad))}
				if x != want || m.ID != int32(100+d.W+1000*e) {
					fail = fmt.Sprintf("element %d of call %d of writer %d: got %s under id %d", e, d.K, d.W, trunc(string(m.Body), 120), m.ID)
					return
				}
				if s := c26match(m, c26want{m.ID, m.Body, p}); s != "" {
					fail = s
					return
				}
				got++
			}
			if d.W < 0 || d.W >= writers || next[d.W] != d.K {
				fail = fmt.Sprintf("writer %d: call %d arrived when %v was next", d.W, d.K, next)
				return
			}
			next[d.W]++
		}
	}()
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	for !waitCh(longWait, fin) {
		if isClosed(done) && fail != "" {
			break
		}
		r.Violation("%s: %d writers on one connection do not finish", kind, writers)
	}
	if !(isClosed(done) && fail != "") {
		if kind == "tls" {
			c.(*tls.Conn).CloseWrite()
		}
		c.Close()
		if !waitCh(longWait, done) {
			r.Violation("%s: the stream does not end after all writers closed it", kind)
		}
	}
	if fail != "" {
		r.Violation("%s: %d goroutines sending on one connection: %s", kind, writers, fail)
	}
	if t := atomic.LoadInt64(&total); got != t {
		r.Violation("%s: %d goroutines sent %d messages on one connection, %d arrived", kind, writers, t, got)
	}
	r.Case(fmt.Sprintf("shared/%s/%d/%v", kind, writers, big))
	r.Count("shared_messages", got)
}

// c26calls uses TCPCallOnceJSON and request/reply through Recv against a live server.
func c26calls(r *Rep, g *rand.Rand, i int) {
	kind := []string{"tcp", "unix", "tcp4"}[i%3]
	x := tcpx.NewTcpX(nil)
	var mu sync.Mutex
	seen := map[string]int{}
	stray := ""
	var opened, closed int64
	x.OnConnect = func(c *tcpx.Context) { atomic.AddInt64(&opened, 1) }
	x.OnClose = func(c *tcpx.Context) { atomic.AddInt64(&closed, 1) }
	note := func(c *tcpx.Context, id int32) {
		var d c26doc
		if _, err := c.Bind(&d); err != nil {
			mu.Lock()
			stray = "a message that cannot be bound: " + err.Error()
			mu.Unlock()
			return
		}
		b, _ := c.RawStream()
		mu.Lock()
		seen[fmt.Sprintf("%d:%d.%d", id, d.W, d.K)]++
		if !sameJSON(b, jsonOf(c26doc{d.W, d.K, d.I, d.N, strings.Repeat("p", d.N)})) {
			stray = fmt.Sprintf("a message that was not sent: %s", trunc(string(b), 200))
		}
		mu.Unlock()
		if id == 5 {
			c.JSON(5, d)
		}
	}
	ids := []int32{5, 6, -7, math.MaxInt32, 0}
	for _, id := range ids {
		id := id
		x.AddHandler(id, func(c *tcpx.Context) { note(c, id) })
	}
	w := r.serveKind(x, kind)
	network, addr := w.Network, w.Addr
	fds := sockFDs()
	want := map[string]int{}
	var wmu sync.Mutex
	var wg sync.WaitGroup
	callers := 1 + g.Intn(5)
	per := 6
	for k := 0; k < callers; k++ {
		wg.Add(1)
		go func(k int, g *rand.Rand) {
			defer wg.Done()
			for n := 0; n < per; n++ {
				pad := g.Intn(200)
				if g.Intn(8) == 0 {
					pad = g.Intn(3 << 20)
				}
				d := c26doc{W: k, K: n, N: pad, Pad: strings.Repeat("p", pad)}
				id := ids[1+g.Intn(len(ids)-1)]
				switch g.Intn(6) {
				case 0: // request and reply
					id = 5
					c, err := tcpx.TCPConnect(network, addr)
					if err != nil {
						r.Violation("TCPConnect to a serving %s address: %v", kind, err)
					}
					if err = tcpx.WriteJSON(c, 5, d); err != nil {
						r.Violation("WriteJSON to a serving connection: %v", err)
					}
					var p tcpx.PackType
					if !within(longWait, func() { p, err = tcpx.Recv(c) }) || err != nil {
						r.Violation("%s: no reply received: %v", kind, err)
					}
					var back c26doc
					m, perr := parseFrame(p)
					if perr != nil || m.ID != 5 || tcpx.BindJSON(m.Body, &back) != nil || back != d {
						r.Violation("%s: the reply received is not the one sent: %v %s", kind, perr, short(p))
					}
					c.Close()
				case 1:
					u, ucls := c26unencodable(g)
					if err := c26guard(r, "TCPCallOnceJSON of "+ucls, func() error { return tcpx.TCPCallOnceJSON(network, addr, int(id), u) }); err == nil {
						r.Violation("TCPCallOnceJSON of a body that cannot be encoded (%s) returned no error", ucls)
					}
					r.Case("call/unencodable/" + ucls)
					continue
				case 2:
					if err := c26guard(r, "TCPCallOnceJSON with a large id", func() error { return tcpx.TCPCallOnceJSON(network, addr, 1<<32+int(id), d) }); err == nil {
						r.Violation("TCPCallOnceJSON with a message id out of 32 bits returned no error")
					}
					r.Case("call/largeid")
					continue
				case 3:
					dead := addr + "9"
					if network != "unix" {
						dead = nextAddr()
					}
					if err := c26guard(r, "TCPCallOnceJSON", func() error { return tcpx.TCPCallOnceJSON(network, dead, int(id), d) }); err == nil {
						r.Violation("TCPCallOnceJSON to an address nobody listens on returned no error")
					}
					r.Case("call/dead")
					continue
				default:
					if err := tcpx.TCPCallOnceJSON(network, addr, int(id), d); err != nil {
						r.Violation("%s: TCPCallOnceJSON(%d) to a serving address: %v", kind, id, err)
					}
				}
				wmu.Lock()
				want[fmt.Sprintf("%d:%d.%d", id, k, n)]++
				wmu.Unlock()
				r.Case(fmt.Sprintf("call/%s/%d/%d", kind, id, len(fmt.Sprint(pad))))
			}
		}(k, rand.New(rand.NewSource(g.Int63())))
	}
	if !within(4*longWait, wg.Wait) {
		r.Violation("%s: clients calling a serving address do not finish", kind)
	}
	all := func() bool {
		mu.Lock()
		defer mu.Unlock()
		for k := range want {
			if seen[k] == 0 {
				return false
			}
		}
		return true
	}
	if !until(longWait, all) {
		mu.Lock()
		r.Violation("%s: %d messages were sent without an error, not all were handled: sent %v, handled %v", kind, len(want), want, seen)
	}
	if !until(longWait, func() bool { return atomic.LoadInt64(&opened) == atomic.LoadInt64(&closed) }) {
		r.Violation("%s: %d connections made by one-off calls, %d closed: a call that is over keeps its connection", kind, atomic.LoadInt64(&opened), atomic.LoadInt64(&closed))
	}
	if !until(longWait, func() bool { return sockFDs() <= fds }) {
		r.Violation("%s: %d sockets are left open by one-off calls", kind, sockFDs()-fds)
	}
	mu.Lock()
	if stray != "" {
		r.Violation("%s: %s", kind, stray)
	}
	if !reflect.DeepEqual(seen, want) {
		r.Violation("%s: messages handled %v, sent %v", kind, seen, want)
	}
	mu.Unlock()
	w.stop()
	r.Count("calls_delivered", int64(len(want)))
}

func c26(r *Rep) {
	r.Rule("one case = one call of a client helper whose effect on the connection (recorded bytes, peer's stream, server's handlers) was compared with what it was asked to send; distinct by helper, class of arguments, fault and transport")
	r.Assume("connections given to WriteJSON and PipeJSON obey net.Conn (a short write comes with an error); concurrent senders share a connection whose Write is atomic, as those of package net and crypto/tls are")
	for i := 0; i < r.N(6000); i++ {
		c26recorded(r, r.Sub(int64(i)), i)
	}
	for i := 0; i < r.N(150); i++ {
		c26shared(r, r.Sub(int64(50000+i)), i)
	}
	for i := 0; i < r.N(150); i++ { // one at a time: sockets are counted
		c26calls(r, r.Sub(int64(60000+i)), i)
	}
	for i, n := range []int{999, 1001, 1500, 4097, 66000} {
		g := r.Sub(int64(80000 + i))
		args := make([]interface{}, 0, 2*n)
		var want []c26want
		for k := 0; k < n; k++ {
			id := c26id(g)
			body := fmt.Sprintf("%d.%d", i, k)
			args = append(args, int(id), body)
			want = append(want, c26want{id: id, body: c26enc(body)})
		}
		want[0].pipe = n
		c := &recConn{failAt: -1}
		if err := c26guard(r, "PipeJSON", func() error { return tcpx.PipeJSON(c, args...) }); err != nil {
			r.Violation("PipeJSON of %d messages: %v", n, err)
		}
		if s := c26stream(c.data, want); s != "" {
			r.Violation("PipeJSON of %d messages: %s", n, s)
		}
		args[2*n-2] = "x"
		c = &recConn{failAt: -1}
		if err := c26guard(r, "PipeJSON", func() error { return tcpx.PipeJSON(c, args...) }); err == nil || len(c.data) > 0 {
			r.Violation("PipeJSON of %d messages of which the last has no message id: error %v, %d bytes sent", n, err, len(c.data))
		}
		r.Case(fmt.Sprintf("PipeJSON/long/%d", n))
	}
	for i := 0; i < r.N(60); i++ {
		c26recv(r, r.Sub(int64(75000+i)), i)
	}
	for i := 0; i < r.N(60); i++ {
		c26rude(r, r.Sub(int64(70000+i)), i)
	}
}

// c26rude calls peers that end the connection in unfriendly ways: a message goes out once at most.
func c26rude(r *Rep, g *rand.Rand, i int) {
	network, addr := "tcp", nextAddr()
	if i%4 == 3 {
		network, addr = "unix", sockPath()
	}
	l, err := net.Listen(network, addr)
	if err != nil {
		r.HarnessError("listen %s %s: %v", network, addr, err)
	}
	var mu sync.Mutex
	whole := map[string]int{}
	bad := ""
	var conns, done int64
	mode := ""
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			atomic.AddInt64(&conns, 1)
			mu.Lock()
			m := mode
			mu.Unlock()
			if t, ok := c.(*net.TCPConn); ok && strings.Contains(m, "reset") {
				t.SetLinger(0)
			}
			if strings.HasPrefix(m, "read") {
				c.SetReadDeadline(time.Now().Add(60 * time.Second))
				f, e := recv(c)
				if e == nil {
					mu.Lock()
					whole[string(f.Body)]++
					mu.Unlock()
					if strings.Contains(m, "answer") {
						c.Write(frame(9, nil, []byte("what?")))
					}
					if strings.Contains(m, "rest") {
						c.SetReadDeadline(time.Now().Add(60 * time.Second))
						if x, _ := io.ReadAll(c); len(x) > 0 {
							mu.Lock()
							bad = fmt.Sprintf("%d more bytes follow the message", len(x))
							mu.Unlock()
						}
					}
				} else {
					mu.Lock()
					bad = fmt.Sprint("the message cannot be read: ", e)
					mu.Unlock()
				}
			}
			c.Close()
			atomic.AddInt64(&done, 1)
		}
	}()
	for k := 0; k < 8; k++ {
		m := []string{"reset", "close", "read-reset", "read-close", "read-answer-reset", "read-answer-close", "read-rest", "read-answer-rest-reset"}[g.Intn(8)]
		mu.Lock()
		mode = m
		mu.Unlock()
		before := atomic.LoadInt64(&conns)
		body := fmt.Sprintf("m%d.%s", k, strings.Repeat("x", g.Intn(100000)))
		err := c26guard(r, "TCPCallOnceJSON", func() error { return tcpx.TCPCallOnceJSON(network, addr, 3, body) })
		if !until(longWait, func() bool {
			return atomic.LoadInt64(&conns) > before && atomic.LoadInt64(&done) == atomic.LoadInt64(&conns)
		}) {
			r.Violation("%s/%s: the connection of a call that is over is not ended", network, m)
		}
		time.Sleep(time.Millisecond)
		if n := atomic.LoadInt64(&conns) - before; n != 1 {
			r.Violation("%s/%s: one call of TCPCallOnceJSON made %d connections", network, m, n)
		}
		mu.Lock()
		n := whole[string(jsonOf(body))]
		if bad != "" && err == nil {
			r.Violation("%s/%s: %s", network, m, bad)
		}
		if n > 1 || len(whole) > 1 || n == 0 && err == nil && strings.HasPrefix(m, "read") {
			r.Violation("%s/%s: one call of TCPCallOnceJSON (error %v) was received %d times", network, m, err, n)
		}
		whole = map[string]int{}
		bad = ""
		mu.Unlock()
		r.Case("rude/" + network + "/" + m)
	}
	l.Close()
}

// c26recv receives many replies on one connection, and binds them.
func c26recv(r *Rep, g *rand.Rand, i int) {
	kind := []string{"tcp", "unix", "tcp"}[i%3]
	c, peer := c26pair(r, kind)
	defer c.Close()
	var frames [][]byte
	var docs []interface{}
	var all []byte
	for k := 1 + g.Intn(40); k > 0; k-- {
		var v interface{}
		switch g.Intn(6) {
		case 0:
			v = float64(g.Int63n(1 << 50))
		case 1:
			v = map[string]interface{}{"n": g.Float64(), "l": []interface{}{1.5, "x", nil, true}, "m": map[string]interface{}{}}
		case 2:
			v = plainStr(g, g.Intn(20000))
		case 3:
			v = []interface{}{}
		case 4:
			v = nil
		default:
			v = g.Intn(2) == 0
		}
		if i == 4 && k == 1 {
			v = strings.Repeat("y", 20<<20)
		}
		f := frame(genID(g), jsonOf(genHeader(g)), jsonOf(v))
		frames, docs, all = append(frames, f), append(docs, v), append(all, f...)
	}
	go func() {
		for b := all; len(b) > 0; {
			n := len(b)
			if g.Intn(2) == 0 {
				n = 1 + g.Intn(len(b))
			}
			if _, err := peer.Write(b[:n]); err != nil {
				break
			}
			b = b[n:]
		}
		peer.Close()
	}()
	for k, f := range frames {
		c.SetReadDeadline(time.Now().Add(60 * time.Second))
		p, err := tcpx.Recv(c)
		if err != nil || !bytes.Equal(p, f) {
			r.Violation("%s: Recv of message %d of %d (%d bytes): %d bytes, error %v", kind, k, len(frames), len(f), len(p), err)
		}
		m, _ := parseFrame(p)
		var any interface{}
		if err := tcpx.BindJSON(m.Body, &any); err != nil || !reflect.DeepEqual(any, docs[k]) {
			r.Violation("BindJSON of %s gives %#v, error %v", trunc(string(m.Body), 100), any, err)
		}
		if s, ok := docs[k].(string); ok {
			var d string
			if err := tcpx.BindJSON(m.Body, &d); err != nil || d != s {
				r.Violation("BindJSON of a string of %d bytes gives %d bytes, error %v", len(s), len(d), err)
			}
			var n int
			if err := tcpx.BindJSON(m.Body, &n); err == nil {
				r.Violation("BindJSON of a string into an int returns no error")
			}
		}
	}
	if p, err := tcpx.Recv(c); err == nil {
		r.Violation("%s: Recv gives %d bytes after all messages were received", kind, len(p))
	}
	r.Case(fmt.Sprintf("Recv/%s/%d", kind, len(frames)))
}
