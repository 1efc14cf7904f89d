package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C09"] = c09 }

func marshallerOf(kind string) tcpx.Marshaller {
	if kind == "xor" {
		return xorMarshaller{"xor"}
	}
	m, err := tcpx.GetMarshallerByMarshalName(kind)
	if err != nil {
		panic(err)
	}
	return m
}

// c09body makes a body for a codec that carries tag, and the exact bytes it must travel as.
func c09body(g *rand.Rand, kind, tag string, n int) (interface{}, []byte) {
	var v interface{}
	switch kind {
	case "protobuf":
		v = &wrapperspb.BytesValue{Value: append([]byte(tag+":"), randBytes(g, n)...)}
	case "xor":
		v = tag + ":" + plainStr(g, n)
	case "json":
		if g.Intn(2) == 0 {
			v = map[string]interface{}{"tag": tag, "pad": plainStr(g, n)}
			break
		}
		fallthrough
	default:
		x := genRec(g, n)
		x.Name = tag + x.Name
		v = x
	}
	b, err := libMarshal(kind, v)
	if err != nil {
		panic(err)
	}
	return v, b
}

var c09bad = map[string]interface{}{"json": map[string]interface{}{"f": func() {}}, "xml": map[string]string{"a": "b"}, "protobuf": "no message", "xor": "bad"}

// c09ctx is a server-side context and the client connection it belongs to.
type c09ctx struct {
	c    *tcpx.Context
	conn int
	url  string // URL pattern of its request, "" when routed by id
	user string
}

type c09exp struct {
	conn   int
	id     int32
	hdr    map[string]interface{}
	body   []byte
	gid    int
	seq    int
	how    string
	errOK  bool
	gotten int32
}

func c09size(g *rand.Rand, packet bool) int {
	switch g.Intn(12) {
	case 0:
		return 0
	case 1, 2:
		if packet {
			return g.Intn(8000)
		}
		return 1000 + g.Intn(70000)
	case 3:
		if packet {
			return g.Intn(20000)
		}
		return 60000 + g.Intn(300000)
	case 4:
		if packet || g.Intn(3) > 0 {
			return g.Intn(2000)
		}
		return 1<<20 + g.Intn(2<<20)
	default:
		return g.Intn(200)
	}
}

func c09(r *Rep) {
	r.Rule("one case = one send call observed from call to arrival (or to its error); distinct by transport, call, server marshaller, size class, writers on the connection and reader pace; a lone small send is trivial")
	patience := c09patience(r)
	defer func() {
		for _, f := range patience {
			f()
		}
	}()
	kinds9 := []string{"tcp", "tls", "unix", "udp", "tcp"}
	for i := 0; i < r.N(120); i++ {
		c09round(r, r.Sub(int64(i)), i, kinds9[i%len(kinds9)])
	}
	for i := 0; i < r.N(60); i++ {
		c09close(r, r.Sub(int64(90000+i)), []string{"tcp", "tls", "unix"}[i%3])
	}
	c09partial(r)
	for _, kind := range []string{"tcp", "tls", "unix", "udp"} {
		c09same(r, kind)
	}
	for i, kind := range []string{"tcp", "unix", "tls"} {
		c09huge(r, r.Sub(int64(95000+i)), kind)
	}
	c09undeliverable(r)
}

// c09huge: replies of many megabytes made at the same time on one connection are intact.
func c09huge(r *Rep, g *rand.Rand, kind string) {
	x := tcpx.NewTcpX(rawMarshaller{})
	const writers = 4
	type item struct {
		id   int32
		body []byte
	}
	var plan [writers][]item
	want := map[int32]item{}
	for w := range plan {
		for k := 0; k < 3; k++ {
			n := []int{g.Intn(100), 4<<20 + g.Intn(1<<20), 17<<20 + g.Intn(1<<20)}[(k+w)%3]
			if k == 2 && w > 0 { // one of the largest will do
				n = 5<<20 + g.Intn(3<<20)
			}
			it := item{int32(100 + 10*w + k), randBytes(g, n)}
			plan[w] = append(plan[w], it)
			want[it.id] = it
		}
	}
	errs := make(chan error, writers*3)
	x.AddHandler(5, func(c *tcpx.Context) {
		var wg sync.WaitGroup
		for w := range plan {
			wg.Add(1)
			go func(its []item) {
				defer wg.Done()
				for _, it := range its {
					errs <- c.Reply(it.id, it.body)
				}
			}(plan[w])
		}
		wg.Wait()
		c.Reply(99, []byte("end"))
	})
	w := r.serveKind(x, kind)
	c := w.dial()
	defer c.Close()
	c.Write(frame(5, nil, nil))
	next := map[int32]int32{}
	got := 0
	for {
		m, err := recv(c)
		if err != nil {
			r.Violation("large concurrent replies over %s: the stream breaks after %d replies: %v", kind, got, err)
		}
		if m.ID == 99 {
			break
		}
		it, ok := want[m.ID]
		if !ok || !bytes.Equal(m.Body, it.body) {
			r.Violation("large concurrent replies over %s: a block with id %d and %d bytes of body arrives that was never sent", kind, m.ID, len(m.Body))
		}
		if wr := (m.ID - 100) / 10; (m.ID-100)%10 != next[wr] {
			r.Violation("large concurrent replies over %s: reply %d of writer %d arrives when its reply %d is due", kind, (m.ID-100)%10, wr, next[wr])
		} else {
			next[wr]++
		}
		got++
		r.Case(fmt.Sprintf("huge/%s/%d", kind, bucket(len(m.Body))))
	}
	if got != len(want) {
		r.Violation("large concurrent replies over %s: %d of %d arrived before the one sent after them", kind, got, len(want))
	}
	for i := 0; i < len(want); i++ {
		if err := <-errs; err != nil {
			r.Violation("large concurrent replies over %s: %v", kind, err)
		}
	}
	c.Close()
	w.stop()
}

// c09undeliverable: what the transport cannot take is an error, not a success.
func c09undeliverable(r *Rep) {
	for _, kind := range []string{"udp", "udp4"} {
		x := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		x.WithBuiltInPool(true)
		huge := strings.Repeat("u", 70000) // no datagram holds it
		calls := map[string]func(c *tcpx.Context) error{
			"Reply":               func(c *tcpx.Context) error { return c.Reply(9, huge) },
			"JSON":                func(c *tcpx.Context) error { return c.JSON(9, huge) },
			"YAML":                func(c *tcpx.Context) error { return c.YAML(9, huge) },
			"XML":                 func(c *tcpx.Context) error { return c.XML(9, huge) },
			"TOML":                func(c *tcpx.Context) error { return c.TOML(9, map[string]string{"a": huge}) },
			"ProtoBuf":            func(c *tcpx.Context) error { return c.ProtoBuf(9, &wrapperspb.BytesValue{Value: []byte(huge)}) },
			"ReplyWithMarshaller": func(c *tcpx.Context) error { return c.ReplyWithMarshaller(rawMarshaller{}, 9, []byte(huge)) },
			"SendToConn":          func(c *tcpx.Context) error { return c.SendToConn(c, 9, huge) },
			"SendToUsername": func(c *tcpx.Context) error {
				if err := c.Online("u"); err != nil {
					return nil
				}
				return c.SendToUsername("u", 9, huge)
			},
			"JSONURLPattern": func(c *tcpx.Context) error { return c.JSONURLPattern(huge) },
			"ProtobufURLPattern": func(c *tcpx.Context) error {
				return c.ProtobufURLPattern(&wrapperspb.BytesValue{Value: []byte(huge)})
			},
		}
		type res struct {
			name string
			err  error
		}
		out := make(chan res, 64)
		var once sync.Once
		x.Any("/u", func(c *tcpx.Context) {
			once.Do(func() {
				for n, f := range calls {
					out <- res{n, f(c)}
				}
			})
		})
		w := r.serveKind(x, kind)
		c := w.dial()
		var seen []res
		until(longWait, func() bool {
			c.Write(frame(0, jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/u"}), nil))
			return until(50, func() bool { return len(out) == len(calls) })
		})
		for len(out) > 0 {
			seen = append(seen, <-out)
		}
		if len(seen) != len(calls) {
			r.HarnessError("%d of %d sends were tried over %s", len(seen), len(calls), kind)
		}
		for _, s := range seen {
			if s.err == nil {
				r.Violation("%s of 70000 bytes over %s returned nil: no datagram can carry them", s.name, kind)
			}
			r.Case("undeliverable/" + kind + "/" + s.name)
		}
		c.Close()
		w.stop()
	}
}

// c09same: sending the same thing again sends it again.
func c09same(r *Rep, kind string) {
	x := tcpx.NewTcpX(tcpx.JsonMarshaller{})
	x.WithBuiltInPool(true)
	const n = 6
	fails := make(chan string, 64)
	calls := []struct {
		name string
		f    func(c *tcpx.Context, v string) error
	}{
		{"JSON", func(c *tcpx.Context, v string) error { return c.JSON(40, v) }},
		{"Reply", func(c *tcpx.Context, v string) error { return c.Reply(40, v) }},
		{"ReplyWithMarshaller", func(c *tcpx.Context, v string) error { return c.ReplyWithMarshaller(tcpx.JsonMarshaller{}, 40, v) }},
		{"SendToUsername", func(c *tcpx.Context, v string) error { return c.SendToUsername("same", 40, v) }},
		{"SendToConn", func(c *tcpx.Context, v string) error {
			return c.SendToConn(c, 40, v)
		}},
		{"mixed", func(c *tcpx.Context, v string) error {
			if err := c.JSON(40, v); err != nil {
				return err
			}
			return c.Reply(40, v)
		}},
	}
	x.AddHandler(5, func(c *tcpx.Context) {
		m, _ := parseFrame(c.Stream)
		var q struct {
			Call, How int
			V         string
		}
		json.Unmarshal(m.Body, &q)
		if err := c.Online("same"); err != nil {
			fails <- "Online: " + err.Error()
		}
		for i := 0; i < n; i++ {
			v := q.V
			if q.How == 1 && i%2 == 1 { // every second one
				v = "other"
			}
			if err := calls[q.Call].f(c, v); err != nil {
				fails <- calls[q.Call].name + ": " + err.Error()
			}
		}
		c.JSON(41, "end")
	})
	w := r.serveKind(x, kind)
	for ci := range calls {
		for how := 0; how < 3; how++ {
			ok := false
			var got []string
			for try := 0; try < 5 && !ok; try++ {
				if try > 0 && kind != "udp" {
					break
				}
				c := w.dial()
				col := collect(c, kind == "udp", nil)
				reqs := 1
				if how == 2 {
					reqs = 3 // the same request again
				}
				for q := 0; q < reqs; q++ {
					c.Write(frame(5, nil, jsonOf(map[string]interface{}{"Call": ci, "How": how, "V": "same value"})))
					until(longWait, func() bool {
						k := 0
						for _, m := range col.all() {
							if m.ID == 41 {
								k++
							}
						}
						return k > q || isClosed(col.done)
					})
				}
				got = nil
				for _, m := range col.all() {
					if m.ID != 41 {
						got = append(got, string(m.Body))
					}
				}
				want := n * reqs
				if calls[ci].name == "mixed" {
					want *= 2
				}
				ok = len(got) == want
				c.Close()
				if len(got) > want {
					break
				}
			}
			select {
			case f := <-fails:
				r.Violation("over %s a send failed on an open connection: %s", kind, f)
			default:
			}
			if !ok {
				r.Violation("%s called %d times in one request with equal arguments over %s (pattern %d): the peer received %d copies", calls[ci].name, n, kind, how, len(got))
			}
			r.Case(fmt.Sprintf("same/%s/%s/%d", kind, calls[ci].name, how))
		}
	}
	w.stop()
}

func c09round(r *Rep, g *rand.Rand, round int, kind string) {
	packet := kind == "udp"
	sm := kinds[g.Intn(len(kinds))]
	x := tcpx.NewTcpX(marshallerOf(sm))
	x.WithBuiltInPool(true)
	type arrival struct {
		c    *tcpx.Context
		conn int
		url  string
	}
	arrived := make(chan arrival, 64)
	release := make(chan struct{})
	hold := g.Intn(2) == 0
	h := func(c *tcpx.Context) {
		m, err := parseFrame(c.Stream)
		if err != nil {
			r.Violation("handler saw no block: %v", err)
		}
		var conn, k int
		fmt.Sscanf(string(m.Body), "%d %d", &conn, &k)
		u := ""
		if c.RouterType() == tcpx.URLPATTERN {
			u, _ = c.GetURLPattern()
		}
		if k == 0 {
			if err := c.Online(fmt.Sprintf("u%d", conn)); err != nil {
				r.Violation("Online failed: %v", err)
			}
		}
		arrived <- arrival{c, conn, u}
		if hold {
			<-release
		}
	}
	x.AddHandler(10, h)
	x.Any("/p/a", h)
	x.Any("/p/b/", h)
	w := r.serveKind(x, kind)
	K := 1 + g.Intn(3)
	P := 1 + g.Intn(3)
	conns := make([]net.Conn, K)
	ctxs := make([][]c09ctx, K)
	for i := range conns {
		conns[i] = w.dial()
		slow := g.Intn(3) == 0
		if slow && !packet {
			if t, ok := rawOf(conns[i]).(*net.TCPConn); ok {
				t.SetReadBuffer(32768)
			}
		}
		if packet {
			conns[i].(*net.UDPConn).SetReadBuffer(4 << 20)
		}
		for k := 0; k < P; k++ {
			var hd []byte
			id := int32(10)
			if k > 0 && g.Intn(2) == 0 {
				hd = jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": []string{"/p/a", "/p/b/"}[g.Intn(2)]})
				id = 0
			}
			var got bool
			for try := 0; try < 1 || (packet && try < 5 && !got); try++ {
				if _, err := conns[i].Write(frame(id, hd, []byte(fmt.Sprintf("%d %d", i, k)))); err != nil {
					r.Violation("cannot write to the %s server: %v", kind, err)
				}
				var a arrival
				wait := int64(longWait)
				got = until(wait, func() bool {
					select {
					case a = <-arrived:
						return true
					default:
						return false
					}
				})
				if got {
					ctxs[a.conn] = append(ctxs[a.conn], c09ctx{a.c, a.conn, a.url, fmt.Sprintf("u%d", a.conn)})
				}
			}
			if !got {
				r.Violation("request never reached its handler over %s", kind)
			}
		}
	}
	var paces []string
	cols := make([]*collector, K)
	for i := range conns {
		pace := []string{"fast", "slow", "stall", "byte"}[g.Intn(4)]
		if packet {
			pace = "fast"
		}
		pg := rand.New(rand.NewSource(g.Int63()))
		var f func(n int) int
		var total int
		switch pace {
		case "slow":
			f = func(n int) int {
				total++
				if total < 300 {
					time.Sleep(time.Duration(pg.Intn(300)) * time.Microsecond)
				}
				return 1 + pg.Intn(3000)
			}
		case "stall":
			f = func(n int) int {
				if total++; total == 1 || total == 20 {
					time.Sleep(40 * time.Millisecond)
				}
				return n
			}
		case "byte":
			f = func(n int) int {
				if total++; total < 4000 {
					return 1
				}
				return n
			}
		}
		paces = append(paces, pace)
		cols[i] = collect(conns[i], packet, f)
	}
	G := []int{1, 2, 4, 8, 16}[g.Intn(5)]
	per := 1 + g.Intn(30)
	if packet {
		G, per = 1+g.Intn(3), 1+g.Intn(12)
	}
	var idCtr int32 = int32(g.Int31()) - (1 << 20)
	var expMu sync.Mutex
	var exps []*c09exp
	var bytesOut int64
	udpSent := make([]int64, K)
	var wg sync.WaitGroup
	for gi := 0; gi < G; gi++ {
		wg.Add(1)
		go func(gi int, g *rand.Rand) {
			defer wg.Done()
			for s := 0; s < per; s++ {
				target := g.Intn(K)
				own := ctxs[g.Intn(K)]
				from := own[g.Intn(len(own))]
				tc := ctxs[target][g.Intn(len(ctxs[target]))]
				id := atomic.AddInt32(&idCtr, 1)
				if id == 0 {
					id = atomic.AddInt32(&idCtr, 1)
				}
				tag := fmt.Sprintf("r%dg%ds%d", round, gi, s)
				e := &c09exp{conn: target, id: id, gid: gi, seq: s}
				var hdrs []map[string]interface{}
				e.hdr = map[string]interface{}{}
				for i := g.Intn(3); i > 0; i-- {
					hh := genHeader(g)
					hdrs = append(hdrs, hh)
					for k, v := range hh {
						e.hdr[k] = v
					}
				}
				bad := g.Intn(8) == 0
				n := c09size(g, packet)
				how := []string{"Reply", "JSON", "XML", "YAML", "TOML", "ProtoBuf", "ReplyWithMarshaller", "SendToConn", "SendToUsername", "JSONURLPattern", "ProtobufURLPattern", "ReplyNil"}[g.Intn(12)]
				mk := sm
				switch how {
				case "JSON", "JSONURLPattern":
					mk = "json"
				case "XML":
					mk = "xml"
				case "YAML":
					mk = "yaml"
				case "TOML":
					mk = "toml"
				case "ProtoBuf", "ProtobufURLPattern":
					mk = "protobuf"
				case "ReplyWithMarshaller":
					mk = kinds[g.Intn(len(kinds))]
				}
				if strings.HasSuffix(how, "URLPattern") {
					var us []c09ctx
					for _, c := range ctxs[target] {
						if c.url != "" {
							us = append(us, c)
						}
					}
					if len(us) == 0 {
						how, mk = "JSON", "json"
					} else {
						tc = us[g.Intn(len(us))]
						e.id = 0
						hdrs = nil
						e.hdr = map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": tc.url}
					}
				}
				v, b := c09body(g, mk, tag, n)
				if how == "ReplyNil" {
					v, b = nil, nil
				}
				e.body = b
				e.how = how + "/" + mk
				if bad {
					bv, ok := c09bad[mk]
					if hdrs != nil && (g.Intn(2) == 0 || !ok) {
						hdrs = append(hdrs, map[string]interface{}{"bad": make(chan int)})
					} else if ok && how != "ReplyNil" {
						v = bv
					} else {
						bad = false
					}
				}
				var err error
				if noiseSleep := g.Intn(5); noiseSleep == 0 {
					time.Sleep(time.Duration(g.Intn(200)) * time.Microsecond)
				}
				switch how {
				case "Reply", "ReplyNil":
					err = tc.c.Reply(id, v, hdrs...)
				case "JSON":
					err = tc.c.JSON(id, v, hdrs...)
				case "XML":
					err = tc.c.XML(id, v, hdrs...)
				case "YAML":
					err = tc.c.YAML(id, v, hdrs...)
				case "TOML":
					err = tc.c.TOML(id, v, hdrs...)
				case "ProtoBuf":
					err = tc.c.ProtoBuf(id, v, hdrs...)
				case "ReplyWithMarshaller":
					m := marshallerOf(mk)
					if mk == "xor" && g.Intn(2) == 0 { // named like the server's
						m = xorMarshaller{sm}
					}
					err = tc.c.ReplyWithMarshaller(m, id, v, hdrs...)
				case "SendToConn":
					err = from.c.SendToConn(tc.c, id, v, hdrs...)
				case "SendToUsername":
					err = from.c.SendToUsername(tc.user, id, v, hdrs...)
				case "JSONURLPattern":
					err = tc.c.JSONURLPattern(v)
				case "ProtobufURLPattern":
					err = tc.c.ProtobufURLPattern(v)
				}
				size := "s"
				if n > 60000 {
					size = "m"
				}
				if n > 1<<20 {
					size = "l"
				}
				if bad {
					if err == nil {
						r.Violation("%s over %s of something that cannot be encoded returned nil", e.how, kind)
					}
					r.Case(fmt.Sprintf("bad/%s/%s/%s", kind, e.how, sm))
					continue
				}
				if err != nil {
					r.Violation("%s (%d bytes) over %s to an open connection failed: %v", e.how, len(b), kind, err)
				}
				expMu.Lock()
				exps = append(exps, e)
				expMu.Unlock()
				atomic.AddInt64(&bytesOut, int64(len(b)))
				r.Case(fmt.Sprintf("%s/%s/%s/%s/w%d/%s", kind, e.how, sm, size, G, paces[target]))
				if packet {
					// one datagram in flight per writer, so that the kernel has no reason to drop any
					n := int(atomic.AddInt64(&udpSent[target], 1))
					if !until(longWait, func() bool { return cols[target].n() >= n || isClosed(cols[target].done) }) {
						r.Violation("udp: %s (%d bytes) returned nil and never arrived", e.how, len(b))
					}
				}
			}
		}(gi, rand.New(rand.NewSource(g.Int63())))
	}
	prog := func() int {
		n := 0
		for _, c := range cols {
			n += c.n() + c.bytes()
		}
		return n
	}
	sent := make(chan struct{})
	go func() { wg.Wait(); close(sent) }()
	if !grows(longWait, prog, func() bool { return isClosed(sent) }) {
		r.Violation("sends over %s never return although the peers read (writers %d, readers %v)", kind, G, paces)
	}
	want := make([]int, K)
	for _, e := range exps {
		want[e.conn]++
	}
	// a last message per connection: nothing may come after it
	for i := range conns {
		if err := ctxs[i][0].c.Reply(int32(-77), nil); err != nil {
			r.Violation("last Reply over %s failed: %v", kind, err)
		}
		want[i]++
	}
	ok := grows(longWait, prog, func() bool {
		for i, c := range cols {
			if c.n() < want[i] && !isClosed(c.done) {
				return false
			}
		}
		return true
	})
	close(release)
	w.stop()
	for i, c := range conns {
		if packet {
			c.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
		}
		if !waitCh(longWait, cols[i].done) {
			c.Close()
		}
	}
	_ = ok
	for i, c := range conns {
		c.Close()
		<-cols[i].done
		if err := cols[i].err; err != nil && err != io.EOF && !errors.Is(err, net.ErrClosed) && !packet && !strings.Contains(err.Error(), "closed") && !strings.Contains(err.Error(), "reset") {
			r.Violation("%s connection %d: the reply stream is broken: %v (writers %d)", kind, i, err, G)
		}
		if packet && cols[i].err != nil && strings.Contains(cols[i].err.Error(), "not one block") {
			r.Violation("udp: %v", cols[i].err)
		}
	}
	// match
	type key struct {
		id   int32
		body string
	}
	idx := map[key]*c09exp{}
	for _, e := range exps {
		k := key{e.id, ""}
		if e.id == 0 {
			k.body = string(e.body)
		}
		idx[k] = e
	}
	for i := range conns {
		last := map[int]int{}
		got := cols[i].all()
		for j, m := range got {
			if m.ID == -77 && len(m.Body) == 0 {
				if j != len(got)-1 && !packet {
					r.Violation("%s connection %d: a block arrived after the last send had been made: id %d body %s", kind, i, got[j+1].ID, short(got[j+1].Body))
				}
				continue
			}
			k := key{m.ID, ""}
			if m.ID == 0 {
				k.body = string(m.Body)
			}
			e := idx[k]
			if e == nil {
				r.Violation("%s connection %d received a block nobody sent: id %d header %s body %s", kind, i, m.ID, short(m.Header), short(m.Body))
			}
			if e.conn != i {
				r.Violation("%s: %s addressed to connection %d arrived on connection %d", kind, e.how, e.conn, i)
			}
			if atomic.AddInt32(&e.gotten, 1) > 1 {
				r.Violation("%s: %s with id %d arrived twice", kind, e.how, e.id)
			}
			if !bytes.Equal(m.Body, e.body) {
				r.Violation("%s: body of %s (id %d, %d bytes) arrived changed: %s instead of %s", kind, e.how, e.id, len(e.body), short(m.Body), short(e.body))
			}
			if !hdrEq(norm(e.hdr), m.hdr()) {
				r.Violation("%s: header of %s (id %d) arrived as %s, given %s", kind, e.how, e.id, short(m.Header), short(jsonOf(e.hdr)))
			}
			if p, ok := last[e.gid]; ok && p > e.seq {
				r.Violation("%s: sends %d and %d of one goroutine to one connection arrived out of order", kind, p, e.seq)
			}
			last[e.gid] = e.seq
		}
	}
	for _, e := range exps {
		if e.gotten == 0 {
			r.Violation("%s: %s (id %d, %d bytes, writer %d of %d) returned nil and never arrived", kind, e.how, e.id, len(e.body), e.gid, G)
		}
	}
	r.Count("replies", int64(len(exps)))
	r.Count("reply_bytes", bytesOut)
	r.Sample(map[string]interface{}{"transport": kind, "server_marshaller": sm, "writers": G, "connections": K, "paces": paces, "replies": len(exps), "bytes": bytesOut})
}

// c09close: everything sent before CloseConn by the same goroutine still arrives, then the stream ends.
func c09close(r *Rep, g *rand.Rand, kind string) {
	x := tcpx.NewTcpX(nil)
	n := 1 + g.Intn(20)
	big := 0
	if g.Intn(3) == 0 {
		big = 200000 + g.Intn(400000)
	}
	res := make(chan error, 64)
	x.AddHandler(5, func(c *tcpx.Context) {
		for i := 0; i < n; i++ {
			p := ""
			if i == n/2 {
				p = strings.Repeat("x", big)
			}
			if err := c.JSON(int32(100+i), p); err != nil {
				res <- err
				return
			}
		}
		res <- nil
		c.CloseConn()
		if err := c.JSON(1, "late"); err == nil {
			r.Violation("a reply on a connection closed with CloseConn returned nil over %s", kind)
		}
	})
	w := r.serveKind(x, kind)
	c := w.dial()
	c.Write(frame(5, nil, nil))
	col := collect(c, false, nil)
	if !waitCh(longWait, col.done) {
		r.Violation("%s: connection did not end after CloseConn", kind)
	}
	if err := <-res; err != nil {
		r.Violation("%s: reply failed on an open connection: %v", kind, err)
	}
	got := col.all()
	for i, m := range got {
		if i >= n || m.ID != int32(100+i) {
			r.Violation("%s: reply %d before CloseConn has id %d", kind, i, m.ID)
		}
	}
	if len(got) != n {
		r.Violation("%s: %d of %d replies made before CloseConn arrived (stream ended with %v)", kind, len(got), n, col.err)
	}
	c.Close()
	w.stop()
	r.Case(fmt.Sprintf("close/%s/%d/%v", kind, bucket(n), big > 0))
}

// scriptConn is a net.Conn that records writes and can fail or stall them.
type scriptConn struct {
	connReader
	mu     sync.Mutex
	writes [][]byte
	fail   bool
	err    error // the error failing writes return
	part   int   // bytes a failing write takes
	once   bool  // only the first write fails
	calls  int
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (s *scriptConn) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls++
	if s.fail && (!s.once || s.calls == 1) {
		n := s.part
		if n > len(b) {
			n = len(b)
		}
		if n > 0 {
			s.writes = append(s.writes, append([]byte(nil), b[:n]...))
		}
		if s.err != nil {
			return n, s.err
		}
		return n, errors.New("write refused")
	}
	s.writes = append(s.writes, append([]byte(nil), b...))
	return len(b), nil
}

// c09partial: errors of the connection are returned to the caller by every call.
func c09partial(r *Rep) {
	calls := map[string]func(c *tcpx.Context) error{
		"Reply":               func(c *tcpx.Context) error { return c.Reply(1, "x") },
		"JSON":                func(c *tcpx.Context) error { return c.JSON(1, "x") },
		"XML":                 func(c *tcpx.Context) error { return c.XML(1, "x") },
		"YAML":                func(c *tcpx.Context) error { return c.YAML(1, "x") },
		"TOML":                func(c *tcpx.Context) error { return c.TOML(1, rec{}) },
		"ProtoBuf":            func(c *tcpx.Context) error { return c.ProtoBuf(1, &wrapperspb.BytesValue{Value: []byte("x")}) },
		"ReplyWithMarshaller": func(c *tcpx.Context) error { return c.ReplyWithMarshaller(tcpx.YamlMarshaller{}, 1, "x") },
		"JSONURLPattern":      func(c *tcpx.Context) error { return c.JSONURLPattern("x") },
		"ProtobufURLPattern": func(c *tcpx.Context) error {
			return c.ProtobufURLPattern(&wrapperspb.BytesValue{Value: []byte("x")})
		},
		"SendToConn": func(c *tcpx.Context) error { return c.SendToConn(c, 1, "x") },
		"WriteJSON":  func(c *tcpx.Context) error { return tcpx.WriteJSON(c.Conn, 1, "x") },
		"WriteConn":  func(c *tcpx.Context) error { return tcpx.WriteConn([]byte("x"), c.Conn) },
		"PipeJSON":   func(c *tcpx.Context) error { return tcpx.PipeJSON(c.Conn, 1, "x", 2, "y") },
	}
	for name, f := range calls {
		for _, fail := range []bool{false, true} {
			for _, m := range []string{"json", "xml", "yaml"} {
				sc := &scriptConn{fail: fail}
				c := tcpx.NewContext(sc, marshallerOf(m))
				c.Stream = frame(0, jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/z"}), nil)
				err := f(c)
				if fail && err == nil {
					r.Violation("%s returned nil although the connection refused the write", name)
				}
				if !fail && (err != nil || len(bytes.Join(sc.writes, nil)) == 0) {
					r.Violation("%s: err=%v, %d writes", name, err, len(sc.writes))
				}
				r.Case(fmt.Sprintf("conn/%s/%v/%s", name, fail, m))
			}
		}
		// nil only for what was completely written, once
		whole := &scriptConn{}
		mkc := func(sc *scriptConn) *tcpx.Context {
			c := tcpx.NewContext(sc, marshallerOf("json"))
			c.Stream = frame(0, jsonOf(map[string]string{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/z"}), nil)
			return c
		}
		f(mkc(whole))
		want := bytes.Join(whole.writes, nil)
		for ei, e := range []error{timeoutErr{}, &net.OpError{Op: "write", Net: "tcp", Err: timeoutErr{}}, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, net.ErrClosed, os.ErrDeadlineExceeded, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EAGAIN)}} {
			for _, part := range []int{0, 1, 5, len(want) - 1} {
				for _, once := range []bool{false, true} {
					sc := &scriptConn{fail: true, err: e, part: part, once: once}
					err := f(mkc(sc))
					if err == nil && !bytes.Equal(bytes.Join(sc.writes, nil), want) {
						r.Violation("%s returned nil although the connection took %d of %d bytes and failed with %v; it has written %s", name, part, len(want), e, short(bytes.Join(sc.writes, nil)))
					}
					r.Case(fmt.Sprintf("connerr/%s/%d/%d/%v", name, ei, bucket(part), once))
				}
			}
		}
	}
}

// c09patience makes peers that read nothing from now on until the functions returned are called.
func c09patience(r *Rep) (finish []func()) {
	for i, kind := range []string{"tcp", "unix", "tls"} {
		kind := kind
		x := tcpx.NewTcpX(rawMarshaller{})
		if i == 0 {
			x.SetDeadline(time.Now().Add(time.Hour))
		}
		bodies := [][]byte{make([]byte, 12<<20), []byte("second"), make([]byte, 3<<20), []byte("last")}
		for k, b := range bodies {
			for j := range b {
				b[j] = byte(j*7 + j>>8 + k)
			}
		}
		done := make(chan error, 2)
		x.AddHandler(1, func(c *tcpx.Context) {
			for k, b := range bodies {
				if err := c.Reply(int32(10+k), b); err != nil {
					done <- fmt.Errorf("reply %d: %v", k, err)
					return
				}
			}
			done <- nil
		})
		x.AddHandler(2, func(c *tcpx.Context) { c.Reply(2, []byte("other")) })
		w := r.serveKind(x, kind)
		c := w.dial()
		c.Write(frame(1, nil, nil))
		start := time.Now()
		finish = append(finish, func() {
			if d := 11*time.Second - time.Since(start); d > 0 {
				time.Sleep(d)
			}
			waited := time.Since(start).Round(time.Second)
			select {
			case err := <-done:
				r.Violation("%s: replies of 15 MB to a peer that does not read ended with %v", kind, err)
			default:
			}
			c.Write(frame(2, nil, nil)) // one more reply from elsewhere
			others := 0
			for k := 0; k < len(bodies); {
				c.SetReadDeadline(time.Now().Add(60 * time.Second))
				m, err := recv(c)
				if err != nil {
					r.Violation("%s: a peer that began to read after %v does not get reply %d intact: %v", kind, waited, k, err)
				}
				if m.ID == 2 && string(m.Body) == "other" {
					others++
					continue
				}
				if m.ID != int32(10+k) || !bytes.Equal(m.Body, bodies[k]) {
					r.Violation("%s: a peer that began to read after %v gets message %d of %d bytes where reply %d was due", kind, waited, m.ID, len(m.Body), k)
				}
				k++
			}
			select {
			case err := <-done:
				if err != nil {
					r.Violation("%s: %v", kind, err)
				}
			case <-time.After(60 * time.Second):
				r.Violation("%s: a reply that has arrived does not return", kind)
			}
			if others == 0 {
				if m, err := recv(c); err != nil || m.ID != 2 {
					r.Violation("%s: a reply made meanwhile is missing: %v", kind, err)
				}
			}
			r.Case(fmt.Sprintf("patience/%s", kind))
			c.Close()
			w.stop()
		})
	}
	return finish
}
