package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C05"] = c05 }

// routeLog records which handler got which message.
type routeLog struct {
	sync.Mutex
	got  map[string][]string // tag -> handler keys
	raw  map[string][]byte   // tag -> expected bytes
	bad  []string
	seen int64
}

func newRouteLog() *routeLog {
	return &routeLog{got: map[string][]string{}, raw: map[string][]byte{}}
}

// tagOf finds "<tag>" in a body.
func tagOf(b []byte) string {
	i := bytes.IndexByte(b, '<')
	j := bytes.IndexByte(b, '>')
	if i < 0 || j < i {
		return ""
	}
	return string(b[i : j+1])
}

func (l *routeLog) handler(key string) func(c *tcpx.Context) {
	return func(c *tcpx.Context) {
		st := c.Stream
		tag := ""
		if m, err := parseFrame(st); err == nil {
			tag = tagOf(m.Body)
		}
		l.Lock()
		defer l.Unlock()
		atomic.AddInt64(&l.seen, 1)
		want, ok := l.raw[tag]
		if !ok {
			l.bad = append(l.bad, fmt.Sprintf("handler %s got unknown bytes %s", key, short(st)))
			return
		}
		if !bytes.Equal(want, st) {
			l.bad = append(l.bad, fmt.Sprintf("handler %s got %s for message %s sent as %s", key, short(st), tag, short(want)))
		}
		l.got[tag] = append(l.got[tag], key)
	}
}

func (l *routeLog) expect(tag string, raw []byte) {
	l.Lock()
	l.raw[tag] = raw
	l.Unlock()
}

func (l *routeLog) times(tag string) int {
	l.Lock()
	defer l.Unlock()
	return len(l.got[tag])
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func c05(r *Rep) {
	r.Rule("one case = one message sent on a connection (or datagram) of a server with a random routing table, concurrent with others; distinct by (server, kind of message, kind of the message before it on the same connection); messages to a registered id with no header, first on their connection, are trivial")
	g := r.Sub(5)
	for i := 0; i < r.N(160); i++ {
		c05server(r, rand.New(rand.NewSource(g.Int63())), i)
	}
	c05heartbeatRewrite(r)
	for i := 0; i < r.N(24); i++ {
		c05repeats(r, rand.New(rand.NewSource(g.Int63())), i)
	}
}

// c05repeats sends byte-identical messages back to back, and counts the calls of each handler.
func c05repeats(r *Rep, g *rand.Rand, round int) {
	r.Step(fmt.Sprintf("c05 repeats %d", round))
	x := tcpx.NewTcpX(nil)
	const hbID, authID = 51, 52
	counts := map[string]*int64{}
	h := func(k string) func(c *tcpx.Context) {
		n := new(int64)
		counts[k] = n
		return func(c *tcpx.Context) { atomic.AddInt64(n, 1) }
	}
	opt := round % 8
	hb, auth := false, false
	if opt == 1 || opt == 3 || opt == 6 || opt == 7 { // custom ids, the default ones stay unregistered
		hb = true
		x.HeartBeatModeDetail(true, time.Hour, round%4 == 1, hbID)
		if opt == 6 {
			counts["hb"] = new(int64) // the framework's own handler stays
		} else {
			x.RewriteHeartBeatHandler(hbID, h("hb"))
		}
	}
	if opt == 2 || opt == 3 || opt == 7 {
		auth = true
		x.WithAuthDetail(true, time.Hour, round%4 == 2, authID, h("auth"))
	}
	if opt == 4 {
		x.WithBuiltInPool(true)
		x.WithBroadCastSignal(true)
	}
	onMsg := opt >= 5
	for _, id := range []int32{2, 3, 0, -1} {
		x.AddHandler(id, h(fmt.Sprintf("id:%d", id)))
	}
	x.Any("/u", h("url:/u"))
	x.Any("", h("url:"))
	addEcho(x)
	if onMsg {
		all := h("onmessage")
		x.OnMessage = func(c *tcpx.Context) {
			if id, _ := tcpx.MessageIDOf(c.Stream); id == echoID {
				b, _ := c.RawStream()
				c.ReplyWithMarshaller(rawMarshaller{}, echoID, b)
				return
			}
			all(c)
		}
	}
	kind := []string{"tcp", "unix", "tls"}[round%3]
	s := r.serveKind(x, kind)
	type item struct {
		b    []byte
		want string
	}
	url := func(u string) []byte {
		return jsonOf(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": u})
	}
	items := []item{
		{frame(2, nil, nil), "id:2"}, {frame(2, nil, []byte("same")), "id:2"}, {frame(3, []byte("{}"), []byte("same")), "id:3"},
		{frame(0, nil, nil), "id:0"}, {frame(-1, nil, []byte{0}), "id:-1"},
		{frame(0, url("/u"), nil), "url:/u"}, {frame(2, url("/u"), []byte("q")), "url:/u"}, {frame(0, url(""), nil), "url:"},
		{frame(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, nil, nil), ""}, {frame(tcpx.DEFAULT_AUTH_MESSAGEID, nil, nil), ""},
		{frame(99, nil, nil), ""}, {frame(2, url("/nope"), nil), ""},
	}
	if hb {
		items = append(items, item{frame(hbID, nil, nil), "hb"})
	} else {
		items = append(items, item{frame(hbID, nil, nil), ""})
	}
	if auth {
		items = append(items, item{frame(authID, nil, nil), "auth"})
	} else {
		items = append(items, item{frame(authID, nil, nil), ""})
	}
	want := map[string]int64{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for ci := 0; ci < 4; ci++ {
		wg.Add(1)
		go func(g *rand.Rand) {
			defer wg.Done()
			c := s.dial()
			defer c.Close()
			for i := 0; i < 20; i++ {
				it := items[g.Intn(len(items))]
				n := 1 + g.Intn(5)
				w := it.want
				if onMsg {
					w = "onmessage"
				}
				mu.Lock()
				if w != "" {
					want[w] += int64(n)
				}
				mu.Unlock()
				apart := g.Intn(3) == 0
				if apart { // one after another has been answered
					for k := 0; k < n; k++ {
						c.Write(it.b)
						if k%2 == 0 {
							if err := ping(c); err != nil {
								r.Violation("%s: the connection is unusable after message %s: %v", kind, short(it.b), err)
							}
						}
					}
				} else {
					c.Write(bytes.Repeat(it.b, n))
				}
				r.Case(fmt.Sprintf("repeat/%d/%s/%d/%v", opt, it.want, n, apart))
			}
			if err := ping(c); err != nil {
				r.Violation("%s: the connection is unusable after repeated messages: %v", kind, err)
			}
		}(rand.New(rand.NewSource(g.Int63())))
	}
	wg.Wait()
	total := func() (n int64) {
		for _, v := range counts {
			n += atomic.LoadInt64(v)
		}
		return
	}
	var need int64
	for _, v := range want {
		need += v
	}
	until(longWait, func() bool { return total() >= need })
	time.Sleep(5 * time.Millisecond)
	for k, v := range counts {
		if n := atomic.LoadInt64(v); n != want[k] {
			r.Violation("%s, variant %d: handler %s ran %d times for %d messages (identical messages sent back to back)", kind, opt, k, n, want[k])
		}
	}
	r.Count("messages_routed", need)
	s.stop()
}

var c05tag int64

type c05table struct {
	ids   []int32
	idSet map[int32]bool
	urls  []string
	urlS  map[string]bool
}

func c05server(r *Rep, g *rand.Rand, round int) {
	r.Step(fmt.Sprintf("c05 server %d", round))
	x := tcpx.NewTcpX(tcpx.JsonMarshaller{})
	lg := newRouteLog()
	tb := c05table{idSet: map[int32]bool{}, urlS: map[string]bool{}}
	nIDs := 1 + g.Intn(40)
	if round%4 == 3 {
		nIDs = 600
	}
	addID := func(id int32) {
		if tb.idSet[id] || id == echoID {
			return
		}
		tb.idSet[id] = true
		tb.ids = append(tb.ids, id)
		n := g.Intn(3)
		hs := []func(*tcpx.Context){}
		for i := 0; i < n; i++ {
			hs = append(hs, func(c *tcpx.Context) { c.SetCtxPerRequest(i, 1) })
		}
		hs = append(hs, lg.handler(fmt.Sprintf("id:%d", id)))
		x.AddHandler(id, hs...)
	}
	addURL := func(u string) {
		if tb.urlS[u] {
			return
		}
		tb.urlS[u] = true
		tb.urls = append(tb.urls, u)
		x.Any(u, lg.handler("url:"+u))
	}
	for _, id := range []int32{0, -1, 2, 7, 8, 2147483647, -2147483648, 65536, 256} {
		if g.Intn(3) > 0 {
			addID(id)
		}
	}
	for i := 0; i < nIDs; i++ {
		addID(genID(g))
	}
	base := []string{"/", "/a", "/a/", "/a/b", "/a/b/c", "/A", "a", "/login/", "/login", "/ü/日本", "/" + strings.Repeat("x", 300), " /a", "/a ", "/a?x=1", "/a%2Fb", "5", "/<>", "*", "/*", "/a/*", "**", "404", "default", "."}
	for _, u := range base {
		if g.Intn(3) > 0 && !strings.Contains(u, "<") {
			addURL(u)
		}
	}
	if len(tb.urls) == 0 {
		addURL("/a")
	}
	if len(tb.ids) == 0 {
		addID(7)
	}
	// refused duplicates
	for i := 0; i < 3; i++ {
		id := tb.ids[g.Intn(len(tb.ids))]
		if !panics(func() { x.AddHandler(id, lg.handler("DUPMID"), lg.handler("DUP")) }) {
			r.Violation("a second handler for message id %d was accepted", id)
		}
		u := tb.urls[g.Intn(len(tb.urls))]
		if !panics(func() { x.Any(u, lg.handler("DUP")) }) {
			r.Violation("a second handler for URL pattern %q was accepted", u)
		}
		r.Case("dup")
	}
	onMsg := round%5 == 4
	if onMsg {
		x.OnMessage = func(c *tcpx.Context) {
			if id, _ := tcpx.MessageIDOf(c.Stream); id == echoID {
				b, _ := c.RawStream()
				out, _ := c.Packx.PackWithBody(echoID, b)
				c.Conn.Write(out)
				return
			}
			lg.handler("onmessage")(c)
		}
	}
	addEcho(x)
	tlsOn := round%4 == 1
	if tlsOn {
		x.TLSConfig = &tls.Config{Certificates: []tls.Certificate{testCert(r)}}
	}
	if round%2 == 1 {
		x.WithBuiltInPool(true)
	}
	if round%3 == 2 && !onMsg {
		x.HeartBeatModeDetail(true, time.Hour, false, 424242)
		x.WithAuthDetail(true, time.Hour, true, 434343, lg.handler("id:434343"))
		tb.idSet[434343] = true
		tb.ids = append(tb.ids, 434343)
	}
	s := r.serve(x, "tcp", nextAddr())
	su := r.serve(x, "udp", nextAddr())

	type wanted struct {
		tag, want, desc string
	}
	var wmu sync.Mutex
	var wants []wanted
	var wg sync.WaitGroup
	nConn := 6
	for ci := 0; ci < nConn; ci++ {
		wg.Add(1)
		go func(g *rand.Rand, ci int) {
			defer wg.Done()
			var c net.Conn = s.dial()
			if tlsOn {
				c = tls.Client(c, &tls.Config{InsecureSkipVerify: true})
			}
			defer c.Close()
			prev := "first"
			var burst []byte
			inBatch := 0
			for i := 0; i < 60 || inBatch > 0; i++ {
				tag := fmt.Sprintf("<%d>", atomic.AddInt64(&c05tag, 1))
				b, want, kind := tb.gen(g, tag)
				switch {
				case inBatch > 0:
					inBatch--
					kind += "-in-batch"
				case g.Intn(9) == 0: // a batch starts here
					inBatch = g.Intn(6)
					b = piped(b, inBatch+1)
					kind += "-batch-head"
				}
				if onMsg {
					want = "onmessage"
				}
				lg.expect(tag, b)
				wmu.Lock()
				wants = append(wants, wanted{tag, want, kind + " after " + prev})
				wmu.Unlock()
				burst = append(burst, b...)
				if g.Intn(3) == 0 {
					if _, err := c.Write(burst); err != nil {
						r.Violation("connection broke after %s messages: %v", prev, err)
					}
					burst = nil
				}
				key := fmt.Sprintf("%v%v/%s/%s", tlsOn, onMsg, kind, prev)
				if kind == "id" && prev == "first" {
					key = ""
				}
				r.Case(key)
				r.Sample(map[string]interface{}{"message": short(b), "kind": kind, "expected_handler": want})
				prev = kind
			}
			if _, err := c.Write(burst); err != nil {
				r.Violation("connection broke: %v", err)
			}
			if err := ping(c); err != nil {
				r.Violation("connection unusable after messages of all kinds (last: %s): %v", prev, err)
			}
			// wait for ours before closing
		}(rand.New(rand.NewSource(g.Int63())), ci)
	}
	if !onMsg {
		wg.Add(1)
		go func(g *rand.Rand) {
			defer wg.Done()
			c := su.dial()
			defer c.Close()
			for i := 0; i < 40; i++ {
				b, want, kind := []byte(nil), "", ""
				ok := false
				for try := 0; try < 5 && !ok; try++ {
					tag := fmt.Sprintf("<%d>", atomic.AddInt64(&c05tag, 1))
					st := rand.New(rand.NewSource(int64(i)*77 + r.Seed))
					b, want, kind = tb.gen(st, tag)
					if len(b) > 3900 {
						ok = true
						break
					}
					lg.expect(tag, b)
					c.Write(b)
					if want == "" {
						wmu.Lock()
						wants = append(wants, wanted{tag, want, "udp " + kind})
						wmu.Unlock()
						ok = true
						break
					}
					ok = until(200, func() bool { return lg.times(tag) > 0 })
					if ok {
						wmu.Lock()
						wants = append(wants, wanted{tag, want, "udp " + kind})
						wmu.Unlock()
					}
				}
				if !ok {
					r.Violation("udp: %s datagram never reached handler %s in 5 tries", kind, want)
				}
				r.Case("udp/" + kind)
			}
		}(rand.New(rand.NewSource(g.Int63())))
	}
	wg.Wait()
	need := int64(0)
	for _, w := range wants {
		if w.want != "" {
			need++
		}
	}
	until(longWait, func() bool { return atomic.LoadInt64(&lg.seen) >= need })
	time.Sleep(20 * time.Millisecond)
	lg.Lock()
	if len(lg.bad) > 0 {
		r.Violation("%s", lg.bad[0])
	}
	for _, w := range wants {
		got := lg.got[w.tag]
		if w.want == "" && len(got) > 0 {
			r.Violation("message %s (%s) has no registered handler but was handed to %v; bytes %s", w.tag, w.desc, got, short(lg.raw[w.tag]))
		}
		if w.want != "" && (len(got) != 1 || got[0] != w.want) {
			r.Violation("message %s (%s) must reach handler %s exactly once, got %v; bytes %s", w.tag, w.desc, w.want, got, short(lg.raw[w.tag]))
		}
	}
	lg.Unlock()
	r.Count("messages_routed", need)
	within(longWait, func() { x.Stop(true) })
	waitCh(longWait, s.done)
	waitCh(longWait, su.done)
}

// gen makes a message, the handler it must reach ("" for none) and its kind.
func (tb *c05table) gen(g *rand.Rand, tag string) (b []byte, want, kind string) {
	body := append([]byte(tag), randBytes(g, g.Intn(300))...)
	for i := len(tag); i < len(body); i++ {
		if body[i] == '<' {
			body[i] = '.'
		}
	}
	if g.Intn(20) == 0 {
		body = append(body, make([]byte, g.Intn(60000))...)
	}
	id := tb.ids[g.Intn(len(tb.ids))]
	url := tb.urls[g.Intn(len(tb.urls))]
	unknownID := func() int32 {
		for {
			v := genID(g)
			if !tb.idSet[v] && v != echoID && v != 424242 && v != tcpx.DEFAULT_HEARTBEAT_MESSAGEID {
				return v
			}
		}
	}
	unknownURL := func() string {
		for {
			v := []string{"/zz", "/a/b/c/d", "/a/b/", "/nope", "A", "", "/login//", "/a\x00", fmt.Sprint(id)}[g.Intn(9)]
			if !tb.urlS[v] {
				return v
			}
		}
	}
	extra := func(m map[string]interface{}) map[string]interface{} {
		if g.Intn(3) == 0 {
			m["X-Extra"] = g.Intn(100)
		}
		return m
	}
	switch g.Intn(14) {
	case 12: // keys that only look like the routing keys
		k := [][2]string{{"router-type", "Router-Pattern-Value"}, {"ROUTER-TYPE", "ROUTER-PATTERN-VALUE"}, {"Router_Type", "Router-Pattern-Value"}, {"RouterType", "url"}, {"Router-Type ", "Router-Pattern-Value "}}[g.Intn(5)]
		return frame(id, jsonOf(map[string]interface{}{k[0]: "URL_PATTERN", k[1]: url}), body), fmt.Sprintf("id:%d", id), "id-like-keys"
	case 0:
		return frame(id, nil, body), fmt.Sprintf("id:%d", id), "id"
	case 1:
		return frame(id, []byte("{}"), body), fmt.Sprintf("id:%d", id), "id-emptyheader"
	case 2:
		return frame(id, []byte("null"), body), fmt.Sprintf("id:%d", id), "id-null"
	case 3:
		return frame(id, jsonOf(extra(map[string]interface{}{"Router-Type": "MESSAGE_ID", "Router-Pattern-Value": url})), body), fmt.Sprintf("id:%d", id), "id-explicit"
	case 4:
		b, _ := tcpx.NewMessage(id, string(body[:len(tag)])).Pack(nil)
		b = frame(id, b[16:16+int(uint32(b[8])<<24|uint32(b[9])<<16|uint32(b[10])<<8|uint32(b[11]))], body)
		return b, fmt.Sprintf("id:%d", id), "id-NewMessage"
	case 5:
		return frame(id, jsonOf(map[string]interface{}{"Router-Pattern-Value": url, "a": "b"}), body), fmt.Sprintf("id:%d", id), "id-with-url-value"
	case 6:
		return frame(0, jsonOf(extra(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": url})), body), "url:" + url, "url"
	case 7:
		return frame(id, jsonOf(extra(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": url})), body), "url:" + url, "url-with-registered-id"
	case 8:
		return frame(unknownID(), jsonOf(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": url}), body), "url:" + url, "url-with-unknown-id"
	case 9:
		return frame(unknownID(), nil, body), "", "unknown-id"
	case 10:
		return frame(id, jsonOf(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": unknownURL()}), body), "", "unknown-url"
	case 11:
		rt := []string{"BOGUS", "url_pattern", "MESSAGEID", "x", "", " MESSAGE_ID", "URL_PATTERN ", "message_id", url, fmt.Sprint(id)}[g.Intn(10)]
		return frame(id, jsonOf(map[string]interface{}{"Router-Type": rt, "Router-Pattern-Value": url}), body), "", "unknown-type"
	default:
		return frame(unknownID(), jsonOf(map[string]interface{}{"Router-Type": "MESSAGE_ID", "Router-Pattern-Value": id}), body), "", "unknown-id-explicit"
	}
}

// piped makes b the head of a batch of n messages.
func piped(b []byte, n int) []byte {
	m, err := parseFrame(b)
	if err != nil {
		panic(err)
	}
	h := map[string]interface{}{}
	json.Unmarshal(m.Header, &h)
	if h == nil {
		h = map[string]interface{}{}
	}
	h[tcpx.PIPED] = fmt.Sprintf("enable;%d", n)
	return frame(m.ID, jsonOf(h), m.Body)
}

func c05heartbeatRewrite(r *Rep) {
	x := tcpx.NewTcpX(nil)
	lg := newRouteLog()
	x.HeartBeatMode(true, time.Hour)
	x.RewriteHeartBeatHandler(777, lg.handler("hb"))
	x.AddHandler(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, lg.handler("old-id"))
	addEcho(x)
	s := r.serveTCP(x)
	c := s.dial()
	for i := 0; i < 5; i++ {
		for _, k := range []struct {
			id   int32
			want string
		}{{777, "hb"}, {tcpx.DEFAULT_HEARTBEAT_MESSAGEID, "old-id"}} {
			tag := fmt.Sprintf("<h%d>", atomic.AddInt64(&c05tag, 1))
			b := frame(k.id, nil, []byte(tag))
			lg.expect(tag, b)
			c.Write(b)
			if !until(longWait, func() bool { return lg.times(tag) > 0 }) {
				r.Violation("message %d did not reach handler %s after the heartbeat handler was rewritten", k.id, k.want)
			}
			lg.Lock()
			if g := lg.got[tag]; len(g) != 1 || g[0] != k.want {
				r.Violation("message %d reached %v, want %s", k.id, g, k.want)
			}
			lg.Unlock()
			r.Case("rewrite/" + k.want)
		}
	}
	c.Close()
	s.stop()
}
