package main

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C03"] = c03 }

var lenValues = []uint32{0, 1, 2, 3, 4, 7, 8, 11, 12, 13, 14, 15, 16, 17, 20, 28, 100, 255, 256, 1000, 4095, 4096, 65535, 65536, 1 << 20, 0x7ffffff0, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffffe, 0xffffffff}

func genLen(g *rand.Rand, right uint32) uint32 {
	switch g.Intn(4) {
	case 0:
		return right + uint32(g.Intn(9)) - 4
	case 1:
		return right
	default:
		return lenValues[g.Intn(len(lenValues))]
	}
}

var hostileHeaders = []string{
	``, `null`, `{}`, `[]`, `5`, `"x"`, `{`, `{"a":`, `{"a":1}{`, "\x00\x01", "{\"a\":\"\xff\xfe\"}", `{"Router-Type":5}`, `{"Router-Type":null}`, `{"Router-Type":"URL_PATTERN"}`,
	`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":7}`, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/a"}`, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/nope"}`,
	`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":null}`, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":["/a"]}`, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":""}`,
	`{"Router-Type":"BOGUS"}`, `{"Router-Type":{}}`, `{"Router-Type":"MESSAGE_ID","Router-Pattern-Value":11}`, `{"Router-Type":""}`, strings.Repeat(`{"a":`, 40) + `1` + strings.Repeat(`}`, 40),
	`{"Router-Type":"URL_PATTERN","Router-Type":3}`, `{"Pack-Content-Type":4}`, ` {"a":1e999} `, `{"a":123456789012345678901234567890}`,
}

var pipeArgs = []string{
	`"enable;1"`, `"enable;2"`, `"enable;3"`, `"enable;0"`, `"enable;-1"`, `"enable;-9223372036854775808"`, `"enable;9223372036854775807"`, `"enable;99999999999999999999"`, `"enable;1000000"`, `"enable;4000000000000"`, `"enable;12000000000000"`,
	`"enable;x"`, `"enable;"`, `"enable"`, `""`, `";"`, `";;"`, `"enable;2;3"`, `"disable;2"`, `"disable;x"`, `"Enable;2"`, `5`, `null`, `true`, `[]`, `{}`, `{"enable":2}`, `"enable; 2"`, `"enable;0x2"`, `"enable;2.0"`, `"enable;+2"`,
}

// hostileBlock builds one block; declared lengths may be anything up to maxL.
func hostileBlock(g *rand.Rand, maxL uint32) ([]byte, string) {
	var hdr string
	kind := ""
	switch g.Intn(5) {
	case 0, 1:
		hdr = hostileHeaders[g.Intn(len(hostileHeaders))]
		kind = "hdr"
	case 2:
		hdr = `{"` + tcpx.PIPED + `":` + pipeArgs[g.Intn(len(pipeArgs))] + `}`
		kind = "pipe"
	case 3:
		hdr = string(randBytes(g, g.Intn(60)))
		kind = "rnd"
	case 4:
		hdr = string(jsonOf(genHeader(g)))
		kind = "ok"
	}
	var body []byte
	switch g.Intn(4) {
	case 0:
	case 1:
		body = randBytes(g, g.Intn(200))
	case 2:
		body = []byte(`{"k":"v","n":[1,2,{"x":null}]}`)
	case 3:
		body = []byte(`{"k":`)
	}
	ids := []int32{0, 1, 10, 11, 12, 13, 14, 15, -1, -2147483648, 2147483647, tcpx.DEFAULT_HEARTBEAT_MESSAGEID, tcpx.DEFAULT_AUTH_MESSAGEID, 99999}
	b := frame(ids[g.Intn(len(ids))], []byte(hdr), body)
	if g.Intn(3) > 0 {
		for k := g.Intn(3); k >= 0; k-- {
			f := g.Intn(3)
			right := []uint32{uint32(len(b) - 4), uint32(len(hdr)), uint32(len(body))}[f]
			off := []int{0, 8, 12}[f]
			v := genLen(g, right)
			if f == 0 && v > maxL && v < 0x80000000 {
				v = right
			}
			binary.BigEndian.PutUint32(b[off:], v)
			kind += fmt.Sprintf("+%s:%s", []string{"L", "h", "b"}[f], lenClass(v, right))
		}
	}
	if g.Intn(10) == 0 && len(b) > 0 {
		b[4+g.Intn(len(b)-4)] ^= byte(1 << g.Intn(8))
		kind += "+flip"
	}
	return b, kind
}

func lenClass(v, right uint32) string {
	switch {
	case v == right:
		return "="
	case v >= 0x80000000:
		return "neg"
	case v > 0x7fff0000:
		return "max"
	case v > right:
		return ">"
	case v == 0:
		return "0"
	case v < 12:
		return "<12"
	default:
		return "<"
	}
}

func c03(r *Rep) {
	r.Rule("one case = one hostile input (a decoder call, a byte stream on one connection with its way of ending, or a datagram); distinct by (target, block kinds and which length fields were wrong in which way, ending); inputs that are entirely valid are trivial")
	r.Assume("panics raised inside third-party body codecs (toml, yaml, protobuf, xml on arbitrary bytes) and memory exhaustion are out of scope; declared lengths stay below 4 MB where no limit is set")
	c03decoders(r)
	c03zero(r)
	c03servers(r)
}

// ---------------------------------------------------------------- decoders

type decoder struct {
	name       string
	thirdParty bool
	f          func(b []byte)
	unlimited  bool // allocates what the input declares
}

// safeStream tells whether reading b as a sequence of blocks without a size limit would
// allocate no more than 4 MB for any of them.
func safeStream(b []byte) bool {
	for len(b) >= 4 {
		l := binary.BigEndian.Uint32(b)
		if l >= 0x80000000 {
			return true
		}
		if l > 1<<22 {
			return false
		}
		if len(b) < 4+int(l) {
			return true
		}
		b = b[4+int(l):]
	}
	return true
}

func decoders() []decoder {
	px := tcpx.NewPackx(nil)
	var d []decoder
	add := func(name string, f func(b []byte)) { d = append(d, decoder{name: name, f: f}) }
	addU := func(name string, f func(b []byte)) { d = append(d, decoder{name: name, f: f, unlimited: true}) }
	addU("UnPackFromReader", func(b []byte) { tcpx.UnPackFromReader(bytes.NewReader(b)) })
	addU("FirstBlockOf", func(b []byte) { tcpx.FirstBlockOf(bytes.NewReader(b)) })
	add("FirstBlockOfLimitMaxByte", func(b []byte) { tcpx.FirstBlockOfLimitMaxByte(bytes.NewReader(b), 1000) })
	add("Packx.FirstBlockOfLimitMaxByte", func(b []byte) { px.FirstBlockOfLimitMaxByte(bytes.NewReader(b), 1000) })
	addU("UnpackToBlockFromReader", func(b []byte) { tcpx.UnpackToBlockFromReader(bytes.NewReader(b)) })
	add("UnpackToBlockFromReaderLimit", func(b []byte) { tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(bytes.NewReader(b), 64) })
	add("FirstBlockOfBytes", func(b []byte) { tcpx.FirstBlockOfBytes(b) })
	add("Packx.FirstBlockOfBytes", func(b []byte) { px.FirstBlockOfBytes(b) })
	add("MessageIDOf", func(b []byte) { tcpx.MessageIDOf(b); px.MessageIDOf(b) })
	add("LengthOf", func(b []byte) { tcpx.LengthOf(b); px.LengthOf(b) })
	add("HeaderLengthOf", func(b []byte) { tcpx.HeaderLengthOf(b); px.HeaderLengthOf(b) })
	add("BodyLengthOf", func(b []byte) { tcpx.BodyLengthOf(b); px.BodyLengthOf(b) })
	add("HeaderBytesOf", func(b []byte) { tcpx.HeaderBytesOf(b); px.HeaderBytesOf(b) })
	add("HeaderOf", func(b []byte) { tcpx.HeaderOf(b); px.HeaderOf(b) })
	add("BodyBytesOf", func(b []byte) { tcpx.BodyBytesOf(b); px.BodyBytesOf(b) })
	add("URLPatternOf", func(b []byte) { tcpx.URLPatternOf(b) })
	add("RouteTypeOf", func(b []byte) { tcpx.RouteTypeOf(b) })
	for _, n := range []string{"json", "xml", "toml", "tml", "yaml", "yml", "protobuf", "proto", "bogus"} {
		n := n
		d = append(d, decoder{name: "UnpackWithMarshallerName/" + n, thirdParty: n != "json" && n != "bogus", f: func(b []byte) {
			var v interface{}
			var m map[string]interface{}
			tcpx.UnpackWithMarshallerName(b, &m, n)
			tcpx.UnpackWithMarshallerName(b, &v, n)
		}})
	}
	add("Packx.Unpack", func(b []byte) { var m map[string]interface{}; px.Unpack(b, &m) })
	add("UnpackWithMarshaller/nil", func(b []byte) { var m map[string]interface{}; tcpx.UnpackWithMarshaller(b, &m, nil) })
	add("PackType", func(b []byte) {
		pt := tcpx.PackType(b)
		var v interface{}
		pt.BindJSON(&v)
		pt.URLPattern()
		pt.MessageID()
	})
	d = append(d, decoder{name: "PackType/toml", thirdParty: true, f: func(b []byte) { pt := tcpx.PackType(b); var v map[string]interface{}; pt.BindTOML(&v) }})
	d = append(d, decoder{name: "PackType/yaml", thirdParty: true, f: func(b []byte) { pt := tcpx.PackType(b); var v map[string]interface{}; pt.BindYAML(&v) }})
	d = append(d, decoder{name: "PackType/xml", thirdParty: true, f: func(b []byte) {
		pt := tcpx.PackType(b)
		var v struct{ A string }
		pt.BindXML(&v)
	}})
	addU("Recv", func(b []byte) { tcpx.Recv(connReader{bytes.NewReader(b)}) })
	add("BindJSON", func(b []byte) { var v interface{}; tcpx.BindJSON(b, &v) })
	add("Context", func(b []byte) {
		c := tcpx.NewContext(connReader{bytes.NewReader(nil)}, nil)
		c.Stream = b
		var m map[string]interface{}
		c.Bind(&m)
		c.BindWithMarshaller(&m, nil)
		c.RawStream()
		c.RouterType()
		c.GetURLPattern()
		c.JSONURLPattern("x")
	})
	return d
}

// tryDecode runs f and reports a panic that did not come from third-party code.
func tryDecode(d decoder, b []byte) (bad string) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		st := string(debug.Stack())
		if d.thirdParty {
			// who raised it: first frame below panic
			i := strings.Index(st, "panic(")
			if i >= 0 {
				for _, ln := range strings.Split(st[i:], "\n")[2:] {
					if strings.HasPrefix(ln, "\t") || strings.HasPrefix(ln, "runtime.") || strings.HasPrefix(ln, "panic(") || strings.HasPrefix(ln, "reflect.") {
						continue
					}
					if !strings.HasPrefix(ln, "github.com/fwhezfwhez/tcpx.") {
						return
					}
					break
				}
			}
		}
		bad = fmt.Sprintf("%s panicked on %s: %v\n%s", d.name, short(b), e, trunc(st, 3000))
	}()
	d.f(append(make([]byte, 0, len(b)), b...))
	return ""
}

func c03decoders(r *Rep) {
	ds := decoders()
	run := func(b []byte, kind string) {
		safe := safeStream(b)
		for _, d := range ds {
			if d.unlimited && !safe {
				continue
			}
			if m := tryDecode(d, b); m != "" {
				r.Violation("%s", m)
			}
			r.Case("dec/" + d.name + "/" + kind)
		}
	}
	// every short input over a small alphabet of bytes at the field positions
	for n := 0; n <= 20; n++ {
		for _, fill := range []byte{0, 1, 0x0c, 0x7f, 0x80, 0xff, '{'} {
			run(bytes.Repeat([]byte{fill}, n), fmt.Sprintf("fill/%d/%x", n, fill))
		}
	}
	// every combination of interesting length fields
	hdr, body := []byte(`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/a"}`), []byte(`{"k":1}`)
	for _, l := range lenValues {
		for _, h := range lenValues {
			for _, bl := range lenValues {
				b := frame(10, hdr, body)
				binary.BigEndian.PutUint32(b[0:], l)
				binary.BigEndian.PutUint32(b[8:], h)
				binary.BigEndian.PutUint32(b[12:], bl)
				run(b, "lens/"+lenClass(l, uint32(len(b)-4))+lenClass(h, uint32(len(hdr)))+lenClass(bl, uint32(len(body))))
			}
		}
	}
	g := r.Sub(3)
	for i := 0; i < r.N(4000); i++ {
		b, kind := hostileBlock(g, 1<<20)
		if g.Intn(3) == 0 {
			b = b[:g.Intn(len(b)+1)]
			kind += "+cut"
		}
		if len(kind) > 30 {
			kind = kind[:30]
		}
		run(b, kind)
		r.Sample(map[string]interface{}{"decoder_input": short(b), "kind": kind})
	}
}

// ---------------------------------------------------------------- zero-length header and body

type fuzzTarget struct {
	name    string
	s       *server
	dial    func() net.Conn
	maxL    uint32
	limited bool
	udp     bool
	tls     bool
}

// hostileApp registers handlers that decode what they get in every way a user would.
func hostileApp(x *tcpx.TcpX) {
	addEcho(x)
	use := func(c *tcpx.Context) {
		var m map[string]interface{}
		c.Bind(&m)
		c.RawStream()
		c.RouterType()
		c.GetURLPattern()
		c.ClientIP()
		c.Packx.HeaderOf(c.Stream)
		tcpx.MessageIDOf(c.Stream)
	}
	x.AddHandler(10, use)
	x.AddHandler(11, use, func(c *tcpx.Context) { c.JSON(11, "x") })
	x.AddHandler(12, func(c *tcpx.Context) { c.JSONURLPattern(map[string]int{"a": 1}) })
	x.AddHandler(13, func(c *tcpx.Context) {
		if c.Conn != nil { // over UDP this is the server's own socket
			c.CloseConn()
		}
	})
	x.AddHandler(14, func(c *tcpx.Context) { c.Online("u"); c.SendToUsername("u", 14, "x"); c.Offline() })
	x.AddHandler(0, use)
	x.Any("/a", use, func(c *tcpx.Context) { c.JSONURLPattern("x") })
	x.Any("", use)
	x.UseGlobal(func(c *tcpx.Context) { c.SetCtxPerRequest("k", 1); c.SetCtxPerConn("k", 1) })
}

func c03targets(r *Rep) []*fuzzTarget {
	var out []*fuzzTarget
	cert := testCert(r)
	mk := func(name, network string, limit int32, tlsOn, full bool, onMsg bool) {
		x := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		if !onMsg {
			hostileApp(x)
		}
		if onMsg {
			x.OnMessage = func(c *tcpx.Context) {
				var m map[string]interface{}
				c.Bind(&m)
				c.RouterType()
				c.GetURLPattern()
				if id, err := tcpx.MessageIDOf(c.Stream); err == nil && id == echoID {
					b, err := c.RawStream()
					if err != nil {
						return
					}
					out, _ := c.Packx.PackWithBody(echoID, b)
					c.Conn.Write(out)
				}
			}
		}
		if limit > 0 {
			x.SetMaxBytePerMessage(limit)
		}
		if full {
			x.WithBuiltInPool(true)
			x.HeartBeatMode(true, time.Hour)
			x.WithAuthDetail(true, time.Hour, false, tcpx.DEFAULT_AUTH_MESSAGEID, func(c *tcpx.Context) { c.RecvAuthPass() })
			x.WithBroadCastSignal(true)
			x.OnConnect = func(c *tcpx.Context) { c.SetCtxPerConn("a", 1) }
			x.OnClose = func(c *tcpx.Context) { c.GetCtxPerConn("a") }
		}
		if tlsOn {
			x.TLSConfig = &tls.Config{Certificates: []tls.Certificate{cert}}
		}
		addr := nextAddr()
		if network == "unix" {
			addr = sockPath()
		}
		s := r.serve(x, network, addr)
		t := &fuzzTarget{name: name, s: s, maxL: 1 << 22, udp: network == "udp", tls: tlsOn}
		if limit > 0 {
			t.maxL = 0x7fffffff
			t.limited = true
		}
		t.dial = func() net.Conn {
			c := s.dial()
			if tlsOn {
				return tls.Client(c, &tls.Config{InsecureSkipVerify: true})
			}
			return c
		}
		out = append(out, t)
	}
	mk("tcp", "tcp", 0, false, false, false)
	mk("tcp-limit-full", "tcp", 1<<20, false, true, false)
	mk("tcp-full", "tcp4", 0, false, true, false)
	mk("tcp-onmessage", "tcp", 4096, false, false, true)
	mk("tls-full", "tcp", 1<<20, true, true, false)
	mk("unix", "unix", 1<<16, false, false, false)
	mk("udp", "udp", 0, false, false, false)
	mk("udp-full", "udp", 0, false, true, false)
	return out
}

// udpPing retries: datagrams may be lost, and stale answers are skipped.
func udpPing(c net.Conn) error {
	want := fmt.Sprintf("uping-%d", atomic.AddInt64(&echoCtr, 1))
	buf := make([]byte, 65536)
	var last error
	for try := 0; try < 60; try++ {
		c.Write(frame(echoID, nil, []byte(want)))
		end := time.Now().Add(400 * time.Millisecond)
		for {
			c.SetReadDeadline(end)
			n, err := c.Read(buf)
			if err != nil {
				last = err
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					break
				}
				time.Sleep(5 * time.Millisecond)
				if time.Now().After(end) {
					break
				}
				continue
			}
			m, err := parseFrame(buf[:n])
			if err == nil && m.ID == echoID && string(m.Body) == want {
				c.SetReadDeadline(time.Time{})
				return nil
			}
		}
	}
	return fmt.Errorf("no answer to 60 datagrams: %v", last)
}

func (t *fuzzTarget) ping(c net.Conn) error {
	if t.udp {
		return udpPing(c)
	}
	return ping(c)
}

func c03zero(r *Rep) {
	ts := c03targets(r)
	urlH := jsonOf(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/a"})
	for _, t := range ts {
		c := t.dial()
		for _, hb := range [][2][]byte{{nil, nil}, {nil, []byte("body")}, {[]byte(`{}`), nil}, {[]byte(`null`), nil}, {[]byte(`null`), []byte("b")}, {[]byte(`{"a":1}`), []byte{}}} {
			if !t.udp {
				c.Write(frame(echoID, hb[0], hb[1]))
				m, err := recv(c)
				if err != nil || m.ID != echoID || !bytes.Equal(m.Body, hb[1]) {
					r.Violation("%s: well-formed block with header %q (%d bytes) and body of %d bytes was not served: %v %s", t.name, hb[0], len(hb[0]), len(hb[1]), err, short(m.Raw))
				}
				if err := t.ping(c); err != nil {
					r.Violation("%s: connection unusable after a well-formed block with header %q and body of %d bytes: %v", t.name, hb[0], len(hb[1]), err)
				}
			} else {
				ok := false
				buf := make([]byte, 65536)
				for try := 0; try < 60 && !ok; try++ {
					c.Write(frame(echoID, hb[0], hb[1]))
					c.SetReadDeadline(time.Now().Add(400 * time.Millisecond))
					n, err := c.Read(buf)
					if err == nil {
						if m, err := parseFrame(buf[:n]); err == nil && bytes.Equal(m.Body, hb[1]) {
							ok = true
						}
					}
				}
				if !ok {
					r.Violation("%s: datagram with header %q and body of %d bytes was not served", t.name, hb[0], len(hb[1]))
				}
			}
			r.Case(fmt.Sprintf("zero/%s/%d/%d", t.name, len(hb[0]), len(hb[1])))
		}
		// URL-routed block with empty body
		if !t.udp && t.name != "tcp-onmessage" {
			c.Write(frame(0, urlH, nil))
			if m, err := recv(c); err != nil || string(m.Body) != `"x"` {
				r.Violation("%s: URL-routed block with empty body was not served: %v", t.name, err)
			}
			r.Case("zero-url/" + t.name)
		}
		c.Close()
	}
	for _, t := range ts {
		t.s.stop()
	}
}

// ---------------------------------------------------------------- servers under fire

func c03servers(r *Rep) {
	ts := c03targets(r)
	canaries := map[*fuzzTarget][]net.Conn{}
	for _, t := range ts {
		for i := 0; i < 3; i++ {
			c := t.dial()
			if err := t.ping(c); err != nil {
				r.Violation("%s: fresh server does not answer: %v", t.name, err)
			}
			canaries[t] = append(canaries[t], c)
		}
	}
	rounds := r.N(14)
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		for ti, t := range ts {
			for w := 0; w < 4; w++ {
				wg.Add(1)
				go func(t *fuzzTarget, g *rand.Rand) {
					defer wg.Done()
					for i := 0; i < 60; i++ {
						t.attack(r, g)
					}
				}(t, r.Sub(int64(round*1000+ti*10+w)))
			}
		}
		wg.Wait()
		for _, t := range ts {
			for i, c := range canaries[t] {
				if err := t.ping(c); err != nil {
					r.Violation("%s: established connection %d of another peer is no longer served after hostile input on other connections: %v", t.name, i, err)
				}
			}
			c := t.dial()
			if err := t.ping(c); err != nil {
				r.Violation("%s: new connection is not served after hostile input: %v", t.name, err)
			}
			c.Close()
			r.Count("canary_pings", int64(len(canaries[t])+1))
		}
		r.Step(fmt.Sprintf("round %d", round))
	}
	for _, t := range ts {
		for _, c := range canaries[t] {
			c.Close()
		}
		t.s.stop()
	}
}

var endKinds = []string{"close", "rst", "halfclose", "drain"}

func (t *fuzzTarget) attack(r *Rep, g *rand.Rand) {
	if t.udp {
		c := t.dial()
		defer c.Close()
		for i := 0; i < 10; i++ {
			b, kind := hostileBlock(g, 0xffffffff)
			if g.Intn(3) == 0 {
				b = b[:g.Intn(len(b)+1)]
				kind += "+cut"
			}
			if g.Intn(20) == 0 {
				b = append(b, randBytes(g, g.Intn(6000))...)
				kind += "+tail"
			}
			c.Write(b)
			r.Case(t.name + "/" + kind)
		}
		time.Sleep(time.Millisecond) // pace, do not flood the socket buffer
		return
	}
	raw := t.s.dial()
	var c net.Conn = raw
	key := t.name
	if t.tls && g.Intn(4) > 0 {
		c = tls.Client(raw, &tls.Config{InsecureSkipVerify: true})
	} else if t.tls {
		key += "/plain"
	}
	c.SetDeadline(time.Now().Add(30 * time.Second))
	go io.Copy(io.Discard, c)
	var all []byte
	for i := g.Intn(4); i >= 0; i-- {
		switch g.Intn(8) {
		case 0:
			all = append(all, randBytes(g, g.Intn(100))...)
			key += "/random"
		case 1:
			all = append(all, frame(echoID, nil, randBytes(g, g.Intn(100)))...)
			key += "/valid"
		case 2:
			// a batch, possibly cut
			n := 1 + g.Intn(4)
			p := frame(int32(10+g.Intn(5)), jsonOf(map[string]string{tcpx.PIPED: fmt.Sprintf("enable;%d", n)}), nil)
			for j := 1; j < n; j++ {
				q, _ := hostileBlock(g, t.maxL)
				p = append(p, q...)
			}
			all = append(all, p[:len(p)-g.Intn(len(p)/2)]...)
			key += "/batch"
		default:
			b, k := hostileBlock(g, t.maxL)
			all = append(all, b...)
			key += "/" + k
		}
	}
	if g.Intn(3) == 0 {
		all = all[:g.Intn(len(all)+1)]
		key += "/cut"
	}
	if !t.limited && !safeStream(all) {
		raw.Close()
		return
	}
	if g.Intn(2) == 0 && len(all) > 1 {
		k := 1 + g.Intn(len(all)-1)
		c.Write(all[:k])
		if g.Intn(4) == 0 {
			time.Sleep(time.Duration(g.Intn(500)) * time.Microsecond)
		}
		c.Write(all[k:])
	} else {
		c.Write(all)
	}
	end := endKinds[g.Intn(len(endKinds))]
	key += "/" + end
	switch end {
	case "close":
		c.Close()
	case "rst":
		if tc, ok := raw.(*net.TCPConn); ok {
			tc.SetLinger(0)
		}
		raw.Close()
	case "halfclose":
		if tc, ok := raw.(interface{ CloseWrite() error }); ok {
			tc.CloseWrite()
		}
		time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
		raw.Close()
	case "drain":
		time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
		c.Close()
	}
	raw.Close()
	if len(key) > 160 {
		key = key[:160]
	}
	r.Case(key)
	r.Sample(map[string]interface{}{"target": t.name, "bytes": short(all), "end": end})
}

var _ = json.Valid
