package main

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C24"] = c24 }

// addrConn is a connection that only has addresses.
type addrConn struct {
	net.Conn
	a net.Addr
}

func (c addrConn) RemoteAddr() net.Addr { return c.a }
func (c addrConn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(9, 9, 9, 9), Port: 1} }
func (c addrConn) Close() error         { return nil }

type addrPacket struct{ net.PacketConn }

func (addrPacket) LocalAddr() net.Addr { return &net.UDPAddr{IP: net.IPv4(9, 9, 9, 9), Port: 1} }

// rightIP tells whether got names the peer's address.
func rightIP(got string, want net.IP, zone string) bool {
	if want.Equal(net.IPv6loopback) {
		return got == "127.0.0.1"
	}
	host := got
	if i := strings.IndexByte(got, '%'); i >= 0 {
		if zone == "" || got[i+1:] != zone {
			return false
		}
		host = got[:i]
	}
	ip := net.ParseIP(host)
	return ip != nil && ip.Equal(want)
}

func c24(r *Rep) {
	r.Rule("one case = one peer address whose context was asked for ClientIP and Network, in contexts built over the address or in callbacks of live servers; distinct by transport, place and class of the address")
	c24made(r)
	for i := 0; i < r.N(6); i++ {
		for _, kind := range []string{"tcp", "tcp4", "tls", "udp", "udp4", "raw", "tcpall", "udpall", "tcp6", "udp6"} {
			if (kind == "tcp6" || kind == "udp6") && !v6 {
				continue
			}
			c24live(r, r.Sub(int64(1300+i)), kind)
			r.Step(kind)
		}
	}
}

func genIP(g *rand.Rand) (ip net.IP, class string) {
	b := make([]byte, 16)
	g.Read(b)
	switch g.Intn(12) {
	case 0:
		return net.IPv4(127, 0, 0, 1), "v4loopback"
	case 1:
		return net.IPv4(127, b[0], b[1], b[2]), "v4loopnet"
	case 2:
		return net.IPv6loopback, "v6loopback"
	case 3:
		return net.IP(append([]byte{0xfe, 0x80, 0, 0, 0, 0, 0, 0}, b[8:]...)), "linklocal"
	case 4:
		return net.IP(append([]byte{0x20, 0x01, 0x0d, 0xb8}, b[4:]...)), "v6global"
	case 5: // zeros inside, printed compressed
		x := make([]byte, 16)
		x[0], x[1], x[g.Intn(14)+2], x[15] = 0xfd, b[0], b[1], b[2]
		return net.IP(x), "v6compressed"
	case 6:
		return net.IP(b), "v6any"
	case 7:
		x := make([]byte, 16)
		x[15] = 2 + b[0]%200
		return net.IP(x), "v6near-loopback"
	case 8:
		x := make([]byte, 16)
		x[14], x[15] = b[0], 1
		if x[14] == 0 {
			x[14] = 1
		}
		return net.IP(x), "v6ends-in-1"
	case 9:
		return net.IPv4(10, b[0], b[1], b[2]), "v4private"
	}
	return net.IPv4(b[0], b[1], b[2], b[3]), "v4any"
}

// c24made: contexts over arbitrary peer addresses.
func c24made(r *Rep) {
	g := r.Sub(2)
	seen := map[string]string{} // reported -> address
	var local []net.IP          // link-local addresses met on several links
	n := r.N(60000)
	for i := 0; i < n; i++ {
		ip, class := genIP(g)
		port := []int{0, 1, 80, 65535, g.Intn(65536)}[g.Intn(5)]
		zone := ""
		if class == "linklocal" && g.Intn(2) == 0 {
			zone = []string{"eth0", "lo", "1", "wlan-1.2"}[g.Intn(4)]
			if len(local) < 50 {
				local = append(local, ip)
			} else if g.Intn(2) == 0 {
				ip = local[g.Intn(len(local))]
			}
		}
		var ctx *tcpx.Context
		want := "tcp"
		kind := g.Intn(3)
		switch kind {
		case 0:
			ctx = tcpx.NewContext(addrConn{a: &net.TCPAddr{IP: ip, Port: port, Zone: zone}}, nil)
		case 1:
			ctx = tcpx.NewTCPContext(addrConn{a: &net.TCPAddr{IP: ip, Port: port, Zone: zone}}, tcpx.JsonMarshaller{})
		case 2:
			ctx = tcpx.NewUDPContext(addrPacket{}, &net.UDPAddr{IP: ip, Port: port, Zone: zone}, nil)
			want = "udp"
		}
		var got string
		if panics(func() { got = ctx.ClientIP() }) {
			r.Violation("ClientIP panics for peer %v zone %q port %d", ip, zone, port)
		}
		if !rightIP(got, ip, zone) {
			r.Violation("the context of peer %v zone %q port %d (%s) reports ClientIP %q", ip, zone, port, want, got)
		}
		if ctx.Network() != want || ctx.ConnectionProtocolType() != want {
			r.Violation("the context of a %s peer reports the transport %q / %q", want, ctx.Network(), ctx.ConnectionProtocolType())
		}
		key := ip.String() + "%" + zone
		if ip.Equal(net.IPv6loopback) {
			key = "127.0.0.1%"
		}
		if old, ok := seen[got]; ok && old != key {
			r.Violation("two different peers, %s and %s, are both reported as %q", old, key, got)
		}
		seen[got] = key
		if i%50 == 0 || i < 500 {
			r.Case(fmt.Sprintf("made/%d/%s/zone%v/port%d", kind, class, zone != "", len(fmt.Sprint(port))))
		} else {
			r.Case("")
		}
	}
	r.Count("distinct_reports", int64(len(seen)))
}

type c24obs struct {
	place, ip, network, proto string
}

// c24live: peers with different source addresses, asked in every callback.
func c24live(r *Rep, g *rand.Rand, kind string) {
	x := tcpx.NewTcpX(nil)
	x.WithBuiltInPool(true)
	var mu sync.Mutex
	obs := map[string][]c24obs{} // peer address -> observations
	var closed int64
	see := func(place string, c *tcpx.Context) {
		a := ""
		if c.Conn != nil {
			a = c.Conn.RemoteAddr().String()
		} else {
			a = c.Addr.String()
		}
		o := c24obs{place, c.ClientIP(), c.Network(), c.ConnectionProtocolType()}
		mu.Lock()
		obs[a] = append(obs[a], o)
		mu.Unlock()
	}
	x.OnConnect = func(c *tcpx.Context) { see("OnConnect", c) }
	x.OnClose = func(c *tcpx.Context) { see("OnClose", c); atomic.AddInt64(&closed, 1) }
	x.UseGlobal(func(c *tcpx.Context) { see("global", c) })
	x.Use("m", func(c *tcpx.Context) { see("middleware", c) })
	x.AddHandler(echoID, func(c *tcpx.Context) {
		see("handler", c)
		b, _ := c.RawStream()
		done := make(chan int)
		go func() { see("goroutine", c); close(done) }()
		<-done
		if c.Conn != nil {
			c.Online(string(b))
			if p := c.GetPoolRef().GetClientPool(string(b)); p != nil {
				see("pool", p)
			}
		}
		c.ReplyWithMarshaller(rawMarshaller{}, echoID, b)
	})
	x.HandleRaw = func(c *tcpx.Context) {
		see("handler", c)
		b := make([]byte, 1000)
		for {
			n, err := c.ConnReader.Read(b)
			if err != nil {
				return
			}
			c.ConnWriter.Write(b[:n])
		}
	}
	d := r.newDoor(map[string]string{"tls": "tcp"}[kind] + strings.TrimPrefix(kind, "tls"))
	if kind == "tls" {
		certOnce.Do(func() { sharedCert = testCert(r) })
		x.TLSConfig = tlsConf()
		d.tls = true
	}
	s := r.serveWith(x, d.network, d.addr, func() error {
		if d.mode == "raw" {
			return x.ListenAndServeRaw(d.network, d.addr)
		}
		return x.ListenAndServe(d.network, d.addr)
	})
	udp := d.mode == "udp"
	ips := []string{"127.0.0.1", "127.0.0.2", "127.1.0.1", "127.255.3.4", fmt.Sprintf("127.%d.%d.%d", g.Intn(256), g.Intn(256), 1+g.Intn(250))}
	to := d.addr
	if strings.HasSuffix(d.network, "6") {
		ips = []string{"::1"}
	}
	if strings.HasPrefix(to, ":") {
		if v6 {
			ips = append(ips, "::1")
		}
	}
	type peer struct {
		c  net.Conn
		ip net.IP
		la string
	}
	var peers []peer
	for k := 0; k < 3; k++ {
		for _, ip := range ips {
			t := to
			if strings.HasPrefix(to, ":") {
				t = "127.0.0.1" + to
				if ip == "::1" {
					t = "[::1]" + to
				}
			}
			dl := &net.Dialer{Timeout: 20 * time.Second, LocalAddr: &net.TCPAddr{IP: net.ParseIP(ip)}}
			if udp {
				dl.LocalAddr = &net.UDPAddr{IP: net.ParseIP(ip)}
			}
			var c net.Conn
			var err error
			if !until(longWait, func() bool { c, err = dl.Dial(d.network, t); return err == nil }) {
				r.HarnessError("dial %s from %s: %v", t, ip, err)
			}
			la := c.LocalAddr().String()
			if d.tls {
				c = tlsClient(c)
			}
			peers = append(peers, peer{c, net.ParseIP(ip), la})
		}
	}
	g.Shuffle(len(peers), func(i, j int) { peers[i], peers[j] = peers[j], peers[i] })
	for round := 0; round < 2; round++ {
		var wg sync.WaitGroup
		for _, p := range peers {
			wg.Add(1)
			go func(p peer) {
				defer wg.Done()
				k := &fclient{nil, d, p.c}
				if err := k.ping(); err != nil {
					r.Violation("%s: a peer at %v is not served: %v", kind, p.ip, err)
				}
			}(p)
		}
		wg.Wait()
	}
	for _, p := range peers {
		p.c.Close()
	}
	if !udp && !until(longWait, func() bool { return atomic.LoadInt64(&closed) == int64(len(peers)) }) {
		r.Violation("%s: OnClose ran for %d of %d peers", kind, closed, len(peers))
	}
	mu.Lock()
	defer mu.Unlock()
	want := "tcp"
	if udp {
		want = "udp"
	}
	for _, p := range peers {
		os := obs[p.la]
		if len(os) == 0 {
			r.Violation("%s: the peer at %s was never seen under its address", kind, p.la)
		}
		for _, o := range os {
			if !rightIP(o.ip, p.ip, "") {
				r.Violation("%s: in %s the peer at %s is reported as %q", kind, o.place, p.la, o.ip)
			}
			if o.network != want || o.proto != want {
				r.Violation("%s: in %s the transport is reported as %q / %q", kind, o.place, o.network, o.proto)
			}
			r.Case(fmt.Sprintf("live/%s/%s/%v", kind, o.place, p.ip.Equal(net.IPv6loopback)))
		}
	}
	r.Sample(map[string]interface{}{"server": d.String(), "peers": len(peers), "addresses": ips})
	s.stop()
}
