package main

import (
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C28"] = c28 }

func c28(r *Rep) {
	r.Rule("one case = one listen call that cannot succeed, with what it must leave alone probed afterwards, or one address taken away between Stop and Start, or one shortage of file descriptors with what it must not end; distinct by call, network, cause, phase of the server and addresses it serves")
	r.Assume("the shortage of file descriptors is made by lowering the soft limit of the harness process, in which server and clients live")
	n := r.N(120)
	for i := 0; i < n; i++ {
		c28fail(r, r.Sub(int64(i)))
	}
	for i := 0; i < r.N(60); i++ {
		c28taken(r, r.Sub(int64(5000+i)))
	}
	for i := 0; i < r.N(40); i++ {
		c28fds(r, r.Sub(int64(9000+i)), i)
	}
}

// holder is somebody else listening on an address.
type holder struct {
	network, addr string
	l             net.Listener
	p             net.PacketConn
	f             *fleet // another server of the framework
	file          string // content of a file in the way
}

func datagram(network string) bool {
	return strings.HasPrefix(network, "udp") || network == "unixgram"
}

func hold(r *Rep, g *rand.Rand, network, addr string) *holder {
	var err error
	if strings.HasPrefix(network, "unix") {
		// a path may be held by a socket of another kind, or be no socket at all
		switch g.Intn(5) {
		case 0:
			network = []string{"unix", "unixgram", "unixpacket"}[g.Intn(3)]
		case 1:
			h := &holder{network: "file", addr: addr, file: fmt.Sprintf("not a socket %d", g.Int63())}
			if !until(longWait, func() bool { _, e := os.Lstat(addr); return os.IsNotExist(e) }) {
				r.Violation("%s is still there although the server does not serve it", addr)
			}
			if err = os.WriteFile(addr, []byte(h.file), 0600); err != nil {
				r.HarnessError("writing %s: %v", addr, err)
			}
			return h
		}
	}
	h := &holder{network: network, addr: addr}
	until(longWait, func() bool {
		if datagram(network) {
			h.p, err = net.ListenPacket(network, addr)
		} else {
			h.l, err = net.Listen(network, addr)
		}
		return err == nil
	})
	if err != nil {
		r.Violation("%s %s cannot be listened on by another although the server does not serve it: %v", network, addr, err)
	}
	if h.p != nil {
		go func() {
			b := make([]byte, 1000)
			for {
				n, a, err := h.p.ReadFrom(b)
				if err != nil {
					return
				}
				h.p.WriteTo(append([]byte("held:"), b[:n]...), a)
			}
		}()
	} else {
		go func() {
			for {
				c, err := h.l.Accept()
				if err != nil {
					return
				}
				c.Write([]byte("held:"))
				io.Copy(io.Discard, c)
				c.Close()
			}
		}()
	}
	return h
}

// mine tells whether the holder still has its address.
func (h *holder) mine() error {
	if h.f != nil {
		k := h.f.knock(h.f.doors[0], 300)
		if k == nil {
			return fmt.Errorf("its server no longer answers")
		}
		k.close()
		return nil
	}
	if h.file != "" {
		if b, err := os.ReadFile(h.addr); err != nil || string(b) != h.file {
			return fmt.Errorf("the file there is gone or changed: %q %v", b, err)
		}
		return nil
	}
	addr := h.addr
	if strings.HasPrefix(addr, ":") {
		addr = "127.0.0.1" + addr
	}
	var last error
	for try := 0; try < 5; try++ { // datagrams may be lost
		c, err := dialFrom(h.network, addr)
		if err != nil {
			return err
		}
		if h.p != nil {
			c.Write([]byte("x"))
		}
		c.SetReadDeadline(time.Now().Add(time.Duration(1+try) * time.Second))
		b := make([]byte, 5)
		if h.network == "unixpacket" || h.p != nil {
			b = make([]byte, 100)
		}
		n, err := io.ReadAtLeast(c, b, 5)
		c.Close()
		if err == nil && string(b[:5]) == "held:" {
			return nil
		}
		last = fmt.Errorf("somebody else answers there, or nobody: %q %v", b[:n], err)
		if err == nil {
			return last
		}
	}
	return last
}

func (h *holder) release() {
	switch {
	case h.file != "":
		os.Remove(h.addr)
	case h.f != nil:
		h.f.endFleet()
	case h.p != nil:
		h.p.Close()
		if h.network == "unixgram" {
			os.Remove(h.addr)
		}
	default:
		h.l.Close()
	}
}

// c28call makes a listen call and waits for its error.
func c28call(r *Rep, f func() error, what string) {
	type res struct {
		err error
		pan interface{}
	}
	ch := make(chan res, 1)
	go func() {
		var x res
		defer func() { x.pan = recover(); ch <- x }()
		x.err = f()
	}()
	var x res
	if !until(longWait, func() bool {
		select {
		case x = <-ch:
			return true
		default:
			return false
		}
	}) {
		r.Violation("%s: the call neither listens nor returns", what)
	}
	if x.pan != nil {
		r.Violation("%s: the call panics: %v", what, x.pan)
	}
	if x.err == nil {
		r.Violation("%s: the call returned no error", what)
	}
}

func c28fail(r *Rep, g *rand.Rand) {
	tlsOn := g.Intn(4) == 0
	o := fopt{kinds: randKinds(g, tlsOn), tls: tlsOn, pool: g.Intn(2) == 0, bcast: g.Intn(2) == 0, onMsg: g.Intn(4) == 0, auth: g.Intn(4) == 0}
	f := r.newFleet(o)
	phase := []string{"running", "running", "stopped", "fresh"}[g.Intn(4)]
	var kept []*fclient
	all := f.doors
	switch phase {
	case "fresh":
		f.doors = nil
	default:
		f.start()
		for _, d := range f.doors {
			kept = append(kept, f.dial(d))
		}
		if phase == "stopped" {
			f.X.Stop(g.Intn(2) == 0)
			f.callsReturn("after Stop")
			for _, k := range kept {
				k.close()
			}
			kept = nil
		}
	}
	state := f.X.State()
	type try struct {
		h    *holder
		call func() error
		d    *door
		what string
	}
	var tries []try
	for i := 0; i < 6; i++ {
		meth := []string{"ListenAndServe", "ListenAndServeTCP", "ListenAndServeUDP", "ListenAndServeRaw"}[g.Intn(4)]
		var nets []string
		switch meth {
		case "ListenAndServe":
			nets = []string{"tcp", "tcp4", "unix", "udp", "udp4", "unixgram"}
		case "ListenAndServeUDP":
			nets = []string{"udp", "udp4", "unixgram"}
		default:
			nets = []string{"tcp", "tcp4", "unix"}
		}
		network := nets[g.Intn(len(nets))]
		unix := strings.HasPrefix(network, "unix")
		addr := nextAddr()
		if unix {
			addr = sockPath()
		}
		t := try{}
		cause := []string{"network", "address", "held", "held", "held", "heldbytcpx", "own"}[g.Intn(7)]
		if cause == "own" && (phase != "running" || tlsOn) {
			cause = "held"
		}
		if cause == "heldbytcpx" && unix {
			cause = "held"
		}
		sub := ""
		switch cause {
		case "network":
			bad := []string{"", "TCP", "tcp5", "http", "kcp", "websocket", "udp5", "unixx", " tcp", "tcp "}
			switch meth {
			case "ListenAndServeUDP":
				bad = append(bad, "tcp", "tcp4")
			case "ListenAndServeTCP", "ListenAndServeRaw":
				bad = append(bad, "udp", "udp4")
			}
			network = bad[g.Intn(len(bad))]
			sub = network
			addr = nextAddr()
		case "address":
			bad := []string{"127.0.0.1:99999", "127.0.0.1:-1", "nonsense", "127.0.0.1", "203.0.113.7:11999", "127.0.0.1:80:80", "[::1", "127.0.0.1:noport"}
			if strings.HasSuffix(network, "4") {
				bad = append(bad, "[::1]:11998")
			}
			if unix {
				bad = []string{filepath.Join(*flagTmp, "no-such-dir", "x.sock"), filepath.Join(*flagTmp, strings.Repeat("n", 200)), *flagTmp, filepath.Join(*flagTmp, "file", "x")}
			}
			addr = bad[g.Intn(len(bad))]
			sub = addr
			if unix {
				sub = filepath.Base(addr)
			}
		case "held":
			t.h = hold(r, g, network, addr)
		case "heldbytcpx":
			o2 := fopt{kinds: []string{map[bool]string{true: "udp", false: "tcp"}[datagram(network)]}}
			f2 := r.newFleet(o2)
			f2.start()
			addr = f2.doors[0].addr
			t.h = &holder{network: f2.doors[0].network, addr: addr, f: f2}
		case "own":
			d := f.doors[g.Intn(len(f.doors))]
			addr, network = d.addr, d.network
			meth = "ListenAndServe"
			switch {
			case d.mode == "raw" && g.Intn(2) == 0:
				meth = "ListenAndServeRaw"
			case d.mode == "udp" && g.Intn(2) == 0:
				meth = "ListenAndServeUDP"
			}
			sub = d.String()
		}
		x := f.X
		switch meth {
		case "ListenAndServe":
			t.call = func() error { return x.ListenAndServe(network, addr) }
		case "ListenAndServeTCP":
			t.call = func() error { return x.ListenAndServeTCP(network, addr) }
		case "ListenAndServeUDP":
			buf := g.Intn(2)
			t.call = func() error {
				if buf == 0 {
					return x.ListenAndServeUDP(network, addr)
				}
				return x.ListenAndServeUDP(network, addr, 2000)
			}
		default:
			t.call = func() error { return x.ListenAndServeRaw(network, addr) }
		}
		t.d = &door{mode: "framed", network: network, addr: addr, tls: tlsOn}
		if datagram(network) {
			t.d.mode, t.d.tls = "udp", false
		}
		if meth == "ListenAndServeRaw" {
			t.d.mode, t.d.tls = "raw", false
		}
		t.what = fmt.Sprintf("%s(%q, %s) on a %s server (%v), cause %s %s", meth, network, addr, phase, o, cause, sub)
		c28call(r, t.call, t.what)
		if s := f.X.State(); s != state {
			r.Violation("%s: State() was %d and is %d after the call that failed", t.what, state, s)
		}
		if t.h != nil {
			if err := t.h.mine(); err != nil {
				r.Violation("%s: whoever held the address has lost it: %v", t.what, err)
			}
			tries = append(tries, t)
		}
		for _, k := range kept {
			if err := k.ping(); err != nil {
				r.Violation("%s: an established connection on %v is no longer served: %v", t.what, k.d, err)
			}
		}
		if phase == "running" {
			f.up("after " + t.what)
		}
		r.Case(fmt.Sprintf("fail/%s/%s/%s/%s/%s/%v", phase, meth, network, cause, sub, tlsOn))
	}
	// some of the addresses become free, and some of those calls are made again
	var free, held []try
	for _, t := range tries {
		if g.Intn(3) == 0 {
			held = append(held, t)
			continue
		}
		t.h.release()
		if phase != "stopped" && g.Intn(2) == 0 {
			t := t
			done := make(chan struct{})
			f.calls = append(f.calls, done)
			var mu sync.Mutex
			var err error
			go func() {
				e := t.call()
				mu.Lock()
				err = e
				mu.Unlock()
				close(done)
			}()
			k := f.knock(t.d, longWait)
			if k == nil {
				mu.Lock()
				defer mu.Unlock()
				r.Violation("%s: made again when the address was free, the call does not serve it: %v", t.what, err)
			}
			k.close()
			f.doors = append(f.doors, t.d)
			r.Count("calls_repeated_when_free", 1)
			continue
		}
		free = append(free, t)
	}
	if phase == "fresh" && len(f.doors) == 0 {
		f.doors = all
		f.start()
	}
	if len(f.doors) == 0 {
		return
	}
	if phase != "stopped" {
		f.up("after listen calls that failed")
		if err := f.X.Stop(g.Intn(2) == 0); err != nil {
			r.Violation("%v: Stop after listen calls that failed returns %v", o, err)
		}
		f.callsReturn("after Stop")
	}
	f.shut("after Stop, some listen calls having failed")
	for _, t := range held {
		if err := t.h.mine(); err != nil {
			r.Violation("%s: whoever held the address has lost it at Stop: %v", t.what, err)
		}
	}
	if err := f.X.Start(); err != nil {
		r.Violation("%v: Start after listen calls that failed returns %v", o, err)
	}
	f.up("after Start, some listen calls having failed earlier")
	for _, t := range held {
		if err := t.h.mine(); err != nil {
			r.Violation("%s: whoever held the address has lost it at Start: %v", t.what, err)
		}
		t.h.release()
	}
	for _, t := range free {
		k, err := f.tryDial(t.d)
		if err != nil {
			continue
		}
		if t.d.mode == "udp" {
			if k.once(20*time.Millisecond) == nil {
				r.Violation("%s: Start serves an address whose listen call had failed", t.what)
			}
		} else {
			r.Violation("%s: Start listens on an address whose listen call had failed", t.what)
		}
		k.close()
	}
	for _, k := range kept {
		k.close()
	}
	within(longWait, func() { f.X.Stop(true) })
	until(longWait, func() bool { return !f.anyBound() })
}

func (f *fleet) anyBound() bool {
	for _, d := range f.doors {
		if d.network != "unix" && bound(d.network, d.addr) {
			return true
		}
	}
	return false
}

// c28taken: while the server was stopped somebody else took some of its addresses.
func c28taken(r *Rep, g *rand.Rand) {
	tlsOn := g.Intn(4) == 0
	o := fopt{tls: tlsOn, pool: g.Intn(2) == 0, onMsg: g.Intn(4) == 0}
	for len(o.kinds) < 2 {
		o.kinds = randKinds(g, tlsOn)
	}
	f := r.newFleet(o)
	f.start()
	var kept []*fclient
	keep := g.Intn(2) == 0
	for _, d := range f.doors {
		kept = append(kept, f.dial(d))
	}
	if err := f.X.Stop(!keep); err != nil {
		r.Violation("%v: Stop returns %v", o, err)
	}
	f.callsReturn("after Stop")
	n := 1 + g.Intn(len(f.doors)-1)
	perm := g.Perm(len(f.doors))
	var hs []*holder
	all := f.doors
	var rest []*door
	for i, p := range perm {
		d := all[p]
		if i < n {
			hs = append(hs, hold(r, g, d.network, d.addr))
		} else {
			rest = append(rest, d)
		}
	}
	mine := func(when string) {
		for _, h := range hs {
			if err := h.mine(); err != nil {
				r.Violation("%v: who took %s %s while the server was stopped has lost it %s: %v", o, h.network, h.addr, when, err)
			}
		}
	}
	f.doors = rest
	for c := 0; c < 1+g.Intn(3); c++ {
		if err := f.X.Start(); err != nil {
			r.Violation("%v: Start returns %v", o, err)
		}
		f.up("after Start, other addresses having been taken")
		mine("at Start")
		for _, k := range kept {
			if keep && k.d.mode != "udp" {
				if err := k.ping(); err != nil {
					r.Violation("%v: a connection kept across Stop(false) is no longer served after a Start that could not get all addresses: %v", o, err)
				}
			}
		}
		if err := f.X.Stop(!keep); err != nil {
			r.Violation("%v: Stop returns %v after a Start that could not get all addresses", o, err)
		}
		f.shut("after Stop")
		mine("at Stop")
	}
	for _, h := range hs {
		h.release()
	}
	f.doors = all
	if err := f.X.Start(); err != nil {
		r.Violation("%v: Start returns %v", o, err)
	}
	f.up("after Start, the taken addresses being free again")
	for _, k := range kept {
		k.close()
	}
	within(longWait, func() { f.X.Stop(true) })
	until(longWait, func() bool { return !f.anyBound() })
	r.Case(fmt.Sprintf("taken/%v/%d/%v", o.kinds, n, keep))
}

// preSock makes a client socket now and connects it later, which then needs no descriptor.
type preSock struct {
	fd int
	sa syscall.Sockaddr
	d  *door
}

func newPreSock(r *Rep, d *door) *preSock {
	p := &preSock{d: d}
	var err error
	if d.network == "unix" {
		p.fd, err = syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		p.sa = &syscall.SockaddrUnix{Name: d.addr}
	} else {
		a, _ := net.ResolveTCPAddr("tcp4", d.addr)
		sa := &syscall.SockaddrInet4{Port: a.Port}
		copy(sa.Addr[:], a.IP.To4())
		p.sa = sa
		p.fd, err = syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	}
	if err != nil {
		r.HarnessError("socket: %v", err)
	}
	return p
}

func (p *preSock) conn(r *Rep, f *fleet) *fclient {
	file := os.NewFile(uintptr(p.fd), "client")
	c, err := net.FileConn(file)
	if err != nil {
		r.HarnessError("FileConn: %v", err)
	}
	file.Close()
	if p.d.tls {
		c = tls.Client(c, &tls.Config{InsecureSkipVerify: true})
	}
	return &fclient{f, p.d, c}
}

// c28fds: the process runs out of file descriptors for a while.
func c28fds(r *Rep, g *rand.Rand, i int) {
	tlsOn := i%4 == 3
	kinds := []string{"tcp", "unix", "tcp4", "raw", "rawunix", "udp", "unixgram"}
	g.Shuffle(len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
	o := fopt{kinds: kinds[:2+g.Intn(4)], tls: tlsOn, pool: g.Intn(2) == 0, bcast: g.Intn(2) == 0, auth: g.Intn(3) == 0}
	if g.Intn(3) == 0 {
		o.hb = time.Hour
	}
	f := r.newFleet(o)
	f.start()
	var kept []*fclient
	for _, d := range f.doors {
		kept = append(kept, f.dial(d))
	}
	var pre []*preSock
	for _, d := range f.doors {
		if d.mode == "udp" {
			continue
		}
		for k := 1 + g.Intn(3); k > 0; k-- {
			pre = append(pre, newPreSock(r, d))
		}
	}
	if len(pre) == 0 {
		f.endFleet()
		return
	}
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
		r.HarnessError("getrlimit: %v", err)
	}
	low := lim
	low.Cur = 3
	restore := func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			r.HarnessError("setrlimit: %v", err)
		}
	}
	opened := atomic.LoadInt64(&f.opened)
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
		r.HarnessError("setrlimit: %v", err)
	}
	bad := ""
	waiting := 0
	for _, p := range pre {
		if err := syscall.Connect(p.fd, p.sa); err != nil {
			bad = fmt.Sprintf("a connection attempt to %v is refused during the shortage: %v", p.d, err)
			break
		}
		waiting++
		if g.Intn(2) == 0 {
			time.Sleep(time.Duration(g.Intn(20)) * time.Millisecond)
		}
	}
	long := time.Duration(5+g.Intn(60)) * time.Millisecond
	if i%10 == 9 {
		long = 1500 * time.Millisecond
	}
	time.Sleep(long)
	for _, k := range kept {
		if bad == "" {
			if err := k.ping(); err != nil {
				bad = fmt.Sprintf("an established connection on %v is not served during the shortage: %v", k.d, err)
			}
		}
	}
	for i, c := range f.calls {
		if bad == "" && isClosed(c) {
			bad = fmt.Sprintf("the listen call on %v returned during the shortage", f.doors[i])
		}
	}
	how := "again"
	if g.Intn(4) == 0 && bad == "" {
		how = "stop"
		all := g.Intn(2) == 0
		var err error
		if !within(longWait, func() { err = f.X.Stop(all) }) || err != nil {
			bad = fmt.Sprintf("Stop during the shortage does not stop the server: %v", err)
		}
		for i, c := range f.calls {
			if bad == "" && !waitCh(longWait, c) {
				bad = fmt.Sprintf("the listen call on %v stays blocked after a Stop during the shortage", f.doors[i])
			}
		}
		f.calls = nil
	}
	restore()
	if bad != "" {
		r.Violation("%v, no file descriptors left for %v, %d connections waiting: %s", o, long, waiting, bad)
	}
	var cs []*fclient
	for _, p := range pre {
		cs = append(cs, p.conn(r, f))
	}
	if how == "again" {
		for _, k := range cs {
			if err := k.ping(); err != nil {
				r.Violation("%v: a connection to %v made while no file descriptors were left (for %v) is not served when there are some again: %v", o, k.d, long, err)
			}
		}
		f.up("after a shortage of file descriptors")
		for i, c := range f.calls {
			if isClosed(c) {
				r.Violation("%v: the listen call on %v returned after a shortage of file descriptors", o, f.doors[i])
			}
		}
		for _, k := range kept {
			if err := k.ping(); err != nil {
				r.Violation("%v: an established connection on %v is not served after the shortage: %v", o, k.d, err)
			}
		}
	} else {
		f.lenient = true
		f.shut("after a Stop during a shortage of file descriptors")
		f.lenient = false
		if err := f.X.Start(); err != nil {
			r.Violation("%v: Start after a Stop during a shortage of file descriptors returns %v", o, err)
		}
		f.up("after Start, the server having been stopped during a shortage of file descriptors")
	}
	r.Count("connections_made_during_shortage", int64(waiting))
	r.Count("opened_since", atomic.LoadInt64(&f.opened)-opened)
	for _, k := range append(kept, cs...) {
		k.close()
	}
	if f.X.State() == tcpx.STATE_RUNNING {
		within(longWait, func() { f.X.Stop(true) })
	}
	f.callsReturn("after the final Stop")
	until(longWait, func() bool { return !f.anyBound() })
	r.Case(fmt.Sprintf("fds/%v/%v/%s/%d", o.kinds, tlsOn, how, waiting))
}
