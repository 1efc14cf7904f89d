package main

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

var certOnce sync.Once
var sharedCert tls.Certificate

// world is a serving tcpx server over one transport, and how to reach it.
type world struct {
	*server
	kind string
}

// serveKind starts x over tcp, tcp4, tcp6, unix, tls, udp or udp4.
func (r *Rep) serveKind(x *tcpx.TcpX, kind string) *world {
	network, addr := kind, ""
	switch kind {
	case "unix":
		addr = sockPath()
	case "tls":
		certOnce.Do(func() { sharedCert = testCert(r) })
		x.TLSConfig = &tls.Config{Certificates: []tls.Certificate{sharedCert}}
		network, addr = "tcp", nextAddr()
	case "tcp6":
		addr = fmt.Sprintf("[::1]:%d", freePort6(r))
	default:
		addr = nextAddr()
	}
	return &world{r.serve(x, network, addr), kind}
}

// freePort6 finds a port free on ::1 outside the ephemeral range.
func freePort6(r *Rep) int {
	for i := 0; i < 2000; i++ {
		p := 13000 + (os.Getpid()*211+int(atomic.AddInt64(&addrCtr, 1)))%15000
		l, err := net.Listen("tcp6", fmt.Sprintf("[::1]:%d", p))
		if err != nil {
			continue
		}
		u, err := net.ListenPacket("udp6", fmt.Sprintf("[::1]:%d", p))
		l.Close()
		if err != nil {
			continue
		}
		u.Close()
		return p
	}
	r.HarnessError("no port on ::1")
	return 0
}

func haveIPv6() bool {
	l, err := net.Listen("tcp6", "[::1]:0")
	if err != nil {
		return false
	}
	l.Close()
	return true
}

func (w *world) dial() net.Conn {
	c := w.server.dial()
	if w.kind == "tls" {
		return tls.Client(c, &tls.Config{InsecureSkipVerify: true})
	}
	return c
}

// rawOf is the transport connection under a client connection.
func rawOf(c net.Conn) net.Conn {
	if t, ok := c.(*tls.Conn); ok {
		return t.NetConn()
	}
	return c
}

// collector reads frames of one client connection until it ends.
type collector struct {
	mu   sync.Mutex
	got  []msg
	err  error
	done chan struct{}
	in   int64 // bytes taken from the connection
}

type countingReader struct {
	r io.Reader
	n *int64
}

func (c countingReader) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	atomic.AddInt64(c.n, int64(n))
	return n, err
}

// collect starts reading; pace is called with the number of bytes taken by each read.
func collect(c net.Conn, packet bool, pace func(n int) int) *collector {
	k := &collector{done: make(chan struct{})}
	go func() {
		defer close(k.done)
		if packet {
			b := make([]byte, 65536)
			for {
				n, err := c.Read(b)
				if err != nil {
					k.err = err
					return
				}
				m, err := parseFrame(append([]byte(nil), b[:n]...))
				if err != nil {
					k.err = fmt.Errorf("a datagram is not one block: %v: %s", err, short(b[:n]))
					return
				}
				k.add(m)
			}
		}
		var rd io.Reader = countingReader{c, &k.in}
		if pace != nil {
			rd = &pacedReader{rd, pace}
		} else {
			rd = bufio.NewReaderSize(rd, 65536)
		}
		for {
			m, err := readFrame(rd)
			if err != nil {
				k.err = err
				return
			}
			k.add(m)
		}
	}()
	return k
}

type pacedReader struct {
	r    io.Reader
	pace func(n int) int
}

func (p *pacedReader) Read(b []byte) (int, error) {
	if n := p.pace(len(b)); n > 0 && n < len(b) {
		b = b[:n]
	}
	return p.r.Read(b)
}

func (k *collector) add(m msg) {
	k.mu.Lock()
	k.got = append(k.got, m)
	k.mu.Unlock()
}

func (k *collector) n() int {
	k.mu.Lock()
	defer k.mu.Unlock()
	return len(k.got)
}

func (k *collector) bytes() int { return int(atomic.LoadInt64(&k.in)) }

func (k *collector) all() []msg {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]msg(nil), k.got...)
}

// grows waits until cond, giving up only when neither ticks run out nor progress() moves.
func grows(n int64, progress func() int, cond func() bool) bool {
	last := -1
	start := atomic.LoadInt64(&ticks)
	for {
		if cond() {
			return true
		}
		if p := progress(); p != last {
			last, start = p, atomic.LoadInt64(&ticks)
		}
		if atomic.LoadInt64(&ticks)-start > n {
			return cond()
		}
		time.Sleep(500 * time.Microsecond)
	}
}

func tlsConf() *tls.Config { return &tls.Config{Certificates: []tls.Certificate{sharedCert}} }

func tlsClient(c net.Conn) net.Conn { return tls.Client(c, &tls.Config{InsecureSkipVerify: true}) }
