package main

import (
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

func init() { props["C02"] = c02 }

var errInjected = errors.New("injected read failure")

// scriptReader delivers data in scripted chunks. It counts what it handed out.
type scriptReader struct {
	data    []byte
	chunks  []int // 0 = empty read; when exhausted, whatever is asked
	ci      int
	off     int
	failAt  int // -1: never; otherwise error once off == failAt
	failErr error
	withEOF bool // deliver the last bytes together with the terminating error
	empties int
	after   int // reads after the end
	onSpin  func()
}

func (s *scriptReader) end() int {
	if s.failAt >= 0 && s.failAt < len(s.data) {
		return s.failAt
	}
	return len(s.data)
}

func (s *scriptReader) termErr() error {
	if s.failAt >= 0 {
		return s.failErr
	}
	return io.EOF
}

func (s *scriptReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := s.end()
	if s.off >= end {
		if s.after++; s.after == 1000 && s.onSpin != nil {
			s.onSpin()
		}
		return 0, s.termErr()
	}
	n := len(p)
	if s.ci < len(s.chunks) {
		c := s.chunks[s.ci]
		s.ci++
		if c == 0 {
			s.empties++
			return 0, nil
		}
		if c < n {
			n = c
		}
	}
	if s.off+n > end {
		n = end - s.off
	}
	copy(p, s.data[s.off:s.off+n])
	s.off += n
	if s.off == end && s.withEOF {
		return n, s.termErr()
	}
	return n, nil
}

type connReader struct {
	io.Reader
}

func (connReader) Write(b []byte) (int, error)        { return len(b), nil }
func (connReader) Close() error                       { return nil }
func (connReader) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (connReader) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (connReader) SetDeadline(t time.Time) error      { return nil }
func (connReader) SetReadDeadline(t time.Time) error  { return nil }
func (connReader) SetWriteDeadline(t time.Time) error { return nil }

type blockReader struct {
	name string
	f    func(io.Reader) ([]byte, error)
}

func blockReaders() []blockReader {
	px := tcpx.NewPackx(nil)
	return []blockReader{
		{"FirstBlockOf", tcpx.FirstBlockOf},
		{"Packx.FirstBlockOf", px.FirstBlockOf},
		{"UnpackToBlockFromReader", tcpx.UnpackToBlockFromReader},
		{"FirstBlockOfLimitMaxByte", func(r io.Reader) ([]byte, error) { return tcpx.FirstBlockOfLimitMaxByte(r, 1<<30) }},
		{"FirstBlockOfLimitMaxByte(0)", func(r io.Reader) ([]byte, error) { return tcpx.FirstBlockOfLimitMaxByte(r, 0) }},
		{"Packx.FirstBlockOfLimitMaxByte", func(r io.Reader) ([]byte, error) { return px.FirstBlockOfLimitMaxByte(r, 1<<30) }},
		{"Packx.FirstBlockOfLimitMaxByte(-1)", func(r io.Reader) ([]byte, error) { return px.FirstBlockOfLimitMaxByte(r, -1) }},
		{"UnpackToBlockFromReaderLimitMaxLengthOfByte", func(r io.Reader) ([]byte, error) {
			return tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(r, 1<<30)
		}},
		{"Recv", func(r io.Reader) ([]byte, error) { b, e := tcpx.Recv(connReader{r}); return []byte(b), e }},
	}
}

func genMsgs(g *rand.Rand, n int, maxSize int) [][]byte {
	var out [][]byte
	for i := 0; i < n; i++ {
		var h []byte
		switch g.Intn(4) {
		case 0:
			h = []byte("null")
		case 1:
			h = jsonOf(map[string]interface{}{"k": asciiStr(g, g.Intn(30))})
		case 2:
			h = []byte("{}")
		}
		s := genSize(g)
		if maxSize > 0 && s > maxSize {
			s = g.Intn(maxSize)
		}
		out = append(out, frame(genID(g), h, randBytes(g, s)))
	}
	return out
}

func genChunks(g *rand.Rand, total int) []int {
	var c []int
	mode := g.Intn(6)
	for sum := 0; sum < total && len(c) < 200000; {
		var n int
		switch mode {
		case 0:
			n = 1
		case 1:
			n = 1 + g.Intn(3)
		case 2:
			n = g.Intn(8)
		case 3:
			n = 1 + g.Intn(1500)
		case 4:
			n = []int{3, 4, 5, 11, 12, 13, 15, 16, 17, 1023, 1024, 1025}[g.Intn(12)]
		case 5:
			n = g.Intn(2) * g.Intn(70000)
		}
		c = append(c, n)
		sum += n
	}
	return c
}

func c02(r *Rep) {
	r.Rule("one case = one stream of packed messages read back through one reading function under one fragmentation and termination; distinct by (function, fragmentation mode, number of messages, termination kind); single-chunk EOF-terminated streams count as trivial")
	brs := blockReaders()
	// 1. random fragmentations
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			g := r.Sub(int64(w))
			for i := 0; i < r.N(400); i++ {
				br := brs[g.Intn(len(brs))]
				ms := genMsgs(g, 1+g.Intn(6), 0)
				all := bytes.Join(ms, nil)
				ch := genChunks(g, len(all))
				c02stream(r, br, ms, &scriptReader{data: all, chunks: ch, failAt: -1, withEOF: g.Intn(2) == 0})
				r.Case(fmt.Sprintf("frag/%s/%d/%d", br.name, len(ms), len(ch)%17))
				r.Sample(map[string]interface{}{"fn": br.name, "messages": len(ms), "bytes": len(all), "first_chunks": ch[:min(len(ch), 12)]})
			}
		}(w)
	}
	wg.Wait()
	// 2. every truncation point and every failure point of short streams, both ways of ending
	g := r.Sub(50)
	for rep := 0; rep < r.N(4); rep++ {
		ms := [][]byte{frame(5, []byte(`{"a":1}`), randBytes(g, 9)), frame(-6, nil, nil), frame(7, nil, randBytes(g, 1+g.Intn(20)))}
		all := bytes.Join(ms, nil)
		for _, br := range brs {
			for cut := 0; cut <= len(all); cut++ {
				for _, fe := range []error{io.EOF, errInjected, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, net.ErrClosed} {
					for _, we := range []bool{false, true} {
						var ch []int
						if g.Intn(2) == 0 {
							ch = genChunks(g, len(all))
						}
						c02stream(r, br, ms, &scriptReader{data: all, chunks: ch, failAt: cut, failErr: fe, withEOF: we})
						r.Case(fmt.Sprintf("cut/%s/%d/%v/%v", br.name, cut, fe, we))
					}
				}
			}
		}
	}
	// 3. big messages in pieces
	for _, n := range []int{1 << 20, 5<<20 + 3} {
		ms := [][]byte{frame(1, nil, randBytes(g, n)), frame(2, nil, randBytes(g, 17)), frame(3, nil, randBytes(g, n/2))}
		all := bytes.Join(ms, nil)
		for _, br := range brs {
			c02stream(r, br, ms, &scriptReader{data: all, chunks: genChunks(g, len(all)), failAt: -1, withEOF: true})
			r.Case("big/" + br.name)
		}
	}
	// zero-length content
	for _, br := range brs {
		b, err := br.f(bytes.NewReader([]byte{0, 0, 0, 0, 9, 9}))
		if err != nil || !bytes.Equal(b, []byte{0, 0, 0, 0}) {
			r.Violation("%s on a block of declared length 0 = %s, %v", br.name, short(b), err)
		}
	}
	c02unpack(r)
	c02server(r)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// c02stream drains the reader and compares with ms.
func c02stream(r *Rep, br blockReader, ms [][]byte, s *scriptReader) {
	end := s.end()
	s.onSpin = func() {
		r.Violation("%s keeps reading from a reader that has ended with %v (1000 further reads)", br.name, s.termErr())
	}
	boundary := 0
	var got [][]byte
	for i := 0; ; i++ {
		b, err := br.f(s)
		if err != nil {
			if b != nil && len(b) > 0 {
				r.Violation("%s returned %d bytes of a block together with error %v", br.name, len(b), err)
			}
			complete := i < len(ms) && boundary+len(ms[i]) <= end
			if complete {
				r.Violation("%s: message %d of %d (bytes %d..%d, all delivered by the reader before it ended at %d, last-bytes-with-error=%v) was not returned: %v",
					br.name, i, len(ms), boundary, boundary+len(ms[i]), end, s.withEOF, err)
			}
			if boundary == end && s.termErr() == io.EOF && err != io.EOF {
				r.Violation("%s: stream ended between messages but the error is %v, not io.EOF", br.name, err)
			}
			break
		}
		if i >= len(ms) || boundary+len(ms[i]) > end {
			r.Violation("%s returned a block although message %d was not completely delivered: %s", br.name, i, short(b))
		}
		if !bytes.Equal(b, ms[i]) {
			r.Violation("%s: message %d is %s, want %s", br.name, i, short(b), short(ms[i]))
		}
		boundary += len(ms[i])
		if s.off != boundary {
			r.Violation("%s: consumed %d bytes from the reader after message %d, which ends at %d", br.name, s.off, i, boundary)
		}
		got = append(got, b)
	}
	for i, b := range got {
		if !bytes.Equal(b, ms[i]) {
			r.Violation("%s: block %d was overwritten by a later read", br.name, i)
		}
	}
	if len(s.chunks) > 1 {
		r.Count("fragmented_streams", 1)
	}
	r.Count("blocks_compared", int64(len(got)))
	r.Count("empty_reads", int64(s.empties))
}

func c02unpack(r *Rep) {
	g := r.Sub(60)
	for i := 0; i < r.N(300); i++ {
		n := 1 + g.Intn(4)
		var all []byte
		type e struct {
			id int32
			h  map[string]interface{}
			b  []byte
		}
		var es []e
		for j := 0; j < n; j++ {
			x := e{genID(g), genHeader(g), randBytes(g, genSize(g)%3000)}
			es = append(es, x)
			all = append(all, frame(x.id, jsonOf(x.h), x.b)...)
		}
		s := &scriptReader{data: all, chunks: genChunks(g, len(all)), failAt: -1, withEOF: g.Intn(2) == 0}
		for j, x := range es {
			id, h, b, err := tcpx.UnPackFromReader(s)
			if err != nil || id != x.id || !hdrEq(h, x.h) || !bytes.Equal(b, x.b) {
				r.Violation("UnPackFromReader: message %d of %d: id %d header %v body %s err %v; sent id %d header %v body %s", j, n, id, h, short(b), err, x.id, x.h, short(x.b))
			}
		}
		if _, _, _, err := tcpx.UnPackFromReader(s); err != io.EOF {
			r.Violation("UnPackFromReader at the end of the stream: %v, want io.EOF", err)
		}
		r.Case(fmt.Sprintf("unpack/%d", n))
	}
}

// c02server feeds fragments to real servers and compares what the handlers see.
func c02server(r *Rep) {
	cert := testCert(r)
	for _, netw := range []string{"tcp", "tls", "unix"} {
		var mu sync.Mutex
		seen := map[string]int{}
		x := tcpx.NewTcpX(nil)
		x.OnMessage = func(c *tcpx.Context) {
			mu.Lock()
			seen[string(c.Stream)]++
			mu.Unlock()
		}
		network, addr := "tcp", nextAddr()
		if netw == "unix" {
			network, addr = "unix", sockPath()
		}
		if netw == "tls" {
			x.TLSConfig = &tls.Config{Certificates: []tls.Certificate{cert}}
		}
		s := r.serve(x, network, addr)
		want := map[string]int{}
		var wg sync.WaitGroup
		nconn := r.N(24)
		for k := 0; k < nconn; k++ {
			g := r.Sub(int64(1000 + k))
			ms := genMsgs(g, 1+g.Intn(12), 200000)
			for _, m := range ms {
				want[string(m)]++
			}
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				raw := s.dial()
				c := raw
				if netw == "tls" {
					c = tls.Client(raw, &tls.Config{InsecureSkipVerify: true})
				}
				defer c.Close()
				all := bytes.Join(ms, nil)
				chunks := genChunks(g, len(all))
				if len(chunks) > 3000 {
					chunks = chunks[:3000]
				}
				off := 0
				for i, n := range append(chunks, len(all)) {
					if n == 0 {
						time.Sleep(50 * time.Microsecond)
						continue
					}
					if off+n > len(all) {
						n = len(all) - off
					}
					if n > 0 {
						if _, err := c.Write(all[off : off+n]); err != nil {
							r.Violation("%s server closed the connection in the middle of a well-formed stream at byte %d of %d: %v", netw, off, len(all), err)
						}
					}
					off += n
					if i%64 == 5 {
						time.Sleep(100 * time.Microsecond)
					}
				}
				// close right after the last byte: the last message still counts
				switch t := c.(type) {
				case *tls.Conn:
					t.CloseWrite()
				case *net.TCPConn:
					t.CloseWrite()
				case *net.UnixConn:
					t.CloseWrite()
				}
				ended(c, longWait)
				r.Case(fmt.Sprintf("server/%s/%d", netw, len(chunks)%11))
				r.Count("server_bytes", int64(len(all)))
			}(k)
		}
		wg.Wait()
		total := 0
		for _, n := range want {
			total += n
		}
		cnt := func() int {
			mu.Lock()
			defer mu.Unlock()
			n := 0
			for _, v := range seen {
				n += v
			}
			return n
		}
		ok := until(longWait, func() bool { return cnt() >= total })
		time.Sleep(30 * time.Millisecond)
		mu.Lock()
		for k, v := range seen {
			if want[k] == 0 {
				mu.Unlock()
				r.Violation("%s server handed a handler a message nobody sent: %s", netw, short([]byte(k)))
			}
			if want[k] != v {
				r.Violation("%s server handled a message %d times, sent %d times: %s", netw, v, want[k], short([]byte(k)))
			}
		}
		if !ok {
			for k, v := range want {
				if seen[k] != v {
					r.Violation("%s server: a fragmented message never reached the handler: %s", netw, short([]byte(k)))
				}
			}
		}
		mu.Unlock()
		r.Count("server_messages_"+netw, int64(total))
		s.stop()
	}
}
