package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx"

	"tcpxverif/noise"
)

// ---------------------------------------------------------------- report

type Rep struct {
	Prop, Tier string
	Seed       int64
	Rng        *rand.Rand
	mu         sync.Mutex
	evals      int64
	distinct   map[string]struct{}
	samples    []interface{}
	rule       string
	counters   map[string]int64
	wall       time.Duration
	inconcl    []string
	assume     []string
	progress   int64
	step       atomic.Value
}

func newRep(p string, seed int64, tier string) *Rep {
	return &Rep{Prop: p, Seed: seed, Tier: tier, Rng: rand.New(rand.NewSource(seed)), distinct: map[string]struct{}{}, counters: map[string]int64{}}
}

func (r *Rep) Thorough() bool { return r.Tier == "thorough" }

// N scales an iteration count with the tier.
func (r *Rep) N(quick int) int {
	n := quick
	if r.Thorough() {
		n = quick * 12
	}
	if race {
		n = (n + 3) / 4
	}
	if n < 1 {
		n = 1
	}
	return n
}

// Sub derives an independent, reproducible generator.
func (r *Rep) Sub(k int64) *rand.Rand {
	return rand.New(rand.NewSource(r.Seed*1000003 + k*7919 + 17))
}

func (r *Rep) Rule(s string)   { r.rule = s }
func (r *Rep) Assume(s string) { r.mu.Lock(); r.assume = append(r.assume, s); r.mu.Unlock() }

// Case counts one evaluated case; key classifies it for the distinct count
// ("" for a trivial one).
func (r *Rep) Case(key string) {
	atomic.AddInt64(&r.progress, 1)
	r.mu.Lock()
	r.evals++
	if key != "" {
		r.distinct[key] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Rep) Count(name string, n int64) {
	atomic.AddInt64(&r.progress, 1)
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

func (r *Rep) Sample(v interface{}) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

func (r *Rep) Inconclusive(f string, a ...interface{}) {
	r.mu.Lock()
	if len(r.inconcl) < 20 {
		r.inconcl = append(r.inconcl, fmt.Sprintf(f, a...))
	}
	r.counters["inconclusive"]++
	r.mu.Unlock()
}

func (r *Rep) result(viol interface{}) []byte {
	calls, sites, adj, sleeps := noise.Stats()
	m := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "race": race,
		"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.rule,
		"samples": r.samples, "counters": r.counters, "wall_s": r.wall.Seconds(),
		"inconclusive": r.inconcl, "assumptions": r.assume,
		"instrumented": map[string]interface{}{"statement_events": calls, "statement_sites_reached": sites, "adjacent_site_pairs": adj, "injected_sleeps": sleeps},
	}
	if viol != nil {
		m["violation"] = viol
	}
	b, _ := json.MarshalIndent(m, "", " ")
	return b
}

var exitOnce sync.Mutex

// Violation records the witness and ends the run.
func (r *Rep) Violation(f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	exitOnce.Lock()
	r.mu.Lock()
	b := r.result(map[string]interface{}{"what": msg, "goroutines": stacks(60000)})
	r.write(b)
	fmt.Fprintln(os.Stderr, "VIOLATION:", msg)
	cleanupAll()
	os.Exit(1)
}

// HarnessError ends the run with no verdict.
func (r *Rep) HarnessError(f string, a ...interface{}) {
	exitOnce.Lock()
	fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", fmt.Sprintf(f, a...))
	fmt.Fprintln(os.Stderr, stacks(100000))
	cleanupAll()
	os.Exit(2)
}

// watchProgress refutes runs in which the workload hangs: the machine schedules this process
// (ticks advance) and yet no case completes for two minutes, where a case takes seconds.
func (r *Rep) watchProgress() {
	last, lastTick := int64(-1), int64(0)
	for {
		time.Sleep(200 * time.Millisecond)
		n := atomic.LoadInt64(&r.progress)
		t := atomic.LoadInt64(&ticks)
		if n != last {
			last, lastTick = n, t
		} else if t-lastTick > 12000 {
			r.Violation("the workload hangs: nothing completed for more than two minutes of running time (last step: %v)", r.step.Load())
		}
	}
}

// Step names what the workload is doing, for the hang report, and counts as progress.
func (r *Rep) Step(s string) {
	r.step.Store(s)
	atomic.AddInt64(&r.progress, 1)
}

func (r *Rep) write(b []byte) {
	if *flagOut != "" {
		var kb strings.Builder
		for k := range r.distinct {
			h := fnv.New64a()
			h.Write([]byte(k))
			fmt.Fprintf(&kb, "%x\n", h.Sum64())
		}
		os.WriteFile(*flagOut+".keys", []byte(kb.String()), 0o644)
	}
	if *flagOut == "" {
		os.Stdout.Write(b)
		fmt.Println()
		return
	}
	if err := os.WriteFile(*flagOut, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func (r *Rep) finish() {
	exitOnce.Lock()
	r.mu.Lock()
	r.write(r.result(nil))
	cleanupAll()
	os.Exit(0)
}

var cleanups struct {
	sync.Mutex
	f []func()
}

func atExit(f func()) { cleanups.Lock(); cleanups.f = append(cleanups.f, f); cleanups.Unlock() }
func cleanupAll() {
	cleanups.Lock()
	for _, f := range cleanups.f {
		f()
	}
	cleanups.f = nil
	cleanups.Unlock()
}

func stacks(max int) string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	if len(b) > max {
		b = b[:max]
	}
	return string(b)
}

// ---------------------------------------------------------------- logical time

// ticks advances about every 10 ms while this process is really being scheduled, so
// that waits measured in ticks do not expire on a stalled machine.
var ticks int64

func startTicks() {
	go func() {
		for {
			time.Sleep(10 * time.Millisecond)
			atomic.AddInt64(&ticks, 1)
		}
	}()
}

const longWait = 2500 // ticks: 25 s or more

// until polls cond for at most n ticks.
func until(n int64, cond func() bool) bool {
	start := atomic.LoadInt64(&ticks)
	d := 50 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if atomic.LoadInt64(&ticks)-start > n {
			return cond()
		}
		time.Sleep(d)
		if d < 5*time.Millisecond {
			d *= 2
		}
	}
}

// within runs f and tells whether it returned within n ticks.
func within(n int64, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	return waitCh(n, done)
}

func waitCh(n int64, ch <-chan struct{}) bool {
	start := atomic.LoadInt64(&ticks)
	for {
		select {
		case <-ch:
			return true
		case <-time.After(20 * time.Millisecond):
			if atomic.LoadInt64(&ticks)-start > n {
				select {
				case <-ch:
					return true
				default:
					return false
				}
			}
		}
	}
}

var epoch = time.Now()

func now() int64 { return int64(time.Since(epoch)) }

// ---------------------------------------------------------------- independent codec

// frame builds a block byte by byte from the protocol document.
func frame(id int32, header, body []byte) []byte {
	b := make([]byte, 16, 16+len(header)+len(body))
	binary.BigEndian.PutUint32(b[0:], uint32(12+len(header)+len(body)))
	binary.BigEndian.PutUint32(b[4:], uint32(id))
	binary.BigEndian.PutUint32(b[8:], uint32(len(header)))
	binary.BigEndian.PutUint32(b[12:], uint32(len(body)))
	b = append(b, header...)
	return append(b, body...)
}

type msg struct {
	ID     int32
	Header []byte
	Body   []byte
	Raw    []byte
}

func (m msg) hdr() map[string]interface{} {
	var h map[string]interface{}
	if len(m.Header) > 0 {
		json.Unmarshal(m.Header, &h)
	}
	return h
}

func parseFrame(b []byte) (msg, error) {
	if len(b) < 16 {
		return msg{}, fmt.Errorf("short block: %d bytes", len(b))
	}
	l := int64(binary.BigEndian.Uint32(b[0:]))
	id := int32(binary.BigEndian.Uint32(b[4:]))
	hl := int64(binary.BigEndian.Uint32(b[8:]))
	bl := int64(binary.BigEndian.Uint32(b[12:]))
	if l != int64(len(b))-4 {
		return msg{}, fmt.Errorf("length field %d, block has %d bytes after it", l, len(b)-4)
	}
	if 12+hl+bl != l {
		return msg{}, fmt.Errorf("length %d != 12 + header %d + body %d", l, hl, bl)
	}
	return msg{ID: id, Header: b[16 : 16+hl], Body: b[16+hl:], Raw: b}, nil
}

func readFrame(r io.Reader) (msg, error) {
	var p [4]byte
	if _, err := io.ReadFull(r, p[:]); err != nil {
		return msg{}, err
	}
	l := binary.BigEndian.Uint32(p[:])
	if l > 1<<28 {
		return msg{}, fmt.Errorf("absurd frame length %d (stream desynchronised)", l)
	}
	b := make([]byte, 4+int(l))
	copy(b, p[:])
	if _, err := io.ReadFull(r, b[4:]); err != nil {
		return msg{}, err
	}
	return parseFrame(b)
}

func jsonOf(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// ---------------------------------------------------------------- servers

var addrCtr int64

// nextAddr gives an address nobody else uses: own loopback IP per process, fixed port
// outside the ephemeral range.
func nextAddr() string {
	n := atomic.AddInt64(&addrCtr, 1)
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, 1+(pid/250)%250, 1+n%250, 11000+n/250)
}

func sockPath() string {
	return filepath.Join(*flagTmp, fmt.Sprintf("s%d.sock", atomic.AddInt64(&addrCtr, 1)))
}

type server struct {
	r       *Rep
	X       *tcpx.TcpX
	Network string
	Addr    string
	done    chan struct{}
	err     error
}

func (r *Rep) serve(x *tcpx.TcpX, network, addr string) *server {
	return r.serveWith(x, network, addr, func() error { return x.ListenAndServe(network, addr) })
}

func (r *Rep) serveWith(x *tcpx.TcpX, network, addr string, f func() error) *server {
	s := &server{r: r, X: x, Network: network, Addr: addr, done: make(chan struct{})}
	go func() {
		s.err = f()
		close(s.done)
	}()
	if !until(longWait, func() bool { return x.State() == tcpx.STATE_RUNNING || isClosed(s.done) }) {
		r.Violation("server on %s %s did not come up", network, addr)
	}
	if isClosed(s.done) {
		r.HarnessError("listen on %s %s returned at once: %v", network, addr, s.err)
	}
	// another address of the same server may already be serving: wait for this one
	until(300, func() bool { return bound(network, addr) || isClosed(s.done) })
	return s
}

// bound looks the socket up in /proc; it says true when it cannot tell.
func bound(network, addr string) bool {
	host, port, err := net.SplitHostPort(addr)
	if err != nil || strings.HasPrefix(network, "unix") {
		_, err := os.Stat(addr)
		return err == nil
	}
	var p int
	fmt.Sscan(port, &p)
	kind := "tcp"
	if strings.HasPrefix(network, "udp") {
		kind = "udp"
	}
	want := fmt.Sprintf(":%04X", p)
	if ip := net.ParseIP(host).To4(); ip != nil {
		want = fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], p)
	}
	readable := false
	for _, f := range []string{kind, kind + "6"} {
		b, err := os.ReadFile("/proc/net/" + f)
		if err != nil {
			continue
		}
		readable = true
		for _, ln := range strings.Split(string(b), "\n") {
			w := strings.Fields(ln)
			if len(w) > 3 && strings.HasSuffix(w[1], want) && (kind == "udp" || w[3] == "0A") {
				return true
			}
		}
	}
	return !readable
}

func isClosed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func (r *Rep) serveTCP(x *tcpx.TcpX) *server { return r.serve(x, "tcp", nextAddr()) }

// stop ends the server and its connections, without judging how.
func (s *server) stop() {
	within(longWait, func() { s.X.Stop(true) })
	waitCh(longWait, s.done)
}

// dial connects, retrying while the listener is not up yet.
func (r *Rep) dial(network, addr string) net.Conn {
	var c net.Conn
	var err error
	ok := until(longWait, func() bool {
		c, err = dialFrom(network, addr)
		return err == nil
	})
	if !ok {
		r.Violation("cannot connect to the serving address %s %s: %v", network, addr, err)
	}
	return c
}

func (s *server) dial() net.Conn { return s.r.dial(s.Network, s.Addr) }

// refused tells whether a fresh connection attempt is rejected outright.
func refused(err error) bool {
	return errors.Is(err, syscall.ECONNREFUSED) || errors.Is(err, syscall.ENOENT) || errors.Is(err, syscall.ECONNRESET)
}

// ended reads until the stream ends and tells whether it did within n ticks; any bytes
// are collected.
func ended(c net.Conn, n int64) (data []byte, ok bool) {
	start := atomic.LoadInt64(&ticks)
	buf := make([]byte, 65536)
	for {
		c.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
		m, err := c.Read(buf)
		data = append(data, buf[:m]...)
		if err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				if atomic.LoadInt64(&ticks)-start > n {
					return data, false
				}
				continue
			}
			return data, true
		}
	}
}

// stillOpen checks that the stream delivers nothing and does not end for d.
func stillOpen(c net.Conn, d time.Duration) bool {
	c.SetReadDeadline(time.Now().Add(d))
	defer c.SetReadDeadline(time.Time{})
	var b [1]byte
	_, err := c.Read(b[:])
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

// recv reads one frame within a long tick-bounded wait.
func recv(c net.Conn) (msg, error) {
	type res struct {
		m   msg
		err error
	}
	ch := make(chan res, 1)
	c.SetReadDeadline(time.Time{})
	go func() { m, err := readFrame(c); ch <- res{m, err} }()
	start := atomic.LoadInt64(&ticks)
	for {
		select {
		case x := <-ch:
			return x.m, x.err
		case <-time.After(50 * time.Millisecond):
			if atomic.LoadInt64(&ticks)-start > longWait {
				c.SetReadDeadline(time.Unix(1, 0))
				x := <-ch
				c.SetReadDeadline(time.Time{})
				if x.err == nil {
					return x.m, nil
				}
				return msg{}, fmt.Errorf("no reply: %w", x.err)
			}
		}
	}
}

// echoX builds a server whose id-1 handler echoes the body back under the same id.
const echoID = 1

func addEcho(x *tcpx.TcpX) {
	x.AddHandler(echoID, func(c *tcpx.Context) {
		b, err := c.RawStream()
		if err != nil {
			return
		}
		out, err := c.Packx.PackWithBody(echoID, b)
		if err != nil {
			return
		}
		if c.Conn != nil {
			c.Conn.Write(out)
		} else {
			c.PacketConn.WriteTo(out, c.Addr)
		}
	})
}

var echoCtr int64

// ping sends one echo request and tells whether the right answer came.
func ping(c net.Conn) error {
	want := fmt.Sprintf("ping-%d", atomic.AddInt64(&echoCtr, 1))
	if _, err := c.Write(frame(echoID, nil, []byte(want))); err != nil {
		return err
	}
	m, err := recv(c)
	if err != nil {
		return err
	}
	if m.ID != echoID || string(m.Body) != want {
		return fmt.Errorf("echo of %q returned id %d body %q", want, m.ID, m.Body)
	}
	return nil
}

func randBytes(g *rand.Rand, n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}

func short(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x...(%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// tcpxGoroutines lists goroutines with a frame of package tcpx on their stack.
func tcpxGoroutines() []string {
	b := make([]byte, 8<<20)
	b = b[:runtime.Stack(b, true)]
	var out []string
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "fwhezfwhez/tcpx.") {
			out = append(out, g)
		}
	}
	return out
}

func sockFDs() int {
	n := 0
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}
