package main

import (
	"bufio"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"

	"tcpxverif/noise"
)

// C17: the oracle is the race detector. The server lives in a process of its own: inside one process the
// detector orders every write to a socket before every later read from one, so a client in the
// same process would hide most of the server's races. For the same reason the handlers
// here share no lock, channel or counter of the harness: what orders them is tcpx's own
// synchronisation (and the replies of configurations that reply).

func init() {
	props["C17"] = c17
	children["c17"] = c17child
}

type c17cfg struct {
	Seed      int64
	Noise     int
	Tmp       string
	Doors     [][2]string // network, address; network "raw:tcp" for raw doors
	TLS       bool
	Pool      bool
	Broadcast bool
	HB        int // interval in ms, 0 off
	HBThrough bool
	Rewrite   bool
	HBLoss    bool
	Auth      int // deadline in ms, 0 off
	AuthThru  bool
	OnMessage bool
	Silent    bool // handlers send nothing
	Cycle     int  // stop/start every so many ms, 0 never
	MaxByte   int32
	Deadline  bool
	Users     int
}

func (c c17cfg) key() string {
	var n []string
	for _, d := range c.Doors {
		n = append(n, d[0])
	}
	return fmt.Sprintf("%s/tls%v/pool%v/bc%v/hb%v,%v,%v,%v/auth%v,%v/om%v/silent%v/cycle%v/max%v/dl%v", strings.Join(n, "+"), c.TLS, c.Pool, c.Broadcast,
		c.HB > 0, c.HBThrough, c.Rewrite, c.HBLoss, c.Auth > 0, c.AuthThru, c.OnMessage, c.Silent, c.Cycle > 0, c.MaxByte > 0, c.Deadline)
}

type c17body struct {
	N int64
	S string
}

const (
	c17ids  = 6
	c17auth = 500
	c17hb   = 501
)

// values shared by every goroutine, only ever read by the harness
var c17hdr = map[string]interface{}{"k": "v", "n": 1}
var c17val = c17body{7, "shared"}
var c17packs = []*tcpx.Packx{tcpx.NewPackx(tcpx.JsonMarshaller{}), tcpx.NewPackx(nil), tcpx.NewPackx(tcpx.XmlMarshaller{}), tcpx.NewPackx(tcpx.YamlMarshaller{}), tcpx.NewPackx(tcpx.TomlMarshaller{})}
var c17msg = tcpx.Message{MessageID: 3, Header: c17hdr, Body: c17val}

// c17shared uses the packers and values above.
func c17shared(g *rand.Rand) {
	p := c17packs[g.Intn(len(c17packs))]
	b, err := p.Pack(g.Int31n(9), c17val, c17hdr)
	if err == nil {
		var d c17body
		p.Unpack(b, &d)
		p.HeaderOf(b)
		p.BodyBytesOf(b)
		p.MessageIDOf(b)
		p.FirstBlockOfBytes(b)
	}
	tcpx.PackWithMarshaller(c17msg, tcpx.JsonMarshaller{})
	tcpx.PackWithMarshallerName(c17msg, []string{"json", "toml", "yaml", "xml"}[g.Intn(4)])
	c17msg.Pack(tcpx.JsonMarshaller{})
	c17msg.Get("k")
	tcpx.PackHeartbeat()
	tcpx.PackStuff(4)
	p.PackWithBody(3, []byte("abc"), c17hdr, c17hdr)
	tcpx.GetMarshallerByMarshalName("json")
}

// c17use does a few random things with a context that any goroutine may do.
func c17use(cfg *c17cfg, c *tcpx.Context, g *rand.Rand, n int) {
	user := func() string { return fmt.Sprintf("u%d", g.Intn(cfg.Users)) }
	for i := 0; i < n; i++ {
		switch g.Intn(28) {
		case 0:
			c.SetCtxPerConn(g.Intn(4), i)
		case 1:
			c.GetCtxPerConn(g.Intn(4))
		case 2:
			c.SetCtxPerRequest(g.Intn(4), i)
		case 3:
			c.GetCtxPerRequest(g.Intn(4))
		case 4:
			c.Username()
			c.GetUsername()
		case 5:
			c.IsOnline()
			c.IsOffline()
		case 6:
			c.ClientIP()
			c.Network()
			c.ConnectionProtocolType()
		case 7:
			if c.Stream != nil {
				c.RawStream()
				c.RouterType()
				c.GetURLPattern()
			}
		case 8:
			if c.Stream != nil {
				var d c17body
				c.Bind(&d)
				c.BindWithMarshaller(&d, tcpx.JsonMarshaller{})
			}
		case 9, 10:
			if cfg.Pool {
				c.Online(user())
			} else {
				c.SetUsername(user())
			}
		case 11:
			if cfg.Pool {
				c.Offline()
			}
		case 12:
			if cfg.Pool {
				p := c.GetPoolRef()
				if o := p.GetClientPool(user()); o != nil {
					o.IsOnline()
					o.ClientIP()
					o.GetUsername()
					o.SetCtxPerConn("x", i)
				}
			}
		case 13:
			if cfg.Pool {
				p := c.GetPoolRef()
				p.SetClientPool(user(), c)
				p.DeleteFromClientPool(user())
			}
		case 14:
			c17shared(g)
		case 15:
			c.RecvHeartBeat()
		case 16:
			if cfg.Auth > 0 && g.Intn(3) > 0 {
				c.RecvAuthPass()
			}
		case 17:
			if g.Intn(6) == 0 && cfg.Auth > 0 {
				c.RecvAuthDeny()
			}
		case 18:
			if g.Intn(10) == 0 && c.Conn != nil {
				c.CloseConn()
			}
		case 19:
			if c.Conn != nil {
				c.SetDeadline(time.Now().Add(time.Minute))
				c.SetReadDeadline(time.Time{})
				c.SetWriteDeadline(time.Time{})
			}
		case 20, 21, 22:
			if cfg.Silent {
				break
			}
			switch g.Intn(7) {
			case 0:
				c.Reply(1, c17val, c17hdr)
			case 1:
				c.JSON(1, c17val, c17hdr)
			case 2:
				c.XML(1, c17val)
			case 3:
				c.YAML(1, c17val)
			case 4:
				c.TOML(1, c17val)
			case 5:
				c.ReplyWithMarshaller(tcpx.JsonMarshaller{}, 1, c17val)
			case 6:
				if c.Stream != nil {
					c.JSONURLPattern(c17val)
				}
			}
		case 23:
			if cfg.Pool && !cfg.Silent {
				c.SendToUsername(user(), 2, c17val, c17hdr)
			}
		case 24:
			if cfg.Pool && !cfg.Silent {
				if o := c.GetPoolRef().GetClientPool(user()); o != nil {
					c.SendToConn(o, 2, c17val)
				}
			}
		case 25:
			time.Sleep(time.Duration(g.Intn(300)) * time.Microsecond)
		case 26:
			select {
			case <-c.HeartBeatChan():
			default:
			}
		case 27:
			if c.Stream != nil {
				c.Packx.HeaderOf(c.Stream)
				c.Packx.BodyBytesOf(c.Stream)
			}
		}
	}
}

func c17child() {
	log.SetOutput(io.Discard)
	tcpx.SetLogMode(tcpx.RELEASE)
	var cfg c17cfg
	if json.Unmarshal([]byte(os.Getenv("C17_CFG")), &cfg) != nil {
		os.Exit(77)
	}
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	stdout := os.Stdout
	os.Stdout = null
	noise.Enable(cfg.Seed, cfg.Noise)
	x := tcpx.NewTcpX(tcpx.JsonMarshaller{})
	if cfg.TLS {
		x.TLSConfig = &tls.Config{Certificates: []tls.Certificate{testCert(newRep("C17", 1, "quick"))}}
	}
	if cfg.Pool {
		x.WithBuiltInPool(true)
	}
	if cfg.Broadcast {
		x.WithBroadCastSignal(true)
	}
	if cfg.MaxByte > 0 {
		x.SetMaxBytePerMessage(cfg.MaxByte)
	}
	if cfg.Deadline {
		x.SetDeadline(time.Now().Add(time.Hour))
		x.SetWriteDeadline(time.Now().Add(time.Hour))
	}
	// a generator of its own for each invocation, seeded from what the invocation knows
	rng := func(c *tcpx.Context, salt int64) *rand.Rand {
		var d c17body
		if c.Stream != nil {
			c.Bind(&d)
		}
		return rand.New(rand.NewSource(d.N*31 + salt + cfg.Seed + time.Now().UnixNano()%1000))
	}
	mid := func(salt int64) func(*tcpx.Context) {
		return func(c *tcpx.Context) {
			g := rng(c, salt)
			c17use(&cfg, c, g, 1)
			switch g.Intn(8) {
			case 0:
				c.Next()
			case 1:
				if g.Intn(4) == 0 {
					c.Abort()
				}
			}
		}
	}
	handler := func(salt int64) func(*tcpx.Context) {
		return func(c *tcpx.Context) {
			g := rng(c, salt)
			c17use(&cfg, c, g, 1+g.Intn(6))
			for k := g.Intn(3); k > 0; k-- { // outlives the handler
				h := rand.New(rand.NewSource(g.Int63()))
				go c17use(&cfg, c, h, 1+h.Intn(8))
			}
		}
	}
	x.UseGlobal(mid(1))
	x.Use("a", mid(2), "b", mid(3))
	for i := int32(0); i < c17ids/2; i++ {
		x.AddHandler(i, mid(10), handler(int64(20+i)))
	}
	x.UnUse("a")
	for i := int32(c17ids / 2); i < c17ids; i++ {
		x.AddHandler(i, handler(int64(20+i)))
	}
	x.Any("/p/0/", mid(30), handler(31))
	x.Any("/p/1/", handler(32))
	if cfg.HB > 0 {
		if cfg.HBThrough {
			x.HeartBeatModeDetail(true, time.Duration(cfg.HB)*time.Millisecond, true, c17hb)
		} else {
			x.HeartBeatMode(true, time.Duration(cfg.HB)*time.Millisecond)
		}
		if cfg.Rewrite {
			x.RewriteHeartBeatHandler(c17hb+1, func(c *tcpx.Context) { c.RecvHeartBeat() })
		}
		if cfg.HBLoss {
			x.SetEventOnHeartbeatLoss(func(c *tcpx.Context) { c17use(&cfg, c, rng(c, 40), 3) })
		}
	}
	if cfg.Auth > 0 {
		x.WithAuthDetail(true, time.Duration(cfg.Auth)*time.Millisecond, cfg.AuthThru, c17auth, func(c *tcpx.Context) {
			g := rng(c, 41)
			if g.Intn(8) == 0 {
				c.RecvAuthDeny()
			} else {
				c.RecvAuthPass()
			}
		})
	}
	if cfg.OnMessage {
		x.OnMessage = handler(50)
	}
	x.HandleRaw = func(c *tcpx.Context) {
		g := rng(c, 60)
		b := make([]byte, 64)
		for {
			n, err := c.ConnReader.Read(b)
			if err != nil {
				return
			}
			c17use(&cfg, c, g, 1)
			if !cfg.Silent {
				c.ConnWriter.Write(b[:n])
			}
		}
	}
	x.OnConnect = func(c *tcpx.Context) {
		g := rng(c, 70)
		c17use(&cfg, c, g, g.Intn(3))
		if g.Intn(2) == 0 {
			h := rand.New(rand.NewSource(g.Int63()))
			go c17use(&cfg, c, h, h.Intn(12))
		}
	}
	x.OnClose = func(c *tcpx.Context) {
		g := rng(c, 80)
		c17use(&cfg, c, g, g.Intn(4))
		if g.Intn(3) == 0 {
			h := rand.New(rand.NewSource(g.Int63()))
			go c17use(&cfg, c, h, h.Intn(4))
		}
	}
	for _, d := range cfg.Doors {
		d := d
		go func() {
			if strings.HasPrefix(d[0], "raw:") {
				x.ListenAndServeRaw(d[0][4:], d[1])
			} else {
				x.ListenAndServe(d[0], d[1])
			}
		}()
	}
	up := func() bool {
		for _, d := range cfg.Doors {
			if !bound(strings.TrimPrefix(d[0], "raw:"), d[1]) {
				return false
			}
		}
		return x.State() == tcpx.STATE_RUNNING
	}
	for t := 0; t < 2000 && !up(); t++ {
		time.Sleep(10 * time.Millisecond)
	}
	fmt.Fprintln(stdout, "READY")
	// the application itself: state polling, packing
	for i := 0; i < 2; i++ {
		g := rand.New(rand.NewSource(cfg.Seed + 900 + int64(i)))
		go func() {
			for {
				x.State()
				c17shared(g)
				time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
			}
		}()
	}
	quit := make(chan struct{})
	if cfg.Cycle > 0 { // further addresses join while the server stops and starts
		go func() {
			for k := 0; k < 3; k++ {
				time.Sleep(time.Duration(30+cfg.Cycle+20*k) * time.Millisecond)
				p := fmt.Sprintf("%s/late%d-%d.sock", cfg.Tmp, os.Getpid(), k)
				go x.ListenAndServe("unix", p)
			}
		}()
	}
	cycled := make(chan int)
	go func() {
		n := 0
		defer func() { cycled <- n }()
		g := rand.New(rand.NewSource(cfg.Seed + 950))
		for {
			select {
			case <-quit:
				return
			case <-time.After(time.Duration(50+cfg.Cycle) * time.Millisecond):
			}
			if cfg.Cycle == 0 {
				continue
			}
			n++
			all := g.Intn(2) == 0
			if g.Intn(2) == 0 {
				x.Restart(all, func() { x.State() }, func() { c17shared(g) })
			} else {
				x.Stop(all)
				x.Stop(all)
				x.Start()
				x.Start()
			}
			for t := 0; t < 300 && !up(); t++ { // a stop during an unfinished start is not judged
				time.Sleep(10 * time.Millisecond)
			}
		}
	}()
	io.Copy(io.Discard, os.Stdin)
	close(quit)
	n := <-cycled
	x.Stop(false)
	time.Sleep(20 * time.Millisecond)
	x.Start()
	x.Stop(true)
	time.Sleep(100 * time.Millisecond)
	calls, sites, adj, _ := noise.Stats()
	fmt.Fprintf(stdout, "DONE %d %d %d %d\n", n, calls, sites, adj)
	os.Exit(0)
}

func c17(r *Rep) {
	if !race {
		r.HarnessError("C17 needs the race build")
	}
	r.Rule("one case = one server process, built with the race detector, under a generated mix of transports, features, clients and stop/start cycles; distinct by configuration. Reports of the detector with an access in tcpx code are violations")
	r.Assume("the race detector judges the happens-before order of executed accesses only; paths not driven are not judged")
	r.Assume("handlers are registered and options set before serving; a Stop overlapping an unfinished Start is not driven")
	n := 14
	if r.Thorough() {
		n = 160
	}
	g := r.Sub(1)
	sem := make(chan int, 4)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		cfg := c17plan(r, g, i)
		h := rand.New(rand.NewSource(g.Int63()))
		wg.Add(1)
		sem <- 1
		go func() {
			defer func() { <-sem; wg.Done() }()
			c17drive(r, cfg, h)
		}()
	}
	wg.Wait()
}

func c17plan(r *Rep, g *rand.Rand, i int) c17cfg {
	cfg := c17cfg{Seed: g.Int63n(1 << 40), Noise: 1 + g.Intn(2), Tmp: *flagTmp, Users: 1 + g.Intn(4)}
	b := func(p int) bool { return g.Intn(100) < p }
	cfg.TLS = b(15)
	cfg.Pool = b(70)
	cfg.Broadcast = b(60)
	if b(60) {
		cfg.HB = 5 + g.Intn(60)
		cfg.HBThrough = b(40)
		cfg.Rewrite = b(30)
		cfg.HBLoss = b(60)
	}
	if b(50) {
		cfg.Auth = 20 + g.Intn(200)
		cfg.AuthThru = b(50)
	}
	cfg.OnMessage = b(15)
	cfg.Silent = b(50)
	if b(60) {
		cfg.Cycle = 10 + g.Intn(150)
	}
	if b(40) {
		cfg.MaxByte = 4000
	}
	cfg.Deadline = b(30)
	kinds := []string{"tcp", "unix", "udp", "raw:tcp", "tcp"}
	if i%len(kinds) != 2 { // one kind of door is enough now and then: nothing else orders its goroutines
		cfg.Doors = append(cfg.Doors, c17door("tcp"))
	}
	if b(60) || len(cfg.Doors) == 0 {
		cfg.Doors = append(cfg.Doors, c17door(kinds[i%len(kinds)]))
	}
	if b(30) {
		cfg.Doors = append(cfg.Doors, c17door(kinds[g.Intn(len(kinds))]))
	}
	return cfg
}

func c17door(kind string) [2]string {
	if kind == "unix" {
		return [2]string{kind, sockPath()}
	}
	return [2]string{kind, nextAddr()}
}

func c17drive(r *Rep, cfg c17cfg, g *rand.Rand) {
	cmd := exec.Command("/proc/self/exe")
	js, _ := json.Marshal(cfg)
	cmd.Env = append(os.Environ(), "TCPXVERIF_CHILD=c17", "C17_CFG="+string(js))
	cmd.Dir = *flagTmp
	in, _ := cmd.StdinPipe()
	outp, _ := cmd.StdoutPipe()
	var errb lockedBuf
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		r.HarnessError("child: %v", err)
	}
	sc := bufio.NewScanner(outp)
	if !sc.Scan() || sc.Text() != "READY" {
		cmd.Wait()
		r.c17crash(cfg, &errb, "before serving")
	}
	dur := 1500 * time.Millisecond
	stopAt := time.Now().Add(dur)
	var msgs, conns int64
	var wg sync.WaitGroup
	for k := 0; k < 10; k++ {
		h := rand.New(rand.NewSource(g.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(stopAt) {
				d := cfg.Doors[h.Intn(len(cfg.Doors))]
				nw := strings.TrimPrefix(d[0], "raw:")
				c, err := (&net.Dialer{Timeout: 5 * time.Second}).Dial(nw, d[1])
				if err != nil {
					time.Sleep(5 * time.Millisecond)
					continue
				}
				atomic.AddInt64(&conns, 1)
				c17client(cfg, c, d[0], h, stopAt, &msgs)
			}
		}()
	}
	wg.Wait()
	in.Close()
	var calls, sites, adj, cycles int64
	done := false
	for sc.Scan() {
		if n, _ := fmt.Sscanf(sc.Text(), "DONE %d %d %d %d", &cycles, &calls, &sites, &adj); n == 4 {
			done = true
		}
	}
	ended := make(chan struct{})
	go func() { cmd.Wait(); close(ended) }()
	if !waitCh(longWait*2, ended) {
		cmd.Process.Kill()
		r.HarnessError("server process does not end")
	}
	if !done {
		r.c17crash(cfg, &errb, "while serving")
	}
	r.Case(cfg.key())
	r.Count("messages_sent", atomic.LoadInt64(&msgs))
	r.Count("connections", atomic.LoadInt64(&conns))
	r.Count("stop_start_cycles", cycles)
	r.Count("server_statement_events", calls)
	r.Count("server_site_adjacencies_seen", adj)
	r.mu.Lock()
	if sites > r.counters["server_statement_sites_reached_max"] {
		r.counters["server_statement_sites_reached_max"] = sites
	}
	r.mu.Unlock()
	r.Sample(map[string]interface{}{"config": cfg.key(), "messages": msgs, "connections": conns, "cycles": cycles})
}

// c17crash passes the child's crash on; the driver attributes it.
func (r *Rep) c17crash(cfg c17cfg, b *lockedBuf, when string) {
	exitOnce.Lock()
	fmt.Fprintf(os.Stderr, "server process ended %s (%s)\n%s\n", when, cfg.key(), b.String())
	cleanupAll()
	os.Exit(2)
}

func c17client(cfg c17cfg, c net.Conn, door string, g *rand.Rand, stopAt time.Time, msgs *int64) {
	defer c.Close()
	if cfg.TLS && (door == "tcp" || door == "unix") {
		c = tls.Client(c, &tls.Config{InsecureSkipVerify: true})
	}
	go io.Copy(io.Discard, c)
	c.SetWriteDeadline(time.Now().Add(5 * time.Second))
	send := func(b []byte) bool {
		atomic.AddInt64(msgs, 1)
		_, err := c.Write(b)
		return err == nil
	}
	hb := int32(tcpx.DEFAULT_HEARTBEAT_MESSAGEID)
	if cfg.HBThrough {
		hb = c17hb
	}
	if cfg.Rewrite {
		hb = c17hb + 1
	}
	n := 1 + g.Intn(60)
	for i := 0; i < n && time.Now().Before(stopAt); i++ {
		body := jsonOf(c17body{g.Int63n(1 << 40), "x"})
		ok := true
		if strings.HasPrefix(door, "raw:") {
			ok = send(randBytes(g, 1+g.Intn(100)))
			goto pause
		}
		switch g.Intn(14) {
		case 0, 1:
			ok = send(frame(hb, nil, nil))
		case 2:
			ok = send(frame(c17auth, nil, body))
		case 3:
			ok = send(frame(0, jsonOf(map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": fmt.Sprintf("/p/%d/", g.Intn(3))}), body))
		case 4:
			if door != "udp" {
				args := []interface{}{}
				for k := 1 + g.Intn(4); k > 0; k-- {
					args = append(args, g.Intn(c17ids), c17body{g.Int63n(1 << 40), "pipe"})
				}
				ok = tcpx.PipeJSON(c, args...) == nil
			}
		case 5:
			ok = send(frame(99, nil, body)) // nobody's
		case 6:
			if g.Intn(6) == 0 {
				ok = send(randBytes(g, g.Intn(40)))
			}
		case 7:
			if g.Intn(6) == 0 {
				ok = send(frame(1, nil, make([]byte, 5000)))
			}
		default:
			ok = send(frame(g.Int31n(c17ids), []byte(`{"a":"b"}`), body))
		}
		c17shared(g)
	pause:
		if !ok {
			break
		}
		if g.Intn(3) == 0 {
			time.Sleep(time.Duration(g.Intn(4000)) * time.Microsecond)
		}
	}
	if g.Intn(2) == 0 {
		time.Sleep(time.Duration(g.Intn(60)) * time.Millisecond)
	}
	if t, ok := rawOf(c).(*net.TCPConn); ok && g.Intn(3) == 0 {
		t.SetLinger(0)
	}
}

type lockedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 1<<20 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return string(l.b) }
