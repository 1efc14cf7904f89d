package main

import (
	"bufio"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx"

	"tcpxverif/noise"
)

func init() {
	props["C23"] = c23
	children["c23"] = c23child
}

// c23child is the process that is going to be signalled. Its plan comes in the environment,
// what its hooks do goes to the log file.
func c23child() {
	log.SetOutput(io.Discard)
	env := func(k string) string { return os.Getenv("C23_" + k) }
	num := func(k string) int { n, _ := strconv.Atoi(env(k)); return n }
	tcpx.SetLogMode(tcpx.RELEASE)
	noise.Enable(int64(num("SEED")), num("NOISE"))
	out, err := os.OpenFile(env("LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600)
	if err != nil {
		os.Exit(77)
	}
	note := func(f string, a ...interface{}) { fmt.Fprintf(out, f+"\n", a...) }
	gate := make(chan struct{})
	go func() {
		io.Copy(io.Discard, os.Stdin) // the parent opens the gate by closing stdin
		close(gate)
	}()
	x := tcpx.NewTcpX(nil)
	addEcho(x)
	var hooks []func()
	n := num("HOOKS")
	for i := 0; i < n; i++ {
		i := i
		hooks = append(hooks, func() {
			note("s%d", i)
			if env("GATE") == strconv.Itoa(i) {
				<-gate
			}
			time.Sleep(time.Duration(num("SLEEP")) * time.Millisecond)
			if env("STOP") == strconv.Itoa(i) {
				err := x.Stop(i%2 == 0)
				note("stop%d %v", i, err)
			}
			note("e%d", i)
		})
	}
	serve := func() {
		go func() {
			x.ListenAndServe(env("NET"), env("ADDR"))
			note("returned")
			select {} // the process ends only by its signal
		}()
		for x.State() != tcpx.STATE_RUNNING {
			time.Sleep(100 * time.Microsecond)
		}
	}
	switch env("ORDER") {
	case "hooks-first":
		x.BeforeExit(hooks...)
		serve()
	case "early": // the signal comes before anything else can happen
		x.BeforeExit(hooks...)
		syscall.Kill(os.Getpid(), syscall.Signal(num("SIG")))
		select {}
	case "early-serving":
		serve()
		x.BeforeExit(hooks...)
		syscall.Kill(os.Getpid(), syscall.Signal(num("SIG")))
		select {}
	default:
		serve()
		x.BeforeExit(hooks...)
	}
	fmt.Println("READY")
	select {}
}

type c23plan struct {
	sig     syscall.Signal
	again   syscall.Signal // second signal while hooks run, 0 for none
	hooks   int
	gate    int // hook that waits for the parent, -1 for none
	stop    int // hook that stops the server, -1 for none
	sleep   int
	order   string
	network string
	traffic bool
}

func (p c23plan) String() string {
	return fmt.Sprintf("%v/again%v/hooks%d/gate%d/stop%d/%s/%s/traffic%v", p.sig, p.again, p.hooks, p.gate, p.stop, p.order, p.network, p.traffic)
}

func c23(r *Rep) {
	r.Rule("one case = one child process signalled while serving (or right after BeforeExit returned); its hook log, exit status and service up to the last hook are judged; distinct by signal, second signal, hooks, order of registration, transport and traffic")
	g := r.Sub(1)
	n := r.N(600)
	sem := make(chan int, 6)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		p := c23plan{sig: []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT}[i%3], hooks: g.Intn(6), gate: -1, stop: -1,
			order: []string{"serve-first", "hooks-first", "early", "serve-first", "early-serving", "hooks-first"}[g.Intn(6)], network: []string{"tcp", "udp", "unix"}[g.Intn(3)], traffic: g.Intn(2) == 0}
		if i%10 == 9 {
			p.hooks = 40
		}
		if p.hooks > 0 && strings.HasSuffix(p.order, "first") {
			p.gate = g.Intn(p.hooks)
			if g.Intn(3) == 0 {
				p.stop = g.Intn(p.hooks)
			}
			if g.Intn(3) == 0 {
				p.again = []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT}[g.Intn(3)]
			}
		}
		p.sleep = g.Intn(3)
		sem <- 1
		wg.Add(1)
		go func(i int, p c23plan, g *rand.Rand) {
			defer wg.Done()
			defer func() { <-sem }()
			c23run(r, g, p, i)
		}(i, p, rand.New(rand.NewSource(g.Int63())))
	}
	wg.Wait()
}

func c23run(r *Rep, g *rand.Rand, p c23plan, i int) {
	r.Step(p.String())
	lf := filepath.Join(*flagTmp, fmt.Sprintf("hooks%d-%d.log", i, r.Seed))
	addr := nextAddr()
	if p.network == "unix" {
		addr = sockPath()
	}
	self, err := os.Executable()
	if err != nil {
		r.HarnessError("executable: %v", err)
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "TCPXVERIF_CHILD=c23", "GORACE=", "C23_LOG="+lf, "C23_ADDR="+addr, "C23_NET="+p.network, "C23_ORDER="+p.order,
		fmt.Sprintf("C23_HOOKS=%d", p.hooks), fmt.Sprintf("C23_GATE=%d", p.gate), fmt.Sprintf("C23_STOP=%d", p.stop), fmt.Sprintf("C23_SLEEP=%d", p.sleep),
		fmt.Sprintf("C23_SIG=%d", int(p.sig)), fmt.Sprintf("C23_SEED=%d", r.Seed+int64(i)), fmt.Sprintf("C23_NOISE=%d", *flagNoise))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, _ := cmd.StdinPipe()
	stdout, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		r.HarnessError("child: %v", err)
	}
	ready := make(chan struct{})
	eof := make(chan struct{})
	go func() {
		sc := bufio.NewScanner(stdout)
		for sc.Scan() {
			if sc.Text() == "READY" {
				close(ready)
			}
		}
		close(eof)
	}()
	exited := make(chan struct{})
	var werr error
	go func() { <-eof; werr = cmd.Wait(); close(exited) }()
	kill := func() { cmd.Process.Kill(); waitCh(longWait, exited); os.Remove(lf) }
	lines := func() []string {
		b, _ := os.ReadFile(lf)
		return strings.Fields(strings.ReplaceAll(string(b), " ", "_"))
	}
	bad := func(f string, a ...interface{}) {
		kill()
		r.Violation("%v: %s", p, fmt.Sprintf(f, a...))
	}
	early := strings.HasPrefix(p.order, "early")
	var stopTraffic int32
	var answered int64
	var tw sync.WaitGroup
	if !early {
		if !until(longWait, func() bool { return isClosed(ready) || isClosed(exited) }) || isClosed(exited) {
			b, _ := os.ReadFile(lf)
			kill()
			r.HarnessError("child %v did not get ready: %s", p, b)
		}
		kept := r.dial(p.network, addr)
		defer kept.Close()
		askAgain := func() error {
			if p.network == "udp" {
				return udpPing(kept)
			}
			return ping(kept)
		}
		if err := askAgain(); err != nil {
			bad("the server does not serve after BeforeExit was called: %v", err)
		}
		if p.traffic {
			for w := 0; w < 2; w++ {
				tw.Add(1)
				go func() {
					defer tw.Done()
					c, err := dialFrom(p.network, addr)
					if err != nil {
						return
					}
					defer c.Close()
					b := make([]byte, 1000)
					for atomic.LoadInt32(&stopTraffic) == 0 {
						if _, err := c.Write(frame(echoID, nil, []byte("t"))); err != nil {
							return
						}
						c.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
						if n, _ := c.Read(b); n > 0 {
							atomic.AddInt64(&answered, 1)
						}
					}
				}()
			}
		}
		if g.Intn(2) == 0 {
			time.Sleep(time.Duration(g.Intn(10)) * time.Millisecond)
		}
		for _, l := range lines() {
			bad("a hook ran although no signal came: %q", l)
		}
		if isClosed(exited) {
			bad("the process ended although no signal came: %v", werr)
		}
		cmd.Process.Signal(p.sig)
		if p.gate >= 0 {
			// parked in its hook: the server still serves, old connection and new
			if !until(longWait, func() bool {
				for _, l := range lines() {
					if l == fmt.Sprintf("s%d", p.gate) {
						return true
					}
				}
				return isClosed(exited)
			}) {
				bad("hook %d does not start after the signal (log %v)", p.gate, lines())
			}
			if isClosed(exited) {
				bad("the process ended (%v) before hook %d was done (log %v)", werr, p.gate, lines())
			}
			if p.stop < 0 || p.stop >= p.gate {
				if err := askAgain(); err != nil {
					bad("the server does not serve any more while hook %d runs: %v", p.gate, err)
				}
				if p.network != "udp" {
					c := r.dial(p.network, addr)
					if err := ping(c); err != nil {
						bad("a new connection is not served while hook %d runs: %v", p.gate, err)
					}
					c.Close()
				}
				r.Count("served_during_hooks", 1)
			}
			if p.again != 0 {
				for k := 0; k < 3; k++ {
					cmd.Process.Signal(p.again)
					time.Sleep(time.Millisecond)
				}
			}
			if i%30 == 7 || i%30 == 15 { // hooks have all the time they need
				time.Sleep(time.Duration(2500+1500*(i%2)) * time.Millisecond)
				r.Count("long_hooks", 1)
			}
			if isClosed(exited) {
				bad("the process ended (%v) while hook %d was running", werr, p.gate)
			}
		}
	}
	in.Close()
	if !waitCh(longWait, exited) {
		bad("the process does not exit after its hooks (log %v)", lines())
	}
	atomic.StoreInt32(&stopTraffic, 1)
	tw.Wait()
	st := cmd.ProcessState
	got := []string{}
	for _, l := range lines() {
		if l == "returned" {
			continue
		}
		if strings.HasPrefix(l, "stop") {
			if !strings.HasSuffix(l, "<nil>") {
				bad("Stop called in a hook failed: %s", l)
			}
			continue
		}
		got = append(got, l)
	}
	var want []string
	for k := 0; k < p.hooks; k++ {
		want = append(want, fmt.Sprintf("s%d", k), fmt.Sprintf("e%d", k))
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		bad("the hooks ran as [%s], not [%s] (%v)", strings.Join(got, " "), strings.Join(want, " "), st)
	}
	if st == nil || !st.Exited() || st.ExitCode() != 0 {
		bad("the process ended with %v, not with status 0", st)
	}
	os.Remove(lf)
	r.Case(p.String())
	r.Count("hooks_observed", int64(p.hooks))
	r.Sample(map[string]interface{}{"plan": p.String(), "log": strings.Join(got, " "), "status": fmt.Sprint(st), "answered_meanwhile": answered})
}
