// Command tcpxverif runs the workload and monitors of one property against package tcpx.
package main

import (
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"sort"
	"time"

	"github.com/fwhezfwhez/tcpx"

	"tcpxverif/noise"
)

var props = map[string]func(*Rep){}
var children = map[string]func(){}

var (
	flagProp  = flag.String("prop", "", "property id")
	flagSeed  = flag.Int64("seed", 1, "seed")
	flagTier  = flag.String("tier", "quick", "quick or thorough")
	flagOut   = flag.String("out", "", "result file")
	flagNoise = flag.Int("noise", 1, "noise level")
	flagPart  = flag.String("part", "", "part of the workload (race, ...)")
	flagTmp   = flag.String("tmp", "", "scratch directory")
	flagShift = flag.Int64("seedshift", 0, "added to the seed")
)

var race = false

func main() {
	if c := os.Getenv("TCPXVERIF_CHILD"); c != "" {
		children[c]()
		return
	}
	flag.Parse()
	log.SetOutput(io.Discard)
	tcpx.SetLogMode(tcpx.RELEASE)
	f, ok := props[*flagProp]
	if !ok {
		var l []string
		for k := range props {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Fprintln(os.Stderr, "unknown property; have", l)
		os.Exit(3)
	}
	if *flagTmp == "" {
		d, err := os.MkdirTemp("", "tcpxverif")
		if err != nil {
			panic(err)
		}
		*flagTmp = d
		defer os.RemoveAll(d)
	}
	*flagSeed += *flagShift * 1000
	noise.Enable(*flagSeed, *flagNoise)
	startTicks()
	r := newRep(*flagProp, *flagSeed, *flagTier)
	t0 := time.Now()
	go r.watchProgress()
	f(r)
	r.wall = time.Since(t0)
	r.finish()
}
