// Package noise is the run-time half of tools/instrument: every statement of
// package tcpx calls Y with its site number. It counts sites and adjacent
// site pairs and, when enabled, perturbs the schedule. It deliberately uses no
// synchronisation so that it adds no happens-before edges.
package noise

import (
	"runtime"
	"time"
)

const maxSites = 1 << 13
const pairBits = 18

var (
	level uint32 // 0 off, 1 light, 2 heavy
	state uint64 = 88172645463325252
	last  uint32
	hits  [maxSites]uint32
	pairs [1 << pairBits]uint8
	total uint64
	slept uint64
)

//go:norace
func Enable(seed int64, lv int) {
	state = uint64(seed)*0x9E3779B97F4A7C15 | 1
	level = uint32(lv)
}

//go:norace
func SetLevel(lv int) { level = uint32(lv) }

//go:norace
func Y(site int) {
	if site >= maxSites {
		return
	}
	hits[site]++
	total++
	h := (last*2654435761 ^ uint32(site)*40503) & (1<<pairBits - 1)
	pairs[h] = 1
	last = uint32(site)
	lv := level
	if lv == 0 {
		return
	}
	x := state
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	state = x
	r := uint32(x >> 33)
	if lv == 1 {
		if r&0x3f == 0 {
			runtime.Gosched()
		}
		if r&0xfff == 1 {
			slept++
			time.Sleep(time.Duration(r>>20) * time.Microsecond / 16)
		}
		return
	}
	if r&0x7 == 0 {
		runtime.Gosched()
	}
	if r&0x7f == 1 {
		slept++
		time.Sleep(time.Duration(r>>20) * time.Microsecond / 4)
	}
}

// Stats returns calls, distinct sites, distinct adjacent pairs, injected sleeps.
//
//go:norace
func Stats() (calls uint64, sites, adj int, sleeps uint64) {
	for i := range hits {
		if hits[i] != 0 {
			sites++
		}
	}
	for i := range pairs {
		if pairs[i] != 0 {
			adj++
		}
	}
	return total, sites, adj, slept
}
