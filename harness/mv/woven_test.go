//go:build woven

package mv

import (
	"math/bits"
	"math/rand/v2"
	"runtime"
	"syscall"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
)

// In this build (see weave) the library calls hold in front of every statement. It lets other goroutines run, or
// sleeps in the operating system (so that the virtual clock and the decision of quiescence know nothing of it), now and
// then: often where the library seldom comes by, seldom where it does often. Nothing here is synchronised, on
// purpose: a lock or an atomic would order what the library left unordered, and hide it from the race detector.
func init() {
	mavlink2.VerifWeave = hold
	util.VerifWeave = hold
	held = func() map[string]int {
		sites := 0
		for _, n := range siteHits {
			if n > 0 {
				sites++
			}
		}
		return map[string]int{"weave_sites_passed": sites, "weave_turns_given": int(turns), "weave_sleeps": int(sleeps)}
	}
}

var (
	siteHits      [1 << 14]uint32
	turns, sleeps uint32
	lastSleep     int64
)

//go:norace
func hold(site int) {
	n := &siteHits[site%len(siteHits)]
	*n++
	x := rand.Uint64()
	if x&(8<<(bits.Len32(*n>>10)/2)-1) != 0 {
		return
	}
	x >>= 32
	if x&3 == 0 {
		// real time, but not more than a quarter of it
		var tv syscall.Timeval // (time.Now may be the virtual one)
		syscall.Gettimeofday(&tv)
		if now := tv.Nano(); now-lastSleep > 400_000 || now < lastSleep {
			lastSleep = now
			sleeps++
			ts := syscall.NsecToTimespec(int64(1000 << (x >> 2 & 7)))
			syscall.Nanosleep(&ts, nil)
			return
		}
	}
	turns++
	for range 1 + x>>2&7 {
		runtime.Gosched()
	}
}
