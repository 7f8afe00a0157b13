//go:build go1.22 && verifsim

package main

import (
	"runtime"
	"strconv"
)

var (
	ordered uint64
	stillOn bool
)

func verifSched(on bool) { runtime.VerifSched(on) }
func verifMem(on bool) {
	if on {
		runtime.VerifHB(true)
		runtime.VerifMem(true)
		return
	}
	runtime.VerifMem(false)
	ordered, stillOn = runtime.VerifHBStats()
	runtime.VerifHB(false)
}
func verifLimit(n uint64)  { runtime.VerifLimit(n) }
func verifGoroutines() int { return runtime.VerifNumGoroutine() }
func emitStats() {
	if ordered > 0 && !stillOn {
		emit("detector-off")
	}
	a, b, c := runtime.VerifMemStats()
	emit("stats " + strconv.FormatUint(a, 10) + " " + strconv.FormatUint(b, 10) + " " + strconv.FormatUint(c, 10) + " " + strconv.FormatUint(ordered, 10))
}
