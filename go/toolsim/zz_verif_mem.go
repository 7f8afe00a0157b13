//go:build verifsim

package main

import "runtime"

func init() {
	runtime.VerifSched(true)
	runtime.VerifLimit(50_000_000)
	runtime.VerifHB(true)
	runtime.VerifMem(true)
}
