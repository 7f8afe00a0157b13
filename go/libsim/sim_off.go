//go:build go1.22 && !verifsim

package main

import "runtime"

func verifSched(on bool)   { runtime.VerifSched(on) }
func verifMem(on bool)     {}
func verifLimit(n uint64)  {}
func verifGoroutines() int { return runtime.VerifNumGoroutine() }
func emitStats()           {}
