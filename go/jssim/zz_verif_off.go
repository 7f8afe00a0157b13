//go:build wasmjs && go1.22 && !verifsim

package main

import "runtime"

func verifSched(on bool) { runtime.VerifSched(on) }
func verifMem(on bool)   {}
