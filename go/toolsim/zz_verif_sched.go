//go:build !verifsim

package main

import "runtime"

func init() { runtime.VerifSched(true) }
