//go:build wasmjs && go1.22

// Laid over the JavaScript program at build time for the simulation only: lets
// the host ask for collections, count what is held, and switch host control of
// scheduling on.
package main

import (
	"runtime"
	"syscall/js"
)

func init() {
	js.Global().Set("__verif", js.FuncOf(func(this js.Value, args []js.Value) any {
		switch args[0].String() {
		case "on":
			verifSched(true)
			verifMem(args[1].Bool())
		case "off":
			verifMem(false)
			verifSched(false)
		case "gc":
			runtime.GC()
		case "held":
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			return js.ValueOf([]any{float64(ms.HeapAlloc), float64(ms.HeapObjects), runtime.VerifNumGoroutine()})
		}
		return nil
	}))
}
