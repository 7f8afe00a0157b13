package syscall

import "unsafe"

//go:wasmimport verif getenv
//go:noescape
func verif_getenv(key unsafe.Pointer, n uint32, buf unsafe.Pointer, size uint32) int32

// verifGetenv asks the simulator about an environment variable nobody set.
func verifGetenv(key string) (string, bool) {
	k := append([]byte(key), 0)
	var buf [64]byte
	n := verif_getenv(unsafe.Pointer(&k[0]), uint32(len(key)), unsafe.Pointer(&buf[0]), uint32(len(buf)))
	if n < 0 {
		return "", false
	}
	return string(buf[:n]), true
}
