//go:build wasip1

// Simulation seam: listening sockets come from the host, which also accepts,
// reads and writes connections.  Added to package net through a build overlay.

package net

import (
	"os"
	"runtime"
	"syscall"
	"time"
	"unsafe"
)

//go:wasmimport verif sock_listen
//go:noescape
func verif_sock_listen(p unsafe.Pointer, n uint32) int32

//go:wasmimport verif sock_peer
func verif_sock_peer(fd int32) int64

//go:wasmimport verif sock_port
func verif_sock_port(fd int32) int32

func verifListen(net string, family int, laddr sockaddr) (*netFD, error) {
	name := net + " " + laddr.String()
	b := []byte(name)
	n := verif_sock_listen(unsafe.Pointer(&b[0]), uint32(len(b)))
	if n < 0 {
		return nil, os.NewSyscallError("bind", syscall.Errno(-n))
	}
	fd := newFD("tcp", int(n))
	fd.family, fd.sotype = family, syscall.SOCK_STREAM
	if err := fd.init(); err != nil {
		fd.Close()
		return nil, err
	}
	if a, ok := laddr.(*TCPAddr); ok {
		fd.laddr = &TCPAddr{IP: a.IP, Port: int(verif_sock_port(n)), Zone: a.Zone}
	} else {
		fd.laddr = laddr
	}
	return fd, nil
}

// verifPeer gives an accepted connection the addresses a real one has.
func verifPeer(l, fd *netFD) {
	v := verif_sock_peer(int32(fd.pfd.Sysfd))
	fd.laddr = l.laddr
	fd.raddr = &TCPAddr{IP: IPv4(byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16)).To4(), Port: int(v & 0xffff)}
}

//go:wasmimport verif account
func verif_account(heap, objects, goroutines int64) int64

// Where the simulator wants to know what the process holds, a goroutine tells
// it after forced collections, whenever it is asked to.
func init() {
	d := verif_account(-1, 0, 0)
	if d < 0 {
		return
	}
	go func() {
		var m runtime.MemStats
		for d >= 0 {
			time.Sleep(time.Duration(d))
			for i := 0; i < 3; i++ {
				runtime.GC()
			}
			runtime.ReadMemStats(&m)
			d = verif_account(int64(m.HeapAlloc), int64(m.HeapObjects), int64(runtime.NumGoroutine()))
		}
	}()
}
