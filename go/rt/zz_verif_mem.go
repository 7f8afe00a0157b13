//go:build wasm

// Simulation seam: every heap memory access of instrumented packages comes
// through verifMem, which may preempt the goroutine there (host decision) and
// reports data races: two goroutines both about to touch the same memory, one
// of them writing, and (with VerifHB) two such accesses that no
// synchronisation orders, however far apart they happen (zz_verif_hb.go).

package runtime

import (
	"internal/abi"
	"internal/runtime/sys"
	"unsafe"
)

const verifRaceHooks = true

//go:wasmimport verif preempt
func verif_preempt(kind uint32) uint32

//go:wasmimport verif race
func verif_race(write uint32, owrite uint32, gid uint32, ogid uint32)

//go:wasmimport verif limit
func verif_limit(n uint32)

//go:wasmimport verif frame
func verif_frame(who uint32, p unsafe.Pointer, n uint32, line uint32)

type verifWindow struct {
	lo, hi uintptr
	gid    uint64
	npc    int
	write  bool
	atomic bool
	used   bool
	pcs    [24]uintptr
}

type verifHeatEnt struct {
	key     uintptr
	gid     uint32
	written bool
}

const verifNWin = 64
const verifNHeat = 8192

var (
	verifMemOn   bool
	verifLimit   uint64 = 1 << 62
	verifWins    [verifNWin]verifWindow
	verifWinLive int
	verifHeat    [verifNHeat]verifHeatEnt
	verifSkip    uint32 // plain accesses until the next preemption
	verifHotSkip uint32 // accesses to contended memory until the next preemption
	verifNAccess uint64
	verifNHot    uint64
	verifNSwitch uint64
)

// VerifMem switches memory-access interleaving on or off.
func VerifMem(on bool) {
	if on {
		verifSkip = verif_preempt(0)
		verifHotSkip = verif_preempt(1)
	}
	verifMemOn = on
}

// VerifLimit bounds the accesses of a run (livelock detection).
func VerifLimit(n uint64) { verifLimit = verifNAccess + n }

// VerifMemStats returns accesses seen, accesses to contended memory, and
// preemptions taken.
func VerifMemStats() (uint64, uint64, uint64) { return verifNAccess, verifNHot, verifNSwitch }

func racereadrange(addr, size uintptr) {
	if verifMemOn {
		verifMem(addr, size, 0, sys.GetCallerPC())
	}
}
func racewriterange(addr, size uintptr) {
	if verifMemOn {
		verifMem(addr, size, verifWrite, sys.GetCallerPC())
	}
}
func raceread(addr uintptr) {
	if verifMemOn {
		verifMem(addr, 1, 0, sys.GetCallerPC())
	}
}
func racewrite(addr uintptr) {
	if verifMemOn {
		verifMem(addr, 1, verifWrite, sys.GetCallerPC())
	}
}
func racefuncenter(callpc uintptr) {}
func racefuncexit()                {}

const (
	verifWrite  = 1
	verifAtom   = 2
	verifAtomRd = verifAtom
	verifAtomWr = verifAtom | verifWrite
)

// accesses made by the standard library on a caller's behalf (maps, slices)
//
//go:linkname verifAccess internal/race.verifAccess
func verifAccess(addr unsafe.Pointer, size, write, pc uintptr) {
	if verifMemOn {
		verifMem(uintptr(addr), size, int(write&1), pc)
	}
}

// every operation of sync/atomic, just before it happens
//
//go:linkname verifAtomic
func verifAtomic(addr unsafe.Pointer, size uintptr, kind int) {
	if !verifMemOn {
		return
	}
	verifMem(uintptr(addr), size, verifAtom|kind&1, sys.GetCallerPC())
	if verifHB {
		gp := getg()
		if kind != 1 {
			verifAcquire(gp, addr)
		}
		if kind != 0 {
			verifRelease(gp, addr)
		}
	}
}

func racereadpc(addr unsafe.Pointer, callerpc, pc uintptr)  { verifAccess(addr, 1, 0, callerpc) }
func racewritepc(addr unsafe.Pointer, callerpc, pc uintptr) { verifAccess(addr, 1, 1, callerpc) }
func racereadrangepc(addr unsafe.Pointer, sz, callerpc, pc uintptr) {
	verifAccess(addr, sz, 0, callerpc)
}
func racewriterangepc(addr unsafe.Pointer, sz, callerpc, pc uintptr) {
	verifAccess(addr, sz, 1, callerpc)
}
func raceReadObjectPC(t *_type, addr unsafe.Pointer, callerpc, pc uintptr) {
	verifAccess(addr, t.Size_, 0, callerpc)
}
func raceWriteObjectPC(t *_type, addr unsafe.Pointer, callerpc, pc uintptr) {
	verifAccess(addr, t.Size_, 1, callerpc)
}

func verifMem(addr, size uintptr, kind int, pc uintptr) {
	write := kind&verifWrite != 0
	gp := getg()
	mp := gp.m
	if gp == mp.g0 || mp.curg != gp || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" || mp.dying != 0 || size == 0 || gp.raceignore != 0 {
		return
	}
	if gp.stack.lo <= addr && addr < gp.stack.hi {
		return // own stack: private
	}
	verifNAccess++
	if verifNAccess > verifLimit {
		verif_limit(uint32(verifLimit))
	}
	if verifWinLive != 0 {
		for i := range verifWins {
			w := &verifWins[i]
			if w.used && w.gid != gp.goid && addr < w.hi && w.lo < addr+size && (write || w.write) && !(w.atomic && kind&verifAtom != 0) {
				verifReport(w, write)
			}
		}
	}
	key := addr >> 2
	e := &verifHeat[(key*2654435761>>7)%verifNHeat]
	hot := false
	gid := uint32(gp.goid)
	if e.key == key {
		if e.gid != gid && (write || e.written) {
			hot = true
		}
		e.gid = gid
		e.written = e.written || write
	} else {
		e.key, e.gid, e.written = key, gid, write
	}
	if hot {
		verifNHot++
		if verifHotSkip > 0 {
			verifHotSkip--
		} else {
			verifHotSkip = verif_preempt(1)
			verifSwitch(gp, addr, size, kind)
		}
	} else if verifSkip > 0 {
		verifSkip--
	} else {
		verifSkip = verif_preempt(0)
		verifSwitch(gp, addr, size, kind)
	}
	if verifHB {
		verifHBAccess(gp, addr, size, kind, pc)
	}
}

// verifSwitch lets another goroutine run while this one is about to perform
// the access described.
func verifSwitch(gp *g, addr, size uintptr, kind int) {
	verifNSwitch++
	slot := -1
	for i := range verifWins {
		if !verifWins[i].used {
			slot = i
			break
		}
	}
	if slot >= 0 {
		w := &verifWins[slot]
		w.lo, w.hi, w.gid, w.write, w.atomic, w.used = addr, addr+size, gp.goid, kind&verifWrite != 0, kind&verifAtom != 0, true
		w.npc = callers(2, w.pcs[:])
		verifWinLive++
	}
	mcall(gosched_m)
	if slot >= 0 {
		verifWins[slot].used = false
		verifWinLive--
	}
}

func verifReport(w *verifWindow, write bool) {
	verifMemOn = false
	var pcs [24]uintptr
	n := callers(2, pcs[:])
	verifFrames(0, pcs[:n])
	verifFrames(1, w.pcs[:w.npc])
	verif_race(verifB(write), verifB(w.write), uint32(getg().goid), uint32(w.gid))
}

func verifB(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func verifFrames(who uint32, pcs []uintptr) {
	for _, pc := range pcs {
		f := findfunc(pc)
		if !f.valid() {
			continue
		}
		u, uf := newInlineUnwinder(f, pc-1)
		for ; uf.valid(); uf = u.next(uf) {
			name := u.srcFunc(uf).name()
			_, line := u.fileLine(uf)
			if len(name) > 0 {
				verif_frame(who, unsafe.Pointer(unsafe.StringData(name)), uint32(len(name)), uint32(line))
			}
		}
	}
	_ = abi.FuncIDNormal
}
