//go:build wasm

// Happens-before data race detection (vector clocks, in the manner of the Go
// race detector): every access of instrumented code is compared with the last
// accesses of the same memory; two accesses by different goroutines, one of
// them writing, that no chain of synchronisation orders are a data race.
//
// It must never report an ordered pair.  So whatever cannot be tracked exactly
// is taken as ordered: work done on system stacks synchronises with everything,
// releases merge, goroutines beyond the table are not watched, memory is
// forgotten at every garbage collection (addresses are reused only after one),
// and the detector switches itself off when its table of synchronisation
// objects is full.

package runtime

import "unsafe"

const (
	verifNSlot = 64
	verifNSync = 4096 // power of two
	verifNGran = 1 << 14
	verifNCell = 4
)

type verifClock [verifNSlot]uint32

type verifSyncEnt struct {
	addr uintptr
	vc   verifClock
}

type verifCell struct {
	clk  uint32
	pc   uint32
	gid  uint32
	slot uint8
	mask uint8
	kind uint8
}

type verifGran struct {
	key   uint32
	epoch uint32
	next  uint8
	cells [verifNCell]verifCell
}

var (
	verifHB       bool
	verifHBEpoch  uintptr // of goroutine slots: one per VerifHB(true)
	verifShadowEp uint32  // of the shadow: also one per garbage collection
	verifVC       [verifNSlot]verifClock
	verifUsed     [verifNSlot]bool
	verifSync     [verifNSync]verifSyncEnt
	verifSyncN    int
	verifShadow   [verifNGran]verifGran
	verifNChecked uint64
)

// VerifHB switches happens-before tracking on (forgetting everything) or off.
func VerifHB(on bool) {
	verifHB = false
	if !on {
		return
	}
	verifHBEpoch++
	verifShadowEp++
	if verifSyncN > 0 {
		verifSync = [verifNSync]verifSyncEnt{}
		verifSyncN = 0
	}
	for i := range verifUsed {
		verifUsed[i] = false
	}
	verifHB = true
}

// VerifHBStats returns accesses compared, and whether tracking is still on.
func VerifHBStats() (uint64, bool) { return verifNChecked, verifHB }

// called with the world stopped at the end of each collection's marking
func verifGCDone() { verifShadowEp++ }

func verifSlotNew(gp *g) int {
	for s := range verifUsed {
		if !verifUsed[s] {
			verifUsed[s] = true
			c := verifVC[s][s] + 1
			verifVC[s] = verifClock{}
			verifVC[s][s] = c
			gp.racectx = verifHBEpoch<<8 | uintptr(s+1)
			return s
		}
	}
	gp.racectx = verifHBEpoch << 8
	return -1
}

func verifSlot(gp *g) int {
	if gp == nil || gp.m != nil && (gp == gp.m.g0 || gp == gp.m.gsignal) {
		return -1
	}
	if gp.racectx>>8 == verifHBEpoch {
		return int(gp.racectx&255) - 1
	}
	return verifSlotNew(gp)
}

// verifGoStart is called for each new goroutine.
func verifGoStart(parent, gp *g) {
	gp.racectx = 0
	gp.raceignore = 0
	if !verifHB {
		return
	}
	ps := verifSlot(parent)
	s := verifSlotNew(gp)
	if s < 0 {
		return
	}
	verifJoinFrom(&verifVC[s], ps)
	if ps >= 0 {
		verifVC[ps][ps]++
	}
}

func verifGoEnd(gp *g) {
	if verifHB && gp.racectx>>8 == verifHBEpoch && gp.racectx&255 != 0 {
		verifUsed[gp.racectx&255-1] = false
	}
	gp.racectx = 0
}

// verifJoinFrom merges what slot s knows (s < 0: all that ever happened) into vc.
func verifJoinFrom(vc *verifClock, s int) {
	for i := range vc {
		c := verifVC[i][i]
		if s >= 0 {
			c = verifVC[s][i]
		}
		if vc[i] < c {
			vc[i] = c
		}
	}
}

func verifSyncFind(addr uintptr, make bool) *verifSyncEnt {
	h := uint32(addr>>2) * 2654435761 >> 12
	for i := uint32(0); i < verifNSync; i++ {
		e := &verifSync[(h+i)%verifNSync]
		if e.addr == addr {
			return e
		}
		if e.addr == 0 {
			if !make {
				return nil
			}
			if verifSyncN >= verifNSync*3/4 {
				return nil
			}
			verifSyncN++
			e.addr = addr
			return e
		}
	}
	return nil
}

func verifAcquire(gp *g, p unsafe.Pointer) {
	s := verifSlot(gp)
	if s < 0 {
		return
	}
	e := verifSyncFind(uintptr(p), false)
	if e == nil {
		return
	}
	vc := &verifVC[s]
	for i := range vc {
		if vc[i] < e.vc[i] {
			vc[i] = e.vc[i]
		}
	}
}

func verifRelease(gp *g, p unsafe.Pointer) {
	s := verifSlot(gp)
	e := verifSyncFind(uintptr(p), true)
	if e == nil {
		verifHB = false
		return
	}
	verifJoinFrom(&e.vc, s)
	if s >= 0 {
		verifVC[s][s]++
	}
}

// verifAfterAll orders the running goroutine after all that ever happened.
func verifAfterAll() {
	if verifHB {
		if s := verifSlot(getg()); s >= 0 {
			verifJoinFrom(&verifVC[s], -1)
		}
	}
}

func verifHBAccess(gp *g, addr, size uintptr, kind int, pc uintptr) {
	s := verifSlot(gp)
	if s < 0 {
		return
	}
	if size > 2048 {
		size = 2048
	}
	vc := &verifVC[s]
	verifNChecked++
	for end := addr + size; addr < end; {
		lo := addr & 7
		n := 8 - lo
		if n > end-addr {
			n = end - addr
		}
		mask := uint8((1<<n - 1) << lo)
		key := uint32(addr >> 3)
		addr += n
		g := &verifShadow[(key*2654435761>>9)%verifNGran]
		if g.key != key || g.epoch != verifShadowEp {
			*g = verifGran{key: key, epoch: verifShadowEp}
		}
		put := -1
		for i := range g.cells {
			c := &g.cells[i]
			if c.mask == 0 {
				if put < 0 {
					put = i
				}
				continue
			}
			if int(c.slot) == s {
				if c.mask&^mask == 0 && int(c.kind)&verifAtom >= kind&verifAtom && int(c.kind)&verifWrite <= kind&verifWrite {
					if put >= 0 && g.cells[put].mask != 0 {
						g.cells[put].mask = 0
					}
					put = i // the new access tells at least as much
				}
				continue
			}
			ordered := c.clk <= vc[c.slot]
			if c.mask&mask != 0 && (int(c.kind)|kind)&verifWrite != 0 && int(c.kind)&kind&verifAtom == 0 && !ordered {
				verifHBReport(c, kind)
			}
			if ordered && put < 0 && c.mask&^mask == 0 && (kind&verifWrite != 0 || int(c.kind)&verifWrite == 0) && kind&verifAtom == 0 {
				put = i
			}
		}
		if put < 0 {
			put = int(g.next) % verifNCell
			g.next++
		}
		g.cells[put] = verifCell{clk: vc[s], pc: uint32(pc), gid: uint32(gp.goid), slot: uint8(s), mask: mask, kind: uint8(kind)}
	}
}

func verifHBReport(c *verifCell, kind int) {
	verifMemOn, verifHB = false, false
	var pcs [24]uintptr
	n := callers(2, pcs[:])
	verifFrames(0, pcs[:n])
	pcs[0] = uintptr(c.pc)
	verifFrames(1, pcs[:1])
	verif_race(2|verifB(kind&verifWrite != 0), verifB(c.kind&verifWrite != 0), uint32(getg().goid), c.gid)
}

// ---- the runtime's and internal/race's notifications of synchronisation

func raceacquire(addr unsafe.Pointer) { raceacquireg(getg(), addr) }
func raceacquireg(gp *g, addr unsafe.Pointer) {
	if verifHB && getg().raceignore == 0 {
		verifAcquire(gp, addr)
	}
}
func raceacquirectx(racectx uintptr, addr unsafe.Pointer) {}
func racerelease(addr unsafe.Pointer)                     { racereleaseg(getg(), addr) }
func racereleaseg(gp *g, addr unsafe.Pointer) {
	if verifHB && getg().raceignore == 0 {
		verifRelease(gp, addr)
	}
}
func racereleaseacquire(addr unsafe.Pointer) { racereleaseacquireg(getg(), addr) }
func racereleaseacquireg(gp *g, addr unsafe.Pointer) {
	raceacquireg(gp, addr)
	racereleaseg(gp, addr)
}
func racereleasemerge(addr unsafe.Pointer)         { racereleaseg(getg(), addr) }
func racereleasemergeg(gp *g, addr unsafe.Pointer) { racereleaseg(gp, addr) }

//go:linkname verifRaceSync internal/race.verifRaceSync
func verifRaceSync(addr unsafe.Pointer, op int) {
	gp := getg()
	switch op {
	case 0:
		raceacquireg(gp, addr)
	case 1:
		racereleaseg(gp, addr)
	case 2:
		gp.raceignore++
	case 3:
		gp.raceignore--
	}
}
