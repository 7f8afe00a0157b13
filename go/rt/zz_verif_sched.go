//go:build wasm

// Simulation seam: which goroutine runs next is the host's decision.  Added to
// package runtime through a build overlay, never part of a normal build.

package runtime

//go:wasmimport verif pick
func verif_pick(n uint32) uint32

const verifMaxG = 512

var verifGs [verifMaxG]guintptr

var verifSchedOn bool

// VerifGoid returns the id of the calling goroutine.
func VerifGoid() uint64 { return getg().goid }

// VerifSched switches host control of scheduling on or off; while it is off
// goroutines run in the runtime's own (single-threaded, FIFO) order.
func VerifSched(on bool) { verifSchedOn = on }

// VerifNumGoroutine counts user goroutines that exist right now.
func VerifNumGoroutine() int { return int(gcount(false)) }

// verifRunnable collects every runnable goroutine and asks the host for one.
func verifRunnable(pp *p) *g {
	if !verifSchedOn {
		return nil
	}
	verifPoll()
	n := 0
	for n < verifMaxG {
		gp, _ := runqget(pp)
		if gp == nil {
			break
		}
		verifGs[n].set(gp)
		n++
	}
	if !sched.runq.empty() {
		lock(&sched.lock)
		for n < verifMaxG {
			gp := globrunqget()
			if gp == nil {
				break
			}
			verifGs[n].set(gp)
			n++
		}
		unlock(&sched.lock)
	}
	if n == 0 {
		return nil
	}
	k := 0
	if n > 1 {
		// insertion sort by goroutine id: the choice 0..n-1 then means the
		// same thing however the queues were split
		for i := 1; i < n; i++ {
			for j := i; j > 0 && verifGs[j].ptr().goid < verifGs[j-1].ptr().goid; j-- {
				t := verifGs[j].ptr()
				verifGs[j].set(verifGs[j-1].ptr())
				verifGs[j-1].set(t)
			}
		}
		k = int(verif_pick(uint32(n)))
		if k >= n {
			k = 0
		}
	}
	r := verifGs[k].ptr()
	for i := 0; i < n; i++ {
		if i != k {
			runqput(pp, verifGs[i].ptr(), false)
		}
		verifGs[i] = 0
	}
	return r
}
