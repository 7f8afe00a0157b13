//go:build wasm

package runtime

//go:wasmimport verif poll
func verif_poll() uint32

// verifPoll lets what arrived from the network meanwhile take part in the next
// choice, as other threads of a real process would: a goroutine that has been
// preempted, or waits its turn, does not hold the network up.
func verifPoll() {
	if netpollinited() && netpollAnyWaiters() && verif_poll() != 0 {
		list, delta := netpoll(0)
		injectglist(&list)
		netpollAdjustWaiters(delta)
	}
}
