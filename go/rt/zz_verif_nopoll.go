//go:build wasm

package runtime

func verifPoll() {}
