//go:build mcrt

package main

import "runtime"

func init() {
	rtSet = func(mapIter func(count int, b uint8) uintptr, seed uint32, rnd uint64, now int64) {
		runtime.VerifSet(&runtime.VerifState{Map: mapIter, Seed: seed, RandSeed: rnd, Now: now})
	}
	rtReset = func() { runtime.VerifSet(nil) }
}
