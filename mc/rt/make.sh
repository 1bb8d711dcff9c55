#!/bin/bash
# make.sh OUT [small]: writes OUT/overlay.json, a build overlay of the Go runtime in which the
# choices the runtime makes at random (where a map iteration starts, the hash seed of a
# map, the values of math/rand) and the clock are taken from a per-goroutine
# runtime.VerifState, so that the explorer can enumerate them, and in which the storage
# engine lets a scheduler (runtime.VerifSched) decide at every transaction which of the
# goroutines it controls goes on. The scheduler hands over without any synchronisation
# that the race detector knows of. With small, the storage engine starts with smaller
# tables (the race detector makes large ones expensive). Run in the module whose dependencies are built.
set -eu
out=$1; B=$(go list -m -f '{{.Dir}}' github.com/dgraph-io/badger/v3); R=$GOROOT/src/runtime; T=$GOROOT/src/time
need() { [ "$(grep -cF "$2" "$1")" -ge 1 ] || { echo "make.sh: no '$2' in $1" >&2; exit 2; }; }
need "$R/map.go" 'r := uintptr(rand())'
need "$R/map.go" 'h.hash0 = uint32(rand())'
need "$R/runtime2.go" '	gcAssistBytes int64'
need "$R/rand.go" 'func rand() uint64 {'
need "$R/alg.go" 'key[i] = bootstrapRand()'
need "$B/txn.go" 'func (db *DB) NewTransaction(update bool) *Txn {'
need "$B/txn.go" 'func (txn *Txn) Commit() error {'
need "$B/iterator.go" 'func (it *Iterator) Next() {'
sed -e 's/^func (db \*DB) NewTransaction(update bool) \*Txn {$/&\n\tverifYield()/' -e 's/^func (txn \*Txn) Commit() error {$/&\n\tverifYield()/' "$B/txn.go" >"$out/txn.go"
sed -e 's/^func (it \*Iterator) Next() {$/&\n\tverifYield()/' "$B/iterator.go" >"$out/iterator.go"
# (files and imports added to a package of the module cache would not be seen)
grep -q '"unsafe"' "$B/structs.go" || exit 2
sed -i 's/^import ($/import (\n\t_ "unsafe"/' "$out/txn.go"
cat >>"$out/txn.go" <<'G'

//go:linkname verifYield runtime.VerifYield
func verifYield()
G
need "$B/options.go" 'MemTableSize:        64 << 20,'
cp "$B/options.go" "$out/options.go"
if [ "${2:-}" = small ]; then sed -i 's/MemTableSize:        64 << 20,/MemTableSize:        4 << 20,/' "$out/options.go"; fi
need "$T/time.go" '	sec, nsec, mono := now()'
sed -e 's/r := uintptr(rand())/r := verifMapIter(h.count, h.B)/' -e 's/h.hash0 = uint32(rand())/h.hash0 = verifSeed()/' "$R/map.go" >"$out/map.go"
sed -e 's/^\tgcAssistBytes int64$/\tgcAssistBytes int64\n\tverif *VerifState/' "$R/runtime2.go" >"$out/runtime2.go"
sed -e 's/^func rand() uint64 {$/func rand() uint64 {\n\tif v := getg().verif; v != nil {\n\t\tv.RandN++\n\t\treturn (v.RandN + v.RandSeed) * 0x9E3779B97F4A7C15 ^ v.RandSeed\n\t}/' "$R/rand.go" >"$out/rand.go"
sed -e 's/^\tsec, nsec, mono := now()$/\tsec, nsec, mono := now()\n\tif n := verifNow(); n != 0 {\n\t\tsec = n\n\t}/' "$T/time.go" >"$out/time.go"
sed -e 's/= bootstrapRand()$/= uint64(i)*0x9E3779B97F4A7C15 + 1/' -e 's/= uintptr(bootstrapRand())$/= uintptr(i)*7919 + 1/' "$R/alg.go" >"$out/alg.go"
cat >>"$out/time.go" <<'G'

//go:linkname verifNow
func verifNow() int64
G
cat >"$out/verif.go" <<'G'
package runtime

import (
	"internal/runtime/atomic"
	_ "unsafe"
)

// VerifState decides, for the goroutine it is set on, what the runtime decides at random.
type VerifState struct {
	Map      func(count int, b uint8) uintptr // where the iteration of a map starts
	Seed     uint32                           // hash seed of new maps
	RandN    uint64
	RandSeed uint64
	Now      int64 // seconds; 0: the real clock

	Sched   *VerifSched // decides at every yield who goes on
	Me      int
	OnYield func()
}

// VerifSwitch: when thread arrives at its yield number At, To goes on.
type VerifSwitch struct{ Thread, At, To int32 }

// VerifSegment says who went on, and how many yields everybody had passed.
type VerifSegment struct {
	Thread int32
	Passed [4]int32
}

// VerifSched runs one of its threads at a time, as planned by Plan.
type VerifSched struct {
	Plan   [16]VerifSwitch
	N      int32 // of Plan
	Passed [4]int32
	Log    [64]VerifSegment
	Logged int32
	Forced int32 // switches made because the running thread was blocked

	cur  int32
	turn atomic.Int32
	gs   [4]*g
	live [4]atomic.Bool
}

func (s *VerifSched) log(to int32) {
	if int(s.Logged) < len(s.Log) {
		s.Log[s.Logged] = VerifSegment{to, s.Passed}
		s.Logged++
	}
}

// Init says how many threads take part and which goes first.
func (s *VerifSched) Init(threads int, first int32) {
	for i := 0; i < threads; i++ {
		s.live[i].Store(true)
	}
	s.log(first)
	s.turn.Store(first)
}

// Start is called by each thread on its goroutine; it returns when it is its turn.
func (s *VerifSched) Start(me int32) {
	s.gs[me] = getg()
	s.wait(me)
}

func (s *VerifSched) wait(me int32) {
	var since int64
	var whose int32 = -1
	pause := int64(10e3)
	for n := 0; ; n++ {
		t := s.turn.Load()
		if t == me {
			return
		}
		if n < 20 {
			Gosched()
			continue
		}
		// has the running thread been blocked for long?
		gp := s.gs[t]
		if gp != nil && readgstatus(gp)&^_Gscan == _Gwaiting {
			now := nanotime()
			if whose != t {
				whose, since = t, now
			} else if now-since > 30e6 {
				if s.turn.CompareAndSwap(t, me) {
					s.Forced++
					s.log(me)
					return
				}
				whose = -1
			}
		} else {
			whose = -1
		}
		timeSleep(pause)
		if pause < 300e3 {
			pause *= 2
		}
	}
}

func (s *VerifSched) yield(me int32) {
	if s.turn.Load() != me {
		// was blocked, and another thread took over
		s.wait(me)
	}
	at := s.Passed[me]
	s.Passed[me] = at + 1
	if s.cur < s.N {
		p := s.Plan[s.cur]
		if p.Thread == me && p.At == at {
			s.cur++
			if p.To != me && s.live[p.To].Load() {
				s.log(p.To)
				s.turn.Store(p.To)
				s.wait(me)
			}
		}
	}
}

// Done ends a thread.
func (s *VerifSched) Done(me int32) {
	if s.turn.Load() != me {
		s.wait(me)
	}
	s.live[me].Store(false)
	for s.cur < s.N && s.Plan[s.cur].Thread == me {
		p := s.Plan[s.cur]
		s.cur++
		if s.live[p.To].Load() {
			s.log(p.To)
			s.turn.Store(p.To)
			return
		}
	}
	for i := range s.live {
		if s.live[i].Load() {
			s.log(int32(i))
			s.turn.Store(int32(i))
			return
		}
	}
	s.turn.Store(-1)
}

// VerifYield is called where another thread may go on.
//
//go:linkname VerifYield
func VerifYield() {
	gp := getg()
	v := gp.verif
	if v == nil {
		return
	}
	if v.Sched != nil {
		v.Sched.yield(int32(v.Me))
	}
	if v.OnYield != nil {
		gp.verif = nil
		v.OnYield()
		gp.verif = v
	}
}

// VerifSet installs s on the calling goroutine (nil: the ordinary behaviour).
func VerifSet(s *VerifState) { getg().verif = s }

func verifMapIter(count int, b uint8) uintptr {
	gp := getg()
	v := gp.verif
	if v == nil || v.Map == nil {
		return uintptr(rand())
	}
	gp.verif = nil
	r := v.Map(count, b)
	gp.verif = v
	return r
}

func verifSeed() uint32 {
	if v := getg().verif; v != nil {
		return v.Seed
	}
	return uint32(rand())
}

//go:linkname time_verifNow time.verifNow
func time_verifNow() int64 {
	if v := getg().verif; v != nil {
		return v.Now
	}
	return 0
}
G
cat >"$out/overlay.json" <<G
{"Replace": {
 "$R/map.go": "$out/map.go", "$R/runtime2.go": "$out/runtime2.go", "$R/rand.go": "$out/rand.go", "$R/alg.go": "$out/alg.go",
 "$T/time.go": "$out/time.go", "$R/verif_mc.go": "$out/verif.go",
 "$B/options.go": "$out/options.go", "$B/txn.go": "$out/txn.go", "$B/iterator.go": "$out/iterator.go"
}}
G
