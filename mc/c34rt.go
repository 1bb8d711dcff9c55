//go:build mcrt

package main

import (
	"runtime"
	"time"
)

func init() {
	schedExec = func(plan []schedSwitch, first int, threads []func(), onYield []func()) (log []schedSegment, passed []int, forced int, hung bool) {
		s := new(runtime.VerifSched)
		for i, p := range plan {
			s.Plan[i] = runtime.VerifSwitch{Thread: int32(p.Thread), At: int32(p.At), To: int32(p.To)}
		}
		s.N = int32(len(plan))
		s.Init(len(threads), int32(first))
		done := make(chan struct{}, len(threads))
		for i, f := range threads {
			i, f := i, f
			var oy func()
			if onYield != nil {
				oy = onYield[i]
			}
			go func() {
				runtime.VerifSet(&runtime.VerifState{Seed: 1, Sched: s, Me: i, OnYield: oy})
				s.Start(int32(i))
				f()
				s.Done(int32(i))
				runtime.VerifSet(nil)
				done <- struct{}{}
			}()
		}
		limit := time.After(20 * time.Second)
		for range threads {
			select {
			case <-done:
			case <-limit:
				return nil, nil, 0, true
			}
		}
		for _, l := range s.Log[:s.Logged] {
			x := schedSegment{Thread: int(l.Thread)}
			for i := range x.Passed {
				x.Passed[i] = int(l.Passed[i])
			}
			log = append(log, x)
		}
		for i := range threads {
			passed = append(passed, int(s.Passed[i]))
		}
		return log, passed, int(s.Forced), false
	}
}
