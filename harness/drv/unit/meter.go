package main

import (
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zverif/vrt"

	"vharness/rig"
)

var meterAt = time.Unix(1700000000, 0)

// meterCmd runs a program of completions, reads and clock steps on the meters.
// Every run starts with the service meter idle for longer than its window.
func meterCmd(req M) M {
	return strategyRuns(req, func() program {
		var now time.Time
		if vrt.Now().Before(meterAt) || vrt.Now().After(meterAt.Add(24000*time.Hour)) {
			vrt.Freeze(meterAt)
		}
		now = vrt.Now().Truncate(time.Second).Add(time.Duration(rig.Num(req, "gap")) * time.Second)
		vrt.Freeze(now.Add(time.Duration(rig.Num(req, "ms")) * time.Millisecond))
		sm := counter.GetServiceMeter()
		vm := counter.NewValueMeter()
		return program{
			pre:     ops(rig.List(req, "pre")),
			threads: opThreads(rig.List(req, "threads")),
			after:   ops(rig.List(req, "after")),
			run: func(th int, op M) interface{} {
				switch rig.Str(op, "o") {
				case "add":
					n := 1
					if rig.Has(op, "times") {
						n = rig.Int(op, "times")
					}
					for i := 0; i < n; i++ {
						sm.Add(rig.Int(op, "el"), rig.Bool(op, "err"))
					}
				case "vadd":
					vm.Add(rig.Num(op, "x"))
				case "get":
					c := sm.GetAllCounter(rig.Int(op, "n"))
					return M{"tps": finite(float64(c.Tps)), "elapsed": c.Elapsed, "err": finite(float64(c.ErrorRate))}
				case "vget":
					c := vm.GetAllCounter(rig.Int(op, "n"))
					return M{"sum": finite(c.Sum), "avg": finite(c.Avg)}
				case "tick":
					vrt.Advance(time.Duration(rig.Num(op, "ms")) * time.Millisecond)
				}
				return nil
			},
		}
	})
}

// finite stands for a number that is none (which the harness cannot be told) by one that no reading has.
func finite(x float64) float64 {
	if x != x || x-x != 0 {
		return -1e12
	}
	return x
}
