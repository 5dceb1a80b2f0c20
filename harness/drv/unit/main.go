// unit is the driver of the agent's self-contained parts: caches, metering,
// name patterns and the wire codec.
package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/dump"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zverif/vrt"

	"vharness/rig"
)

type M = rig.M

func main() {
	rig.Serve(func(req M) M {
		switch rig.Str(req, "cmd") {
		case "cache":
			return cacheCmd(req)
		case "cachestress":
			return cacheStress(req)
		case "meter":
			return meterCmd(req)
		case "pattern":
			return patternCmd(req)
		case "codec":
			return codecCmd(req)
		case "dump":
			return M{"m": dump.HeavyAllStackTrace().(*netdata.MapPack).GetString("name")}
		case "crowd":
			return M{"ids": rig.Crowd(rig.Int(req, "n"), rig.Int(req, "depth"))}
		case "disperse":
			rig.Disperse()
		}
		return M{}
	})
}

// explore runs a small concurrent program under many schedules and returns its
// distinct histories. prog makes a fresh object and returns the sequential
// prefix and the threads' operations; run executes one operation.
type program struct {
	pre     []M
	threads [][]M
	run     func(th int, op M) interface{}
	setup   func()
	after   []M
}

func strategyRuns(req M, mk func() program) M {
	mode := rig.Str(req, "mode")
	runs := rig.Int(req, "runs")
	seed := uint64(rig.Num(req, "seed"))
	exp := &vrt.Explorer{Bound: rig.Int(req, "pb")}
	seen := map[string]bool{}
	var hists []json.RawMessage
	dead, stalled, n, steps := 0, 0, 0, 0
	var panics []string
	until := time.Now().Add(time.Duration(rig.Num(req, "ms")) * time.Millisecond)
	exhausted := false
	for n < runs && (rig.Num(req, "ms") == 0 || time.Now().Before(until)) {
		p := mk()
		var mu sync.Mutex
		h := []M{}
		call := func(th int, op M) {
			mu.Lock()
			h = append(h, M{"k": "call", "th": th, "op": op})
			mu.Unlock()
			r := p.run(th, op)
			mu.Lock()
			h = append(h, M{"k": "ret", "th": th, "r": r})
			mu.Unlock()
		}
		for _, op := range p.pre {
			call(0, op)
		}
		var fns []func()
		for i, ops := range p.threads {
			i, ops := i, ops
			fns = append(fns, func() {
				for _, op := range ops {
					vrt.Y()
					call(i, op)
				}
			})
		}
		s := &vrt.Sched{MaxStep: 200000}
		switch mode {
		case "dfs":
			s.Pick = exp.Strategy()
		case "pct":
			s.Pick = vrt.PCT(seed+uint64(n), len(fns), rig.Int(req, "depth"), rig.Int(req, "len"))
		default:
			s.Pick = vrt.RandomWalk(seed+uint64(n), rig.Int(req, "stay"))
		}
		s.Run(fns)
		n++
		steps += s.Steps
		if s.Dead || s.Stalled {
			// threads are lost: stop here
			if s.Dead {
				dead++
			} else {
				stalled++
			}
			mu.Lock()
			b, _ := json.Marshal(h)
			mu.Unlock()
			hists = append(hists, b)
			break
		}
		for _, x := range s.Panics() {
			panics = append(panics, x)
		}
		if len(panics) > 0 {
			break
		}
		for _, op := range p.after {
			call(0, op)
		}
		b, _ := json.Marshal(h)
		if !seen[string(b)] {
			seen[string(b)] = true
			hists = append(hists, b)
		}
		if mode == "dfs" {
			exp.Next(s.Trace)
			if exp.Done {
				exhausted = true
				break
			}
		}
	}
	return M{"hist": hists, "runs": n, "steps": steps, "dead": dead, "stalled": stalled, "panics": panics, "exhausted": exhausted}
}

func ops(l []interface{}) []M {
	r := []M{}
	for _, x := range l {
		if m, ok := x.(M); ok {
			r = append(r, m)
		}
	}
	return r
}

func opThreads(l []interface{}) [][]M {
	r := [][]M{}
	for _, x := range l {
		if y, ok := x.([]interface{}); ok {
			r = append(r, ops(y))
		}
	}
	return r
}

func sorted(s []string) []string { sort.Strings(s); return s }

// stressed runs workers in parallel on real threads for a while; a worker that
// makes no progress for 20 seconds is reported as stuck.
func stressed(d time.Duration, workers []func(stop *int32)) M {
	var stop int32
	var wg sync.WaitGroup
	for _, w := range workers {
		w := w
		wg.Add(1)
		go func() { defer wg.Done(); w(&stop) }()
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	time.Sleep(d)
	atomic.StoreInt32(&stop, 1)
	select {
	case <-fin:
		return M{"stuck": false}
	case <-time.After(20 * time.Second):
		b := make([]byte, 1<<18)
		return M{"stuck": true, "stacks": string(b[:runtime.Stack(b, true)])}
	}
}

func str(v interface{}) string {
	if v == nil {
		return "nil"
	}
	return fmt.Sprint(v)
}
