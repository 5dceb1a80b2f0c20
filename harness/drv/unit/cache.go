package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap2"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cacheset"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/lra"

	"vharness/rig"
)

type cache struct {
	add      func(k, v string)
	remove   func(k string)
	get      func(k string) interface{}
	contains func(k string) bool
	size     func() int
	empty    func() bool
	clear    func()
	values   func() []interface{}
}

func newCache(variant string, bound int) cache {
	switch variant {
	case "lra":
		c := lra.New(bound)
		return cache{func(k, v string) { c.Add(k, v) }, func(k string) { c.Remove(k) }, func(k string) interface{} { return c.Get(k) },
			func(k string) bool { return c.Contains(k) }, c.Size, c.Empty, c.Clear, c.GetValues}
	case "lrakey":
		c := lra.New(bound)
		return cache{func(k, v string) { c.AddKey(k) }, func(k string) { c.Remove(k) }, nil,
			func(k string) bool { return c.Contains(k) }, c.Size, c.Empty, c.Clear, nil}
	case "cachemap":
		c := cachemap.New(bound)
		return cache{func(k, v string) { c.Add(k, v) }, func(k string) { c.Remove(k) }, func(k string) interface{} { return c.Get(k) },
			func(k string) bool { return c.Contains(k) }, c.Size, c.Empty, c.Clear, c.GetValues}
	case "cachemap2":
		c := cachemap2.New(bound)
		return cache{func(k, v string) { c.Add(k, v) }, func(k string) { c.Remove(k) }, func(k string) interface{} { return c.Get(k) },
			func(k string) bool { return c.Contains(k) }, c.Size, c.Empty, c.Clear, c.GetValues}
	default:
		c := cacheset.New(bound)
		return cache{func(k, v string) { c.Add(k) }, nil, nil,
			func(k string) bool { return c.Contains(k) }, c.Size, c.Empty, c.Clear, nil}
	}
}

func (c cache) do(op M) interface{} {
	k := rig.Str(op, "k")
	switch rig.Str(op, "o") {
	case "add":
		c.add(k, rig.Str(op, "v"))
	case "remove":
		c.remove(k)
	case "get":
		return str(c.get(k))
	case "contains":
		return fmt.Sprint(c.contains(k))
	case "size":
		return fmt.Sprint(c.size())
	case "empty":
		return fmt.Sprint(c.empty())
	case "clear":
		c.clear()
	case "values":
		l := []string{}
		for _, v := range c.values() {
			l = append(l, str(v))
		}
		return sorted(l)
	}
	return "nil"
}

func cacheCmd(req M) M {
	variant, bound := rig.Str(req, "variant"), rig.Int(req, "bound")
	return strategyRuns(req, func() program {
		c := newCache(variant, bound)
		return program{
			pre:     ops(rig.List(req, "pre")),
			threads: opThreads(rig.List(req, "threads")),
			after:   ops(rig.List(req, "after")),
			run:     func(th int, op M) interface{} { return c.do(op) },
		}
	})
}

// cacheStress runs every operation of every variant in parallel (Go's own
// detection of unsynchronised map access ends the process).
func cacheStress(req M) M {
	res := M{}
	bad := []string{}
	var mu sync.Mutex
	report := func(a ...interface{}) { mu.Lock(); bad = append(bad, fmt.Sprint(a...)); mu.Unlock() }
	for _, variant := range []string{"lra", "cachemap", "cachemap2", "cacheset"} {
		bound := 8
		c := newCache(variant, bound)
		var n int64
		worker := func(id int) func(stop *int32) {
			return func(stop *int32) {
				x := uint64(id)*7919 + uint64(rig.Num(req, "seed"))*104729 + 1
				for atomic.LoadInt32(stop) == 0 {
					x ^= x << 13
					x ^= x >> 7
					x ^= x << 17
					k := fmt.Sprint("k", x>>20%24)
					switch x >> 40 % 16 {
					case 0, 1, 2, 3, 4, 5:
						c.add(k, k)
					case 6, 7:
						if c.remove != nil {
							c.remove(k)
						}
					case 8, 9:
						if c.get != nil {
							if v := c.get(k); v != nil && v != k {
								report(variant, ": get of ", k, " is ", v)
							}
						}
					case 10, 11:
						c.contains(k)
					case 12:
						if s := c.size(); s < 0 || s > bound {
							report(variant, ": size ", s, " with bound ", bound)
						}
					case 13:
						c.empty()
					case 14:
						if c.values != nil {
							for _, v := range c.values() {
								if _, ok := v.(string); !ok {
									report(variant, ": a listed value is ", v)
								}
							}
						}
					case 15:
						if x>>50%8 == 0 {
							c.clear()
						}
					}
					atomic.AddInt64(&n, 1)
				}
			}
		}
		var ws []func(*int32)
		for i := 0; i < 6; i++ {
			ws = append(ws, worker(i+1))
		}
		r := stressed(time.Duration(rig.Num(req, "ms"))*time.Millisecond, ws)
		res[variant] = M{"ops": n, "stuck": r["stuck"], "stacks": r["stacks"]}
	}
	res["bad"] = bad
	return res
}
