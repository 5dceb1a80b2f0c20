package vrt

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Thread is a goroutine under the control of the scheduler: one thread runs
// at a time, and it can be preempted at every Y().
type Thread struct {
	id    int
	goid  int64
	run   chan struct{}
	state int // 0 ready, 1 blocked on a lock, 2 running, 3 done, 4 away (blocked outside)
	epoch uint64
	s     *Sched
	pan   interface{}
	panSt string
}

type event struct {
	t    *Thread
	kind int // 0 yield, 1 blocked, 2 done
}

// Choice is one scheduling decision.
type Choice struct{ N, Pick, Cur int }

// Sched runs threads under a strategy.
type Sched struct {
	threads []*Thread
	ev      chan event
	// Strategy picks among the ids of runnable threads (cur is the last one
	// that ran, -1 if it cannot go on).
	Pick    func(step int, runnable []int, cur int) int
	Trace   []Choice
	Steps   int
	Dead    bool // deadlock: threads blocked on locks and nothing can wake them
	Stalled bool // too many steps or a thread never came back
	MaxStep int
}

var cur struct {
	sync.Mutex
	byGoid map[int64]*Thread
}

func goid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	s := string(buf[10:n])
	if i := strings.IndexByte(s, ' '); i > 0 {
		v, _ := strconv.ParseInt(s[:i], 10, 64)
		return v
	}
	return -1
}

func currentThreadFast() *Thread {
	if atomic.LoadInt32(&mode)&mSched == 0 {
		return nil
	}
	return currentThread()
}

func currentThread() *Thread {
	g := goid()
	cur.Lock()
	t := cur.byGoid[g]
	cur.Unlock()
	return t
}

func (t *Thread) yield() {
	t.s.ev <- event{t, 0}
	<-t.run
}

func (t *Thread) block(epoch uint64) {
	t.epoch = epoch
	t.s.ev <- event{t, 1}
	<-t.run
}

// Run runs fns to completion under the strategy.
func (s *Sched) Run(fns []func()) {
	s.ev = make(chan event, 64)
	if s.MaxStep == 0 {
		s.MaxStep = 20000
	}
	cur.Lock()
	if cur.byGoid == nil {
		cur.byGoid = map[int64]*Thread{}
	}
	cur.Unlock()
	for {
		o := atomic.LoadInt32(&mode)
		if atomic.CompareAndSwapInt32(&mode, o, o|mSched) {
			break
		}
	}
	defer func() {
		for {
			o := atomic.LoadInt32(&mode)
			if atomic.CompareAndSwapInt32(&mode, o, o&^mSched) {
				break
			}
		}
	}()
	for i, f := range fns {
		t := &Thread{id: i, run: make(chan struct{}), s: s}
		s.threads = append(s.threads, t)
		f := f
		reg := make(chan struct{})
		go func() {
			t.goid = goid()
			cur.Lock()
			cur.byGoid[t.goid] = t
			cur.Unlock()
			close(reg)
			<-t.run
			defer func() {
				if r := recover(); r != nil {
					t.pan = r
					b := make([]byte, 8192)
					t.panSt = string(b[:runtime.Stack(b, false)])
				}
				cur.Lock()
				delete(cur.byGoid, t.goid)
				cur.Unlock()
				s.ev <- event{t, 2}
			}()
			f()
		}()
		<-reg
	}
	last := -1
	for {
		// drain events of threads that came back from outside
		for {
			select {
			case e := <-s.ev:
				s.apply(e)
				continue
			default:
			}
			break
		}
		lk.Lock()
		ep := lk.epoch
		lk.Unlock()
		var runnable []int
		alive, away := 0, 0
		for _, t := range s.threads {
			switch t.state {
			case 0:
				runnable = append(runnable, t.id)
				alive++
			case 1:
				alive++
				if t.epoch != ep {
					runnable = append(runnable, t.id)
				}
			case 4:
				alive++
				away++
			}
		}
		if alive == 0 {
			return
		}
		if len(runnable) == 0 {
			// wait for an outside event or a lock released by another goroutine
			deadline := time.Now().Add(1500 * time.Millisecond)
			if away > 0 {
				deadline = time.Now().Add(20 * time.Second)
			}
			ok := false
			for time.Now().Before(deadline) {
				select {
				case e := <-s.ev:
					s.apply(e)
					ok = true
				case <-time.After(2 * time.Millisecond):
				}
				lk.Lock()
				if lk.epoch != ep {
					ok = true
				}
				lk.Unlock()
				if ok {
					break
				}
			}
			if !ok {
				if away > 0 {
					s.Stalled = true
				} else {
					s.Dead = true
				}
				return
			}
			continue
		}
		c := -1
		for i, id := range runnable {
			if id == last {
				c = i
			}
		}
		pick := 0
		if len(runnable) > 1 {
			pick = s.Pick(s.Steps, runnable, c)
			if pick < 0 || pick >= len(runnable) {
				pick = 0
			}
			s.Trace = append(s.Trace, Choice{len(runnable), pick, c})
		}
		t := s.threads[runnable[pick]]
		last = t.id
		s.Steps++
		if s.Steps > s.MaxStep {
			s.Stalled = true
			return
		}
		t.state = 2
		t.run <- struct{}{}
		timer := time.NewTimer(60 * time.Millisecond)
	waiting:
		for {
			select {
			case e := <-s.ev:
				s.apply(e)
				if e.t == t {
					timer.Stop()
					break waiting
				}
			case <-timer.C:
				t.state = 4 // blocked outside (channel, network, ...): let others go on
				break waiting
			}
		}
	}
}

func (s *Sched) apply(e event) {
	switch e.kind {
	case 0:
		e.t.state = 0
	case 1:
		e.t.state = 1
	case 2:
		e.t.state = 3
	}
}

// Panics returns the panics that escaped threads.
func (s *Sched) Panics() []string {
	var out []string
	for _, t := range s.threads {
		if t.pan != nil {
			out = append(out, fmt.Sprintf("thread %d: %v\n%s", t.id, t.pan, t.panSt))
		}
	}
	return out
}

// ---- strategies

// PCT: random priorities with d-1 priority change points among the first n steps.
func PCT(seed uint64, threads, d, n int) func(int, []int, int) int {
	x := seed*0x9E3779B97F4A7C15 + 0x1234567
	next := func() uint64 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x
	}
	for i := 0; i < 8; i++ {
		next()
	}
	prio := make([]int, threads+64)
	perm := make([]int, len(prio))
	for i := range perm {
		perm[i] = i
	}
	for i := range perm {
		j := i + int(next()%uint64(len(perm)-i))
		perm[i], perm[j] = perm[j], perm[i]
	}
	for i := range prio {
		prio[i] = d + perm[i]
	}
	change := map[int]int{}
	for i := 0; i < d-1; i++ {
		change[int(next()%uint64(n))] = i
	}
	return func(step int, runnable []int, c int) int {
		best := 0
		for i, id := range runnable {
			if prio[id] > prio[runnable[best]] {
				best = i
			}
		}
		if v, ok := change[step]; ok {
			prio[runnable[best]] = v
			best = 0
			for i, id := range runnable {
				if prio[id] > prio[runnable[best]] {
					best = i
				}
			}
		}
		return best
	}
}

// RandomWalk picks uniformly, staying on the current thread with probability stay/256.
func RandomWalk(seed uint64, stay int) func(int, []int, int) int {
	x := seed*0x9E3779B97F4A7C15 + 0x7654321
	next := func() uint64 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x
	}
	for i := 0; i < 8; i++ {
		next()
	}
	return func(step int, runnable []int, c int) int {
		if c >= 0 && int(next()%256) < stay {
			return c
		}
		return int(next() % uint64(len(runnable)))
	}
}

// Explorer enumerates schedules depth first with at most Bound preemptions.
type Explorer struct {
	Bound  int
	prefix []int
	Done   bool
}

// Strategy replays the prefix, then never preempts.
func (e *Explorer) Strategy() func(int, []int, int) int {
	i := 0
	return func(step int, runnable []int, c int) int {
		p := 0
		if c >= 0 {
			p = c
		}
		if i < len(e.prefix) {
			p = e.prefix[i]
		}
		i++
		return p
	}
}

// Next computes the next prefix from the choices of the last run.
func (e *Explorer) Next(tr []Choice) {
	// order of alternatives at a choice: the default (cur, or 0) first, then the others
	order := func(c Choice) []int {
		d := 0
		if c.Cur >= 0 {
			d = c.Cur
		}
		o := []int{d}
		for i := 0; i < c.N; i++ {
			if i != d {
				o = append(o, i)
			}
		}
		return o
	}
	for k := len(tr) - 1; k >= 0; k-- {
		c := tr[k]
		// preemptions used before k
		used := 0
		for j := 0; j < k; j++ {
			if tr[j].Cur >= 0 && tr[j].Pick != tr[j].Cur {
				used++
			}
		}
		o := order(c)
		pos := -1
		for i, v := range o {
			if v == c.Pick {
				pos = i
			}
		}
		if pos < 0 || pos+1 >= len(o) {
			continue
		}
		if c.Cur >= 0 && used+1 > e.Bound {
			continue
		}
		e.prefix = e.prefix[:0]
		for j := 0; j < k; j++ {
			e.prefix = append(e.prefix, tr[j].Pick)
		}
		e.prefix = append(e.prefix, o[pos+1])
		return
	}
	e.Done = true
}
