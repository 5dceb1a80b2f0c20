// Package vrt is the run-time of the verification harness. It is added to the
// build by an overlay only (never committed to the repository); the instrumenter
// (harness/instr) redirects package-level time, math/rand and sync lock uses of
// the code under test to it and inserts a Y() call before every statement.
// With every toggle off it behaves like the packages it stands for.
package vrt

import (
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Used keeps the import alive in instrumented files.
const Used = 0

const (
	mSched  = 1 // a controlled schedule is running
	mRandom = 2 // random yields of uncontrolled goroutines
)

var mode int32

// Y is a scheduling point.
func Y() {
	m := atomic.LoadInt32(&mode)
	if m == 0 {
		return
	}
	yslow(m)
}

var noise uint64 = 88172645463325252

func nextNoise() uint64 {
	for {
		o := atomic.LoadUint64(&noise)
		x := o
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		if atomic.CompareAndSwapUint64(&noise, o, x) {
			return x
		}
	}
}

func yslow(m int32) {
	if m&mSched != 0 {
		if t := currentThread(); t != nil {
			t.yield()
			return
		}
	}
	if m&mRandom != 0 {
		x := nextNoise()
		switch {
		case x%64 == 0:
			time.Sleep(time.Duration(x>>32%200) * time.Microsecond)
		case x%8 == 0:
			runtime.Gosched()
		}
	}
}

// SetRandomYields switches random yields of all goroutines on or off.
func SetRandomYields(on bool, seed uint64) {
	if on {
		atomic.StoreUint64(&noise, seed*2654435761+88172645463325252)
		for {
			o := atomic.LoadInt32(&mode)
			if atomic.CompareAndSwapInt32(&mode, o, o|mRandom) {
				return
			}
		}
	}
	for {
		o := atomic.LoadInt32(&mode)
		if atomic.CompareAndSwapInt32(&mode, o, o&^mRandom) {
			return
		}
	}
}

// ---------------------------------------------------------------- clock

var clk struct {
	sync.RWMutex
	frozen bool
	at     time.Time
	offset time.Duration
}

// a process may start with its clock stopped at a given instant
func init() {
	if v, err := strconv.ParseInt(os.Getenv("VCLOCK_NS"), 10, 64); err == nil && v > 0 {
		clk.frozen, clk.at = true, time.Unix(0, v)
	}
}

// Now is time.Now of the virtual clock.
func Now() time.Time {
	clk.RLock()
	defer clk.RUnlock()
	if clk.frozen {
		return clk.at
	}
	if clk.offset != 0 {
		return time.Now().Add(clk.offset)
	}
	return time.Now()
}

// Since is time.Since of the virtual clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until of the virtual clock.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Freeze stops the virtual clock at t.
func Freeze(t time.Time) {
	clk.Lock()
	clk.frozen, clk.at = true, t
	clk.Unlock()
}

// Advance moves the frozen clock.
func Advance(d time.Duration) {
	clk.Lock()
	if clk.frozen {
		clk.at = clk.at.Add(d)
	} else {
		clk.offset += d
	}
	clk.Unlock()
}

// Unfreeze lets the clock run again, in real time.
func Unfreeze() {
	clk.Lock()
	clk.frozen, clk.offset = false, 0
	clk.Unlock()
}

var slp struct {
	sync.Mutex
	scale   float64
	paused  time.Duration // sleeps at least this long wait for resume (0: none)
	resumed chan struct{}
}

// SetSleepScale multiplies every sleep of the code under test (0 = 1).
func SetSleepScale(f float64) {
	slp.Lock()
	slp.scale = f
	slp.Unlock()
}

// PauseSleeps makes every sleep of at least min wait until ResumeSleeps.
func PauseSleeps(min time.Duration) {
	slp.Lock()
	slp.paused = min
	if slp.resumed != nil {
		close(slp.resumed) // waiting sleeps look again
	}
	slp.resumed = make(chan struct{})
	slp.Unlock()
}

// ResumeSleeps ends PauseSleeps.
func ResumeSleeps() {
	slp.Lock()
	slp.paused = 0
	if slp.resumed != nil {
		close(slp.resumed)
		slp.resumed = nil
	}
	slp.Unlock()
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if t := currentThreadFast(); t != nil {
		t.yield()
		return
	}
	for t0 := time.Now(); ; { // the scale may change meanwhile
		slp.Lock()
		f := slp.scale
		slp.Unlock()
		left := d
		if f > 0 {
			left = time.Duration(float64(d) * f)
		}
		if left -= time.Since(t0); left <= 0 {
			break
		}
		if left > 100*time.Millisecond {
			left = 100 * time.Millisecond
		}
		time.Sleep(left)
	}
	for { // a sleep that is paused waits, also when it was paused while it slept
		slp.Lock()
		p, ch := slp.paused, slp.resumed
		slp.Unlock()
		if p <= 0 || d < p || ch == nil {
			return
		}
		<-ch
	}
}

// ---------------------------------------------------------------- random draws

var rnd struct {
	sync.Mutex
	on    bool
	u     float64
	draws int
}

// SetDraw makes every following package-level draw use u in [0,1).
func SetDraw(u float64) {
	rnd.Lock()
	rnd.on, rnd.u, rnd.draws = true, u, 0
	rnd.Unlock()
}

// FreeDraw ends SetDraw.
func FreeDraw() {
	rnd.Lock()
	rnd.on = false
	rnd.Unlock()
}

// Draws returns the number of controlled draws since SetDraw.
func Draws() int {
	rnd.Lock()
	defer rnd.Unlock()
	return rnd.draws
}

func draw() (float64, bool) {
	rnd.Lock()
	defer rnd.Unlock()
	if rnd.on {
		rnd.draws++
	}
	return rnd.u, rnd.on
}

func Intn(n int) int {
	if u, on := draw(); on && n > 0 {
		return int(u * float64(n))
	}
	return rand.Intn(n)
}
func Int31n(n int32) int32 {
	if u, on := draw(); on && n > 0 {
		return int32(u * float64(n))
	}
	return rand.Int31n(n)
}
func Int63n(n int64) int64 {
	if u, on := draw(); on && n > 0 {
		return int64(u * float64(n))
	}
	return rand.Int63n(n)
}
func Float64() float64 {
	if u, on := draw(); on {
		return u
	}
	return rand.Float64()
}
func Float32() float32 {
	if u, on := draw(); on {
		return float32(u)
	}
	return rand.Float32()
}

// ---------------------------------------------------------------- locks
// They behave like sync's (writer preference included) and tell the controlled
// scheduler when a thread blocks.

var lk struct {
	sync.Mutex
	cond  *sync.Cond
	epoch uint64
}

func init() { lk.cond = sync.NewCond(&lk.Mutex) }

// wait is called with lk held; it returns with lk held after something changed.
func wait(t *Thread) {
	if t != nil {
		e := lk.epoch
		lk.Unlock()
		t.block(e)
		lk.Lock()
		return
	}
	lk.cond.Wait()
}

func changed() {
	lk.epoch++
	lk.cond.Broadcast()
}

// Mutex stands for sync.Mutex.
type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	t := currentThreadFast()
	lk.Lock()
	for m.locked {
		wait(t)
	}
	m.locked = true
	lk.Unlock()
}
func (m *Mutex) TryLock() bool {
	lk.Lock()
	defer lk.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	lk.Lock()
	if !m.locked {
		lk.Unlock()
		fatal("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	changed()
	lk.Unlock()
}

// RWMutex stands for sync.RWMutex.
type RWMutex struct {
	w       bool
	r, wait int
}

func (m *RWMutex) Lock() {
	t := currentThreadFast()
	lk.Lock()
	m.wait++
	for m.w || m.r > 0 {
		wait(t)
	}
	m.wait--
	m.w = true
	lk.Unlock()
}
func (m *RWMutex) TryLock() bool {
	lk.Lock()
	defer lk.Unlock()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	lk.Lock()
	if !m.w {
		lk.Unlock()
		fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	changed()
	lk.Unlock()
}
func (m *RWMutex) RLock() {
	t := currentThreadFast()
	lk.Lock()
	for m.w || m.wait > 0 {
		wait(t)
	}
	m.r++
	lk.Unlock()
}
func (m *RWMutex) TryRLock() bool {
	lk.Lock()
	defer lk.Unlock()
	if m.w || m.wait > 0 {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	lk.Lock()
	if m.r <= 0 {
		lk.Unlock()
		fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	changed()
	lk.Unlock()
}
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// sync's misuse errors are not recoverable; end the process the same way.
func fatal(msg string) {
	go func() { panic(msg + " (scouterx lock misuse)") }()
	select {}
}
