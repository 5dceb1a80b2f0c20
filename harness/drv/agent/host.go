package main

import (
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"

	"vharness/rig"
)

// The host program: it calls the tracing API with whatever it has, and notes
// what every call did to it.

type hostKey struct{}

// hctx is a context of the host, with what its own calls answered when it was made.
type hctx struct {
	c    context.Context
	root string // "nil", "plain", "broken": what it was made of
	val  interface{}
	dl   time.Time
	done <-chan struct{}
}

type badCtx struct{ context.Context } // every call of it panics

type ptrCtx struct{ v int }

func (p *ptrCtx) Deadline() (time.Time, bool)     { return time.Time{}, p.v == 1 }
func (p *ptrCtx) Done() <-chan struct{}           { _ = p.v; return nil }
func (p *ptrCtx) Err() error                      { _ = p.v; return nil }
func (p *ptrCtx) Value(k interface{}) interface{} { _ = p.v; return nil }

type badErr struct{ s string }

func (e *badErr) Error() string { return e.s }

type badParam struct{}

func (badParam) String() string { panic("user's String") }

var host struct {
	sync.Mutex
	ctx  map[string]*hctx
	step map[string]interface{}
	runs map[string]int
	done map[string]chan struct{}
	stop []func()
	late bool // a goroutine did not come
}

func hostReset() {
	host.Lock()
	for _, f := range host.stop {
		f()
	}
	host.ctx = map[string]*hctx{}
	host.step = map[string]interface{}{}
	host.runs = map[string]int{}
	host.done = map[string]chan struct{}{}
	host.stop = nil
	host.late = false
	host.Unlock()
}

func hget(n string) *hctx {
	host.Lock()
	defer host.Unlock()
	h := host.ctx[n]
	if h == nil {
		return &hctx{root: "nil"}
	}
	return h
}

func hput(n string, h *hctx) { host.Lock(); host.ctx[n] = h; host.Unlock() }

func hstep(n string) interface{} { host.Lock(); defer host.Unlock(); return host.step[n] }

func hsetStep(n string, s interface{}) { host.Lock(); host.step[n] = s; host.Unlock() }

// hstr: a text argument: plain, or {"b64": bytes} or {"rep": s, "n": times}
func hstr(op M, k string) string {
	switch x := op[k].(type) {
	case string:
		return x
	case M:
		if rig.Has(x, "b64") {
			b, _ := base64.StdEncoding.DecodeString(rig.Str(x, "b64"))
			return string(b)
		}
		return strings.Repeat(rig.Str(x, "rep"), rig.Int(x, "n"))
	}
	return ""
}

func mkctx(op M) *hctx {
	h := &hctx{root: "plain"}
	var p context.Context = context.Background()
	if rig.Has(op, "p") {
		p = hget(rig.Str(op, "p")).c
		if p == nil {
			p = context.Background()
		}
	}
	keep := func(f func()) {
		host.Lock()
		host.stop = append(host.stop, f)
		host.Unlock()
	}
	switch rig.Str(op, "kind") {
	case "nil":
		return &hctx{root: "nil"}
	case "todo":
		h.c = context.TODO()
	case "bg":
		h.c = context.Background()
	case "value":
		h.c = context.WithValue(p, hostKey{}, rig.Str(op, "c"))
	case "deadline":
		c, f := context.WithDeadline(p, time.Now().Add(time.Hour))
		keep(f)
		h.c = c
	case "cancel":
		c, f := context.WithCancel(p)
		keep(f)
		h.c = c
	case "cancelled":
		c, f := context.WithCancel(p)
		f()
		h.c = c
	case "broken":
		return &hctx{root: "broken", c: badCtx{}}
	case "typednil":
		var t *ptrCtx
		return &hctx{root: "broken", c: t}
	}
	h.val, h.done = h.c.Value(hostKey{}), h.c.Done()
	h.dl, _ = h.c.Deadline()
	return h
}

// facts about a context the API returned (or handed to a function), given another
func facts(c context.Context, of *hctx, r M) *hctx {
	n := &hctx{c: c, root: of.root, val: of.val, dl: of.dl, done: of.done}
	r["nil"] = c == nil
	r["same"] = func() (b bool) {
		defer func() {
			if recover() != nil {
				b = false
			}
		}()
		return c == of.c
	}()
	r["txid"] = ""
	r["usable"] = false
	if c == nil {
		n.root = "nil"
		return n
	}
	func() {
		defer func() { recover() }()
		v, d := c.Value(hostKey{}), c.Done()
		dl, _ := c.Deadline()
		c.Err()
		if of.root == "plain" {
			if v == of.val && d == of.done && dl.Equal(of.dl) {
				r["usable"] = true
			}
		} else {
			r["usable"] = v == nil && d == nil
			n.root, n.val, n.done, n.dl = "plain", nil, nil, time.Time{}
		}
	}()
	func() {
		defer func() { recover() }()
		if t := tctxmanager.GetTraceContext(c); t != nil {
			r["txid"] = fmt.Sprint(t.Txid)
		}
	}()
	return n
}

func hrequest(op M) *http.Request {
	q, _ := op["req"].(M)
	if q == nil {
		return nil
	}
	if rig.Bool(q, "empty") {
		return &http.Request{}
	}
	req := request(M{"req": M{"url": q["url"], "headers": q["headers"], "nilurl": q["nilurl"], "nilheader": q["nilheader"]}})
	if rig.Has(q, "method") {
		req.Method = hstr(q, "method")
	}
	if req.URL != nil && rig.Has(q, "path") {
		req.URL.Path = hstr(q, "path")
		req.URL.RawQuery = hstr(q, "query")
	}
	if req.Header != nil && rig.Has(q, "hk") {
		req.Header[hstr(q, "hk")] = []string{hstr(q, "hv"), ""}
		req.Header["Nothing"] = nil
	}
	if rig.Has(q, "addr") {
		req.RemoteAddr = hstr(q, "addr")
	}
	return req
}

func hresponse(op M) *http.Response {
	if !rig.Has(op, "status") {
		return nil
	}
	return &http.Response{StatusCode: rig.Int(op, "status")}
}

func herr(op M) error {
	switch x := op["err"].(type) {
	case nil:
		return nil
	case bool:
		var b *badErr
		return b
	case string, M:
		_ = x
		return errors.New(hstr(op, "err"))
	}
	return nil
}

func hparams(op M) []interface{} {
	var r []interface{}
	for _, p := range rig.List(op, "params") {
		switch p {
		case "!bad":
			r = append(r, badParam{})
		case "!badptr":
			var b *badErr
			r = append(r, b)
		default:
			r = append(r, p)
		}
	}
	return r
}

func hmethod(op M) *netdata.MethodStep {
	s, _ := hstep(rig.Str(op, "s")).(*netdata.MethodStep)
	return s
}

func hapi(op M) *netdata.ApiCallStep {
	s, _ := hstep(rig.Str(op, "s")).(*netdata.ApiCallStep)
	return s
}

// call performs one API call.
func hcall(op M, r M) {
	h := hget(rig.Str(op, "c"))
	ctx := h.c
	r["nilstep"] = false
	if o := rig.Str(op, "o"); h.root == "broken" && (o == "fallback" || o == "lookup") {
		r["nil"] = false
		return // these hand the context's own panic on
	}
	switch rig.Str(op, "o") {
	case "ctx":
		if rig.Has(op, "p") && hget(rig.Str(op, "p")).root == "broken" {
			delete(op, "p") // deriving from a broken context would be the host's own fault
			delete(r, "p")
		}
		hput(rig.Str(op, "k"), mkctx(op))
	case "start":
		hput(rig.Str(op, "k"), facts(strace.StartService(ctx, hstr(op, "name"), hstr(op, "ip")), h, r))
	case "starthttp":
		hput(rig.Str(op, "k"), facts(strace.StartHttpService(ctx, hrequest(op)), h, r))
	case "inherit":
		var pt *netio.TraceContext
		if p := hget(rig.Str(op, "p")); p.root == "plain" {
			pt = tctxmanager.GetTraceContext(p.c)
		}
		c, _ := strace.StartNewInheritanceService(ctx, pt)
		hput(rig.Str(op, "k"), facts(c, h, r))
	case "end":
		strace.EndService(ctx)
	case "endhttp":
		strace.EndHttpService(ctx, hrequest(op), hresponse(op))
	case "err":
		strace.MarkAsError(ctx, hstr(op, "m"))
	case "errf":
		strace.MarkAsErrorForcibly(ctx, hstr(op, "m"))
	case "name":
		strace.SetServiceNameForcibly(ctx, hstr(op, "name"))
	case "msg":
		strace.AddMessageStep(ctx, hstr(op, "m"))
	case "hmsg":
		strace.AddHashedMessageStep(ctx, hstr(op, "m"), int32(rig.Int(op, "v")), int32(rig.Int(op, "t")))
	case "pmsg":
		var ps []string
		for _, p := range rig.List(op, "ps") {
			ps = append(ps, fmt.Sprint(p))
		}
		strace.AddPMessageStep(ctx, netdata.PMessageLevel(rig.Int(op, "l")), hstr(op, "m"), int32(rig.Int(op, "t")), ps...)
	case "addstep":
		switch rig.Str(op, "of") {
		case "nil":
			strace.AddStep(ctx, nil)
		case "typednil":
			var s *netdata.MessageStep
			strace.AddStep(ctx, s)
		case "step":
			switch s := hstep(rig.Str(op, "s")).(type) {
			case *netdata.MethodStep:
				strace.AddStep(ctx, s)
			case *netdata.ApiCallStep:
				strace.AddStep(ctx, s)
			}
		default:
			strace.AddStep(ctx, netdata.NewMessageStep(hstr(op, "m"), int32(rig.Int(op, "t"))))
		}
	case "method", "method0", "methodp":
		var s *netdata.MethodStep
		switch {
		case rig.Str(op, "o") == "method0":
			s = strace.StartMethod(ctx)
		case rig.Str(op, "o") == "methodp":
			s = strace.StartMethodWithParam(ctx, hparams(op)...)
		case rig.Has(op, "params"):
			s = strace.StartCustomMethodWithParam(ctx, hstr(op, "name"), hparams(op)...)
		default:
			s = strace.StartCustomMethod(ctx, hstr(op, "name"))
		}
		r["nilstep"] = s == nil
		hsetStep(rig.Str(op, "s"), s)
	case "endmethod":
		strace.EndMethod(ctx, hmethod(op))
	case "api", "apiprop":
		var s *netdata.ApiCallStep
		if rig.Str(op, "o") == "api" {
			s = strace.StartApiCall(ctx, hstr(op, "name"), hstr(op, "addr"))
		} else {
			s = strace.StartApiCallWithPropagation(ctx, hrequest(op), hstr(op, "name"), hstr(op, "addr"))
		}
		r["nilstep"] = s == nil
		hsetStep(rig.Str(op, "s"), s)
	case "endapi":
		strace.EndApiCall(ctx, hapi(op), herr(op))
	case "stream":
		r["v"] = strace.SetAsStream(ctx)
	case "isstream":
		r["v"] = strace.IsStream(ctx)
	case "fallback":
		t := tctxmanager.GetTraceContextFallbackNoop(ctx)
		r["nil"] = t == nil
		if t != nil {
			t.Login = "login"
			r["txid"] = fmt.Sprint(t.Txid)
		}
	case "lookup":
		r["nil"] = tctxmanager.GetTraceContext(ctx) == nil
	case "go":
		hgo(op, r)
	case "guard":
		hguard(op, r)
	default:
		r["badop"] = true
	}
}

// hgo: a traced goroutine; the call itself must return without waiting for it
func hgo(op M, r M) {
	h := hget(rig.Str(op, "c"))
	k := rig.Str(op, "k")
	fin := make(chan struct{})
	hold := make(chan struct{})
	host.Lock()
	host.done[k] = fin
	host.Unlock()
	var once sync.Once
	strace.GoWithTrace(h.c, hstr(op, "name"), func(c context.Context) {
		defer once.Do(func() { close(fin) })
		<-hold
		host.Lock()
		host.runs[k]++
		host.Unlock()
		e := M{"o": "ran", "k": k, "c": rig.Str(op, "c"), "i": rig.Seq()}
		hput(k, facts(c, h, e))
		e["q"] = e["i"]
		rig.Log(e)
		for _, b := range opsOf(rig.List(op, "body")) {
			hdo(b)
		}
		if rig.Str(op, "how") == "goexit" {
			runtime.Goexit()
		}
	})
	close(hold)
	host.Lock()
	late := host.late
	host.Unlock()
	if rig.Bool(op, "join") && !late {
		select {
		case <-fin:
		case <-time.After(hostLimit / 2):
			host.Lock()
			host.late = true
			host.Unlock()
		}
	}
}

// hguard: a function of the host with deferred API calls that leaves by a panic of
// its own, by Goexit or normally.
func hguard(op M, r M) {
	how := rig.Str(op, "how")
	type mine struct{ n int }
	v := &mine{1}
	fin := make(chan struct{})
	r["through"] = "no"
	go func() {
		ok := false
		defer close(fin)
		defer func() {
			x := recover()
			switch {
			case how == "panic" && x == interface{}(v):
				r["through"] = "panic"
			case how == "error" && x != nil:
				if e, is := x.(runtime.Error); is && strings.Contains(e.Error(), "integer divide by zero") {
					r["through"] = "error"
				}
			case x == nil && how == "goexit" && !ok:
				r["through"] = "goexit"
			case x == nil && how == "return" && ok:
				r["through"] = "return"
			}
			if x != nil && r["through"] == "no" {
				r["gotpanic"] = fmt.Sprint(x)
			}
		}()
		hdefer(opsOf(rig.List(op, "defer")), func() {
			for _, b := range opsOf(rig.List(op, "body")) {
				hdo(b)
			}
			switch how {
			case "panic":
				panic(v)
			case "error":
				z := 0
				fmt.Fprint(os.Stderr, 1/z)
			case "goexit":
				runtime.Goexit()
			}
		})
		ok = true
	}()
	<-fin
}

// hdefer nests functions that each defer one API call directly.
func hdefer(ops []M, f func()) {
	if len(ops) == 0 {
		f()
		return
	}
	op := ops[0]
	ctx := hget(rig.Str(op, "c")).c
	e := M{"o": rig.Str(op, "o"), "c": rig.Str(op, "c"), "nilstep": false, "deferred": true}
	for _, k := range []string{"m", "s"} {
		if v, ok := op[k].(string); ok {
			e[k] = v
		}
	}
	defer func() { e["q"] = rig.Seq(); rig.Log(e) }()
	switch rig.Str(op, "o") {
	case "end":
		defer strace.EndService(ctx)
	case "endhttp":
		defer strace.EndHttpService(ctx, hrequest(op), hresponse(op))
	case "err":
		defer strace.MarkAsError(ctx, hstr(op, "m"))
	case "errf":
		defer strace.MarkAsErrorForcibly(ctx, hstr(op, "m"))
	case "msg":
		defer strace.AddMessageStep(ctx, hstr(op, "m"))
	case "endmethod":
		defer strace.EndMethod(ctx, hmethod(op))
	case "endapi":
		defer strace.EndApiCall(ctx, hapi(op), herr(op))
	case "method0":
		defer strace.StartMethod(ctx)
	case "name":
		defer strace.SetServiceNameForcibly(ctx, hstr(op, "name"))
	}
	defer func() { e["i"] = rig.Seq() }()
	hdefer(ops[1:], f)
}

const hostLimit = 8 * time.Second

// hdo performs one call and logs what it did to the host.
func hdo(op M) {
	e := M{"o": rig.Str(op, "o"), "c": rig.Str(op, "c")}
	for _, k := range []string{"k", "kind", "s", "p", "m", "how", "env"} {
		if v, ok := op[k].(string); ok {
			e[k] = v
		}
	}
	if q, ok := op["req"].(M); ok {
		e["req"] = "ok"
		if rig.Bool(q, "empty") || rig.Bool(q, "nilurl") {
			e["req"] = "nourl"
		}
	} else {
		e["req"] = "nil"
	}
	e["i"] = rig.Seq()
	func() {
		defer func() {
			if x := recover(); x != nil {
				b := make([]byte, 3000)
				e["panic"] = fmt.Sprintf("%v\n%s", x, b[:runtime.Stack(b, false)])
			}
		}()
		hcall(op, e)
	}()
	e["q"] = rig.Seq()
	rig.Log(e)
}

// hostRun runs the threads of a host program; a call that does not come back in
// time is reported as blocked.
func hostRun(req M, res M) {
	hostReset()
	var wg sync.WaitGroup
	prog := rig.List(req, "threads")
	var fns []func()
	cur := make([]string, len(prog))
	var mu sync.Mutex
	for i, l := range prog {
		i, ops := i, opsOf(l.([]interface{}))
		fns = append(fns, func() {
			for _, op := range ops {
				mu.Lock()
				cur[i] = rig.Str(op, "o")
				mu.Unlock()
				hdo(op)
			}
		})
	}
	for _, op := range opsOf(rig.List(req, "before")) {
		hdo(op)
	}
	if len(fns) > 1 {
		runPar(M{"seed": req["seed"], "mode": req["mode"], "depth": req["depth"], "len": req["len"]}, res, fns)
		if d, _ := res["dead"].(bool); d {
			res["blocked"] = true
		}
		if d, _ := res["stalled"].(bool); d {
			res["blocked"] = true
		}
	} else {
		fin := make(chan struct{})
		for _, f := range fns {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(hostLimit):
			mu.Lock()
			res["blocked"], res["at"] = true, strings.Join(cur, ",")
			mu.Unlock()
			b := make([]byte, 1<<18)
			res["stacks"] = string(b[:runtime.Stack(b, true)])
			return
		}
	}
	// the traced goroutines: each gets its time
	host.Lock()
	ds := []chan struct{}{}
	for _, d := range host.done {
		ds = append(ds, d)
	}
	host.Unlock()
	host.Lock()
	late := host.late
	host.Unlock()
	end, stop := context.WithTimeout(context.Background(), hostLimit)
	defer stop()
	if late {
		stop()
	}
	for _, d := range ds {
		select {
		case <-d:
		case <-end.Done():
		}
	}
	time.Sleep(2 * time.Millisecond)
	host.Lock()
	runs := M{}
	for k := range host.done {
		runs[k] = host.runs[k]
	}
	host.Unlock()
	res["goruns"] = runs
}

// hostDie ends the process by a panic of the host's own code in a traced goroutine.
func hostDie(req M) {
	h := mkctx(M{"kind": "value", "c": "x"})
	switch rig.Str(req, "ctx") {
	case "nil":
		h = &hctx{}
	case "traced":
		h.c = strace.StartService(h.c, "dying", "1.2.3.4")
	case "ended":
		h.c = strace.StartService(h.c, "dying", "1.2.3.4")
		strace.EndService(h.c)
	}
	v := rig.Str(req, "v")
	die := func() {
		switch rig.Str(req, "how") {
		case "string":
			userBlowup(v)
		case "error":
			userBlowup(errors.New(v))
		case "type":
			fmt.Fprintln(os.Stderr, "last words:", v)
			userBlowup(userPanic{v})
		case "runtime":
			fmt.Fprintln(os.Stderr, "last words:", v)
			var m map[string]int
			m[v] = 1
		case "nil":
			fmt.Fprintln(os.Stderr, "last words:", v)
			userBlowup(nil)
		case "after": // after calls of the API in the goroutine
		}
	}
	strace.GoWithTrace(h.c, "dying goroutine", func(c context.Context) {
		if rig.Bool(req, "calls") {
			s := strace.StartMethod(c)
			strace.AddMessageStep(c, "m")
			defer strace.EndMethod(c, s)
			defer strace.EndService(c)
		}
		if rig.Bool(req, "nested") {
			fin := make(chan struct{})
			strace.GoWithTrace(c, "dying grandchild", func(c2 context.Context) { defer close(fin); die() })
			<-fin
			time.Sleep(time.Second)
			return
		}
		die()
	})
	time.Sleep(5 * time.Second)
}

//go:noinline
func userBlowup(v interface{}) { panic(v) }
