// agent is the driver that runs the whole agent in one process: it executes
// tracing programs sent by the check over the control socket, records every
// operation with its invocation and return positions, and collects what the
// agent sends over UDP.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata/texttype"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpsender"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zverif/vrt"

	"vharness/rig"
)

type M = rig.M

var st struct {
	sync.Mutex
	ctx    map[string]context.Context
	step   map[string]interface{}
	done   map[string]chan struct{}
	tctx   map[string]*netio.TraceContext
	runs   map[string]int
	notify map[string]int
}

func reset() {
	st.Lock()
	st.ctx = map[string]context.Context{"nil": nil, "bg": context.Background()}
	st.step = map[string]interface{}{}
	st.done = map[string]chan struct{}{}
	st.tctx = map[string]*netio.TraceContext{}
	st.runs = map[string]int{}
	st.Unlock()
}

func getCtx(n string) context.Context {
	st.Lock()
	defer st.Unlock()
	return st.ctx[n]
}
func setCtx(n string, c context.Context) {
	st.Lock()
	st.ctx[n] = c
	if c != nil {
		if t := tctxmanager.GetTraceContext(c); t != nil {
			st.tctx[n] = t
		}
	}
	st.Unlock()
}
func getStep(n string) interface{} { st.Lock(); defer st.Unlock(); return st.step[n] }
func setStep(n string, s interface{}) {
	st.Lock()
	st.step[n] = s
	st.Unlock()
}

func ids(r M, ctx context.Context) M {
	r["nilctx"] = ctx == nil
	if ctx == nil {
		return r
	}
	if t := tctxmanager.GetTraceContext(ctx); t != nil {
		r["txid"], r["gxid"], r["caller"] = fmt.Sprint(t.Txid), fmt.Sprint(t.Gxid), fmt.Sprint(t.Caller)
	}
	return r
}

func request(m M) *http.Request {
	q, _ := m["req"].(M)
	if q == nil {
		return nil
	}
	method := rig.Str(q, "method")
	if method == "" {
		method = "GET"
	}
	url := rig.Str(q, "url")
	req, err := http.NewRequest(method, "http://h.example"+url, nil)
	if err != nil {
		return &http.Request{}
	}
	req.RemoteAddr = rig.Str(q, "addr")
	if h, ok := q["headers"].(M); ok {
		for k, v := range h {
			switch x := v.(type) {
			case string:
				req.Header.Add(k, x)
			case []interface{}:
				for _, y := range x {
					req.Header.Add(k, fmt.Sprint(y))
				}
			}
		}
	}
	if rig.Bool(q, "nilurl") {
		req.URL = nil
	}
	if rig.Bool(q, "nilheader") {
		req.Header = nil
	}
	return req
}

type userPanic struct{ v string }

// exec performs one operation and returns its observable result.
func exec(th int, op M) (r M) {
	r = M{}
	o := rig.Str(op, "o")
	ctx := getCtx(rig.Str(op, "c"))
	switch o {
	case "start":
		parent := context.Background()
		if rig.Has(op, "p") {
			parent = getCtx(rig.Str(op, "p"))
		}
		n := strace.StartService(parent, rig.Str(op, "name"), rig.Str(op, "ip"))
		setCtx(rig.Str(op, "c"), n)
		ids(r, n)
	case "starthttp":
		parent := context.Background()
		if rig.Has(op, "p") {
			parent = getCtx(rig.Str(op, "p"))
		}
		n := strace.StartHttpService(parent, request(op))
		setCtx(rig.Str(op, "c"), n)
		ids(r, n)
	case "end":
		strace.EndService(ctx)
	case "endhttp":
		var res *http.Response
		if rig.Has(op, "status") {
			res = &http.Response{StatusCode: rig.Int(op, "status")}
		}
		strace.EndHttpService(ctx, request(op), res)
	case "err":
		strace.MarkAsError(ctx, rig.Str(op, "m"))
	case "errf":
		strace.MarkAsErrorForcibly(ctx, rig.Str(op, "m"))
	case "name":
		strace.SetServiceNameForcibly(ctx, rig.Str(op, "name"))
	case "msg":
		strace.AddMessageStep(ctx, rig.Str(op, "m"))
	case "hmsg":
		strace.AddHashedMessageStep(ctx, rig.Str(op, "m"), int32(rig.Int(op, "v")), int32(rig.Int(op, "t")))
	case "pmsg":
		var ps []string
		for _, p := range rig.List(op, "ps") {
			ps = append(ps, fmt.Sprint(p))
		}
		strace.AddPMessageStep(ctx, netdata.PMessageLevel(rig.Int(op, "l")), rig.Str(op, "m"), int32(rig.Int(op, "t")), ps...)
	case "method":
		var s *netdata.MethodStep
		if l := rig.List(op, "params"); l != nil {
			s = strace.StartCustomMethodWithParam(ctx, rig.Str(op, "name"), l...)
		} else {
			s = strace.StartCustomMethod(ctx, rig.Str(op, "name"))
		}
		if s != nil {
			setStep(rig.Str(op, "s"), s)
		}
		r["nil"] = s == nil
	case "method0":
		s := strace.StartMethod(ctx)
		if s != nil {
			setStep(rig.Str(op, "s"), s)
		}
		r["nil"] = s == nil
	case "methodp":
		s := strace.StartMethodWithParam(ctx, rig.List(op, "params")...)
		if s != nil {
			setStep(rig.Str(op, "s"), s)
		}
		r["nil"] = s == nil
	case "endmethod":
		s, _ := getStep(rig.Str(op, "s")).(*netdata.MethodStep)
		strace.EndMethod(ctx, s)
	case "api", "apiprop":
		var s *netdata.ApiCallStep
		if o == "api" {
			s = strace.StartApiCall(ctx, rig.Str(op, "name"), rig.Str(op, "addr"))
		} else {
			req := request(op)
			s = strace.StartApiCallWithPropagation(ctx, req, rig.Str(op, "name"), rig.Str(op, "addr"))
			if req != nil {
				h := M{}
				for k, v := range req.Header {
					h[k] = strings.Join(v, "|")
				}
				r["hdr"] = h
			}
		}
		if s != nil {
			setStep(rig.Str(op, "s"), s)
			r["stxid"] = fmt.Sprint(s.Txid)
		}
		r["nil"] = s == nil
	case "endapi":
		s, _ := getStep(rig.Str(op, "s")).(*netdata.ApiCallStep)
		var err error
		if rig.Has(op, "err") {
			err = errors.New(rig.Str(op, "err"))
		}
		strace.EndApiCall(ctx, s, err)
	case "addstep":
		strace.AddStep(ctx, netdata.NewMessageStep(rig.Str(op, "m"), int32(rig.Int(op, "t"))))
	case "addnilstep":
		strace.AddStep(ctx, nil)
	case "go":
		child := rig.Str(op, "k")
		body := rig.List(op, "body")
		ch := make(chan struct{})
		st.Lock()
		st.done[child] = ch
		st.Unlock()
		strace.GoWithTrace(ctx, rig.Str(op, "name"), func(c context.Context) {
			defer close(ch)
			defer func() { rig.Log(M{"o": "goend", "c": child, "q": rig.Seq(), "th": -1}) }()
			st.Lock()
			st.runs[child]++
			st.Unlock()
			setCtx(child, c)
			e := M{"o": "gostart", "c": child, "q": rig.Seq(), "th": -1}
			ids(e, c)
			rig.Log(e)
			for _, b := range body {
				do(-1, b.(M))
			}
		})
	case "wait":
		st.Lock()
		ch := st.done[rig.Str(op, "k")]
		st.Unlock()
		if ch != nil {
			select {
			case <-ch:
			case <-time.After(10 * time.Second):
				r["timeout"] = true
			}
		}
	case "inherit":
		p := getCtx(rig.Str(op, "p"))
		var pt *netio.TraceContext
		if p != nil {
			pt = tctxmanager.GetTraceContext(p)
		}
		base := context.Background()
		if rig.Has(op, "base") {
			base = getCtx(rig.Str(op, "base"))
		}
		n, nt := strace.StartNewInheritanceService(base, pt)
		setCtx(rig.Str(op, "c"), n)
		ids(r, n)
		r["niltctx"] = nt == nil
	case "stream":
		r["v"] = strace.SetAsStream(ctx)
	case "isstream":
		r["v"] = strace.IsStream(ctx)
	case "set":
		if t := tctxmanager.GetTraceContext(ctx); t != nil {
			v := rig.Str(op, "v")
			switch rig.Str(op, "f") {
			case "Login":
				t.Login = v
			case "Desc":
				t.Desc = v
			case "Text1":
				t.Text1 = v
			case "Text2":
				t.Text2 = v
			case "Text3":
				t.Text3 = v
			case "Text4":
				t.Text4 = v
			case "Text5":
				t.Text5 = v
			case "Userid":
				t.Userid = int64(rig.Num(op, "n"))
			case "SqlCount":
				t.SqlCount = int32(rig.Int(op, "n"))
			case "SqlTime":
				t.SqlTime = int32(rig.Int(op, "n"))
			}
		}
	case "text":
		r["h"] = sendText(rig.Str(op, "k"), text(op))
	case "textloop":
		n := rig.Int(op, "n")
		for i := 0; i < n; i++ {
			sendText(rig.Str(op, "k"), fmt.Sprintf("%s%d", rig.Str(op, "m"), i))
		}
	case "resettext":
		netio.ResetTextSent()
	case "active":
		a := tctxmanager.GetActiveCount()
		r["n"] = []int64{a[0], a[1], a[2]}
	case "list":
		l := []string{}
		for _, v := range tctxmanager.GetAllTctx() {
			if t, ok := v.(*netio.TraceContext); ok {
				l = append(l, fmt.Sprint(t.Txid))
			}
		}
		r["txids"] = l
	case "bytxid":
		var id int64
		fmt.Sscan(rig.Str(op, "txid"), &id)
		r["found"] = tctxmanager.GetTraceContextByTxid(id) != nil
	case "meter":
		c := counter.GetServiceMeter().GetAllCounter(rig.Int(op, "n"))
		r["tps"], r["elapsed"], r["err"] = finite(float64(c.Tps)), c.Elapsed, finite(float64(c.ErrorRate))
	case "advance":
		vrt.Advance(time.Duration(rig.Num(op, "ms") * float64(time.Millisecond)))
	case "sleep":
		time.Sleep(time.Duration(rig.Num(op, "us")) * time.Microsecond)
	case "goexit":
		runtime.Goexit()
	case "panic":
		panic(userPanic{rig.Str(op, "m")})
	case "alert":
		netio.SendAlert(netdata.AlertLevel(rig.Int(op, "l")), rig.Str(op, "t"), rig.Str(op, "m"))
	case "direct":
		udpsender.GetInstance().SendPackDirect(&netdata.TextPack{Xtype: texttype.TextType(rig.Str(op, "k")), Hash: int32(rig.Int(op, "h")), Text: text(op)})
	case "pack":
		r["acc"] = accepted(udpsender.GetInstance().AddPack(&netdata.TextPack{Xtype: texttype.TextType(rig.Str(op, "k")), Hash: int32(rig.Int(op, "h")), Text: text(op)}))
	case "bigpack": // beyond what a text record can carry
		mp := netdata.NewMapPack()
		mp.Table[rig.Str(op, "k")] = netdata.NewBlobValue([]byte(text(op)))
		if rig.Bool(op, "direct") {
			udpsender.GetInstance().SendPackDirect(mp)
		} else {
			r["acc"] = accepted(udpsender.GetInstance().AddPack(mp))
		}
	case "addbuf":
		b, _ := base64.StdEncoding.DecodeString(rig.Str(op, "d"))
		udpsender.GetInstance().AddBuffer(b)
	case "sample":
		sampled(op, r)
	case "svccounter":
		counter.SendServiceCounter()
	case "nop":
	default:
		r["badop"] = o
	}
	return r
}

func text(op M) string {
	s := rig.Str(op, "m")
	if n := rig.Int(op, "fill"); n > len(s) { // position-coded, so that misplaced pieces show
		var b strings.Builder
		b.WriteString(s)
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "%x;", i*40503)
		}
		return b.String()[:n]
	}
	if n := rig.Int(op, "len"); n > len(s) {
		s += strings.Repeat("x", n-len(s))
	}
	return s
}

// sampled runs n transactions that differ only in the random draw at their end.
func sampled(op M, r M) {
	n, el := rig.Int(op, "n"), time.Duration(rig.Int(op, "el"))*time.Millisecond
	txids, draws := []string{}, 0
	kind := rig.Str(op, "kind")
	var pctx context.Context
	var ptc *netio.TraceContext
	if kind != "root" && kind != "http" {
		pctx = strace.StartService(context.Background(), "/sampled-parent", "1.1.1.1")
		ptc = tctxmanager.GetTraceContext(pctx)
	}
	body := func(c context.Context) {
		if c == nil {
			return
		}
		if t := tctxmanager.GetTraceContext(c); t != nil {
			txids = append(txids, fmt.Sprint(t.Txid))
		}
		strace.SetServiceNameForcibly(c, rig.Str(op, "name"))
		strace.AddMessageStep(c, "m")
		if rig.Bool(op, "err") {
			strace.MarkAsError(c, "sampled error")
		}
		vrt.Advance(el)
	}
	for i := 0; i < n; i++ {
		var c context.Context
		u := (float64(i) + 0.5) / float64(n)
		switch kind {
		case "root":
			c = strace.StartService(context.Background(), "s", "1.1.1.1")
		case "http":
			c = strace.StartHttpService(context.Background(), request(M{"req": M{"method": "GET", "url": "/s"}}))
		case "inherit":
			c, _ = strace.StartNewInheritanceService(context.Background(), ptc)
		case "go":
			g := runtime.NumGoroutine()
			fin := make(chan struct{})
			strace.GoWithTrace(pctx, "s", func(c context.Context) {
				body(c)
				vrt.SetDraw(u)
				close(fin)
			})
			<-fin
			rig.Until(2*time.Second, func() bool { return runtime.NumGoroutine() <= g })
			draws += vrt.Draws()
			vrt.FreeDraw()
			continue
		}
		body(c)
		vrt.SetDraw(u)
		if kind == "http" {
			strace.EndHttpService(c, nil, nil)
		} else {
			strace.EndService(c)
		}
		draws += vrt.Draws()
		vrt.FreeDraw()
		if i%25 == 24 {
			time.Sleep(200 * time.Microsecond)
		}
	}
	if pctx != nil {
		strace.EndService(pctx)
	}
	r["txids"], r["draws"] = txids, draws
}

// accepted reads AddPack's answer, if it has one.
func accepted(v ...interface{}) string {
	if len(v) == 1 {
		if b, ok := v[0].(bool); ok {
			if b {
				return "yes"
			}
			return "no"
		}
	}
	return "?"
}

func sendText(kind, s string) int32 {
	switch kind {
	case "service":
		return netio.SendServiceName(s)
	case "hmsg":
		return netio.SendHashedMessage(s)
	case "object":
		return netio.SendObjName(s)
	case "referer":
		return netio.SendReferer(s)
	case "ua":
		return netio.SendUserAgent(s)
	case "method":
		return netio.SendMethod(s)
	case "apicall":
		return netio.SendApicall(s)
	case "error":
		return netio.SendError(s)
	case "login":
		return netio.SendLogin(s)
	case "desc":
		return netio.SendDesc(s)
	case "stackelem":
		return netio.SendStackElement(s)
	}
	return -1
}

// do runs one operation with its position in the log.
func do(th int, op M) {
	e := M{"th": th, "o": rig.Str(op, "o")}
	for k, v := range op {
		if k != "body" {
			e[k] = v
		}
	}
	e["i"] = rig.Seq()
	t0 := time.Now()
	func() {
		defer func() {
			if x := recover(); x != nil {
				if up, ok := x.(userPanic); ok {
					e["userpanic"] = up.v
					e["q"] = rig.Seq()
					rig.Log(e)
					panic(x)
				}
				b := make([]byte, 6000)
				e["panic"] = fmt.Sprintf("%v\n%s", x, b[:runtime.Stack(b, false)])
			}
		}()
		for k, v := range exec(th, op) {
			e[k] = v
		}
	}()
	e["us"] = time.Since(t0).Microseconds()
	e["q"] = rig.Seq()
	rig.Log(e)
}

func opsOf(l []interface{}) []M {
	var r []M
	for _, x := range l {
		if m, ok := x.(M); ok {
			r = append(r, m)
		}
	}
	return r
}

var baseline int

// quiesce waits until the short-lived sender goroutines are gone and the queue
// is flushed (by a marker text that goes through the same queue).
var markN int
var marks = make(chan string, 1024)

var parked []chan bool
var held [][]byte

func readRuntime() (m runtime.MemStats) {
	runtime.ReadMemStats(&m)
	return
}

func quiesce(res M, nomark bool) {
	if baseline > 0 {
		ok := 0
		rig.Until(4*time.Second, func() bool {
			if runtime.NumGoroutine() <= baseline {
				ok++
			} else {
				ok = 0
			}
			return ok >= 2
		})
		res["quiet"] = ok >= 2
		res["ngo"] = runtime.NumGoroutine()
	}
	if nomark {
		return
	}
	for try := 0; try < 4; try++ {
		markN++
		want := fmt.Sprintf("zverif-mark-%d-%d", os.Getpid(), markN)
		udpsender.GetInstance().AddPack(&netdata.TextPack{Xtype: "zverif", Hash: int32(markN), Text: want})
		end := time.After(2500 * time.Millisecond)
	w:
		for {
			select {
			case m := <-marks:
				if m == want {
					res["mark"] = true
					return
				}
			case <-end:
				break w
			}
		}
	}
	res["mark"] = false
}

var noiseSeed, nofile uint64

func handle(req M) M {
	res := M{}
	switch rig.Str(req, "cmd") {
	case "reset":
		reset()
	case "seq": // one thread, in order
		for _, op := range opsOf(rig.List(req, "ops")) {
			do(0, op)
		}
	case "par": // several threads: free running with random yields, or a controlled schedule
		var fns []func()
		for i, l := range rig.List(req, "threads") {
			i, ops := i, opsOf(l.([]interface{}))
			fns = append(fns, func() {
				for _, op := range ops {
					do(i, op)
				}
			})
		}
		runPar(req, res, fns)
	case "conf":
		path := os.Getenv("SCOUTER_CONFIG")
		if rig.Has(req, "text") {
			os.WriteFile(path, []byte(rig.Str(req, "text")), 0644)
			forceNewer(path)
		}
		conf.GetInstance().Refresh()
	case "refresh": // by several at once
		var fns []func()
		for i := 0; i < rig.Int(req, "n"); i++ {
			fns = append(fns, func() { conf.GetInstance().Refresh() })
		}
		runPar(req, res, fns)
	case "observe":
		for i := 0; i < rig.Int(req, "n"); i++ {
			w := &watcher{}
			watchers = append(watchers, w)
			conf.AddToConfObserver(fmt.Sprint("watcher", len(watchers)), w)
		}
	case "notes": // since asked last
		l := []M{}
		watchMu.Lock()
		for _, w := range watchers {
			l = append(l, M{"n": w.n, "saw": w.saw})
			if !rig.Bool(req, "peek") {
				w.n = 0
			}
		}
		watchMu.Unlock()
		res["l"] = l
	case "ids": // ids drawn by many threads at once, through the API
		var mu sync.Mutex
		var wg sync.WaitGroup
		all := []string{}
		for t := 0; t < rig.Int(req, "threads"); t++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mine := []string{}
				for i := 0; i < rig.Int(req, "n"); i++ {
					ctx := strace.StartService(context.Background(), "ids", "1.1.1.1")
					if tc := tctxmanager.GetTraceContext(ctx); tc != nil {
						mine = append(mine, fmt.Sprint(tc.Txid))
					}
					for j := 0; j < 4; j++ {
						if s := strace.StartApiCall(ctx, "ids", ""); s != nil {
							mine = append(mine, fmt.Sprint(s.Txid))
						}
					}
					strace.EndService(ctx)
				}
				mu.Lock()
				all = append(all, mine...)
				mu.Unlock()
			}()
		}
		wg.Wait()
		res["ids"] = all
		return res
	case "freeze":
		vrt.Freeze(time.Unix(0, 0).Add(time.Duration(rig.Num(req, "ms") * float64(time.Millisecond))))
	case "freezenow":
		t := time.Now().Truncate(time.Second).Add(time.Duration(rig.Num(req, "ms") * float64(time.Millisecond)))
		vrt.Freeze(t)
		res["ms"] = t.UnixNano() / 1e6
	case "advance":
		vrt.Advance(time.Duration(rig.Num(req, "ms") * float64(time.Millisecond)))
	case "unfreeze":
		vrt.Unfreeze()
	case "pause":
		vrt.PauseSleeps(time.Duration(rig.Num(req, "ms") * float64(time.Millisecond)))
	case "resume":
		vrt.ResumeSleeps()
	case "scale":
		vrt.SetSleepScale(rig.Num(req, "f"))
	case "nofile": // leaves n descriptors that can be opened (0: all again)
		var r syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_NOFILE, &r)
		if nofile == 0 {
			nofile = r.Cur
		}
		r.Cur = nofile
		if rig.Has(req, "n") {
			f, _ := os.Open("/dev/null") // the lowest that is free
			r.Cur = uint64(f.Fd()) + uint64(rig.Int(req, "n"))
			f.Close()
		}
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &r)
	case "gcoff":
		debug.SetGCPercent(-1)
	case "gc": // what the runtime says about it
		before := readRuntime()
		for i := 0; i < rig.Int(req, "n"); i++ {
			runtime.GC()
		}
		after := readRuntime()
		res["n"], res["ns"] = after.NumGC-before.NumGC, after.PauseTotalNs-before.PauseTotalNs
	case "park":
		n := rig.Int(req, "n")
		baseline += n
		for ; n > 0; n-- {
			stop := make(chan bool)
			parked = append(parked, stop)
			go func() { <-stop }()
		}
		for ; n < 0; n++ {
			close(parked[len(parked)-1])
			parked = parked[:len(parked)-1]
		}
	case "ccalls":
		ccalls(rig.Int(req, "n"))
	case "hold":
		held = append(held, make([]byte, rig.Int(req, "kb")<<10))
		if rig.Int(req, "kb") == 0 {
			held = nil
		}
	case "runtime":
		m := readRuntime()
		res["gc"], res["heap"], res["cgo"], res["gor"] = m.NumGC, m.HeapAlloc, runtime.NumCgoCall(), runtime.NumGoroutine()
	case "draw":
		vrt.SetDraw(rig.Num(req, "u"))
	case "freedraw":
		res["draws"] = vrt.Draws()
		vrt.FreeDraw()
	case "noise":
		vrt.SetRandomYields(rig.Bool(req, "on"), uint64(rig.Int(req, "seed")))
	case "baseline":
		// smallest goroutine count seen while idle
		n := 1 << 30
		for i := 0; i < 60; i++ {
			if g := runtime.NumGoroutine(); g < n {
				n = g
			}
			time.Sleep(2 * time.Millisecond)
		}
		baseline = n
		res["n"] = n
	case "crowd":
		res["ids"] = rig.Crowd(rig.Int(req, "n"), rig.Int(req, "depth"))
	case "disperse":
		rig.Disperse()
	case "churn":
		rig.Churn(rig.Str(req, "src"), rig.Strs(req, "dirs"), rig.Strs(req, "names"))
	case "churnend":
		res["n"] = rig.ChurnEnd()
	case "hash":
		res["h"] = util.HashString(rig.Str(req, "m"))
	case "confget":
		return confGet()
	case "host":
		hostRun(req, res)
	case "die":
		hostDie(req)
	case "ping":
	}
	if rig.Bool(req, "quiesce") {
		quiesce(res, rig.Bool(req, "nomark"))
	}
	if rig.Bool(req, "take") {
		res["ev"] = rig.TakeEvents()
		res["dg"] = rig.TakeDatagrams()
		st.Lock()
		runs := M{}
		for k, v := range st.runs {
			runs[k] = v
		}
		ids := M{}
		for k, t := range st.tctx {
			ids[k] = fmt.Sprint(t.Txid)
		}
		st.Unlock()
		res["runs"], res["ids"] = runs, ids
		res["objhash"] = conf.GetInstance().ObjHash
	}
	return res
}

func runPar(req, res M, fns []func()) {
	seed := uint64(rig.Num(req, "seed"))
	switch rig.Str(req, "mode") {
	case "pct", "walk":
		s := &vrt.Sched{}
		if rig.Str(req, "mode") == "pct" {
			s.Pick = vrt.PCT(seed, len(fns), rig.Int(req, "depth"), rig.Int(req, "len"))
		} else {
			s.Pick = vrt.RandomWalk(seed, rig.Int(req, "stay"))
		}
		s.Run(fns)
		res["steps"], res["dead"], res["stalled"] = s.Steps, s.Dead, s.Stalled
		if p := s.Panics(); len(p) > 0 {
			res["panics"] = p
		}
	default:
		vrt.SetRandomYields(true, seed)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, f := range fns {
			f := f
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(userPanic); !ok {
							panic(x)
						}
					}
				}()
				<-start
				f()
			}()
		}
		close(start)
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(20 * time.Second):
			res["stalled"] = true
			b := make([]byte, 1<<20)
			res["stacks"] = string(b[:runtime.Stack(b, true)])
		}
		vrt.SetRandomYields(false, 0)
	}
}

// mparts holds the pieces of fragmented packs, to find a fragmented marker.
var mparts = map[string][][]byte{}

func reassembled(b []byte) string {
	if len(b) < 22 || string(b[:4]) != "CAFM" {
		return string(b)
	}
	total, num := int(b[16])<<8|int(b[17]), int(b[18])<<8|int(b[19])
	d := b[21:]
	switch b[20] {
	case 255:
		d = b[23:]
	case 254:
		d = b[25:]
	}
	if total <= 0 || num >= total || total*len(d) > 4096 && num == 0 || total > 4096 {
		return "" // not a marker
	}
	k := string(b[8:16])
	p := mparts[k]
	if p == nil {
		p = make([][]byte, total)
		mparts[k] = p
	}
	p[num] = append([]byte{}, d...)
	for _, x := range p {
		if x == nil {
			return ""
		}
	}
	delete(mparts, k)
	return string(bytes.Join(p, nil))
}

func onDatagram(b []byte) {
	const key = "zverif-mark-"
	s := reassembled(b)
	for {
		i := strings.Index(s, key)
		if i < 0 {
			return
		}
		j := i + len(key)
		for j < len(s) && (s[j] == '-' || s[j] >= '0' && s[j] <= '9') {
			j++
		}
		select {
		case marks <- s[i:j]:
		default:
		}
		s = s[j:]
	}
}

// forceNewer makes sure the file's time is later than any before (the agent
// compares modification times).
var lastM time.Time

func forceNewer(path string) {
	fi, err := os.Stat(path)
	if err != nil {
		return
	}
	t := fi.ModTime()
	if !t.After(lastM) {
		t = lastM.Add(10 * time.Millisecond)
		os.Chtimes(path, t, t)
	}
	lastM = t
}

type watcher struct {
	n   int
	saw M
}

var watchers []*watcher
var watchMu sync.Mutex

func (w *watcher) Run() {
	f := fieldsOf(conf.GetInstance())
	watchMu.Lock()
	w.n++
	w.saw = f
	watchMu.Unlock()
}

func confGet() M {
	l := []M{}
	m := conf.GetConfigureDescMap()
	for it := m.Iterator(); it.Next(); {
		d := it.Value().(conf.ConfigureDesc)
		l = append(l, M{"k": d.Key, "v": d.Value, "d": d.DefaultValue, "t": int(d.ValueType)})
	}
	return M{"desc": l, "fields": fieldsOf(conf.GetInstance())}
}

func main() {
	reset()
	if fd := rig.EnvFd("VUDP_FD"); fd >= 0 {
		rig.OnDatagram = onDatagram
		rig.Drain(fd)
	}
	udpsender.GetInstance()
	rig.Serve(handle)
}

// finite stands for a number that is none (which the harness cannot be told) by one that no reading has.
func finite(x float64) float64 {
	if x != x || x-x != 0 {
		return -1e12
	}
	return x
}
