// Package rig is the control channel and the event log of the drivers.
package rig

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// M is a JSON object.
type M = map[string]interface{}

var seq int64

// Seq returns the next global sequence number.
func Seq() int64 { return atomic.AddInt64(&seq, 1) }

var evs struct {
	sync.Mutex
	l []M
}

// Log appends an event.
func Log(e M) {
	evs.Lock()
	evs.l = append(evs.l, e)
	evs.Unlock()
}

// TakeEvents returns and clears the event log.
func TakeEvents() []M {
	evs.Lock()
	defer evs.Unlock()
	l := evs.l
	evs.l = nil
	if l == nil {
		l = []M{}
	}
	return l
}

// Datagram is one received datagram.
type Datagram struct {
	Seq  int64  `json:"q"`
	Port int    `json:"p"`
	Data string `json:"d"`
}

var dgs struct {
	sync.Mutex
	l []Datagram
	n int64
}

// Drain starts a thread that reads datagrams of an inherited socket.
func Drain(fd int) {
	syscall.SetNonblock(fd, false)
	go func() {
		runtime.LockOSThread()
		buf := make([]byte, 70000)
		for {
			n, from, err := syscall.Recvfrom(fd, buf, 0)
			if err != nil {
				if err == syscall.EINTR || err == syscall.EAGAIN {
					continue
				}
				return
			}
			port := 0
			if a, ok := from.(*syscall.SockaddrInet4); ok {
				port = a.Port
			}
			s := base64.StdEncoding.EncodeToString(buf[:n])
			dgs.Lock()
			dgs.l = append(dgs.l, Datagram{Seq(), port, s})
			dgs.n++
			dgs.Unlock()
			if hook := OnDatagram; hook != nil {
				hook(buf[:n])
			}
		}
	}()
}

// OnDatagram is called for every datagram (must be set before Drain).
var OnDatagram func([]byte)

// TakeDatagrams returns and clears the received datagrams.
func TakeDatagrams() []Datagram {
	dgs.Lock()
	defer dgs.Unlock()
	l := dgs.l
	dgs.l = nil
	if l == nil {
		l = []Datagram{}
	}
	return l
}

// NDatagrams is the number of datagrams received so far.
func NDatagrams() int64 { dgs.Lock(); defer dgs.Unlock(); return dgs.n }

// EnvFd returns an inherited descriptor named by an environment variable (-1 if none).
func EnvFd(name string) int {
	v, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return -1
	}
	return v
}

// Serve reads one JSON request per line from the control socket and writes one
// JSON reply per line.
func Serve(h func(req M) M) {
	fd := EnvFd("VCTL_FD")
	f := os.NewFile(uintptr(fd), "ctl")
	r := bufio.NewReaderSize(f, 1<<20)
	w := bufio.NewWriterSize(f, 1<<20)
	for {
		line, err := r.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var req M
		if err := json.Unmarshal(line, &req); err != nil {
			fmt.Fprintln(os.Stderr, "rig: bad request", err)
			os.Exit(3)
		}
		b, err := json.Marshal(h(req))
		if err != nil {
			b, _ = json.Marshal(M{"error": err.Error()})
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

// Str, Num, Int, Bool, List fetch members of a request.
func Str(m M, k string) string { s, _ := m[k].(string); return s }
func Num(m M, k string) float64 {
	f, _ := m[k].(float64)
	return f
}
// Strs is the list of strings m[k].
func Strs(m M, k string) (r []string) {
	l, _ := m[k].([]interface{})
	for _, x := range l {
		s, _ := x.(string)
		r = append(r, s)
	}
	return
}
func Int(m M, k string) int   { return int(Num(m, k)) }
func Bool(m M, k string) bool { b, _ := m[k].(bool); return b }
func List(m M, k string) []interface{} {
	l, _ := m[k].([]interface{})
	return l
}
func Has(m M, k string) bool { v, ok := m[k]; return ok && v != nil }

// Until polls cond for at most d.
func Until(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(500 * time.Microsecond)
	}
}
