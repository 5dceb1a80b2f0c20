package rig

import (
	"bytes"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// a crowd of goroutines that stand still, for dumps to show

var crowdMu sync.Mutex
var crowdGo []chan bool

func crowdID() int {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.Atoi(string(f[1]))
	return n
}

//go:noinline
func crowdStand(depth int, in *sync.WaitGroup, ids []int, i int, stop chan bool) int {
	if depth > 0 {
		return crowdStand(depth-1, in, ids, i, stop) + 1
	}
	ids[i] = crowdID()
	in.Done()
	<-stop
	return 0
}

// Crowd makes n goroutines stand at the given depth and returns their ids.
func Crowd(n, depth int) []int {
	ids := make([]int, n)
	stop := make(chan bool)
	crowdMu.Lock()
	crowdGo = append(crowdGo, stop)
	crowdMu.Unlock()
	var in sync.WaitGroup
	in.Add(n)
	for i := 0; i < n; i++ {
		go crowdStand(depth, &in, ids, i, stop)
	}
	in.Wait()
	return ids
}

// Disperse ends them and waits until they are gone.
func Disperse() {
	crowdMu.Lock()
	defer crowdMu.Unlock()
	for _, c := range crowdGo {
		close(c)
	}
	crowdGo = nil
	b := make([]byte, 1<<22)
	for i := 0; i < 500; i++ {
		if n := runtime.Stack(b, true); n < len(b) && !bytes.Contains(b[:n], []byte("rig.crowdStand(")) {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	panic("the crowd does not disperse")
}

var churnStop chan bool
var churnDone chan int

// Churn makes files with the content of src come and go in dirs until ChurnEnd.
func Churn(src string, dirs, names []string) {
	b, err := os.ReadFile(src)
	if err != nil {
		panic(err)
	}
	src += ".link"
	if err = os.WriteFile(src, b, 0600); err != nil {
		panic(err)
	}
	stop, done := make(chan bool), make(chan int, 1)
	churnStop, churnDone = stop, done
	go func() {
		n := 0
		defer func() {
			os.Remove(src)
			done <- n
		}()
		for i := 0; ; i++ {
			select {
			case <-stop:
				for _, d := range dirs {
					for _, f := range names {
						os.Remove(filepath.Join(d, f))
					}
				}
				return
			default:
			}
			p := filepath.Join(dirs[i%len(dirs)], names[i/len(dirs)*7%len(names)])
			if os.Remove(p) == nil {
				n++
			} else if os.Link(src, p) != nil {
				panic(p)
			}
		}
	}()
}

// ChurnEnd stops it and returns how often a file went.
func ChurnEnd() int {
	close(churnStop)
	return <-churnDone
}
