//go:build cgo

package main

// static int vrtAdd(int a, int b) { return a + b; }
import "C"

// ccalls has the program call into C.
func ccalls(n int) {
	for i := 0; i < n; i++ {
		C.vrtAdd(C.int(i), 1)
	}
}
