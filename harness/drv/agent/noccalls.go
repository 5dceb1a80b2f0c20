//go:build !cgo

package main

func ccalls(n int) {}
