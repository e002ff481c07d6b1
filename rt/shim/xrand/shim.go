package xrand

import "math/rand"

// a fixed generator per process start would make executions depend on history:
// every call answers from a constant stream.
func Seed(int64) {}

func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return 0
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return 0
}
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return 0
}
func Int() int         { return 4 }
func Int31() int32     { return 4 }
func Int63() int64     { return 4 }
func Uint32() uint32   { return 4 }
func Uint64() uint64   { return 4 }
func Float64() float64 { return 0.25 }
func Float32() float32 { return 0.25 }
func Perm(n int) []int { return rand.New(rand.NewSource(1)).Perm(n) }
