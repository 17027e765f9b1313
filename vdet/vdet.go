// Package vdet stands for what a node cannot share with the others: the order of the maps it iterates over, its
// clock and its random numbers. The checker chooses them per goroutine.
package vdet

import (
	"bytes"
	"fmt"
	"iter"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Instrumented is set in builds in which the repository takes these from here.
var Instrumented bool

// Uses counts the iterations over maps with at least two elements.
var Uses atomic.Int64

var modes sync.Map // goroutine -> mode

func goid() int64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	if i := bytes.IndexByte(s, ' '); i > 0 {
		n, _ := strconv.ParseInt(string(s[:i]), 10, 64)
		return n
	}
	return 0
}

// With runs f in a mode.
func With(mode int, f func()) {
	g := goid()
	old, had := modes.Load(g)
	modes.Store(g, mode)
	defer func() {
		if had {
			modes.Store(g, old)
		} else {
			modes.Delete(g)
		}
	}()
	f()
}

func mode() int {
	if m, ok := modes.Load(goid()); ok {
		return m.(int)
	}
	return 0
}

// order is the permutation of n elements in the mode: ascending, descending, and then the permutations in
// lexicographic order, around.
func order(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	if n < 2 {
		return out
	}
	Uses.Add(1)
	m := mode()
	switch {
	case m == 0:
	case m == 1:
		for i := range out {
			out[i] = n - 1 - i
		}
	default:
		f := 1
		for i := 2; i <= n && f < 1000; i++ {
			f *= i
		}
		k := (m - 1) % f
		rest := out
		out = make([]int, 0, n)
		if n > 6 { // rotate
			return append(append(out, rest[m%n:]...), rest[:m%n]...)
		}
		for i := n; i > 0; i-- {
			f /= i
			j := k / f
			k %= f
			out = append(out, rest[j])
			rest = append(append([]int(nil), rest[:j]...), rest[j+1:]...)
		}
	}
	return out
}

func keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	names := make(map[K]string, len(ks))
	for _, k := range ks {
		names[k] = fmt.Sprintf("%020v", k)
	}
	sort.Slice(ks, func(i, j int) bool { return names[ks[i]] < names[ks[j]] })
	out := make([]K, 0, len(ks))
	for _, i := range order(len(ks)) {
		out = append(out, ks[i])
	}
	return out
}

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range keys(m) {
			if v, ok := m[k]; ok {
				if !yield(k, v) {
					return
				}
			}
		}
	}
}

func SeqKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range All(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func SeqValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range All(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func SliceKeys[M ~map[K]V, K comparable, V any](m M) []K { return keys(m) }

func SliceValues[M ~map[K]V, K comparable, V any](m M) []V {
	out := make([]V, 0, len(m))
	for _, v := range All(m) {
		out = append(out, v)
	}
	return out
}

// clocks of the nodes: around the first blocks of the chain, which starts on the first of January 2025.
var clocks = []time.Duration{15 * time.Second, -87600 * time.Hour, 87600 * time.Hour, 30 * time.Second, 100 * time.Second, 20 * time.Hour}

func Now() time.Time {
	return time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC).Add(clocks[mode()%len(clocks)])
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Uint64() uint64   { return uint64(mode()) * 0x9E3779B97F4A7C15 }
func Uint32() uint32   { return uint32(Uint64() >> 32) }
func Int63() int64     { return int64(Uint64() >> 1) }
func Int31() int32     { return int32(Uint64() >> 33) }
func Int() int         { return int(Int63()) }
func Float64() float64 { return float64(Int63()) / (1 << 63) }
func Intn(n int) int   { return mode() % n }
func Int63n(n int64) int64 {
	return int64(mode()) % n
}
func Int31n(n int32) int32 { return int32(mode()) % n }
func Perm(n int) []int     { return order(n) }
func Shuffle(n int, swap func(i, j int)) {
	if mode()%2 == 1 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	}
}
