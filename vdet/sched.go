package vdet

import (
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// The thread of a goroutine is its profiler label: looking up the goroutine itself is slow.

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

// Points tells that the statements of the repository are points at which threads are switched.
var Points bool

var running atomic.Int32

type thread struct {
	s    *schedule
	id   int
	n    int
	wake chan struct{}
	done bool
}

// schedule lets one of two threads run at a time.
type schedule struct {
	mu   sync.Mutex
	th   [2]*thread
	cuts []int // points after which the running thread is interrupted, from its start or from its last interruption
	free bool  // a thread waited for the other one: both run
	tick atomic.Int64
}

// Yield is a point at which the running thread may be interrupted.
func Yield() {
	if running.Load() == 0 {
		return
	}
	if p := getLabel(); p != nil {
		(*thread)(p).point()
	}
}

func (t *thread) point() {
	s := t.s
	s.mu.Lock()
	t.n++
	s.tick.Add(1)
	o := s.th[1-t.id]
	if s.free || len(s.cuts) == 0 || o.done {
		s.mu.Unlock()
		return
	}
	if s.cuts[0] > 0 {
		s.cuts[0]--
		s.mu.Unlock()
		return
	}
	s.cuts = s.cuts[1:]
	s.mu.Unlock()
	o.wake <- struct{}{}
	<-t.wake
}

// Interleave runs two functions: the first up to its point number cuts[0], the second up to its point number cuts[1],
// the first again for cuts[2] points and so on; after the last cut, the running one to its end and then the other.
// It returns how many points they passed, and whether one had to wait for the other.
func Interleave(a, b func(), cuts ...int) (na, nb int, waited bool) {
	s := &schedule{cuts: append([]int(nil), cuts...)}
	running.Add(1)
	defer running.Add(-1)
	var wg sync.WaitGroup
	for i := range s.th {
		s.th[i] = &thread{s: s, id: i, wake: make(chan struct{}, 4)}
	}
	for i, f := range []func(){a, b} {
		t := s.th[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-t.wake
			setLabel(unsafe.Pointer(t))
			defer func() {
				setLabel(nil)
				s.mu.Lock()
				t.done = true
				o := s.th[1-t.id]
				over := o.done
				s.mu.Unlock()
				if !over {
					o.wake <- struct{}{}
				}
			}()
			f()
		}()
	}
	end := make(chan struct{})
	go func() { wg.Wait(); close(end) }()
	s.th[0].wake <- struct{}{}
	last := int64(-1)
	for {
		select {
		case <-end:
			return s.th[0].n, s.th[1].n, waited
		case <-time.After(10 * time.Second):
			if n := s.tick.Load(); n != last {
				last = n
				continue
			}
			// the running thread waits for what the other one holds
			s.mu.Lock()
			s.free = true
			s.mu.Unlock()
			waited = true
			for _, t := range s.th {
				select {
				case t.wake <- struct{}{}:
				default:
				}
			}
		}
	}
}

// Alone runs a function and counts its points.
func Alone(f func()) int {
	n, _, _ := Interleave(f, func() {})
	return n
}
