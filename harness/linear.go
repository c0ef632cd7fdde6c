package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// fork runs f on n goroutines, each with its own seeded generator, and ends the case if one failed.
func fork(c *Case, n int, f func(g int, r *rand.Rand)) {
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = c.R.Int63()
	}
	var wg sync.WaitGroup
	var stopped atomic.Bool
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					stopped.Store(true)
					if _, ok := e.(caseStop); ok {
						return
					}
					st := string(debug.Stack())
					if site := repoFrame(st); site != "" {
						c.Report("panic@"+site, "panic in repository code: %v\n%s", e, st)
					} else {
						c.Run.harness(fmt.Sprintf("%s case %d: harness panic: %v\n%s", c.Part, c.Idx, e, st))
					}
				}
			}()
			<-start
			f(g, newRand(seeds[g]))
		}(g)
	}
	close(start)
	wg.Wait()
	if stopped.Load() {
		panic(caseStop{})
	}
}

// jitter gives other goroutines a chance at a drawn point.
func jitter(r *rand.Rand) {
	switch r.Intn(6) {
	case 0:
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	case 1, 2:
		runtime.Gosched()
	}
}

// lop is one completed operation of a concurrent history.
type lop struct {
	inv, ret int64
	what     string
	step     func(state string) (string, bool) // admissible in the state, and the state after it
}

// recorder collects the operations of one object.
type recorder struct {
	mu    sync.Mutex
	clock *atomic.Int64
	ops   []lop
}

// call brackets f with invocation and response; f returns what was observed.
func (h *recorder) call(f func() (string, func(string) (string, bool))) {
	inv := h.clock.Add(1)
	what, step := f()
	ret := h.clock.Add(1)
	h.add(inv, ret, what, step)
}

func (h *recorder) add(inv, ret int64, what string, step func(string) (string, bool)) {
	h.mu.Lock()
	h.ops = append(h.ops, lop{inv, ret, what, step})
	h.mu.Unlock()
}

// linearize searches for an order of the operations that respects real time and the object (Wing and Gong,
// with memoisation). It returns "" when one exists and a description of where the search got stuck otherwise;
// the second result is the number of states visited.
func linearize(ops []lop, init string) (string, int) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	n := len(ops)
	if n == 0 {
		return "", 0
	}
	words := (n + 63) / 64
	done := make([]uint64, words)
	seen := map[string]bool{}
	key := func(state string) string {
		b := make([]byte, 0, words*8+len(state))
		for _, w := range done {
			for k := 0; k < 8; k++ {
				b = append(b, byte(w>>(8*k)))
			}
		}
		return string(b) + state
	}
	best, bestState := -1, ""
	var bestDone []uint64
	visited := 0
	var rec func(state string, count int) bool
	rec = func(state string, count int) bool {
		if count == n {
			return true
		}
		k := key(state)
		if seen[k] {
			return false
		}
		seen[k] = true
		visited++
		if visited > 2000000 {
			return true // undecided: counted as admissible
		}
		if count > best {
			best, bestState = count, state
			bestDone = append([]uint64(nil), done...)
		}
		minRet := int64(1) << 62
		for i := 0; i < n; i++ {
			if done[i/64]>>(i%64)&1 == 0 && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for i := 0; i < n && ops[i].inv < minRet; i++ {
			if done[i/64]>>(i%64)&1 == 1 {
				continue
			}
			ns, ok := ops[i].step(state)
			if !ok {
				continue
			}
			done[i/64] |= 1 << (i % 64)
			if rec(ns, count+1) {
				return true
			}
			done[i/64] &^= 1 << (i % 64)
		}
		return false
	}
	if rec(init, 0) {
		return "", visited
	}
	s := fmt.Sprintf("%d of %d operations can be ordered, then in state %q none of these fits:", best, n, bestState)
	minRet := int64(1) << 62
	for i := 0; i < n; i++ {
		if bestDone[i/64]>>(i%64)&1 == 0 && ops[i].ret < minRet {
			minRet = ops[i].ret
		}
	}
	for i := 0; i < n; i++ {
		if bestDone[i/64]>>(i%64)&1 == 0 && ops[i].inv < minRet {
			s += fmt.Sprintf(" [%d-%d %s]", ops[i].inv, ops[i].ret, ops[i].what)
		}
	}
	return s, visited
}

// overlap counts pairs of operations that ran at the same time.
func overlap(ops []lop) int {
	n := 0
	for i := range ops {
		for j := i + 1; j < len(ops); j++ {
			if ops[i].inv < ops[j].ret && ops[j].inv < ops[i].ret {
				n++
			}
		}
	}
	return n
}
