//go:build sched

package main

import (
	"fmt"
	"runtime"
	"time"

	readability "github.com/giulianopz/go-readability"
)

// The controlled scheduler. One of two threads runs at a time; the library
// calls yield before whatever may interfere, and the schedule says at which of
// these calls the other thread goes on.

type c14Sched struct {
	classes  [3]bool // which calls count
	steps    int     // counted so far, over both threads
	preempt  []int   // the steps at which to switch, ascending
	cur      int
	wake     [2]chan struct{}
	done     [2]bool
	ids      [2]uint64
	finished chan int
	free     bool // a thread was blocked by something else: no more control
}

var c14Cur *c14Sched

func goid() uint64 {
	var b [40]byte
	runtime.Stack(b[:], false)
	var id uint64
	for _, c := range b[len("goroutine "):] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

func c14Yield(class, site int) {
	s := c14Cur
	if s == nil || s.free || !s.classes[class] {
		return
	}
	me := s.cur
	if readability.VerifSpawns && goid() != s.ids[me] {
		return // a goroutine of the library's own
	}
	k := s.steps
	s.steps++
	if len(s.preempt) == 0 || s.preempt[0] != k {
		return
	}
	s.preempt = s.preempt[1:]
	other := 1 - me
	if s.done[other] {
		return
	}
	s.cur = other
	s.wake[other] <- struct{}{}
	<-s.wake[me]
}

// run executes the two bodies under the schedule and returns the number of steps.
func (s *c14Sched) run(first int, bodies [2]func()) (steps int, controlled bool) {
	s.cur = first
	s.finished = make(chan int, 2)
	for k := range bodies {
		s.wake[k] = make(chan struct{}, 1)
		go func() {
			<-s.wake[k]
			s.ids[k] = goid()
			bodies[k]()
			s.done[k] = true
			other := 1 - k
			if !s.done[other] && !s.free {
				s.cur = other
				s.wake[other] <- struct{}{}
			}
			s.finished <- k
		}()
	}
	c14Cur = s
	defer func() { c14Cur = nil }()
	s.wake[first] <- struct{}{}
	for n := 0; n < 2; {
		select {
		case <-s.finished:
			n++
		case <-time.After(5 * time.Second):
			// The running thread waits for the other one (a lock, say): let both go.
			s.free = true
			for k := range s.wake {
				select {
				case s.wake[k] <- struct{}{}:
				default:
				}
			}
		}
	}
	return s.steps, !s.free
}

func c14SchedFamilies(tier string) []Family {
	readability.VerifYield = c14Yield
	jobs := c14Jobs()
	// the jobs which differ most in what they do
	var pairs [][2]int
	sel := []int{0, 1, 3, 5, 10}
	if tier == "thorough" {
		sel = nil
		for i := range jobs {
			sel = append(sel, i)
		}
	}
	for _, a := range sel {
		for _, b := range sel {
			if b < a {
				continue // the same pair, with the other thread first
			}
			pairs = append(pairs, [2]int{a, b})
		}
	}
	const chunks = 8
	explore := func(t *T, a, b, first, chunk, bound, limit int, classes [3]bool) {
		once := func(preempt []int) int {
			ia, ib := &c14Inst{job: &jobs[a]}, &c14Inst{job: &jobs[b]}
			s := &c14Sched{classes: classes, preempt: preempt}
			steps, controlled := s.run(first, [2]func(){func() { ia.open(); ia.finish() }, func() { ib.open(); ib.finish() }})
			t.Trans += uint64(steps)
			if controlled {
				t.State("s", fmt.Sprint(a, b, first, preempt, classes))
			}
			when := fmt.Sprintf("next to %%q, which is let in at the steps %v of the schedule (thread %d starts)", preempt, first)
			t.c14Compare(a, ia.sig, fmt.Sprintf(when, jobs[b].name))
			t.c14Compare(b, ib.sig, fmt.Sprintf(when, jobs[a].name))
			return steps
		}
		var rec func(prefix []int, left int)
		rec = func(prefix []int, left int) {
			steps := once(prefix)
			if left == 0 || t.Failed() {
				return
			}
			if limit > 0 && steps > limit && len(prefix) > 0 {
				return // too many points for another preemption
			}
			from := 0
			if len(prefix) > 0 {
				from = prefix[len(prefix)-1] + 1
			}
			for k := from; k < steps && !t.Failed(); k++ {
				if len(prefix) == 0 && k%chunks != chunk {
					continue
				}
				rec(append(append([]int(nil), prefix...), k), left-1)
			}
		}
		rec(nil, bound)
	}
	var fs []Family
	fs = append(fs, Family{Name: "schedules-state", N: size(len(pairs), 2, chunks), Slow: true, Run: func(t *T, i uint64) {
		d := &dec{i}
		p, first, chunk := pick(d, pairs), d.n(2), d.n(chunks)
		t.Begin("%s and %s, thread %d first, every schedule with up to 3 preemptions at accesses to package state (%s), part %d of %d", jobs[p[0]].name, jobs[p[1]].name, first, readability.VerifMutable, chunk, chunks)
		explore(t, p[0], p[1], first, chunk, 3, 120, [3]bool{false, true, false})
	}})
	fs = append(fs, Family{Name: "schedules-calls", N: size(len(pairs), 2, chunks), Slow: true, Run: func(t *T, i uint64) {
		d := &dec{i}
		p, first, chunk := pick(d, pairs), d.n(2), d.n(chunks)
		t.Begin("%s and %s, thread %d first, every schedule with one preemption at a function call or an access to package state, part %d of %d", jobs[p[0]].name, jobs[p[1]].name, first, chunk, chunks)
		explore(t, p[0], p[1], first, chunk, 1, 0, [3]bool{false, true, true})
	}})
	return fs
}
