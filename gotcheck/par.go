package main

import (
	"runtime"
	"sync"
)

// parallel runs n independent jobs; each writes to its own Result and the
// results are merged in order, so the outcome does not depend on timing.
func (p *Program) parallel(r *Result, n int, job func(i int, r *Result)) {
	subs := make([]*Result, n)
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				s := newResult(r.Prop)
				job(i, s)
				subs[i] = s
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	for _, s := range subs {
		r.merge(s)
	}
}

func (r *Result) merge(s *Result) {
	r.Obligations += s.Obligations
	r.Discharged += s.Discharged
	for k, v := range s.Counts {
		r.Counts[k] += v
	}
	for _, x := range s.Samples {
		r.sample(x)
	}
	for _, f := range s.Findings {
		if !r.seen[f.Key] {
			r.seen[f.Key] = true
			r.Findings = append(r.Findings, f)
		}
	}
	r.Unknown = append(r.Unknown, s.Unknown...)
}

// freeze computes the cached keys of values shared between goroutines.
func (p *Program) freeze() {
	for _, v := range []*Val{Top, NonNil, NilVal, TrueVal, FalseVal, BoolTop} {
		v.key()
	}
	var deep func(v *Val, d int)
	deep = func(v *Val, d int) {
		if v == nil || d > 6 {
			return
		}
		v.key()
		deep(v.inner, d+1)
		deep(v.ln, d+1)
		deep(v.elem, d+1)
	}
	for _, t := range p.gmaps {
		for _, v := range t {
			deep(v, 0)
		}
	}
}
