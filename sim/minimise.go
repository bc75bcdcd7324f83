package main

import (
	"encoding/json"
	"time"
)

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		die("%v", err)
	}
	var q Plan
	if err = json.Unmarshal(b, &q); err != nil {
		die("%v", err)
	}
	if q.Cfg == nil {
		q.Cfg = map[string]int{}
	}
	return &q
}

// safeExec runs a candidate in this process. A candidate which upsets the harness is not a reproduction
func safeExec(p *Plan, keep bool) (r *Run, v *Violation) {
	defer func() {
		if x := recover(); x != nil {
			v = nil
		}
	}()
	return execPlan(p, keep)
}

// minimise drops and shrinks steps, faults and scheduler decisions while the violation stays in the same class
func minimise(p *Plan, bad func(*Plan) bool, limit time.Duration) *Plan {
	best := clonePlan(p)
	if !bad(best) {
		return best
	}
	end := time.Now().Add(limit)
	try := func(q *Plan) bool {
		if time.Now().After(end) {
			return false
		}
		if bad(q) {
			best = q
			return true
		}
		return false
	}
	for round := 0; round < 6; round++ {
		progress := false
		for sz := (len(best.Steps) + 1) / 2; sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(best.Steps); {
				q := clonePlan(best)
				q.Steps = append(q.Steps[:i], q.Steps[i+sz:]...)
				if try(q) {
					progress = true
				} else {
					i += sz
				}
			}
		}
		for sz := (len(best.Choices) + 1) / 2; sz >= 1; sz /= 2 {
			q := clonePlan(best)
			q.Choices = q.Choices[:len(q.Choices)-min(sz, len(q.Choices))]
			if len(best.Choices) > 0 && try(q) {
				progress = true
			}
			for i := 0; i+sz <= len(best.Choices) && i < 400; i += sz {
				q := clonePlan(best)
				z := true
				for j := i; j < i+sz; j++ {
					if q.Choices[j] != 0 {
						z = false
					}
					q.Choices[j] = 0
				}
				if !z && try(q) {
					progress = true
				}
			}
		}
		for i := range best.Steps {
			for j := len(best.Steps[i].F) - 1; j >= 0; j-- {
				q := clonePlan(best)
				q.Steps[i].F = append(q.Steps[i].F[:j], q.Steps[i].F[j+1:]...)
				if try(q) {
					progress = true
				}
			}
			for j := len(best.Steps[i].L) - 2; j >= 0; j -= 2 {
				if j+2 > len(best.Steps[i].L) {
					continue
				}
				q := clonePlan(best)
				q.Steps[i].L = append(q.Steps[i].L[:j], q.Steps[i].L[j+2:]...)
				if try(q) {
					progress = true
				}
			}
			for _, f := range []func(s *Step) bool{
				func(s *Step) bool { n := len(s.V); s.V = s.V[:n/2]; return n > 1 },
				func(s *Step) bool { n := len(s.V); s.V = s.V[:max(n-1, 0)]; return n > 1 },
				func(s *Step) bool { n := len(s.K); s.K = s.K[:n/2]; return n > 0 },
				func(s *Step) bool { n := len(s.K); s.K = s.K[:max(n-1, 0)]; return n > 0 },
				func(s *Step) bool { x := s.A; s.A = 0; return x != 0 },
				func(s *Step) bool { x := s.B; s.B = 0; return x != 0 },
				func(s *Step) bool { x := s.C; s.C = 0; return x != 0 },
				func(s *Step) bool { x := s.C; s.C /= 2; return x > 1 },
				func(s *Step) bool { x := s.C; s.C -= 1 + s.C/16; return x > 1 },
			} {
				for {
					q := clonePlan(best)
					if !f(&q.Steps[i]) || !try(q) {
						break
					}
					progress = true
				}
			}
		}
		for _, k := range sortedKeys(best.Cfg) {
			if k == "arity" || k == "hash" || best.Cfg[k] == 0 {
				continue
			}
			q := clonePlan(best)
			q.Cfg[k] = 0
			if try(q) {
				progress = true
			}
		}
		if !progress || time.Now().After(end) {
			break
		}
	}
	return best
}
