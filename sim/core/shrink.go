//go:build go1.22

package core

import (
	"time"

	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// shrink minimises plan and schedule of a violation, keeping its class.
func shrink(rec *Record, secs float64) {
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	late := func() bool { return time.Now().After(deadline) }
	plan := rec.Plan.clone()
	events := rec.Events
	explicit := true
	o := execute(plan, events, true, false)
	if o.Class != rec.Class || o.Known {
		// schedule overflowed or depends on the policy itself: fall back to the seeded schedule
		o = execute(plan, nil, false, false)
		explicit = false
		if o.Class != rec.Class {
			return
		}
	}
	if !explicit {
		events = o.Events
	}
	best := o
	fails := func(p *Plan, ev []rt.Event) bool {
		o := execute(p, ev, true, false)
		if o.Class == rec.Class && !o.Known {
			best = o
			return true
		}
		return false
	}
	tries := 0
	// try accepts a smaller plan if it fails with the old schedule, without preemptions, or under a few fresh schedules
	try := func(p *Plan) bool {
		if late() {
			return false
		}
		if fails(p, events) {
			plan, events = p, best.Events
			return true
		}
		if len(p.Threads) > 1 {
			if fails(p, nil) {
				plan, events = p, best.Events
				return true
			}
			for k := 0; k < 6; k++ {
				q := p.clone()
				tries++
				r := NewRng(uint64(tries))
				q.Policy = r.RandPolicy()
				if k == 0 {
					q.Policy = p.Policy
				}
				o := execute(q, nil, false, false)
				if o.Class == rec.Class && !o.Known && !o.x.res.Overflow {
					if fails(p, o.Events) {
						plan, events = p, best.Events
						return true
					}
				}
			}
		}
		return false
	}
	shrinkEvents := func() (changed bool) {
		if fails(plan, nil) {
			if len(events) > 0 {
				changed = true
			}
			events = best.Events
			return
		}
		for n := (len(events) + 1) / 2; n >= 1; n /= 2 {
			for i := 0; i < len(events) && !late(); {
				j := min(i+n, len(events))
				ev := append(append([]rt.Event(nil), events[:i]...), events[j:]...)
				if fails(plan, ev) {
					events = ev
					changed = true
				} else {
					i = j
				}
			}
		}
		return
	}
	dropOps := func(get func(p *Plan) *[]Op) (changed bool) {
		for n := len(*get(plan)); n >= 1; n /= 2 {
			for i := 0; i < len(*get(plan)) && !late(); {
				p := plan.clone()
				l := get(p)
				j := min(i+n, len(*l))
				*l = append((*l)[:i:i], (*l)[j:]...)
				if try(p) {
					changed = true
				} else {
					i += n
				}
			}
		}
		return
	}
	smaller := func(v int64) []int64 {
		switch {
		case v == 0:
			return nil
		case v < 0:
			return []int64{0, -v, v / 2}
		case v == 1:
			return []int64{0}
		case v < 5:
			return []int64{0, 1, v - 1}
		}
		return []int64{0, 1, v / 2, v - 1}
	}
	shrinkArgs := func(get func(p *Plan) *[]Op) (changed bool) {
		for i := 0; i < len(*get(plan)); i++ {
			for a := 0; a < len((*get(plan))[i].A); a++ {
				for again := true; again && !late(); {
					again = false
					for _, v := range smaller((*get(plan))[i].A[a]) {
						p := plan.clone()
						(*get(p))[i].A[a] = v
						if try(p) {
							again, changed = true, true
							break
						}
					}
				}
			}
		}
		return
	}
	for round := 0; round < 4 && !late(); round++ {
		changed := shrinkEvents()
		for t := range plan.Threads {
			if len(plan.Threads[t]) > 0 && !late() {
				p := plan.clone()
				p.Threads[t] = nil
				changed = try(p) || changed
			}
		}
		for t := range plan.Threads {
			changed = dropOps(func(p *Plan) *[]Op { return &p.Threads[t] }) || changed
		}
		changed = dropOps(func(p *Plan) *[]Op { return &p.Faults }) || changed
		for t := range plan.Threads {
			changed = shrinkArgs(func(p *Plan) *[]Op { return &p.Threads[t] }) || changed
		}
		changed = shrinkArgs(func(p *Plan) *[]Op { return &p.Faults }) || changed
		var keys []string
		for k := range plan.Cfg {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			for again := true; again && !late(); {
				again = false
				for _, v := range smaller(plan.Cfg[k]) {
					p := plan.clone()
					p.Cfg[k] = v
					if try(p) {
						again, changed = true, true
						break
					}
				}
			}
		}
		if plan.Perm != 0 {
			p := plan.clone()
			p.Perm = 0
			changed = try(p) || changed
		}
		if !changed {
			break
		}
	}
	o = execute(plan, events, true, true)
	if o.Class != rec.Class {
		return // keep the original record
	}
	rec.Plan, rec.Events, rec.Msg, rec.Hash, rec.Trace, rec.Minimal = plan, o.Events, o.Msg, o.Hash, o.Trace, true
	if len(rec.Trace) > 400 {
		rec.Trace = rec.Trace[:400]
	}
	rec.Plan.Policy = rt.Policy{Kind: "explicit"}
	rec.Prefix = nil
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j-1] > s[j]; j-- {
			s[j-1], s[j] = s[j], s[j-1]
		}
	}
}
