// Program run executes the constructs of package zt under the simulator.
package main

import (
	"fmt"
	"os"

	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
	"github.com/GottfriedHerold/Bandersnatch/zt"
)

type outcome struct {
	class, val string
	hash       uint64
	races      int
}

func once(f func() any, pol rt.Policy, ex []rt.Event) (o outcome, ev []rt.Event) {
	r := rt.RaceErrors()
	rt.RestoreGlobals()
	rt.SetPerm(pol.Seed)
	res := rt.Run(pol, ex, 20_000_000, func() { o.val = fmt.Sprint(f()) })
	o.class, o.hash, o.races = res.Class, res.Hash, rt.RaceErrors()-r
	return o, res.Events
}

func main() {
	rt.SnapshotGlobals()
	cases := []struct {
		name  string
		f     func() any
		want  string
		class string
		race  bool
	}{
		{"semaphore", func() any { return zt.Semaphore(5) }, "10", "", false},
		{"unbuffered", func() any { return zt.Unbuf(5) }, "[0 1 2 3 4]", "", false},
		{"workers", func() any { return zt.Workers(10) }, "285", "", false},
		{"spin", func() any { return zt.Spin(4) }, "4", "", false},
		{"args", func() any { return zt.Args() }, "[[1 2] a b! x <nil>]", "", false},
		{"maps", func() any { return zt.Maps() }, "[a b c] [a b c] true 1", "", false},
		{"cond", func() any { return zt.CondQ(6) }, "6", "", false},
		{"context", func() any { return zt.Ctx() }, "cancelled", "", false},
		{"leak", func() any { return zt.Leak() }, "2", "", false},
		{"select send", func() any { return zt.SelSend() }, "10", "", false},
		{"early", func() any { return zt.Early() }, "3", "", false},
		{"pooled", func() any { return zt.Pooled() }, "8", "", false},
		{"many", func() any { return zt.Semaphore(500) }, "124750", "", false},
		{"deadlock", func() any { zt.Deadlock(); return nil }, "", "deadlock", false},
		{"no race", func() any { return zt.NoRace() }, "2", "", false},
		{"race", func() any { return zt.Race() }, "", "", true},
	}
	bad := 0
	for _, c := range cases {
		hashes := map[uint64]bool{}
		runs, races := 0, 0
		for _, kind := range []string{"none", "sync", "uniform", "burst", "pct"} {
			for seed := uint64(0); seed < 30; seed++ {
				pol := rt.Policy{Kind: kind, Seed: seed, Gap: 1 + int(seed%7), Span: 300}
				if c.name == "many" && seed > 3 {
					continue
				}
				o, ev := once(c.f, pol, nil)
				runs++
				hashes[o.hash] = true
				races += o.races
				if o.class != c.class || c.want != "" && o.class == "" && o.val != c.want {
					bad++
					fmt.Printf("%s: %v: class %q (want %q), value %q (want %q)\n", c.name, pol, o.class, c.class, o.val, c.want)
				}
				p2 := rt.Policy{Kind: "explicit", Seed: seed}
				o2, _ := once(c.f, p2, ev)
				if o2.hash != o.hash || o2.class != o.class || o2.val != o.val {
					bad++
					fmt.Printf("%s: %v: replay differs: %v, %v (%d events)\n", c.name, pol, o, o2, len(ev))
				}
			}
		}
		if rt.RaceBuild && (races > 0) != c.race {
			bad++
			fmt.Printf("%s: %d races reported\n", c.name, races)
		}
		fmt.Printf("%-12s %d runs, %d distinct schedules, %d races\n", c.name, runs, len(hashes), races)
	}
	if bad > 0 {
		fmt.Println("selftest failed:", bad)
		os.Exit(1)
	}
}
