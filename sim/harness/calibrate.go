package main

import (
	"fmt"
	"sort"

	"github.com/octarinesec/MAPL/verifsim/rt"
)

// calibrate compares the model with undisturbed calls on random rules and
// prints the smallest disagreements. No check depends on it.
func calibrate() {
	type diff struct {
		size int
		text string
	}
	var diffs []diff
	n := 0
	for i := 0; i < *fMax && i < 200000; i++ {
		g := &gen{Rng: newRng(rt.Mix(*fSeed, uint64(i))), depth: 3, ret: 30, refs: 25}
		g.ifaceOk = g.p(30)
		g.depth, g.odd = g.in(0, 3), g.p(20)
		sc := &Scenario{Prop: "C01", RandSeed: 1, Host: Host{Log: "discard"}, Global: 1}
		sc.Lists = []MLists{{Strings: map[string]string{}, Lists: map[string][]string{}}, g.lists(0, 0)}
		sc.Sets = []SetSpec{{Bind: -1, Rules: g.rules(1, 1)}}
		g.messages(sc, 1, 1)
		op := Op{K: g.pick("tcond", "rcheck", "mongo")}
		rt.Seed(1)
		rt.Reset()
		w, fail := newWorld(sc)
		if fail != "" {
			diffs = append(diffs, diff{0, fail})
			continue
		}
		n++
		got := w.single(op)
		want, _ := w.wantAlone(op)
		if got != want {
			c := sc.Sets[0].Rules[0].Cond
			text := fmt.Sprintf("%s rep=%q\n%s\ndoc %s\nengine %s\nmodel  %s\n", op.K, sc.Msgs[0].Rep, mustJSON(c), docText(sc.Msgs[0].Doc), got, want)
			diffs = append(diffs, diff{len(mustJSON(c)), text})
		}
	}
	sort.SliceStable(diffs, func(i, j int) bool { return diffs[i].size < diffs[j].size })
	say("%d calls, %d disagreements", n, len(diffs))
	for i, d := range diffs {
		if i == 12 {
			break
		}
		say("%s", d.text)
	}
}
