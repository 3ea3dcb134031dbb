package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sisu-network/dheart/blame"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C33: who is to blame

type blameKey struct {
	work  string
	round uint32
}

// keys that have to be told apart
var blameKeys = []blameKey{{"w", 1}, {"w", 11}, {"w:1", 1}, {"w1", 1}, {"", 1}}

func blameParty(id string) *tss.PartyID {
	return &tss.PartyID{MessageWrapper_PartyID: &tss.MessageWrapper_PartyID{Id: id}}
}

func blameIds(ps []*tss.PartyID) (o []string) {
	for _, p := range ps {
		o = append(o, p.Id)
	}
	return
}

type blameRef struct {
	sent, bad map[blameKey]map[string]bool
	pre       []string
}

// check compares the culprits of every round, for all parties and for some, with those that have to be listed.
func (r *blameRef) check(m *blame.Manager, log []string) {
	for _, ids := range [][]string{{"x", "y", "z"}, {"x"}, {}} {
		parties := map[string]*tss.PartyID{}
		for _, id := range ids {
			parties[id] = blameParty(id)
		}
		for _, k := range blameKeys {
			var want []string
			for _, id := range ids {
				if !r.sent[k][id] || r.bad[k][id] {
					want = append(want, id)
				}
			}
			got := m.GetRoundCulprits(k.work, k.round, parties)
			for _, p := range got {
				mc.Check(parties[p.Id] == p, "other-party", "after %v: the culprit %s is not the party that was given", log, p.Id)
			}
			g := blameIds(got)
			sort.Strings(g)
			mc.Check(strings.Join(g, " ") == strings.Join(want, " "), "culprits", "after %v: the culprits of %q round %d among %v are %v, not %v", log, k.work, k.round, ids, g, want)
			mc.Check(len(parties) == len(ids), "parties-changed", "after %v: asking changes the parties", log)
		}
	}
	got := blameIds(m.GetPreExecutionCulprits())
	mc.Check(strings.Join(got, " ") == strings.Join(r.pre, " "), "pre-execution", "after %v: the culprits before the execution are %v, not %v", log, got, r.pre)
}

func blameSeq(depth int) func() {
	lists := [][]string{{"x"}, {"y", "x", "y"}, {"stranger", "z"}, {}}
	return func() {
		m := blame.NewManager()
		r := &blameRef{map[blameKey]map[string]bool{}, map[blameKey]map[string]bool{}, nil}
		var log []string
		r.check(m, log)
		for i := 0; i < depth; i++ {
			op := mc.Choose(3, 0)
			if op == 0 {
				k := blameKeys[mc.Choose(len(blameKeys), 0)]
				id := []string{"x", "y", "stranger"}[mc.Choose(3, 0)]
				log = append(log, fmt.Sprintf("%s sends in %q round %d", id, k.work, k.round))
				m.AddSender(k.work, k.round, id)
				if r.sent[k] == nil {
					r.sent[k] = map[string]bool{}
				}
				r.sent[k][id] = true
				r.check(m, log)
				continue
			}
			l := lists[mc.Choose(len(lists), 0)]
			var ps []*tss.PartyID
			for _, id := range l {
				ps = append(ps, blameParty(id))
			}
			if op == 1 {
				k := blameKeys[mc.Choose(len(blameKeys), 0)]
				log = append(log, fmt.Sprintf("%v fail in %q round %d", l, k.work, k.round))
				m.AddCulpritByRound(k.work, k.round, ps)
				if r.bad[k] == nil {
					r.bad[k] = map[string]bool{}
				}
				for _, id := range l {
					r.bad[k][id] = true
				}
			} else {
				log = append(log, fmt.Sprintf("%v fail before the execution", l))
				m.AddPreExecutionCulprit(ps)
				r.pre = append(r.pre, l...)
			}
			for i := range ps { // the list stays the caller's
				ps[i] = blameParty("other")
			}
			r.check(m, log)
		}
		mc.Outcome("%v", log)
	}
}

func blameConc() {
	m := blame.NewManager()
	k := blameKeys[0]
	parties := map[string]*tss.PartyID{"x": blameParty("x"), "y": blameParty("y"), "z": blameParty("z")}
	gs := []*mc.G{
		mc.GoNamed("x", func() {
			m.AddSender(k.work, k.round, "x")
			m.AddPreExecutionCulprit([]*tss.PartyID{parties["x"], parties["z"]})
		}),
		mc.GoNamed("y", func() {
			m.AddSender(k.work, k.round, "y")
			m.AddCulpritByRound(k.work, k.round, []*tss.PartyID{parties["x"]})
		}),
		mc.GoNamed("y2", func() {
			m.AddPreExecutionCulprit([]*tss.PartyID{parties["y"]})
			m.AddCulpritByRound(k.work, k.round, []*tss.PartyID{parties["y"]})
		}),
		mc.GoNamed("get", func() {
			n := len(m.GetRoundCulprits(k.work, k.round, parties))
			mc.Check(n >= 1, "culprits", "the silent party is not listed")
			for _, p := range m.GetPreExecutionCulprits() {
				mc.Check(p != nil && parties[p.Id] == p, "pre-execution", "a made-up culprit is listed")
			}
		}),
	}
	for _, g := range gs {
		g.Join()
	}
	got := blameIds(m.GetRoundCulprits(k.work, k.round, parties))
	sort.Strings(got)
	mc.Check(strings.Join(got, " ") == "x y z", "lost", "after concurrent calls the culprits are %v", got)
	pre := blameIds(m.GetPreExecutionCulprits())
	mc.Check(strings.Join(pre, " ") == "x z y" || strings.Join(pre, " ") == "y x z", "lost", "after concurrent calls the culprits before the execution are %v", pre)
	mc.Outcome("%v", pre)
}

func init() {
	assume("C33", "The bookkeeping is driven directly; no node of the pinned tree uses it in its replies.")
	register("C33",
		&mc.Scenario{Name: "blame-seq3", Sched: mc.Fixed, Bounds: []int{0}, Body: blameSeq(3)},
		&mc.Scenario{Name: "blame-seq4", Deep: true, Sched: mc.Fixed, Bounds: []int{0}, Body: blameSeq(4)},
		&mc.Scenario{Name: "blame-conc", Sched: mc.Preempt, MapFree: true, Race: true, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: blameConc},
	)
}
