package main

import (
	"fmt"
	"strings"
	"time"

	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
)

// ------------------------------------------------------------ C31 agreement of full nodes

// agreement describes a run: n engines, the works submitted by every node that is up, all messages delivered.
type agreement struct {
	n        int
	kinds    []wtypes.WorkType
	batch    int
	down     bool // any set of nodes is down, and comes up later for another work
	order    bool // every node submits the works in any order
	presigns bool // the nodes share presigned values of any two sets
	late     []time.Duration
	led      bool    // works led by any node
	thr      int     // threshold, if not the usual one
	downs    [][]int // instead of any set of nodes
	repeat   int     // the same works are submitted again so many times after they ended
	mute     bool    // nodes that are down only do not submit the works
}

func (a agreement) run() {
	n := a.n
	isOff := map[int]bool{}
	if len(a.downs) > 0 {
		for _, i := range a.downs[mc.Choose(len(a.downs), 0)] {
			isOff[i] = true
		}
	} else if a.down {
		m := mc.Choose(1<<uint(n)-2, 0) + 1 // neither nobody nor everybody
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				isOff[i] = true
			}
		}
	}
	var real []int
	for i := 0; i < n; i++ {
		real = append(real, i)
	}
	w := newWorld(n, real...)
	w.thr = a.thr
	if a.presigns {
		sets := [][]int{{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}}
		first := mc.Choose(len(sets), 0)
		second := mc.Choose(len(sets)+1, 0)
		for i := range real {
			for k, x := range []int{first, second} {
				if x == len(sets) {
					continue
				}
				for _, j := range sets[x] {
					if i == j {
						w.nodes[i].db.addPresign(fmt.Sprintf("p%d", k), a.batch, sets[x], i)
					}
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if a.mute || !isOff[i] {
			w.boot(i)
		}
	}
	var works []string
	for k := range a.kinds {
		id := fmt.Sprintf("w%d", k)
		if a.led {
			id = w.workLed(id, mc.Choose(n, 0))
		}
		works = append(works, id)
	}
	for i := 0; i < n; i++ {
		i := i
		if isOff[i] {
			continue
		}
		wait, flip := time.Duration(0), 0
		if len(a.late) > 0 {
			wait = a.late[mc.Choose(len(a.late), 0)]
		}
		if a.order {
			flip = mc.Choose(len(works), 0)
		}
		mc.GoNamed(fmt.Sprintf("node %d", i), func() {
			if wait > 0 {
				mc.Sleep(int64(wait))
			}
			for k := range works {
				k := (k + flip) % len(works)
				if err := w.nodes[i].eng.AddRequest(w.request(i, a.kinds[k], works[k], a.batch)); err != nil {
					mc.Fail("refused", "node %d refuses %s: %v", i, works[k], err)
				}
			}
		})
	}
	mc.Quiesce()
	latest := time.Duration(0)
	for _, d := range a.late {
		if d > latest {
			latest = d
		}
	}
	w.checkAgreement(a.kinds, works, isOff, latest)
	repeat := a.repeat
	for _, nd := range w.nodes {
		for _, o := range nd.outs {
			if a.mute && o.kind != "fail" {
				repeat = 0 // only what failed is tried again
			}
		}
	}
	for r := 0; r < repeat; r++ {
		for _, nd := range w.nodes {
			nd.outs = nil
		}
		for i := 0; i < n; i++ {
			i := i
			mc.GoNamed(fmt.Sprintf("node %d", i), func() {
				for k, kind := range a.kinds {
					if err := w.nodes[i].eng.AddRequest(w.request(i, kind, works[k], a.batch)); err != nil {
						mc.Fail("refused", "node %d refuses %s again: %v", i, works[k], err)
					}
				}
			})
		}
		mc.Quiesce()
		w.checkAgreement(a.kinds, works, nil, 0)
	}
	if !a.down || a.mute {
		return
	}
	// now everybody
	for i := range isOff {
		w.boot(i)
	}
	var again []string
	for k := range a.kinds {
		again = append(again, fmt.Sprintf("later%d", k))
	}
	for i := 0; i < n; i++ {
		i := i
		mc.GoNamed(fmt.Sprintf("node %d", i), func() {
			for k, kind := range a.kinds {
				if err := w.nodes[i].eng.AddRequest(w.request(i, kind, again[k], a.batch)); err != nil {
					mc.Fail("refused", "node %d refuses %s: %v", i, again[k], err)
				}
			}
		})
	}
	mc.Quiesce()
	w.checkAgreement(a.kinds, again, nil, 0)
}

func (w *world) checkAgreement(kinds []wtypes.WorkType, works []string, isOff map[int]bool, latest time.Duration) {
	up := w.n - len(isOff)
	var sum []string
	for k, work := range works {
		need := w.threshold() + 1
		if kinds[k] == wtypes.EcKeygen || kinds[k] == wtypes.EdKeygen {
			need = w.n
		}
		feasible := up >= need && !isOff[w.leader(work)]
		succ := 0
		s := ""
		for i := 0; i < w.n; i++ {
			if isOff[i] {
				s += "-"
				continue
			}
			os := w.outcomesOf(i, work)
			mc.Check(len(os) == 1, "outcome-count", "node %d reports %d outcomes for %s (%s): %v", i, len(os), work, kindName(kinds[k]), os)
			o := os[0]
			s += o.kind[:1]
			w.checkValid(o)
			switch o.kind {
			case "keygen", "sign":
				succ++
			case "notsel":
			default:
				mc.Check(!feasible, "failed", "node %d fails %s (%s) although all participants submitted it and are connected", i, work, kindName(kinds[k]))
			}
			if !feasible {
				mc.Check(o.kind == "fail", "infeasible-success", "node %d reports %s for %s with too few participants", i, o.kind, work)
				lim := w.t0 + int64(w.cfg.SelectionMemberTimeout+latest)
				mc.Check(o.at <= lim, "late", "node %d ends %s only at %d", i, work, o.at)
			}
			mc.Check(w.nodes[i].eng.GetActiveWorkerCount() == 0, "slot-leak", "node %d still has %d active works", i, w.nodes[i].eng.GetActiveWorkerCount())
		}
		if feasible {
			mc.Check(succ >= need, "participants", "only %d nodes ended %s (%s) successfully, want at least %d", succ, work, kindName(kinds[k]), need)
		}
		sum = append(sum, s)
	}
	mc.Outcome("%s", strings.Join(sum, " "))
}

func init() {
	reg := func(name string, sched mc.SchedMode, quick, deep []int, a agreement) {
		register("C31", &mc.Scenario{Name: name, Sched: sched, Bounds: quick, BoundsDeep: deep, Deep: quick == nil, Body: a.run})
	}
	one := func(k wtypes.WorkType) []wtypes.WorkType { return []wtypes.WorkType{k} }
	b0, b01, b012 := []int{0}, []int{0, 1}, []int{0, 1, 2}
	for i, k := range workKinds {
		nm := kindName(k)
		reg("net3-"+nm, mc.Delay, b01, b012, agreement{n: 3, kinds: one(k), batch: 1})
		reg("netc3-"+nm, mc.Coop, b01, b012, agreement{n: 3, kinds: one(k), batch: 1})
		reg("net-down3-"+nm, mc.Coop, b0, b01, agreement{n: 3, kinds: one(k), batch: 1, down: true, led: true})
		reg("net-down2-"+nm, mc.Coop, b01, b012, agreement{n: 2, kinds: one(k), batch: 1, down: true, led: true})
		reg("net-late-"+nm, mc.Coop, b0, b01, agreement{n: 3, kinds: one(k), batch: 1, led: true, late: []time.Duration{0, 3 * time.Second, 9 * time.Second}})
		reg("net4-"+nm, mc.Coop, b0, b01, agreement{n: 4, kinds: one(k), batch: 1, led: true})
		reg("net-down4-"+nm, mc.Coop, b0, b01, agreement{n: 4, kinds: one(k), batch: 1, led: true, down: true})
		if k == wtypes.EcSigning || k == wtypes.EdSigning {
			reg("net-batch-"+nm, mc.Coop, b01, b012, agreement{n: 3, kinds: one(k), batch: 2, led: true})
		}
		for _, o := range workKinds[i:] {
			reg("net-two2-"+nm+"-"+kindName(o), mc.Coop, b01, b012, agreement{n: 2, kinds: []wtypes.WorkType{k, o}, batch: 1, order: true})
			reg("net-two3-"+nm+"-"+kindName(o), mc.Coop, b0, b01, agreement{n: 3, kinds: []wtypes.WorkType{k, o}, batch: 1, order: true})
		}
	}
	for _, k := range workKinds {
		nm := kindName(k)
		reg("net-crowd7-"+nm, mc.Coop, b0, b0, agreement{n: 7, kinds: one(k), batch: 1, down: true, downs: [][]int{{}, {0}, {5, 6}, {2, 3, 4}, {1, 2, 3, 4, 5}}})
		reg("net-crowd14-"+nm, mc.Coop, b0, b0, agreement{n: 14, kinds: one(k), batch: 1, downs: [][]int{{}, {13}, {0, 3, 4}}})
		if k == wtypes.EcSigning || k == wtypes.EdSigning {
			reg("net-low4-"+nm, mc.Coop, b0, b01, agreement{n: 4, thr: 1, kinds: one(k), batch: 1, led: true, down: true})
			reg("net-low5-"+nm, mc.Coop, b0, b0, agreement{n: 5, thr: 2, kinds: one(k), batch: 1, down: true, late: []time.Duration{0, 3 * time.Second}})
			reg("net-batch24-"+nm, mc.Coop, b0, b0, agreement{n: 3, kinds: one(k), batch: 24, led: true})
		}
	}
	for _, k := range workKinds {
		reg("net-repeat3-"+kindName(k), mc.Coop, b01, b012, agreement{n: 3, kinds: one(k), batch: 1, repeat: 1})
		reg("net-repeat2-"+kindName(k), mc.Coop, b01, b012, agreement{n: 2, kinds: one(k), batch: 1, repeat: 2})
	}
	for _, k := range workKinds {
		reg("net-mute4-"+kindName(k), mc.Coop, b0, b01, agreement{n: 4, kinds: one(k), batch: 1, led: true, repeat: 1, down: true, mute: true})
		reg("net-mute3-"+kindName(k), mc.Coop, b01, b012, agreement{n: 3, kinds: one(k), batch: 1, led: true, repeat: 1, down: true, mute: true})
	}
	var many []wtypes.WorkType
	for i := 0; i < 20; i++ {
		many = append(many, workKinds[(i*3+1)%4])
	}
	reg("net-many", mc.Coop, b0, b0, agreement{n: 3, kinds: many, batch: 1})
	reg("net-presigns", mc.Coop, b01, b012, agreement{n: 3, kinds: one(wtypes.EcSigning), batch: 1, led: true, presigns: true})
	reg("net-presigns-down", mc.Coop, b0, b01, agreement{n: 3, kinds: one(wtypes.EcSigning), batch: 1, presigns: true, down: true})
	reg("net-presigns-batch", mc.Coop, b01, b012, agreement{n: 3, kinds: one(wtypes.EcSigning), batch: 2, presigns: true})
}
