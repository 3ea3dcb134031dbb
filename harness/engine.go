package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C06 one real engine among scripted peers

// etrace watches one real engine from outside.
type etrace struct {
	w        *world
	me       int
	start    map[string]int64 // first message of a work
	end      map[string]int64 // first outcome
	sub      map[string]int64 // accepted
	nact     int
	accepted map[string]int // times a request was accepted
	repeated bool           // requests are repeated
	act      map[string]bool
}

func newTrace(w *world, me int) *etrace {
	t := &etrace{accepted: map[string]int{}, w: w, me: me, start: map[string]int64{}, end: map[string]int64{}, sub: map[string]int64{}, act: map[string]bool{}}
	w.tap = func(from, to int, sm *common.SignedMessage) {
		if from == me {
			t.began(sm.TssMessage.WorkId, sm.TssMessage.Type)
		}
	}
	w.onOut = func(o outcome) {
		if o.node != me {
			return
		}
		if _, ok := t.end[o.work]; !ok {
			t.end[o.work] = mc.Now()
		}
		delete(t.act, o.work)
	}
	return t
}

func (t *etrace) began(work string, ty common.TssMessage_Type) {
	if ty == common.TssMessage_ASK_MESSAGE_REQUEST || ty == common.TssMessage_UPDATE_MESSAGES && t.start[work] != 0 {
		return
	}
	if _, ok := t.end[work]; ok {
		return
	}
	if _, ok := t.start[work]; !ok {
		t.start[work] = mc.Now()
		t.act[work] = true
		mc.Check(len(t.act) <= 2, "too-many-works", "%d works run at the same moment: %s", len(t.act), strings.Join(sortedSet(t.act), " "))
	}
}

func sortedSet(m map[string]bool) (s []string) {
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return
}

// checkSlots: whenever time passes while a work waits, two works are running.
func (t *etrace) checkSlots() {
	times := map[int64]bool{}
	for _, m := range []map[string]int64{t.start, t.end, t.sub} {
		for _, x := range m {
			times[x] = true
		}
	}
	var ts []int64
	for x := range times {
		ts = append(ts, x)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	for i := 0; i+1 < len(ts); i++ {
		a, b := ts[i], ts[i+1]
		run, wait := 0, ""
		for wk, s := range t.sub {
			st, ok := t.start[wk]
			en, done := t.end[wk]
			switch {
			case ok && st <= a && (!done || en >= b):
				run++
			case s <= a && (!ok || st >= b) && (!done || en >= b):
				wait = wk
			}
		}
		mc.Check(wait == "" || run >= 2, "slot-idle", "work %s waits although only %d works run", wait, run)
	}
}

type ework struct {
	id   string
	kind wtypes.WorkType
	out  bool // the scripted leader leaves us out
}

// addReq submits a request and notes whether it was accepted.
func (t *etrace) addReq(r *wtypes.WorkRequest) error {
	if _, ok := t.sub[r.WorkId]; !ok {
		t.sub[r.WorkId] = mc.Now()
	}
	err := t.w.nodes[t.me].eng.AddRequest(r)
	if err == nil {
		t.accepted[r.WorkId]++
	} else if !t.repeated {
		delete(t.sub, r.WorkId)
	}
	return err
}

// peers' behaviours
var peerModes = []string{"all answer", "all silent", "nobody answers YES", "one says nothing in the protocol"}

func (w *world) peerMode(m int) {
	for i, nd := range w.nodes {
		if nd.eng != nil || nd.db != nil {
			continue
		}
		switch m {
		case 1:
			nd.silent = true
		case 2:
			nd.no = true
		case 3:
			nd.mute = i == w.n-1
		}
	}
}

// checkFinal: every work ended once, with a valid outcome, the slots are free and the engine still works.
func (t *etrace) checkFinal(works []ework, mode int) {
	w, eng := t.w, t.w.nodes[t.me].eng
	var sum []string
	for _, x := range works {
		os := w.outcomesOf(t.me, x.id)
		mc.Check(t.accepted[x.id] > 0, "refused", "work %s (%s) is refused every time", x.id, kindName(x.kind))
		mc.Check(len(os) == t.accepted[x.id], "outcome-count", "work %s (%s), accepted %d times, ends with %d outcomes: %v", x.id, kindName(x.kind), t.accepted[x.id], len(os), os)
		for _, o := range os {
			w.checkValid(o)
			want := o.kind
			switch {
			case mode == 1:
				want = "fail"
			case mode == 2 && w.leader(x.id) == t.me:
				want = "fail"
			case mode == 0 && x.out && w.leader(x.id) != t.me:
				want = "notsel"
			case mode == 0 && (x.kind == wtypes.EcKeygen || x.kind == wtypes.EdKeygen):
				want = "keygen"
			case mode == 0:
				want = "sign"
			}
			mc.Check(o.kind == want, "outcome-kind", "work %s (%s, peers: %s) ends as %s, want %s", x.id, kindName(x.kind), peerModes[mode], o.kind, want)
			sum = append(sum, o.kind)
		}
	}
	for _, o := range w.nodes[t.me].outs {
		if o.kind == "keygen" || o.req == nil {
			continue
		}
		mc.Check(o.req.WorkId == o.work && (w.reqs[o.work] == nil || o.req.WorkType == w.reqs[o.work].WorkType), "outcome-request", "the outcome of %s carries the request of another work", o.work)
	}
	mc.Check(eng.GetActiveWorkerCount() == 0, "slot-leak", "%d works still active after all ended", eng.GetActiveWorkerCount())
	t.checkSlots()
	// the engine still takes work: two at once, both start
	w.peerMode(0)
	for _, nd := range w.nodes {
		nd.silent, nd.no, nd.mute = false, false, false
	}
	for _, k := range []wtypes.WorkType{wtypes.EcSigning, wtypes.EdKeygen} {
		id := w.workLed("after"+kindName(k), 1)
		if err := eng.AddRequest(w.request(t.me, k, id, 1)); err != nil {
			mc.Fail("refused", "a later request is refused: %v", err)
		}
		mc.Quiesce()
		os := w.outcomesOf(t.me, id)
		mc.Check(len(os) == 1 && (os[0].kind == "sign" || os[0].kind == "keygen"), "later-work", "a later work ends as %v", os)
	}
	mc.Check(eng.GetActiveWorkerCount() == 0, "slot-leak", "%d works still active after all ended", eng.GetActiveWorkerCount())
	sort.Strings(sum)
	mc.Outcome("%s: %s", peerModes[mode], strings.Join(sum, " "))
}

// engineRun: several works, submitted by ncall callers, some ids submitted twice.
func engineRun(kinds []wtypes.WorkType, leaders []int, callers int, dup bool, modes int) func() {
	return func() {
		w := newWorld(3, 0)
		t := newTrace(w, 0)
		mode := mc.Choose(modes, 0)
		w.peerMode(mode)
		w.boot(0)
		var works []ework
		for k, kind := range kinds {
			x := ework{id: w.workLed(fmt.Sprintf("w%d", k), leaders[k]), kind: kind}
			x.out = k == 1 && (kind == wtypes.EcSigning || kind == wtypes.EdSigning) && leaders[k] != 0
			if x.out {
				w.exclude[x.id] = true
			}
			works = append(works, x)
		}
		t.repeated = dup
		var gs []*mc.G
		for c := 0; c < callers; c++ {
			c := c
			gs = append(gs, mc.GoNamed(fmt.Sprintf("caller %d", c), func() {
				for k, x := range works {
					if k%callers != c {
						continue
					}
					if err := t.addReq(w.request(0, x.kind, x.id, 1)); err != nil && !dup {
						mc.Fail("refused", "request %s is refused: %v", x.id, err)
					}
				}
			}))
		}
		if dup {
			gs = append(gs, mc.GoNamed("repeat", func() {
				x := works[mc.Choose(len(works), 0)]
				mc.Block("submitted", func() bool { _, ok := t.sub[x.id]; return ok })
				t.addReq(w.request(0, x.kind, x.id, 1))
			}))
		}
		mc.Quiesce()
		for _, g := range gs {
			mc.Check(g.Done(), "blocked", "a call never returns: %s", g.Blocked())
		}
		t.checkFinal(works, mode)
	}
}

// refuseRun: invalid requests are refused, report nothing and take no slot.
func refuseRun() {
	w := newWorld(3, 0)
	t := newTrace(w, 0)
	eng := w.boot(0)
	kind := workKinds[mc.Choose(len(workKinds), 0)]
	good := w.workLed("good", 1)
	bad := w.workLed("bad", mc.Choose(2, 0))
	r := w.request(0, kind, bad, 1)
	delete(w.reqs, bad)
	what := mc.Choose(6, 0)
	if what >= 4 && !r.IsSigning() {
		what = 3
	}
	switch what {
	case 3: // nothing to do
		r.BatchSize, r.Messages, r.Chains = 0, nil, nil
	case 4: // nothing to sign with
		r.EcSigningInput, r.EdSigningInput = nil, nil
	case 5: // nothing to sign
		r.Messages = nil
	case 0:
		r.WorkType = wtypes.WorkType(77)
	case 1: // a participant nobody knows
		r.AllParties[2] = tss.NewPartyID("nobody", "", r.AllParties[2].KeyInt())
	case 2:
		x := allNodes[4].PartyId
		r.AllParties[1] = tss.NewPartyID(x.Id, x.Moniker, x.KeyInt())
	}
	var err error
	g := mc.GoNamed("bad caller", func() { err = eng.AddRequest(r) })
	g2 := mc.GoNamed("good caller", func() {
		if e := t.addReq(w.request(0, kind, good, 1)); e != nil {
			mc.Fail("refused", "a good request is refused: %v", e)
		}
	})
	mc.Quiesce()
	mc.Check(g.Done() && g2.Done(), "blocked", "a call never returns")
	mc.Check(err != nil, "accepted", "an invalid request (%d) is accepted", what)
	mc.Check(len(w.outcomesOf(0, bad)) == 0, "refused-outcome", "a refused request reports an outcome")
	mc.Check(t.start[bad] == 0 || len(t.start) < 2, "refused-started", "a refused request is started")
	t.checkFinal([]ework{{id: good, kind: kind}}, 0)
}

func init() {
	ek, es, dk, ds := wtypes.EcKeygen, wtypes.EcSigning, wtypes.EdKeygen, wtypes.EdSigning
	K := func(k ...wtypes.WorkType) []wtypes.WorkType { return k }
	register("C06",
		&mc.Scenario{Name: "eng-four", Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: engineRun(K(es, ds, dk, ek), []int{0, 1, 2, 1}, 2, false, 4)},
		&mc.Scenario{Name: "eng-eddsa", Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: engineRun(K(dk, ds, ds), []int{0, 1, 2}, 3, false, 4)},
		&mc.Scenario{Name: "eng-dup", Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: engineRun(K(ds, dk, ds), []int{0, 1, 2}, 2, true, 2)},
		&mc.Scenario{Name: "eng-slots", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: engineRun(K(ds, ds, dk), []int{1, 1, 2}, 3, false, 2)},
		&mc.Scenario{Name: "eng-slotsd", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: engineRun(K(ds, ds, ds), []int{0, 1, 1}, 1, true, 1)},
		&mc.Scenario{Name: "eng-refuse", Sched: mc.Coop, Bounds: []int{0, 1}, Body: refuseRun},
	)
	for _, k := range workKinds {
		register("C06", &mc.Scenario{Name: "eng-one-" + kindName(k), Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: engineRun(K(k), []int{1}, 1, false, 4)})
	}
}
