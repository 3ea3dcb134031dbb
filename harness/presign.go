package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sisu-network/dheart/core/components"
	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C18, C19 presigned values

var pSets = [][]int{{0, 1}, {1, 2}, {0, 1, 2}, {0, 2}}

// pman is a presign manager over a database that survives restarts.
type pman struct {
	d      *memDB
	m      components.AvailablePresigns
	handed map[string]bool
	n      int
}

func (p *pman) parties() int {
	if p.n > 0 {
		return p.n
	}
	return 3
}

func newPman() *pman {
	p := &pman{d: newMemDB(), handed: map[string]bool{}}
	p.restart()
	return p
}

// restart makes a new manager on the same database, as a restarted node does.
func (p *pman) restart() { p.m = components.NewAvailPresignManager(p.d) }

func availMap(set []int) map[string]*tss.PartyID {
	m := map[string]*tss.PartyID{}
	for _, i := range set {
		m[pid(i)] = allNodes[i].PartyId
	}
	return m
}

func presignData(work string, n int) (o []*ecsigning.SignatureData_OneRoundData) {
	for k := 0; k < n; k++ {
		o = append(o, tssfake.OneRound(fmt.Sprintf("%s-%d", work, k), pid(0)))
	}
	return
}

func (p *pman) add(work string, set []int, n int) {
	var ids []*tss.PartyID
	for i := len(set) - 1; i >= 0; i-- {
		ids = append(ids, allNodes[set[i]].PartyId)
	}
	p.m.AddPresign(work, ids, presignData(work, n))
}

type taken struct {
	batch int
	avail []int
	ids   []string
	pids  []string
}

func (p *pman) take(batch int, avail []int) taken {
	ids, pids := p.m.GetAvailablePresigns(batch, p.parties(), availMap(avail))
	t := taken{batch: batch, avail: avail, ids: append([]string(nil), ids...)}
	for _, x := range pids {
		if x == nil {
			mc.Fail("nil-party", "a party of the offered set %v is nil", ids)
		}
		t.pids = append(t.pids, x.Id)
	}
	sort.Strings(t.pids)
	return t
}

// checkOnce: what was handed out is new, complete, and on record as used.
func (p *pman) checkOnce(t taken) {
	if len(t.ids) == 0 {
		return
	}
	mc.Check(len(t.ids) == t.batch, "count", "%d values handed out for a batch of %d", len(t.ids), t.batch)
	for _, id := range t.ids {
		mc.Check(!p.handed[id], "reuse", "presigned value %s is handed out twice", id)
		p.handed[id] = true
		x := p.d.find(id)
		mc.Check(x != nil, "unknown", "value %s was never stored", id)
		mc.Check(x.used, "not-recorded", "value %s is handed out before it is on record as used", id)
	}
}

// checkFits: the values belong to the offered parties, all of which are available.
func (p *pman) checkFits(t taken) {
	if len(t.ids) == 0 {
		return
	}
	av := availMap(t.avail)
	for _, x := range t.pids {
		mc.Check(av[x] != nil, "unavailable-party", "the offered parties include %s, which is not available", x)
	}
	for _, id := range t.ids {
		x := p.d.find(id)
		mc.Check(x != nil && x.pids == strings.Join(t.pids, ","), "wrong-parties", "value %s is offered together with parties %v", id, t.pids)
	}
}

// named is what a member of a work uses to take the values its leader has chosen.
type named interface {
	UsePresigns(presignIds []string) bool
}

func (p *pman) use(ids ...string) bool {
	n, ok := p.m.(named)
	if !ok {
		return false
	}
	if !n.UsePresigns(append([]string(nil), ids...)) {
		return false
	}
	p.checkOnce(taken{batch: len(ids), ids: ids})
	return true
}

// pUse: values chosen by a leader and values taken by this node exclude each other.
func pUse() {
	p := newPman()
	free := map[string]string{}
	m := pmodel{}
	for i, s := range []int{0, 0, 2, 1} {
		n := []int{1, 2, 5, 1}[i]
		p.d.addPresign(fmt.Sprintf("s%d", i), n, pSets[s], 0)
		m[setKey(pSets[s])] += n
		for k := 0; k < n; k++ {
			free[fmt.Sprintf("s%d-%d", i, k)] = setKey(pSets[s])
		}
	}
	if err := p.m.Load(); err != nil {
		mc.Fail("load", "%v", err)
	}
	lists := [][]string{{"s0-0"}, {"s1-1"}, {"s1-0", "s1-1"}, {"s0-0", "s1-0", "s1-1"}, {"s3-0"}, {"s2-4", "s2-0"}, {"s2-0", "s2-1", "s2-2", "s2-3", "s2-4"},
		{"s2-3", "s0-0"}, {"absent"}, {"s1-0", "absent"}, {"s0-0", "s0-0"}}
	for k := 0; k < 3; k++ {
		switch c := mc.Choose(len(lists)+4, 0); {
		case c < len(lists):
			ok, set := true, free[lists[c][0]]
			for i, id := range lists[c] {
				ok = ok && free[id] != ""
				for _, x := range lists[c][:i] {
					ok = ok && x != id
				}
				if free[id] != set {
					set = ""
				}
			}
			got := p.use(lists[c]...)
			mc.Note("use %v: %v", lists[c], got)
			mc.Check(ok || !got, "reuse", "values %v are given to a work, although not all of them are free", lists[c])
			if got {
				for _, id := range lists[c] {
					m[free[id]]--
					delete(free, id)
				}
			} else if _, can := p.m.(named); can && ok && set != "" {
				mc.Fail("refused", "free values %v of the same parties are not given to a work", lists[c])
			}
		case c == len(lists):
			p.restart()
			if err := p.m.Load(); err != nil {
				mc.Fail("load", "%v", err)
			}
		default:
			n := []int{1, 2, 4}[c-len(lists)-1]
			t := p.take(n, []int{0, 1, 2})
			mc.Note("take %d: %v", n, t.ids)
			p.checkOnce(t)
			p.checkFits(t)
			for _, id := range t.ids {
				m[free[id]]--
				delete(free, id)
			}
		}
	}
	p.drain(m)
}

// model of the stored values: count of free values per set
type pmodel map[string]int

func setKey(s []int) string {
	var ids []string
	for _, i := range s {
		ids = append(ids, pid(i))
	}
	return pidString(ids)
}

func (m pmodel) fits(batch int, avail []int) bool {
	av := availMap(avail)
	for k, n := range m {
		ok := n >= batch
		for _, x := range strings.Split(k, ",") {
			ok = ok && av[x] != nil
		}
		if ok {
			return true
		}
	}
	return false
}

type pop struct {
	kind  string // add, take, load
	set   []int
	n     int
	work  string
	res   taken
	ids   []string // use
	got   bool
	start int
	end   int
}

// apply the operation to the model; false if its result is impossible there
func (m pmodel) apply(o *pop) bool {
	switch o.kind {
	case "add":
		m[setKey(o.set)] += o.n
	case "use":
		if o.got {
			m[setKey(o.set)] -= len(o.ids)
		}
		return m[setKey(o.set)] >= 0
	case "take":
		if len(o.res.ids) == 0 {
			return !m.fits(o.n, o.set)
		}
		k := strings.Join(o.res.pids, ",")
		if m[k] < o.n {
			return false
		}
		m[k] -= o.n
	}
	return true
}

func (m pmodel) copy() pmodel {
	c := pmodel{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// linearizable: some order of the operations, consistent with their times, explains the results.
func linearizable(m pmodel, ops []*pop) bool {
	if len(ops) == 0 {
		return true
	}
	for i, o := range ops {
		first := true
		for j, x := range ops {
			if j != i && x.end < o.start {
				first = false
			}
		}
		if !first {
			continue
		}
		c := m.copy()
		if !c.apply(o) {
			continue
		}
		rest := append(append([]*pop(nil), ops[:i]...), ops[i+1:]...)
		if linearizable(c, rest) {
			return true
		}
	}
	return false
}

// left counts what can still be taken, per set, and checks it on the way
func (p *pman) drain(m pmodel) {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		var set []int
		for _, x := range strings.Split(k, ",") {
			set = append(set, nodeIdx(x))
		}
		for {
			t := p.take(1, set)
			p.checkOnce(t)
			p.checkFits(t)
			if len(t.ids) == 0 {
				break
			}
			mc.Check(m[strings.Join(t.pids, ",")] > 0, "extra", "a value of %v is offered although none is left", t.pids)
			m[strings.Join(t.pids, ",")]--
		}
	}
	for _, k := range keys {
		mc.Check(m[k] == 0, "lost", "%d values of %s are stored, unused, and never offered", m[k], k)
	}
}

// histories: sequences of additions, loads and takes, one after another
func pHist(depth int, restarts bool) func() {
	return func() {
		p := newPman()
		m := pmodel{}
		var log []string
		works := 0
		for s := 0; s < depth; s++ {
			c := mc.Choose(9, 0)
			switch {
			case c < 3:
				works++
				p.add(fmt.Sprintf("w%d", works), pSets[c], 1+works%2)
				m[setKey(pSets[c])] += 1 + works%2
				log = append(log, fmt.Sprintf("add %v x%d", pSets[c], 1+works%2))
			case c == 3:
				if restarts {
					p.restart()
				}
				if err := p.m.Load(); err != nil {
					mc.Fail("load", "%v", err)
				}
				log = append(log, "load")
			default:
				a := [][]int{{0, 1}, {0, 1, 2}, {1, 2}, {0, 1, 2}, {0, 2}}[c-4]
				n := []int{1, 2, 1, 3, 1}[c-4]
				fit := m.fits(n, a)
				t := p.take(n, a)
				log = append(log, fmt.Sprintf("take %d of %v: %v", n, a, t.ids))
				mc.Note("%v", log)
				p.checkOnce(t)
				p.checkFits(t)
				mc.Check(len(t.ids) > 0 == fit, "offer", "after %v: fitting set %v, offered %v", log, fit, t.ids)
				if !fit {
					mc.Check(len(t.pids) == 0, "parties-without-values", "parties %v offered without values", t.pids)
				} else {
					m[strings.Join(t.pids, ",")] -= n
				}
			}
		}
		p.drain(m)
	}
}

// schedules: concurrent operations
func pConc(prep func(p *pman, m pmodel), ops func() []*pop) func() {
	return func() {
		p := newPman()
		m := pmodel{}
		prep(p, m)
		if err := p.m.Load(); err != nil {
			mc.Fail("load", "%v", err)
		}
		os := ops()
		clock := 0
		var gs []*mc.G
		for _, o := range os {
			o := o
			gs = append(gs, mc.GoNamed(o.kind, func() {
				clock++
				o.start = clock
				switch o.kind {
				case "add":
					p.add(o.work, o.set, o.n)
				case "load":
					if err := p.m.Load(); err != nil {
						mc.Fail("load", "%v", err)
					}
				case "take":
					o.res = p.take(o.n, o.set)
				case "use":
					o.got = p.use(o.ids...)
				}
				clock++
				o.end = clock
			}))
		}
		for _, g := range gs {
			g.Join()
		}
		out := ""
		for _, o := range os {
			if o.kind == "take" {
				p.checkOnce(o.res)
				p.checkFits(o.res)
				out += fmt.Sprint(len(o.res.ids), " ")
			} else if o.kind == "use" {
				out += fmt.Sprint(o.got, " ")
			}
		}
		mc.Check(linearizable(m, os), "not-atomic", "no order of the operations explains the results %s", out)
		for _, o := range os {
			if o.kind == "add" {
				m[setKey(o.set)] += o.n
			} else if o.kind == "take" && len(o.res.ids) > 0 {
				m[strings.Join(o.res.pids, ",")] -= o.n
			} else if o.got {
				m[setKey(o.set)] -= len(o.ids)
			}
		}
		p.drain(m)
		mc.Outcome("%s", out)
	}
}

func stock(sets ...int) func(p *pman, m pmodel) {
	return func(p *pman, m pmodel) {
		for i, s := range sets {
			p.d.addPresign(fmt.Sprintf("s%d", i), 1, pSets[s], 0)
			m[setKey(pSets[s])]++
		}
	}
}

func takeOp(n int, set ...int) *pop { return &pop{kind: "take", n: n, set: set} }

// failures: database failures and crashes at every call, with restarts
func pFault(depth int, conc bool) func() {
	return func() {
		p := newPman()
		crashed := false
		p.d.fail = func(op string) bool {
			mc.Point("database " + op)
			switch mc.Choose(3, 1) {
			case 1:
				return true
			case 2: // the node stops before the call takes effect
				crashed = true
				mc.Block("crashed", func() bool { return false })
			}
			return false
		}
		p.d.onOp = func(op string) {
			if mc.Choose(2, 1) == 1 { // the node stops right after the effect
				crashed = true
				mc.Block("crashed", func() bool { return false })
			}
		}
		for i, s := range []int{0, 0, 2, 2} {
			p.d.addPresign(fmt.Sprintf("s%d", i), 1, pSets[s], 0)
		}
		nAdd := 0
		for s := 0; s < depth; s++ {
			crashed = false
			var gs []*mc.G
			n := 1
			if conc {
				n = 2
			}
			var ts []taken
			for k := 0; k < n; k++ {
				c := mc.Choose(6, 0)
				gs = append(gs, mc.GoNamed("op", func() {
					switch c {
					case 0:
						p.m.Load()
					case 1:
						ts = append(ts, p.take(1, []int{0, 1, 2}))
					case 2:
						ts = append(ts, p.take(2, []int{0, 1, 2}))
					case 3:
						nAdd++
						p.add(fmt.Sprintf("a%d", nAdd), pSets[0], 2)
					case 4:
						p.use("s0-0")
					case 5:
						p.use("s3-0", "s2-0")
					}
				}))
			}
			mc.Settle()
			for _, t := range ts { // what was returned before a crash may have been used
				p.checkOnce(t)
				p.checkFits(t)
			}
			if !crashed {
				for _, g := range gs {
					mc.Check(g.Done(), "stuck", "a call of the presign manager never returns")
				}
			}
			if crashed || mc.Choose(2, 0) == 1 {
				p.restart()
				crashed = false
				f, o := p.d.fail, p.d.onOp
				p.d.fail, p.d.onOp = nil, nil
				p.d.mu = mc.Mutex{}
				if err := p.m.Load(); err != nil {
					mc.Fail("load", "%v", err)
				}
				p.d.fail, p.d.onOp = f, o
			}
		}
		p.d.fail, p.d.onOp = nil, nil
		p.restart()
		if err := p.m.Load(); err != nil {
			mc.Fail("load", "%v", err)
		}
		for {
			t := p.take(1, []int{0, 1, 2})
			p.checkOnce(t)
			p.checkFits(t)
			if len(t.ids) == 0 {
				break
			}
		}
	}
}

// a failing save makes nothing available
func pAddFails() {
	p := newPman()
	fail := mc.Choose(2, 0) == 1
	p.d.fail = func(op string) bool { return fail && op == "SavePresignData" }
	n := 1 + mc.Choose(3, 0)
	set := pSets[mc.Choose(4, 0)]
	p.add("w", set, n)
	p.d.fail = nil
	m := pmodel{}
	if !fail {
		m[setKey(set)] = n
	}
	if mc.Choose(2, 0) == 1 {
		p.restart()
		if err := p.m.Load(); err != nil {
			mc.Fail("load", "%v", err)
		}
	}
	if fail {
		m[setKey(set)] = 0
	}
	p.drain(m)
}

// used presigned values of all protocol runs of this node
func (w *world) presignUses() map[string][]string {
	u := map[string][]string{}
	for _, p := range tssfake.C().Parties {
		if p.Proto == tssfake.EcOneRound {
			id := string(p.Pre.GetRSigmaI())
			u[id] = append(u[id], p.Session)
		}
	}
	return u
}

// whole works with presigned values on one node: led by it, or by a peer that names the values
func pEngine(leaders []int, sameIds bool) func() { return pEngineF(leaders, sameIds, false, true) }

func pEngineF(leaders []int, sameIds, faults, once bool) func() {
	return func() {
		w := newWorld(3, 0)
		d := w.nodes[0].db
		started := false
		d.fail = func(op string) bool { return faults && started && mc.Choose(2, 1) == 1 }
		d.addPresign("pa", 2, []int{0, 1, 2}, 0)
		eng := w.boot(0)
		var works []string
		named := [][]string{{"pa-0"}, {"pa-1"}}
		if sameIds {
			named[1] = named[0]
		}
		second := mc.Choose(2, 0) == 1 // one after the other or at the same time
		for k, l := range leaders {
			work := w.workLed(fmt.Sprintf("sig%d", k), l)
			works = append(works, work)
			started = true
			if err := eng.AddRequest(w.request(0, wtypes.EcSigning, work, 1)); err != nil {
				mc.Fail("refused", "%v", err)
			}
			if l != 0 {
				w.nodes[l].sent["sel"+work] = true
				w.announcePresign(l, work, named[k])
			}
			if second {
				mc.Quiesce()
				if k == 0 && mc.Choose(2, 0) == 1 { // restart in between
					started = false
					eng = w.boot(0)
				}
			}
		}
		mc.Quiesce()
		out := ""
		for _, work := range works {
			os := w.outcomesOf(0, work)
			mc.Check(len(os) == 1, "outcome-count", "%s reported %v", work, os)
			out += os[0].kind + " "
			w.checkValid(os[0])
		}
		for id, ss := range w.presignUses() {
			if !once {
				break
			}
			mc.Check(len(ss) <= 1, "reuse", "presigned value %s is used by %d signings", id, len(ss))
			x := d.find(id)
			mc.Check(x != nil && x.used, "not-recorded", "value %s was used but is not on record as used", id)
		}
		mc.Outcome("%s", out)
	}
}

// announcePresign is a scripted leader's choice of presigned values.
func (w *world) announcePresign(l int, work string, ids []string) {
	all := []int{0, 1, 2}
	var ps []string
	for _, i := range all {
		ps = append(ps, pid(i))
	}
	w.nodes[l].put(0, common.NewPreExecOutputMessage(pid(l), "", work, true, ids, pidsOf(all)))
	for _, i := range all {
		if w.nodes[i].eng == nil {
			w.nodes[i].run(work, ps, ids)
		}
	}
}

func init() {
	_ = db.ErrNotFound
	two := func() []*pop { return []*pop{takeOp(1, 0, 1, 2), takeOp(1, 0, 1, 2)} }
	mix := func(a ...*pop) func() []*pop {
		return func() []*pop {
			var o []*pop
			for _, x := range a {
				c := *x
				o = append(o, &c)
			}
			return o
		}
	}
	addOp := &pop{kind: "add", work: "new", set: pSets[0], n: 2}
	loadOp := &pop{kind: "load"}
	useOp := func(ids ...string) *pop { return &pop{kind: "use", set: pSets[0], ids: ids} }
	conc := map[string]func(){
		"two-one":    pConc(stock(0), two),
		"two-two":    pConc(stock(0, 0), two),
		"two-other":  pConc(stock(0, 2), two),
		"batches":    pConc(stock(0, 0, 0), mix(takeOp(2, 0, 1, 2), takeOp(2, 0, 1, 2))),
		"batches2":   pConc(stock(0, 0, 2, 2), mix(takeOp(2, 0, 1, 2), takeOp(1, 0, 1))),
		"three":      pConc(stock(0, 0, 2), mix(takeOp(1, 0, 1, 2), takeOp(1, 0, 1, 2), takeOp(1, 0, 1, 2))),
		"add":        pConc(stock(), mix(takeOp(1, 0, 1, 2), addOp)),
		"add-two":    pConc(stock(0), mix(takeOp(1, 0, 1, 2), takeOp(2, 0, 1), addOp)),
		"load":       pConc(stock(0, 2), mix(takeOp(1, 0, 1, 2), loadOp)),
		"load-add":   pConc(stock(2), mix(addOp, loadOp)),
		"load-three": pConc(stock(0), mix(takeOp(1, 0, 1), loadOp, addOp)),
		"use-take":   pConc(stock(0, 0), mix(useOp("s0-0"), takeOp(1, 0, 1, 2))),
		"use-batch":  pConc(stock(0, 0, 0), mix(useOp("s0-0", "s1-0"), takeOp(2, 0, 1, 2))),
		"use-use":    pConc(stock(0, 0), mix(useOp("s0-0", "s1-0"), useOp("s1-0"))),
		"use-add":    pConc(stock(0), mix(useOp("s0-0"), addOp, takeOp(1, 0, 1))),
		"use-load":   pConc(stock(0, 2), mix(useOp("s0-0"), loadOp)),
		"add-add":    pConc(stock(), mix(addOp, &pop{kind: "add", work: "other", set: pSets[0], n: 1})),
	}
	var names []string
	for n := range conc {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		register("C19", &mc.Scenario{Name: "pre-" + n, Sched: mc.Preempt, Race: true, MapDev: true, Bounds: []int{1, 2, 3}, BoundsDeep: []int{1, 2, 3, 4, 5}, Body: conc[n]})
	}
	for _, n := range []string{"two-one", "two-two", "batches", "three", "add-two", "load", "load-three", "use-take", "use-batch", "use-use", "use-add", "use-load"} {
		register("C18", &mc.Scenario{Name: "once-" + n, Sched: mc.Preempt, Race: true, MapDev: true, Bounds: []int{1, 2, 3}, BoundsDeep: []int{1, 2, 3, 4, 5}, Body: conc[n]})
	}
	register("C19",
		&mc.Scenario{Name: "pre-hist3", Sched: mc.Fixed, MapDev: true, Bounds: []int{0, 1, 2}, Body: pHist(3, false)},
		&mc.Scenario{Name: "pre-hist5", Sched: mc.Fixed, Bounds: []int{0}, Body: pHist(5, false)},
		&mc.Scenario{Name: "pre-add-fails", Sched: mc.Fixed, MapDev: true, Bounds: []int{0, 1}, Body: pAddFails})
	register("C18",
		&mc.Scenario{Name: "once-use", Sched: mc.Fixed, MapDev: true, Bounds: []int{0, 1}, Body: pUse},
		&mc.Scenario{Name: "once-hist4", Sched: mc.Fixed, Bounds: []int{0}, Body: pHist(4, true)},
		&mc.Scenario{Name: "once-faults", Sched: mc.Coop, MapDev: true, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: pFault(3, false)},
		&mc.Scenario{Name: "once-faults-conc", Sched: mc.Delay, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: pFault(2, true)})
	for _, ls := range [][]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {1, 2}} {
		ls := ls
		nm := fmt.Sprintf("%d%d", ls[0], ls[1])
		register("C18", &mc.Scenario{Name: "once-fault-" + nm, Sched: mc.Coop, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: pEngineF(ls, false, true, true)})
		register("C06", &mc.Scenario{Name: "eng-presign-fault-" + nm, Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2, 3}, Body: pEngineF(ls, false, true, false)})
		register("C18", &mc.Scenario{Name: fmt.Sprintf("once-engine-%d%d", ls[0], ls[1]), Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: pEngine(ls, false)})
		if ls[0] != 0 && ls[1] != 0 {
			register("C18", &mc.Scenario{Name: fmt.Sprintf("once-named-%d%d", ls[0], ls[1]), Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: pEngine(ls, true)})
		}
	}
}
