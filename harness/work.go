package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/sisu-network/dheart/core/components"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// One real worker; everything around it is scripted.

type wmsg struct {
	to   []string
	uni  bool
	m    *common.TssMessage
	at   int64
	snap string // pids of a selection at the moment it was sent
}

type wres struct {
	kind string // result, fail, notsel
	at   int64
	r    *worker.WorkerResult
	req  *wtypes.WorkRequest
}

type wkr struct {
	w     *world
	me    int
	kind  wtypes.WorkType
	work  string
	batch int
	req   *wtypes.WorkRequest
	db    *memDB
	pm    components.AvailablePresigns
	wk    worker.Worker
	sent  []wmsg
	res   []wres
	t0    int64
	cfg   config.TimeoutConfig
	onMsg func(m wmsg)
	onRes func(r wres)
	getPO func(ids []string) []*ecsigning.SignatureData_OneRoundData
	seq   int
}

// newWkr: node me of n, doing one work led by node leader.
func newWkr(n, me, leader int, kind wtypes.WorkType, batch int) *wkr {
	return newWkrT(n, 0, me, leader, kind, batch)
}

// newWkrT: the same with a threshold of t.
func newWkrT(n, t, me, leader int, kind wtypes.WorkType, batch int) *wkr {
	w := newWorld(n)
	w.thr = t
	k := &wkr{w: w, me: me, kind: kind, batch: batch, cfg: testCfg()}
	k.cfg.KeygenJobTimeout = 15 * time.Second
	k.cfg.SigningJobTimeout = 15 * time.Second
	k.work = w.workLed("w", leader)
	k.db = newMemDB()
	k.req = w.request(me, kind, k.work, batch)
	k.pm = components.NewAvailPresignManager(k.db)
	return k
}

func (k *wkr) make() {
	if err := k.pm.Load(); err != nil {
		mc.Fail("harness", "load: %v", err)
	}
	me := allNodes[k.me].PartyId
	my := tss.NewPartyID(me.Id, me.Moniker, me.KeyInt())
	if k.req.IsKeygen() {
		k.wk = worker.NewKeygenWorker(k.req, my, k, k.db, k, k.cfg)
	} else {
		k.wk = worker.NewSigningWorker(k.req, my, k, k.db, k, k.cfg, 4, k.pm)
	}
	k.t0 = mc.Now()
}

func (k *wkr) record(to []*tss.PartyID, uni bool, m *common.TssMessage) {
	mc.Point("send")
	x := wmsg{uni: uni, m: m, at: mc.Now()}
	for _, p := range to {
		x.to = append(x.to, p.Id)
	}
	if m.PreExecOutputMessage != nil {
		x.snap = fmt.Sprint(m.PreExecOutputMessage.Pids)
	}
	k.sent = append(k.sent, x)
	if k.onMsg != nil {
		k.onMsg(x)
	}
}

func (k *wkr) BroadcastMessage(pIDs []*tss.PartyID, m *common.TssMessage) { k.record(pIDs, false, m) }
func (k *wkr) UnicastMessage(dest *tss.PartyID, m *common.TssMessage) {
	if dest == nil {
		mc.Fail("nil-dest", "a message is addressed to nobody")
	}
	k.record([]*tss.PartyID{dest}, true, m)
}

func (k *wkr) GetAvailablePresigns(batchSize int, n int, all map[string]*tss.PartyID) ([]string, []*tss.PartyID) {
	return k.pm.GetAvailablePresigns(batchSize, n, all)
}
func (k *wkr) GetPresignOutputs(ids []string) []*ecsigning.SignatureData_OneRoundData {
	if k.getPO != nil {
		return k.getPO(ids)
	}
	out, err := k.db.LoadPresign(ids)
	if err != nil {
		return make([]*ecsigning.SignatureData_OneRoundData, 0)
	}
	return out
}

func (k *wkr) result(kind string, req *wtypes.WorkRequest, r *worker.WorkerResult) {
	mc.Point("report " + kind)
	x := wres{kind: kind, at: mc.Now() - k.t0, r: r, req: req}
	k.res = append(k.res, x)
	if k.onRes != nil {
		k.onRes(x)
	}
}
func (k *wkr) OnNodeNotSelected(req *wtypes.WorkRequest) { k.result("notsel", req, nil) }
func (k *wkr) OnWorkFailed(req *wtypes.WorkRequest)      { k.result("fail", req, nil) }
func (k *wkr) OnWorkerResult(req *wtypes.WorkRequest, r *worker.WorkerResult) {
	k.result("result", req, r)
}

// deliver hands a message to the worker from its own goroutine and fails if the call never returns.
func (k *wkr) deliver(m *common.TssMessage) {
	if err := k.wk.ProcessNewMessage(m); err != nil {
		mc.Note("rejected: %v", err)
	}
}

// selections are the announcements this node sent.
func (k *wkr) selections() (out []wmsg) {
	for _, x := range k.sent {
		if x.m.Type == common.TssMessage_PRE_EXEC_OUTPUT {
			out = append(out, x)
		}
	}
	return
}

func (k *wkr) count(t common.TssMessage_Type) int {
	c := 0
	for _, x := range k.sent {
		if x.m.Type == t {
			c++
		}
	}
	return c
}

// used gives the participants of the protocol runs this node started ("" if none) and their presigned values.
func (k *wkr) used() (sets []string, pres []string) {
	for _, p := range tssfake.C().Parties {
		var ids []string
		for _, x := range p.Params.Parties().IDs() {
			ids = append(ids, x.Id)
		}
		sort.Strings(ids)
		sets = append(sets, strings.Join(ids, ","))
		if p.Pre != nil {
			pres = append(pres, string(p.Pre.GetRSigmaI()))
		} else {
			pres = append(pres, "")
		}
	}
	return
}

func sortedIds(ids []string) string {
	s := append([]string(nil), ids...)
	sort.Strings(s)
	return strings.Join(s, ",")
}

func idxs(ids []string) string {
	var s []string
	for _, x := range ids {
		s = append(s, fmt.Sprint(nodeIdx(x)))
	}
	return strings.Join(s, "")
}

// ------------------------------------------------------------ C08, C09 leader

type yes struct {
	from string
	at   int64
}

// leaderRun explores what members answer and when.
// opts: member behaviours offered; timed: answers may come later.
func leaderRun(n int, kind wtypes.WorkType, batch int, presign bool, timed, outsiders bool) func() {
	return leaderRunT(n, 0, kind, batch, presign, timed, outsiders, nil)
}

// leaderRunT: with a threshold of t; pick, if given, chooses what every member does.
func leaderRunT(n, t int, kind wtypes.WorkType, batch int, presign bool, timed, outsiders bool, pick func() func(i int) int) func() {
	return func() {
		const me = 0
		k := newWkrT(n, t, me, me, kind, batch)
		choose := func(i, n int) int { return mc.Choose(n, 0) }
		if pick != nil {
			p := pick()
			choose = func(i, n int) int { return p(i) }
		}
		signing := kind == wtypes.EcSigning || kind == wtypes.EdSigning
		need := n
		if signing {
			need = k.req.Threshold + 1
		}
		// presigned sets available: none, one of each member with the leader, a larger one, too few values
		var sets []map[string]bool
		setIds := map[string]string{}
		addSet := func(name string, cnt int, idx ...int) {
			k.db.addPresign(name, cnt, append([]int{me}, idx...), me)
			if cnt >= batch {
				s := map[string]bool{}
				for _, i := range append([]int{me}, idx...) {
					s[pid(i)] = true
				}
				sets = append(sets, s)
				for c := 0; c < cnt; c++ {
					setIds[fmt.Sprintf("%s-%d", name, c)] = pidString(keysOf(s))
				}
			}
		}
		if presign && kind == wtypes.EcSigning {
			last := n - 1
			switch mc.Choose(4, 0) {
			case 1:
				addSet("pa", batch, upto(1, need-1)...)
			case 2:
				addSet("pa", batch, upto(last-need+2, last)...)
				addSet("pb", batch+1, upto(1, need-1)...)
			case 3:
				addSet("pa", batch-1, upto(1, need-1)...) // too few
				addSet("pc", batch, upto(1, last)...)     // everybody
			}
		}
		k.make()
		var yeses []yes
		var pre []*common.TssMessage
		var gs []*mc.G
		answer := func(from string, ok bool) *common.TssMessage {
			m := common.NewAvailabilityResponseMessage(from, pid(me), k.work, common.AvailabilityResponseMessage_YES, 1)
			if !ok {
				m.AvailabilityResponseMessage.Answer = common.AvailabilityResponseMessage_NO
			}
			return m
		}
		type act struct {
			m  *common.TssMessage
			at time.Duration
		}
		script := func(from string, known bool) {
			nopt := 7
			if timed {
				nopt = 9
			}
			if !known {
				nopt = 2
			}
			var acts []act
			early := false
			y, no := func() *common.TssMessage { return answer(from, true) }, func() *common.TssMessage { return answer(from, false) }
			switch choose(nodeIdx(from), nopt) {
			case 0:
				acts = []act{{y(), 0}}
			case 1:
				if !known {
					return
				}
			case 2:
				acts = []act{{no(), 0}}
			case 3:
				acts = []act{{y(), 0}}
				early = true
			case 4:
				acts = []act{{y(), 0}, {y(), 0}}
			case 5:
				acts = []act{{no(), 0}, {y(), 0}}
				early = true
			case 6:
				acts = []act{{no(), 0}}
				early = true
			case 7:
				acts = []act{{y(), 4 * time.Second}}
			case 8:
				acts = []act{{y(), 12 * time.Second}}
			}
			if early {
				for _, a := range acts {
					pre = append(pre, a.m)
					if known && a.m.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
						yeses = append(yeses, yes{from, 0})
					}
				}
				return
			}
			for _, a := range acts {
				if known && a.m.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
					yeses = append(yeses, yes{from, int64(a.at)})
				}
			}
			if len(acts) == 0 {
				return
			}
			gs = append(gs, mc.GoNamed("member "+fmt.Sprint(nodeIdx(from)), func() {
				mc.Block("start", func() bool { return k.seq == 1 })
				for _, a := range acts {
					if a.at > 0 {
						mc.Elapse(time.Duration(int64(a.at) - (mc.Now() - k.t0)))
					}
					k.deliver(a.m)
				}
			}))
		}
		for i := 1; i < n; i++ {
			script(pid(i), true)
		}
		if outsiders {
			script(pid(4), false)
		}
		noise := mc.Choose(2, 1)
		startWk(k, pre)
		if noise == 1 {
			// announcements and requests of parties that do not lead
			gs = append(gs, mc.GoNamed("noise", func() {
				for i := 0; i < 3; i++ {
					from := pid(1 + i%(n-1))
					k.deliver(common.NewPreExecOutputMessage(from, "", k.work, i%2 == 0, nil, []*tss.PartyID{allNodes[1].PartyId, allNodes[0].PartyId}))
					k.deliver(common.NewAvailabilityRequestMessage(from, pid(me), k.work))
				}
			}))
		}
		k.seq = 1
		mc.Quiesce()

		// what had to happen
		lim := int64(k.cfg.SelectionLeaderTimeout)
		sort.SliceStable(yeses, func(a, b int) bool { return yeses[a].at < yeses[b].at })
		have := map[string]bool{pid(me): true}
		decided, success := lim, false
		ready := func() bool {
			if len(have) < need {
				return false
			}
			if kind != wtypes.EcSigning {
				return true
			}
			for _, s := range sets {
				all := true
				for id := range s {
					all = all && have[id]
				}
				if all {
					return true
				}
			}
			return len(have) == n
		}
		for _, y := range yeses {
			if y.at >= lim {
				break
			}
			have[y.from] = true
			if ready() {
				decided, success = y.at, true
				break
			}
		}
		if !success && signing && len(have) >= need {
			success = true
		}
		by := map[string]bool{pid(me): true}
		for _, y := range yeses {
			if y.at <= decided {
				by[y.from] = true
			}
		}
		for i, g := range gs {
			mc.Check(g.Done(), "blocked", "the call delivering an availability answer (%d) never returns: %s", i, g.Blocked())
		}
		sel := k.selections()
		mc.Check(len(sel) == 1, "announcements", "the leader made %d announcements", len(sel))
		a := sel[0].m.PreExecOutputMessage
		mc.Check(a.Success == success, "decision", "leader decided success=%v; parties that answered YES: %v of %d, needed %d", a.Success, yeses, n, need)
		mc.Check(sel[0].at-k.t0 == decided, "decision-time", "leader decided at %v, should have at %v (answers: %v)", time.Duration(sel[0].at-k.t0), time.Duration(decided), yeses)
		mc.Check(len(k.res) == 1, "results", "the work reported %d results", len(k.res))
		mc.Check(containsAll(sel[0].to, n, me), "announce-to", "announcement is sent to %s of %d parties", idxs(sel[0].to), n)
		us, ps := k.used()
		if !a.Success {
			mc.Check(len(us) == 0 && k.res[0].kind == "fail" && k.res[0].at == decided, "failed-run", "after a failed selection %d protocol runs started, outcome %s at %v", len(us), k.res[0].kind, time.Duration(k.res[0].at))
			mc.Check(len(a.Pids) == 0 && len(a.PresignIds) == 0, "failed-set", "a failure announcement names participants")
			mc.Outcome("fail")
			return
		}
		in := map[string]bool{}
		for _, p := range a.Pids {
			mc.Check(!in[p], "duplicate", "the announced set %s names a party twice", idxs(a.Pids))
			in[p] = true
			mc.Check(by[p], "unavailable", "the announced set %s contains a party that did not answer YES by then (%v)", idxs(a.Pids), yeses)
		}
		mc.Check(in[pid(me)], "leader-missing", "the announced set %s lacks the leader", idxs(a.Pids))
		if len(a.PresignIds) > 0 {
			mc.Check(kind == wtypes.EcSigning && len(a.PresignIds) == batch, "presign-count", "%d presign ids for %d messages", len(a.PresignIds), batch)
			dup := map[string]bool{}
			for _, id := range a.PresignIds {
				mc.Check(!dup[id], "presign-dup", "presign id %s twice", id)
				dup[id] = true
				mc.Check(setIds[id] == pidString(a.Pids), "presign-set", "presign %s was made by %s, the announced set is %s", id, setIds[id], pidString(a.Pids))
			}
		} else {
			mc.Check(len(a.Pids) == need, "set-size", "the announced set %s has %d parties, want %d", idxs(a.Pids), len(a.Pids), need)
		}
		mc.Check(sel[0].snap == fmt.Sprint(a.Pids), "announce-changed", "the announcement changed after it was sent")
		mc.Check(len(us) == batch, "runs", "%d protocol runs for a batch of %d", len(us), batch)
		for i := range us {
			mc.Check(us[i] == sortedIds(a.Pids), "own-set", "the leader runs with %s but announced %s", us[i], sortedIds(a.Pids))
			want := ""
			if len(a.PresignIds) > 0 {
				want = a.PresignIds[i]
			}
			mc.Check(ps[i] == want, "own-presign", "job %d of the leader uses presign %q, announced %v", i, ps[i], a.PresignIds)
		}
		mc.Outcome("%s %d", idxs(a.Pids), len(a.PresignIds))
	}
}

func startWk(k *wkr, pre []*common.TssMessage) {
	if err := k.wk.Start(pre); err != nil {
		mc.Fail("start", "worker does not start: %v", err)
	}
}

func keysOf(m map[string]bool) (out []string) {
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return
}

func upto(a, b int) (out []int) {
	for i := a; i <= b; i++ {
		out = append(out, i)
	}
	return
}

// containsAll: every party except me is addressed exactly once.
func containsAll(to []string, n, me int) bool {
	c := map[string]int{}
	for _, x := range to {
		c[x]++
	}
	for i := 0; i < n; i++ {
		if i != me && c[pid(i)] != 1 {
			return false
		}
		delete(c, pid(i))
	}
	return len(c) == 0
}

func init() {
	for _, kd := range workKinds {
		kd := kd
		nm := kindName(kd)
		ec := kd == wtypes.EcSigning
		register("C08",
			&mc.Scenario{Name: "leader3-" + nm, Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, MapDev: true, Race: true, Body: leaderRun(3, kd, 1, true, false, true)},
			&mc.Scenario{Name: "leader4-" + nm, Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, MapDev: true, Body: leaderRun(4, kd, 1, true, false, false)},
			&mc.Scenario{Name: "leaderd-" + nm, Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, MapDev: true, Body: leaderRun(3, kd, 1, true, false, true)})
		register("C09",
			&mc.Scenario{Name: "leadert3-" + nm, Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: leaderRun(3, kd, 1, true, true, false)},
			&mc.Scenario{Name: "leadert4-" + nm, Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: leaderRun(4, kd, 1, true, true, false)})
		// many parties, and thresholds for which there is a choice of participants
		crowd := func(n int, late bool) func() func(i int) int {
			return func() func(i int) int {
				m := mc.Choose(n, 0) // how many answer YES
				from := 1 + mc.Choose(2, 0)*(n/2)
				how := mc.Choose(3, 0)  // all before the start, all after, alternating
				rest := mc.Choose(2, 0) // the others say nothing, or NO
				return func(i int) int {
					if (i-from+n-1)%(n-1) < m {
						switch {
						case late && i%3 == 0:
							return 7
						case how == 0 || how == 2 && i%2 == 0:
							return 0
						}
						return 3
					}
					return 1 + rest
				}
			}
		}
		for _, n := range []int{6, 20} {
			register("C08", &mc.Scenario{Name: fmt.Sprintf("crowd%d-%s", n, nm), Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: leaderRunT(n, 0, kd, 1, true, false, false, crowd(n, false))})
			register("C09", &mc.Scenario{Name: fmt.Sprintf("crowdt%d-%s", n, nm), Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: leaderRunT(n, 0, kd, 1, true, true, false, crowd(n, true))})
		}
		if kd == wtypes.EcSigning || kd == wtypes.EdSigning {
			register("C08", &mc.Scenario{Name: "leaderlow-" + nm, Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, MapDev: true, Body: leaderRunT(4, 1, kd, 1, true, true, false, nil)})
		}
		if ec {
			register("C08", &mc.Scenario{Name: "leaderb-" + nm, Sched: mc.Coop, Bounds: []int{0, 1}, MapDev: true, Body: leaderRun(3, kd, 2, true, false, false)})
		}
	}
}
