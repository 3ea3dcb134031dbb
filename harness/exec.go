package main

import (
	"fmt"
	"strings"
	"time"

	"errors"

	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C11, C12 execution of a batch

type erun struct {
	*wkr
	set      []int
	setIds   []string
	pres     []string
	proto    string
	sess     []string
	names    []string
	p2p      []bool
	foreign  string
	got      map[string]int // "job|kind|from"
	dupOK    bool
	expected map[string]int // network messages this node should send
	started  int64
	emitted  map[string]int // kind|to -> jobs that produced it
}

// newErun: node 1 executes a work led by node 0 with the parties of set.
func newErun(n int, kind wtypes.WorkType, batch int, set []int, presigned bool, prep ...func(*erun)) *erun {
	r := &erun{wkr: newWkr(n, 1, 0, kind, batch), set: set, got: map[string]int{}, emitted: map[string]int{}}
	for _, f := range prep {
		f(r)
	}
	for _, i := range set {
		r.setIds = append(r.setIds, pid(i))
	}
	if presigned {
		r.db.addPresign("pa", batch, set, r.me)
		for i := 0; i < batch; i++ {
			r.pres = append(r.pres, fmt.Sprintf("pa-%d", i))
		}
	}
	r.make()
	r.proto, r.sess = protoOf(r.req, r.pres)
	r.names, r.p2p = tssfake.Kinds(r.proto)
	c := tssfake.C()
	c.Foreign = func(p *tssfake.Party, d string) {
		if r.foreign == "" {
			r.foreign = fmt.Sprintf("job %d: %s", r.jobOf(p), d)
		}
	}
	c.OnUpdate = func(p *tssfake.Party, name, from, to string, bc bool) {
		r.got[fmt.Sprintf("%d|%s|%d", r.jobOf(p), name, nodeIdx(from))]++
	}
	c.Emit = func(p *tssfake.Party, name, to string) { r.emitted[name+"|"+to]++ }
	return r
}

func (r *erun) jobOf(p *tssfake.Party) int {
	for i, s := range r.sess {
		if s == p.Session {
			return i
		}
	}
	return -1
}

func (r *erun) announcement() *common.TssMessage {
	var ps []*tss.PartyID
	for _, i := range r.set {
		ps = append(ps, allNodes[i].PartyId)
	}
	return common.NewPreExecOutputMessage(pid(0), "", r.work, true, r.pres, ps)
}

// msgOf is the network message of peer i for kind k.
func (r *erun) msgOf(i, k int) *common.TssMessage {
	to := -1
	if r.p2p[k] {
		to = r.me
	}
	return protoMsg(r.req, r.pres, r.names[k], r.setIds, i, to)
}

func (r *erun) outKey(m *common.TssMessage) string { return m.UpdateMessages[0].Round + "|" + m.To }

// checkOutgoing: every kind and destination left the node once, complete and to the right parties.
func (r *erun) checkOutgoing(complete bool) {
	seen := map[string]int{}
	for _, x := range r.sent {
		if x.m.Type != common.TssMessage_UPDATE_MESSAGES {
			continue
		}
		m := x.m
		mc.Check(len(m.UpdateMessages) == r.batch, "bundle-size", "a network message bundles %d of %d jobs", len(m.UpdateMessages), r.batch)
		mc.Check(m.From == pid(r.me) && m.WorkId == r.work, "bundle-identity", "a network message is from %s for %s", m.From, m.WorkId)
		name0 := ""
		for i, u := range m.UpdateMessages {
			mc.Check(u != nil && len(u.Data) > 0, "bundle-empty", "entry %d of a bundle is empty", i)
			from := tss.NewPartyID(m.From, "", allNodes[r.me].PartyId.KeyInt())
			from.Index = 0
			pm, err := tss.ParseWireMessage(u.Data, from, m.IsBroadcast())
			mc.Check(err == nil, "bundle-unparsable", "entry %d: %v", i, err)
			name, tag := tssfake.Parse(pm.Content())
			if i == 0 {
				name0 = name
			}
			want := tssfake.Tag(r.proto, name0, r.sess[i], pid(r.me), m.To)
			mc.Check(tag == want, "bundle-entry", "entry %d of a bundle is %q, want %q", i, tag, want)
			mc.Check(u.Round == pm.Type(), "bundle-round", "entry %d of a bundle of %s is labelled %s", i, pm.Type(), u.Round)
		}
		mc.Check(r.emitted[name0+"|"+m.To] == r.batch, "bundle-early", "%s sent before all jobs produced it", name0)
		seen[name0+"|"+m.To]++
		mc.Check(seen[name0+"|"+m.To] == 1, "sent-twice", "message %s to %q left the node twice", name0, m.To)
		if m.To == "" {
			mc.Check(!x.uni && sortedIds(without(x.to, pid(r.me))) == sortedIds(without(r.setIds, pid(r.me))), "broadcast-to", "broadcast %s goes to %s, participants are %v", name0, idxs(x.to), r.set)
		} else {
			mc.Check(len(x.to) == 1 && x.to[0] == m.To, "unicast-to", "%s addressed to %s is sent to %s", name0, m.To, idxs(x.to))
		}
	}
	for k, n := range r.emitted {
		if n == r.batch {
			mc.Check(seen[k] == 1, "not-sent", "message %s was produced by all jobs but left the node %d times", k, seen[k])
		}
	}
	if complete {
		for k, name := range r.names {
			if r.p2p[k] {
				for _, i := range r.set {
					if i != r.me {
						mc.Check(seen[name+"|"+pid(i)] == 1, "not-sent", "%s to %d left the node %d times", name, i, seen[name+"|"+pid(i)])
					}
				}
			} else {
				mc.Check(seen[name+"|"] == 1, "not-sent", "%s left the node %d times", name, seen[name+"|"])
			}
		}
	}
}

func without(s []string, x string) (o []string) {
	for _, y := range s {
		if y != x {
			o = append(o, y)
		}
	}
	return
}

// checkResult: exactly one result, of the wanted kind, valid.
func (r *erun) checkResult(want string, at int64, desc string) {
	mc.Check(len(r.res) == 1, "results", "%s: the work reported %d results", desc, len(r.res))
	x := r.res[0]
	mc.Check(x.kind == want, "outcome", "%s: the work ends as %q at %v, want %q", desc, x.kind, time.Duration(x.at), want)
	if at >= 0 {
		mc.Check(x.at == at, "time", "%s: the work ends at %v, want %v", desc, time.Duration(x.at), time.Duration(at))
	}
	mc.Check(x.req == r.req, "request", "%s: the outcome carries another request", desc)
	if want == "result" {
		r.checkJobs(x.r)
	}
	mc.Check(mc.LiveCount() == 0, "leak", "%s: %d goroutines of the ended work wait for ever: %s", desc, mc.LiveCount(), strings.Join(mc.Live(""), "; "))
}

func (r *erun) checkJobs(res *worker.WorkerResult) {
	mc.Check(res != nil && res.Success && len(res.JobResults) == r.batch, "job-results", "a successful batch of %d has results %+v", r.batch, res)
	seed := tssfake.SeedOf(freshPids(r.w.n))
	for i, j := range res.JobResults {
		mc.Check(j != nil && j.Success, "job-result", "result %d of a successful batch is missing", i)
		switch r.kind {
		case wtypes.EcKeygen:
			mc.Check(j.EcKeygen != nil && j.EcKeygen.ECDSAPub.Equals(tssfake.EcPub(seed)), "job-key", "wrong key")
			mc.Check(r.db.ec[r.work] == j.EcKeygen, "not-saved", "the reported share is not the stored one")
		case wtypes.EdKeygen:
			_, p := tssfake.EdPriv(seed)
			mc.Check(j.EdKeygen != nil && j.EdKeygen.EDDSAPub.Equals(p), "job-key", "wrong key")
			mc.Check(r.db.ed[r.work] == j.EdKeygen, "not-saved", "the reported share is not the stored one")
		case wtypes.EcSigning:
			if r.req.Messages[i] == nil {
				mc.Check(j.EcSigning != nil && j.EcSigning.OneRoundData != nil, "job-presign", "presigning gave no presigned value")
				continue
			}
			mc.Check(j.EcSigning != nil && string(j.EcSigning.Signature.Signature) == string(tssfake.EcSign(seed, r.req.Messages[i]).Signature), "job-order", "result %d of the batch does not belong to input %d", i, i)
		case wtypes.EdSigning:
			mc.Check(j.EdSigning != nil && string(j.EdSigning.Signature.Signature) == string(tssfake.EdSign(seed, r.req.Messages[i]).Signature), "job-order", "result %d of the batch does not belong to input %d", i, i)
		}
	}
}

// checkIncoming: every message given to the worker reached its job exactly once.
func (r *erun) checkIncoming(full bool) {
	mc.Check(r.foreign == "", "misrouted", "%s", r.foreign)
	for i := 0; i < r.batch; i++ {
		for _, p := range r.set {
			if p == r.me {
				continue
			}
			for _, name := range r.names {
				n := r.got[fmt.Sprintf("%d|%s|%d", i, name, p)]
				if full {
					mc.Check(n == 1 || r.dupOK && n >= 1, "delivered", "message %s of party %d reached job %d %d times", name, p, i, n)
				} else {
					mc.Check(n <= 1 || r.dupOK, "delivered", "message %s of party %d reached job %d %d times", name, p, i, n)
				}
			}
		}
	}
}

func setFor(n int, kind wtypes.WorkType) []int {
	if kind == wtypes.EcKeygen || kind == wtypes.EdKeygen {
		return upto(0, n-1)
	}
	return upto(0, threshold(n))
}

// failures a batch may meet
var failNames = []string{"nothing wrong", "job cannot start", "job rejects a message", "job never ends", "job stops after its first round", "messages after the limit", "slow messages", "messages just in time", "a message missing"}

// presignOnly turns a signing request into one that only produces presigned values.
func presignOnly(r *erun) {
	for i := range r.req.Messages {
		r.req.Messages[i] = nil
	}
}

// cannotStart: the data the jobs need cannot be loaded when the execution starts.
func cannotStart(kind wtypes.WorkType, batch int) func() {
	return func() {
		n := 3
		r := newErun(n, kind, batch, setFor(n, kind), kind == wtypes.EcSigning, func(r *erun) {
			if kind == wtypes.EcKeygen {
				r.req.EcKeygenInput = nil
			}
		})
		mode := mc.Choose(3, 0)
		want := "fail"
		switch {
		case kind == wtypes.EcKeygen:
			switch mode {
			case 1:
				r.db.pre = nil
			case 2:
				r.db.fail = func(op string) bool { return op == "LoadPreparams" }
			default:
				want = "result"
			}
		default:
			r.getPO = func(ids []string) []*ecsigning.SignatureData_OneRoundData {
				out, _ := r.db.LoadPresign(ids)
				switch mode {
				case 1:
					return out[:len(out)-1]
				case 2:
					return nil
				}
				return out
			}
			if mode == 0 {
				want = "result"
			}
		}
		r.seq = 1
		startWk(r.wkr, nil)
		r.deliver(r.announcement())
		for _, i := range r.set {
			if i == r.me {
				continue
			}
			i := i
			mc.GoNamed(fmt.Sprintf("peer %d", i), func() {
				for k := range r.names {
					r.deliver(r.msgOf(i, k))
				}
			})
		}
		mc.Quiesce()
		r.checkResult(want, -1, fmt.Sprintf("data of the jobs missing (%d)", mode))
		mc.Outcome("%d %s", mode, want)
	}
}

func batchRun(n int, kind wtypes.WorkType, batch int, presigned bool, modes int, prep ...func(*erun)) func() {
	return func() {
		set := setFor(n, kind)
		mode := 0
		if modes > 1 {
			mode = mc.Choose(modes, 0)
		}
		bad := 0
		if batch > 1 && mode >= 1 && mode <= 4 {
			bad = mc.Choose(batch, 0)
		}
		r := newErun(n, kind, batch, set, presigned, prep...)
		lim := int64(15 * time.Second)
		c := tssfake.C()
		isBad := func(p *tssfake.Party) bool { return r.jobOf(p) == bad }
		want, at := "result", int64(-1)
		rejKind, rejFrom := "", ""
		switch mode {
		case 1:
			c.StartErr = func(p *tssfake.Party) error {
				if isBad(p) {
					return errors.New("cannot start")
				}
				return nil
			}
			want, at = "fail", 0
		case 2:
			rejKind = r.names[mc.Choose(len(r.names), 0)]
			rejFrom = pid(0)
			c.Reject = func(p *tssfake.Party, name, from string) error {
				if isBad(p) && name == rejKind && from == rejFrom {
					return errors.New("rejected")
				}
				return nil
			}
			want, at = "fail", 0
		case 3:
			rounds := map[string]int{tssfake.EcKeygen: 3, tssfake.EcSigning: 7, tssfake.EcOneRound: 1, tssfake.EcPresign: 6, tssfake.EdKeygen: 2, tssfake.EdSigning: 3}[r.proto]
			c.Stall = func(p *tssfake.Party, rd int) bool { return isBad(p) && rd > rounds }
			want, at = "fail", lim
		case 4:
			c.Stall = func(p *tssfake.Party, rd int) bool { return isBad(p) && rd > 1 }
			want, at = "fail", lim
		case 5, 6, 8:
			want, at = "fail", lim
		}
		total := len(r.names)
		delay := func(peer, k int) time.Duration {
			switch mode {
			case 5:
				if peer == 0 && k == total-1 {
					return 16 * time.Second
				}
			case 6: // evenly, past the limit
				return time.Duration(k+1) * (18 * time.Second) / time.Duration(total)
			case 7:
				return time.Duration(k+1) * (14 * time.Second) / time.Duration(total)
			}
			return 0
		}
		missing := -1
		if mode == 8 {
			missing = mc.Choose(total, 0)
		}
		var gs []*mc.G
		var pre []*common.TssMessage
		early := 0
		if mode == 0 {
			early = mc.Choose(3, 1)
		}
		for _, i := range set {
			if i == r.me {
				continue
			}
			i := i
			from := 0
			if i == 0 {
				switch early {
				case 1:
					pre = append(pre, r.msgOf(i, 0))
					from = 1
				case 2:
					for k := 0; k < total; k++ {
						pre = append(pre, r.msgOf(i, k))
					}
					from = total
				}
			}
			gs = append(gs, mc.GoNamed(fmt.Sprintf("peer %d", i), func() {
				for k := from; k < total; k++ {
					if i == 0 && k == missing {
						continue
					}
					if d := int64(delay(i, k)) - (mc.Now() - r.t0); d > 0 {
						mc.Elapse(time.Duration(d))
					}
					mc.Block("worker", func() bool { return r.seq == 1 })
					r.deliver(r.msgOf(i, k))
				}
			}))
		}
		g := mc.GoNamed("leader", func() {
			mc.Block("worker", func() bool { return r.seq == 1 })
			r.deliver(r.announcement())
		})
		r.seq = 1
		startWk(r.wkr, pre)
		mc.Quiesce()
		for _, x := range append(gs, g) {
			mc.Check(x.Done(), "blocked", "a call delivering a message never returns: %s", x.Blocked())
		}
		desc := failNames[mode]
		r.checkResult(want, at, desc)
		r.checkOutgoing(want == "result")
		r.checkIncoming(mode == 0 || mode == 7)
		mc.Outcome("%s %s", desc, want)
	}
}

// outsiderRun: parties outside the set, strangers and senders of malformed bundles interfere;
// members repeat messages.  The work succeeds and no foreign message reaches a job.
func outsiderRun(kind wtypes.WorkType, batch int) func() {
	return func() {
		n := 4
		set := setFor(n, kind)
		sign := kind == wtypes.EcSigning || kind == wtypes.EdSigning
		r := newErun(n, kind, batch, set, false)
		r.dupOK = true
		total := len(r.names)
		what := mc.Choose(4, 0)
		ks := []int{0, 1, 2, total - 1} // both point-to-point kinds, the first and the last
		k := ks[mc.Choose(len(ks), 0)]
		early := mc.Choose(2, 0) == 1
		var bad *common.TssMessage
		switch what {
		case 0: // a party that was not selected (a stranger for key generation)
			out := 3
			if !sign {
				out = 4
			}
			ids := append([]string{pid(out)}, r.setIds...)
			to := -1
			if r.p2p[k] {
				to = r.me
			}
			bad = protoMsg(r.req, nil, r.names[k], ids, out, to)
		case 1: // a member repeats its message
			bad = r.msgOf(2, k)
		case 2: // the own message comes back
			to := -1
			if r.p2p[k] {
				to = 2
			}
			bad = protoMsg(r.req, nil, r.names[k], r.setIds, r.me, to)
			bad.From = pid(4)
		case 3: // nobody's message
			bad = r.msgOf(2, k)
			bad.From = ""
		}
		var pre []*common.TssMessage
		if early {
			pre = append(pre, bad)
		}
		for _, i := range set {
			if i == r.me {
				continue
			}
			i := i
			mc.GoNamed(fmt.Sprintf("peer %d", i), func() {
				for k := 0; k < total; k++ {
					mc.Block("worker", func() bool { return r.seq == 1 })
					r.deliver(r.msgOf(i, k))
				}
			})
		}
		if !early {
			mc.GoNamed("outsider", func() {
				mc.Block("worker", func() bool { return r.seq == 1 })
				r.deliver(bad)
			})
		}
		mc.GoNamed("leader", func() {
			mc.Block("worker", func() bool { return r.seq == 1 })
			r.deliver(r.announcement())
		})
		r.seq = 1
		startWk(r.wkr, pre)
		mc.Quiesce()
		r.checkResult("result", 0, fmt.Sprintf("interference %d", what))
		r.checkOutgoing(true)
		r.checkIncoming(true)
		mc.Outcome("%d", what)
	}
}

func init() {
	defer func() { // the largest last, it gets what is left of the time
		register("C12", &mc.Scenario{Name: "outside1-ecsign", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: outsiderRun(wtypes.EcSigning, 1)})
	}()
	for _, kd := range workKinds {
		if kd != wtypes.EcSigning {
			register("C12", &mc.Scenario{Name: "outside1-" + kindName(kd), Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: outsiderRun(kd, 1)})
		}
		nm := kindName(kd)
		sign := kd == wtypes.EcSigning || kd == wtypes.EdSigning
		register("C11", &mc.Scenario{Name: "batch1-" + nm, Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: batchRun(3, kd, 1, false, 9)})
		register("C12", &mc.Scenario{Name: "route1-" + nm, Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: batchRun(3, kd, 1, false, 1)})
		if sign {
			register("C12", &mc.Scenario{Name: "outside2-" + kindName(kd), Sched: mc.Coop, Bounds: map[bool][]int{true: {0}, false: {0, 1}}[kd == wtypes.EcSigning], BoundsDeep: []int{0, 1, 2}, Body: outsiderRun(kd, 2)})
			register("C11", &mc.Scenario{Name: "batch2-" + nm, Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: batchRun(3, kd, 2, false, 9)})
			register("C12", &mc.Scenario{Name: "route2-" + nm, Sched: mc.Coop, Bounds: []int{0, 1, 2}, Body: batchRun(3, kd, 2, false, 1)},
				&mc.Scenario{Name: "route24-" + nm, Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: batchRun(4, kd, 2, false, 1)})
		}
	}
	register("C11", &mc.Scenario{Name: "presign1", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: batchRun(3, wtypes.EcSigning, 1, false, 9, presignOnly)},
		&mc.Scenario{Name: "nopreparams", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: cannotStart(wtypes.EcKeygen, 1)},
		&mc.Scenario{Name: "nopresigns1", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: cannotStart(wtypes.EcSigning, 1)},
		&mc.Scenario{Name: "nopresigns2", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: cannotStart(wtypes.EcSigning, 2)})
	register("C11", &mc.Scenario{Name: "batchp-ecsign", Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: batchRun(3, wtypes.EcSigning, 2, true, 9)})
	register("C12", &mc.Scenario{Name: "routep-ecsign", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: batchRun(3, wtypes.EcSigning, 2, true, 1)})
}
