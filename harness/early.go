package main

import (
	"fmt"

	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
)

// earlyRun (C12): whatever the peers of a work send before this engine is asked for it (answers, the selection,
// protocol messages), while it is being asked, or after that, reaches the jobs once; nothing has to be asked for.
func earlyRun(kind wtypes.WorkType, batch, lead int) func() {
	return func() {
		n := 3
		w := newWorld(n, 0)
		eng := w.boot(0)
		id := w.workLed("early", lead)
		req := w.request(0, kind, id, batch)
		set := []int{0, 1, 2}
		if req.IsSigning() {
			set = []int{lead, 2 - 2*lead}
		}
		for i, nd := range w.nodes {
			nd.silent = true
			for _, j := range set {
				nd.silent = nd.silent && j != i
			}
			nd.sent["sel"+id], nd.sent["run"+id] = true, true
		}
		var ids []string
		for _, i := range set {
			ids = append(ids, pid(i))
		}
		got := map[string]int{}
		proto, _ := protoOf(req, nil)
		names, p2p := tssfake.Kinds(proto)
		tssfake.C().OnUpdate = func(p *tssfake.Party, name, from, to string, bc bool) {
			got[fmt.Sprintf("%s|%s|%d", p.Session, name, nodeIdx(from))]++
		}
		w.tap = func(from, to int, sm *common.SignedMessage) {
			mc.Check(from != 0 || sm.TssMessage.Type != common.TssMessage_ASK_MESSAGE_REQUEST, "asked", "a message that had arrived is asked for")
		}
		// what each peer sends: from when it is sent, in its own order
		stage := mc.Choose(3, 0) // 0: all before, 1: at the same time, 2: the selection before, the rest at the same time
		sendSel := func(i int) {
			nd := w.nodes[i]
			if lead == 0 {
				nd.answer(0, id)
			} else if i == lead {
				nd.announce1(id, set)
			}
		}
		sendProto := func(i int) {
			nd := w.nodes[i]
			for k, name := range names {
				to := -1
				if p2p[k] {
					to = 0
				}
				nd.put(0, protoMsg(req, nil, name, ids, i, to))
			}
		}
		var peers []int
		for _, i := range set {
			if i != 0 {
				peers = append(peers, i)
			}
		}
		for _, i := range peers {
			if stage != 1 {
				sendSel(i)
			}
			if stage == 0 {
				sendProto(i)
			}
		}
		mc.Quiesce()
		for _, i := range peers {
			i := i
			if stage == 0 {
				break
			}
			mc.GoNamed(fmt.Sprintf("peer %d", i), func() {
				if stage == 1 {
					sendSel(i)
				}
				sendProto(i)
			})
		}
		call := mc.GoNamed("caller", func() {
			if err := eng.AddRequest(req); err != nil {
				mc.Fail("refused", "%v", err)
			}
		})
		mc.Quiesce()
		mc.Check(call.Done(), "blocked", "the call never returns: %s", call.Blocked())
		os := w.outcomesOf(0, id)
		mc.Check(len(os) == 1 && (os[0].kind == "sign" || os[0].kind == "keygen"), "outcome", "led by %d, stage %d: the work ends as %v", lead, stage, os)
		w.checkValid(os[0])
		late := int64(0)
		if lead == 0 && kind == wtypes.EcSigning {
			late = int64(w.cfg.SelectionLeaderTimeout) // the leader waits for presign partners
		}
		mc.Check(os[0].at-w.t0 == late, "late", "led by %d, stage %d: the work ends after %d s", lead, stage, (os[0].at-w.t0)/1000000000)
		_, sess := protoOf(req, nil)
		for _, s := range sess {
			for _, i := range peers {
				for _, name := range names {
					k := fmt.Sprintf("%s|%s|%d", s, name, i)
					mc.Check(got[k] == 1, "delivered", "message %s of party %d reached its job %d times", name, i, got[k])
				}
			}
		}
		mc.Outcome("%d", stage)
	}
}

// announce1 is the leader's choice sent to the real nodes only.
func (nd *enode) announce1(work string, set []int) {
	m := common.NewPreExecOutputMessage(pid(nd.i), "", work, true, nil, nil)
	for _, j := range set {
		m.PreExecOutputMessage.Pids = append(m.PreExecOutputMessage.Pids, pid(j))
	}
	for j, o := range nd.w.nodes {
		if o.eng != nil {
			nd.put(j, m)
		}
	}
}

func init() {
	for _, kd := range workKinds {
		for lead := 0; lead < 2; lead++ {
			register("C12", &mc.Scenario{Name: fmt.Sprintf("early%d-%s", lead, kindName(kd)), Sched: mc.Coop, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: earlyRun(kd, 1, lead)})
		}
	}
	register("C12", &mc.Scenario{Name: "early2-edsign", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: earlyRun(wtypes.EdSigning, 2, 1)},
		&mc.Scenario{Name: "jobs2-edsign", Sched: mc.Delay, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Race: true, Body: batchRun(3, wtypes.EdSigning, 2, false, 1)},
		&mc.Scenario{Name: "jobs2-ecsign", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: batchRun(3, wtypes.EcSigning, 2, false, 1)})
}
