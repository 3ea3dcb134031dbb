package main

import (
	"encoding/json"

	"github.com/sisu-network/dheart/core"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C07 concurrent entry points

type dispatcher interface {
	BroadcastMessage(pIDs []*tss.PartyID, m *common.TssMessage)
	UnicastMessage(dest *tss.PartyID, m *common.TssMessage)
}

func wire(from int, m *common.TssMessage) *p2ptypes.P2PMessage {
	bz, err := json.Marshal(&common.SignedMessage{From: pid(from), TssMessage: m, Signature: []byte("sig")})
	if err != nil {
		panic(err)
	}
	return &p2ptypes.P2PMessage{FromPeerId: pid(from), Data: bz}
}

type entry struct {
	name string
	f    func(w *world, eng core.Engine, run string)
}

// stages of a node
var stageNames = []string{"idle", "selecting", "executing"}

// stageWork brings node 0 into a stage; gives the id of the work in progress.
func stageWork(w *world, stage int, kind wtypes.WorkType) string {
	if stage == 0 {
		return "none"
	}
	id := w.workLed("run", 1)
	for _, nd := range w.nodes {
		if nd.eng == nil {
			nd.silent = stage == 1
			nd.mute = true
		}
	}
	if err := w.nodes[0].eng.AddRequest(w.request(0, kind, id, 1)); err != nil {
		mc.Fail("refused", "%v", err)
	}
	mc.Settle()
	for _, nd := range w.nodes {
		nd.silent, nd.mute = false, false
	}
	return id
}

func updateMsg(w *world, id string, kind wtypes.WorkType, from, k int) *common.TssMessage {
	req := w.reqs[id]
	if req == nil {
		req = w.request(0, kind, id, 1)
		delete(w.reqs, id)
	}
	proto, _ := protoOf(req, nil)
	names, p2p := tssfake.Kinds(proto)
	set := []string{pid(0), pid(1), pid(2)}
	if req.IsSigning() {
		set = []string{pid(0), pid(1)}
	}
	to := -1
	if p2p[k] {
		to = 0
	}
	return protoMsg(req, nil, names[k], set, from, to)
}

func entries(kind wtypes.WorkType) []entry {
	other := wtypes.EdKeygen
	return []entry{
		{"AddNodes", func(w *world, eng core.Engine, run string) { eng.AddNodes(w.coreNodes()) }},
		{"AddRequest", func(w *world, eng core.Engine, run string) {
			eng.AddRequest(w.request(0, other, w.workLed("new", 2), 1))
		}},
		{"AddRequest same id", func(w *world, eng core.Engine, run string) {
			if run != "none" {
				eng.AddRequest(w.request(0, kind, run, 1))
			} else {
				eng.AddRequest(w.request(0, kind, w.workLed("new2", 1), 1))
			}
		}},
		{"protocol message", func(w *world, eng core.Engine, run string) {
			eng.OnNetworkMessage(wire(1, updateMsg(w, run, kind, 1, 0)))
		}},
		{"protocol message of an unknown work", func(w *world, eng core.Engine, run string) {
			eng.OnNetworkMessage(wire(2, updateMsg(w, "later", other, 2, 0)))
		}},
		{"availability request", func(w *world, eng core.Engine, run string) {
			eng.OnNetworkMessage(wire(1, common.NewAvailabilityRequestMessage(pid(1), pid(0), run)))
		}},
		{"selection", func(w *world, eng core.Engine, run string) {
			ps := []*tss.PartyID{allNodes[0].PartyId, allNodes[1].PartyId}
			if kind == wtypes.EdKeygen || kind == wtypes.EcKeygen {
				ps = append(ps, allNodes[2].PartyId)
			}
			eng.OnNetworkMessage(wire(1, common.NewPreExecOutputMessage(pid(1), "", run, true, nil, ps)))
		}},
		{"ask", func(w *world, eng core.Engine, run string) {
			m := updateMsg(w, "sent", other, 0, 0)
			key, _ := m.GetMessageKey()
			eng.OnNetworkMessage(wire(1, common.NewRequestMessage(pid(1), "", m.WorkId, key)))
		}},
		{"active count", func(w *world, eng core.Engine, run string) { eng.GetActiveWorkerCount() }},
		{"broadcast", func(w *world, eng core.Engine, run string) {
			d, ok := eng.(dispatcher)
			if !ok {
				mc.Fail("harness", "engine is no dispatcher")
			}
			d.BroadcastMessage(freshPids(w.n), updateMsg(w, "sent", other, 0, 0))
		}},
		{"unicast", func(w *world, eng core.Engine, run string) {
			eng.(dispatcher).UnicastMessage(allNodes[2].PartyId, common.NewAvailabilityRequestMessage(pid(0), pid(2), run))
		}},
		{"work fails", func(w *world, eng core.Engine, run string) {
			if r := w.reqs[run]; r != nil {
				eng.(worker.WorkerCallback).OnWorkFailed(r)
			}
		}},
		{"presigns", func(w *world, eng core.Engine, run string) {
			m := map[string]*tss.PartyID{}
			for _, p := range freshPids(w.n) {
				m[p.Id] = p
			}
			ids, _ := eng.(worker.WorkerCallback).GetAvailablePresigns(1, 2, m)
			eng.(worker.WorkerCallback).GetPresignOutputs(ids)
		}},
	}
}

func entryRun(kind wtypes.WorkType, count int, from, stages int, only []string) func() {
	return func() {
		w := newWorld(3, 0)
		w.nodes[0].db.addPresign("pa", 1, []int{0, 1}, 0)
		eng := w.boot(0)
		if err := eng.Init(); err != nil {
			mc.Fail("harness", "%v", err)
		}
		es := entries(kind)
		if only != nil {
			var f []entry
			for _, e := range es {
				for _, o := range only {
					if e.name == o {
						f = append(f, e)
					}
				}
			}
			es = f
		}
		stage := from + mc.Choose(stages-from, 0)
		run := stageWork(w, stage, kind)
		eng.(dispatcher).BroadcastMessage(freshPids(w.n), updateMsg(w, "sent", wtypes.EdKeygen, 0, 0))
		var gs []*mc.G
		for c := 0; c < count; c++ {
			e := es[mc.Choose(len(es), 0)]
			gs = append(gs, mc.GoNamed(e.name, func() { e.f(w, eng, run) }))
		}
		mc.Quiesce()
		for _, g := range gs {
			mc.Check(g.Done(), "blocked", "%s never returns: %s", g, g.Blocked())
		}
		mc.Check(eng.GetActiveWorkerCount() == 0, "slot-leak", "%d works still active", eng.GetActiveWorkerCount())
		mc.Outcome("%s", stageNames[stage])
	}
}

func init() {
	register("C07",
		&mc.Scenario{Name: "pairs-edsign", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: entryRun(wtypes.EdSigning, 2, 0, 3, nil)},
		&mc.Scenario{Name: "pairs-edkeygen", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: entryRun(wtypes.EdKeygen, 2, 1, 3, nil)},
		&mc.Scenario{Name: "triples-lock", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: entryRun(wtypes.EdSigning, 3, 0, 1, []string{"AddNodes", "broadcast", "ask", "AddRequest", "active count", "protocol message"})},
	)
}
