package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/sisu-network/dheart/core"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C16 malformed input

// hostile is one piece of input: the bytes of a message that from claims to have written.
type hostile struct {
	name string
	mk   func(w *world, from int, run string, kind wtypes.WorkType) []byte
}

func enc(from int, m *common.TssMessage) []byte {
	bz, err := json.Marshal(&common.SignedMessage{From: pid(from), TssMessage: m, Signature: []byte("sig")})
	if err != nil {
		panic(err)
	}
	return bz
}

// shapes lists malformed inputs that need nobody's authority: none of them may change what a work does.
func shapes() []hostile {
	raw := func(name, s string) hostile {
		return hostile{name, func(w *world, from int, run string, kind wtypes.WorkType) []byte {
			s := strings.ReplaceAll(s, "$F", pid(from))
			return []byte(strings.ReplaceAll(s, "$W", run))
		}}
	}
	upd := func(name string, f func(m *common.TssMessage)) hostile {
		return hostile{name, func(w *world, from int, run string, kind wtypes.WorkType) []byte {
			author := 1 // of content that counts for nothing if from does not take part
			if from == 2 && (kind == wtypes.EcKeygen || kind == wtypes.EdKeygen) {
				author = 2
			}
			m := updateMsg(w, run, kind, author, 0)
			m.From = pid(from)
			f(m)
			return enc(from, m)
		}}
	}
	typ := func(t common.TssMessage_Type) string { return fmt.Sprint(int(t)) }
	hs := []hostile{
		raw("empty", ""), raw("null", "null"), raw("not json", "{\"x"), raw("array", "[1,2]"), raw("binary", "\x00\xff\xfe"),
		raw("no message", `{"from":"$F"}`), raw("null message", `{"from":"$F","tss_message":null,"tssMessage":null}`),
	}
	for _, t := range []common.TssMessage_Type{common.TssMessage_UPDATE_MESSAGES, common.TssMessage_AVAILABILITY_REQUEST, common.TssMessage_AVAILABILITY_RESPONSE, common.TssMessage_PRE_EXEC_OUTPUT, common.TssMessage_ASK_MESSAGE_REQUEST, 77, -1} {
		t := t
		hs = append(hs, hostile{"bare message of type " + typ(t), func(w *world, from int, run string, kind wtypes.WorkType) []byte {
			return enc(from, &common.TssMessage{Type: t, From: pid(from), WorkId: run})
		}})
		hs = append(hs, hostile{"addressed bare message of type " + typ(t), func(w *world, from int, run string, kind wtypes.WorkType) []byte {
			return enc(from, &common.TssMessage{Type: t, From: pid(from), To: pid(0), WorkId: run})
		}})
		hs = append(hs, hostile{"bare message of no work of type " + typ(t), func(w *world, from int, run string, kind wtypes.WorkType) []byte {
			return enc(from, &common.TssMessage{Type: t})
		}})
	}
	for _, key := range []string{"", "_", "____", "__", "a__b__c__d", "a__b__c__d__e__f", "______", "a____c__d"} {
		key := key
		hs = append(hs, hostile{"ask for " + key, func(w *world, from int, run string, kind wtypes.WorkType) []byte {
			return enc(from, common.NewRequestMessage(pid(from), "", run, key))
		}})
	}
	hs = append(hs,
		upd("null entry", func(m *common.TssMessage) { m.UpdateMessages[0] = nil }),
		upd("null entry to me", func(m *common.TssMessage) { m.UpdateMessages[0] = nil; m.To = pid(0) }),
		upd("no data", func(m *common.TssMessage) { m.UpdateMessages[0].Data = nil }),
		upd("garbage data", func(m *common.TssMessage) { m.UpdateMessages[0].Data = []byte{1, 2, 3} }),
		upd("no routing", func(m *common.TssMessage) { m.UpdateMessages[0].SerializedMessageRouting = nil }),
		upd("garbage routing", func(m *common.TssMessage) { m.UpdateMessages[0].SerializedMessageRouting = []byte("[") }),
		upd("empty bundle", func(m *common.TssMessage) { m.UpdateMessages = []*common.UpdateMessage{} }),
		upd("last entry missing", func(m *common.TssMessage) { m.UpdateMessages = m.UpdateMessages[:len(m.UpdateMessages)-1] }),
		upd("last entry null", func(m *common.TssMessage) { m.UpdateMessages[len(m.UpdateMessages)-1] = nil }),
		upd("last entry garbage", func(m *common.TssMessage) {
			m.UpdateMessages[len(m.UpdateMessages)-1].Data = []byte{9}
		}),
		upd("entries of several rounds", func(m *common.TssMessage) {
			m.UpdateMessages[len(m.UpdateMessages)-1].Round = "x"
			m.UpdateMessages[0].Data = nil
		}),
		upd("author nobody", func(m *common.TssMessage) { m.From = "nobody" }),
		upd("no author", func(m *common.TssMessage) { m.From = "" }),
		upd("other work", func(m *common.TssMessage) { m.WorkId = "other" }),
		upd("no work", func(m *common.TssMessage) { m.WorkId = "" }),
	)
	sel := func(name string, f func(p *common.PreExecOutputMessage)) {
		hs = append(hs, hostile{name, func(w *world, from int, run string, kind wtypes.WorkType) []byte {
			m := common.NewPreExecOutputMessage(pid(from), "", run, true, nil, nil)
			f(m.PreExecOutputMessage)
			return enc(from, m)
		}})
	}
	sel("selection of nobody", func(p *common.PreExecOutputMessage) {})
	sel("selection of strangers", func(p *common.PreExecOutputMessage) { p.Pids = []string{"", "nobody"} })
	sel("selection with presigns", func(p *common.PreExecOutputMessage) { p.Pids = []string{pid(0), pid(1)}; p.PresignIds = []string{"x"} })
	sel("failed selection", func(p *common.PreExecOutputMessage) { p.Success = false })
	hs = append(hs, hostile{"answer of 9", func(w *world, from int, run string, kind wtypes.WorkType) []byte {
		m := common.NewAvailabilityResponseMessage(pid(from), pid(0), run, common.AvailabilityResponseMessage_YES, 1)
		m.AvailabilityResponseMessage.Answer = 9
		return enc(from, m)
	}})
	return hs
}

var hostileStages = []string{"idle", "before the start", "selecting", "executing", "finished"}

// hostileRun: malformed inputs at a stage of a work led by leader; the work ends as if they had not come.
func hostileRun(kind wtypes.WorkType, leader int, count, batch int) func() {
	hs := shapes()
	return func() {
		w := newWorld(4, 0)
		if kind == wtypes.EcKeygen || kind == wtypes.EdKeygen {
			w = newWorld(3, 0)
		}
		eng := w.boot(0)
		// a known node that takes part in no work
		x := allNodes[4]
		eng.AddNodes([]*core.Node{x})
		run := w.workLed("run", leader)
		req := w.request(0, kind, run, batch)
		stage := mc.Choose(len(hostileStages), 0)
		var msgs []*p2ptypes.P2PMessage
		var names []string
		first := 0
		for c := 0; c < count; c++ {
			first += mc.Choose(len(hs)-first, 0)
			h := hs[first]
			senders := []int{2, 4, -1}
			if count > 1 {
				senders = senders[:1]
			}
			s := senders[mc.Choose(len(senders), 0)]
			names = append(names, fmt.Sprintf("%s from %d", h.name, s))
			tr, author := "nobody", 2
			if s >= 0 {
				tr, author = pid(s), s
			}
			msgs = append(msgs, &p2ptypes.P2PMessage{FromPeerId: tr, Data: h.mk(w, author, run, kind)})
		}
		hit := func() {
			g := mc.GoNamed("hostile", func() {
				for _, m := range msgs {
					eng.OnNetworkMessage(m)
				}
			})
			mc.Settle()
			mc.Check(g.Done(), "blocked", "delivering %s never returns: %s", names, g.Blocked())
		}
		if stage == 0 || stage == 1 {
			hit()
		}
		if stage != 0 {
			if stage == 2 {
				w.hold = func(m *common.TssMessage) bool { return true }
			}
			if stage == 3 {
				w.hold = func(m *common.TssMessage) bool { return m.Type == common.TssMessage_UPDATE_MESSAGES }
			}
			g := mc.GoNamed("caller", func() {
				if err := eng.AddRequest(req); err != nil {
					mc.Fail("refused", "%v", err)
				}
			})
			mc.Settle()
			mc.Check(g.Done(), "blocked", "AddRequest never returns")
			if stage == 2 || stage == 3 {
				hit()
				w.release()
				mc.Settle()
			}
			if stage == 4 {
				hit()
			}
			os := w.outcomesOf(0, run)
			mc.Check(len(os) == 1, "outcome-count", "%s %s: the work ends with %v", names, hostileStages[stage], os)
			w.checkValid(os[0])
			mc.Check(os[0].kind == "sign" || os[0].kind == "keygen", "outcome", "%s %s: the work ends as %s", names, hostileStages[stage], os[0].kind)
		}
		mc.Quiesce()
		after := w.workLed("after", 1)
		if err := eng.AddRequest(w.request(0, wtypes.EdSigning, after, 1)); err != nil {
			mc.Fail("refused", "a later request is refused: %v", err)
		}
		mc.Quiesce()
		os := w.outcomesOf(0, after)
		mc.Check(len(os) == 1 && os[0].kind == "sign", "later-work", "%s %s: a later work ends as %v", names, hostileStages[stage], os)
		mc.Check(eng.GetActiveWorkerCount() == 0, "slot-leak", "slots not released")
		mc.Outcome("%s", hostileStages[stage])
	}
}

// strangerRun: a transport peer outside the list sends well-formed messages in the name of nodes that take part. None may have any effect.
func strangerRun(kind wtypes.WorkType, leader int) func() {
	strangers := []string{"nobody", "", pid(4), pid(1) + "x", pid(1)[:len(pid(1))-1], " " + pid(2)}
	return func() {
		w := newWorld(4, 0)
		set := []string{pid(0), pid(1)}
		if kind == wtypes.EcKeygen || kind == wtypes.EdKeygen {
			w = newWorld(3, 0)
			set = []string{pid(0), pid(1), pid(2)}
		}
		eng := w.boot(0)
		run := w.workLed("run", leader)
		req := w.request(0, kind, run, 1)
		sent := 0
		w.tap = func(from, to int, sm *common.SignedMessage) {
			if from == 0 {
				sent++
			}
		}
		author := 1 + mc.Choose(2, 0)
		via := strangers[mc.Choose(len(strangers), 0)]
		stage := mc.Choose(len(hostileStages), 0)
		pids := func(ids ...int) (o []*tss.PartyID) {
			for _, i := range ids {
				o = append(o, allNodes[i].PartyId)
			}
			return
		}
		proto, _ := protoOf(req, nil)
		names, p2p := tssfake.Kinds(proto)
		if len(set) == 2 && author == 2 {
			author = 1
		}
		own := ""
		upd := func(work string, k int, alter bool) *common.TssMessage {
			r := req
			if work != run {
				r = w.request(0, kind, work, 1)
				delete(w.reqs, work)
			}
			to := -1
			if p2p[k] {
				to = 0
			}
			m := protoMsg(r, nil, names[k], set, author, to)
			if alter {
				for _, u := range m.UpdateMessages {
					u.Data = append([]byte{7}, u.Data...)
				}
			}
			return m
		}
		lists := []func() *common.TssMessage{
			func() *common.TssMessage { return common.NewAvailabilityRequestMessage(pid(author), pid(0), run) },
			func() *common.TssMessage {
				return common.NewAvailabilityResponseMessage(pid(author), pid(0), run, common.AvailabilityResponseMessage_YES, 1)
			},
			func() *common.TssMessage {
				return common.NewAvailabilityResponseMessage(pid(author), pid(0), run, common.AvailabilityResponseMessage_NO, 1)
			},
			func() *common.TssMessage {
				return common.NewPreExecOutputMessage(pid(author), "", run, true, nil, pids(1, 2))
			},
			func() *common.TssMessage {
				return common.NewPreExecOutputMessage(pid(author), "", run, true, nil, pids(0, 2))
			},
			func() *common.TssMessage {
				return common.NewPreExecOutputMessage(pid(author), "", run, false, nil, nil)
			},
			func() *common.TssMessage { return upd(run, 0, true) },
			func() *common.TssMessage { return upd(run, len(names)-1, true) },
			func() *common.TssMessage { return upd("ghost", 0, false) },
			func() *common.TssMessage { return common.NewRequestMessage(pid(author), "", run, own) },
		}
		for k := range names {
			if !p2p[k] && own == "" {
				own, _ = protoMsg(req, nil, names[k], set, 0, -1).GetMessageKey()
			}
		}
		which := mc.Choose(len(lists), 0)
		hit := func() {
			mc.Settle()
			before, ops, outs, active := sent, len(w.nodes[0].db.ops), len(w.nodes[0].outs), eng.GetActiveWorkerCount()
			m := lists[which]()
			bz := enc(author, m)
			g := mc.GoNamed("stranger", func() { eng.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: via, Data: bz}) })
			mc.Settle()
			mc.Check(g.Done(), "blocked", "delivering message %d of %q never returns", which, via)
			mc.Check(sent == before, "stranger-answered", "%s: message %d of the unknown peer %q makes the node send %d messages", hostileStages[stage], which, via, sent-before)
			mc.Check(len(w.nodes[0].db.ops) == ops && len(w.nodes[0].outs) == outs && eng.GetActiveWorkerCount() == active, "stranger-effect",
				"%s: message %d of the unknown peer %q has an effect", hostileStages[stage], which, via)
		}
		if stage == 0 || stage == 1 {
			hit()
		}
		if stage != 0 {
			if stage == 2 {
				w.hold = func(m *common.TssMessage) bool { return true }
			}
			if stage == 3 {
				w.hold = func(m *common.TssMessage) bool { return m.Type == common.TssMessage_UPDATE_MESSAGES }
			}
			g := mc.GoNamed("caller", func() {
				if err := eng.AddRequest(req); err != nil {
					mc.Fail("refused", "%v", err)
				}
			})
			mc.Settle()
			mc.Check(g.Done(), "blocked", "AddRequest never returns")
			if stage == 2 || stage == 3 {
				hit()
				w.release()
				mc.Settle()
			}
			if stage == 4 {
				hit()
			}
			os := w.outcomesOf(0, run)
			mc.Check(len(os) == 1 && (os[0].kind == "sign" || os[0].kind == "keygen"), "outcome", "message %d of %q %s: the work ends as %v", which, via, hostileStages[stage], os)
			w.checkValid(os[0])
		}
		mc.Quiesce()
		// nothing of it was kept for others either
		if which >= 6 && which <= 8 {
			work, k := run, 0
			if which == 7 {
				k = len(names) - 1
			}
			if which == 8 {
				work = "ghost"
			}
			m := upd(work, k, true)
			key, _ := m.GetMessageKey()
			w.tap = func(from, to int, sm *common.SignedMessage) {
				if from == 0 && sm.TssMessage.Type == common.TssMessage_UPDATE_MESSAGES {
					bad := work == "ghost"
					for _, u := range sm.TssMessage.UpdateMessages {
						bad = bad || len(u.Data) > 0 && u.Data[0] == 7
					}
					mc.Check(!bad, "stranger-kept", "%s: a message of the unknown peer %q is passed on to node %d", hostileStages[stage], via, to)
				}
			}
			eng.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: pid(2), Data: enc(2, common.NewRequestMessage(pid(2), "", work, key))})
			mc.Quiesce()
		}
		mc.Check(eng.GetActiveWorkerCount() == 0, "slot-leak", "slots not released")
		mc.Outcome("%s", hostileStages[stage])
	}
}

// ------------------------------------------------------------ C15 retransmission

// askRun: what a node re-sends, for every asked key, requester and history.
func askRun(histories int) func() {
	return func() {
		w := newWorld(4, 0)
		eng := w.boot(0)
		d := eng.(dispatcher)
		run := []string{"w", "w__x", "w_"}[mc.Choose(3, 0)]
		kind := wtypes.EdKeygen
		req := w.request(0, kind, run, 1)
		other := w.request(0, kind, "w2", 1)
		set := []string{pid(0), pid(1), pid(2)}
		names := []string{"KG1", "KG2M1", "KG2M2"}
		type stored struct {
			key     string
			m       *common.TssMessage
			bytes   []byte
			sig     []byte
			from    string
			sharing map[int]bool // who may get it
		}
		var sent [][3]interface{} // to, signed message, raw
		w.tap = func(from, to int, sm *common.SignedMessage) {
			if from == 0 {
				sent = append(sent, [3]interface{}{to, sm, nil})
			}
		}
		stock := map[string]*stored{}
		put := func(m *common.TssMessage, sm *common.SignedMessage, who ...int) {
			key, _ := m.GetMessageKey()
			s := &stored{key: key, m: m, sig: sm.Signature, from: sm.From, sharing: map[int]bool{}}
			s.bytes, _ = json.Marshal(m)
			for _, i := range who {
				s.sharing[i] = true
			}
			stock[key] = s
		}
		everybody := []int{1, 2, 3}
		send := func(m *common.TssMessage, to int) {
			n := len(sent)
			if to < 0 {
				d.BroadcastMessage(freshPids(3), m)
				put(m, sent[n][1].(*common.SignedMessage), everybody...)
			} else {
				d.UnicastMessage(allNodes[to].PartyId, m)
				put(m, sent[n][1].(*common.SignedMessage), to)
			}
		}
		recv := func(m *common.TssMessage, from int, keep bool) {
			sm := &common.SignedMessage{From: pid(from), TssMessage: m, Signature: []byte("sig of " + m.From)}
			bz, _ := json.Marshal(sm)
			eng.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: pid(from), Data: bz})
			if keep {
				put(m, sm, everybody...)
			}
		}
		for k, name := range names {
			if k == 1 {
				send(protoMsg(req, nil, name, set, 0, 1), 1)
				send(protoMsg(req, nil, name, set, 0, 2), 2)
				recv(protoMsg(req, nil, name, set, 1, 0), 1, false)
				recv(protoMsg(req, nil, name, set, 2, 1), 2, false) // not even for us
				continue
			}
			send(protoMsg(req, nil, name, set, 0, -1), -1)
			recv(protoMsg(req, nil, name, set, 1, -1), 1, true)
		}
		send(protoMsg(other, nil, "KG1", set, 0, -1), -1)
		recv(protoMsg(other, nil, "KG2M2", set, 2, -1), 2, true)
		h := mc.Choose(histories, 0)
		switch h {
		case 1: // other kinds of messages are not kept
			d.BroadcastMessage(freshPids(3), common.NewPreExecOutputMessage(pid(0), "", run, true, nil, nil))
			recv(common.NewAvailabilityRequestMessage(pid(1), "", run), 1, false)
		case 2: // the same message again, in another version: the latest counts
			m := protoMsg(req, nil, "KG1", set, 1, -1)
			m.UpdateMessages[0].Data = append(m.UpdateMessages[0].Data, 0)
			recv(m, 1, true)
			m = protoMsg(req, nil, "KG1", set, 0, -1)
			m.UpdateMessages[0].Data = append(m.UpdateMessages[0].Data, 0)
			send(m, -1)
		case 3: // an outsider's message
			recv(func() *common.TssMessage {
				m := protoMsg(req, nil, "KG1", set, 2, -1)
				m.From = pid(3)
				return m
			}(), 3, true)
		}
		mc.Settle()
		// the request
		var keys []string
		ids := []string{pid(0), pid(1), pid(2), pid(3), "nobody", ""}
		full := func(n string) string {
			m := protoMsg(req, nil, n, set, 0, map[bool]int{true: 1, false: -1}[n == "KG2M1"])
			return m.UpdateMessages[0].Round
		}
		for _, wk := range []string{run, "w2", "zz"} {
			for _, f := range ids[:5] {
				for _, t := range []string{"", pid(0), pid(1), pid(2), pid(3)} {
					for _, n := range append(names[:3:3], "nothing") {
						r := n
						if n != "nothing" {
							r = full(n)
						}
						keys = append(keys, common.GetMessageKey(wk, f, t, r))
					}
				}
			}
		}
		keys = append(keys, "", "__", "a__b__c", run)
		requester := mc.Choose(6, 0) // 0..3, a node we do not know, nobody
		key := keys[mc.Choose(len(keys), 0)]
		rid := []string{pid(0), pid(1), pid(2), pid(3), pid(4), "nobody"}[requester]
		via := pid(1)
		if requester >= 1 && requester <= 3 {
			via = rid
		}
		if requester == 4 {
			via = pid(4)
		}
		n := len(sent)
		ask := common.NewRequestMessage(rid, "", run, key)
		bz, _ := json.Marshal(&common.SignedMessage{From: rid, TssMessage: ask})
		g := mc.GoNamed("ask", func() { eng.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: via, Data: bz}) })
		mc.Quiesce()
		mc.Check(g.Done(), "blocked", "the request never returns: %s", g.Blocked())
		out := sent[n:]
		s := stock[key]
		if s == nil || !s.sharing[requester] {
			mc.Check(len(out) == 0, "leak", "a request of %d for %q is answered with %d messages", requester, key, len(out))
			mc.Outcome("nothing")
			return
		}
		mc.Check(len(out) == 1, "no-answer", "a legitimate request of %d for %q is answered with %d messages", requester, key, len(out))
		sm := out[0][1].(*common.SignedMessage)
		got, _ := json.Marshal(sm.TssMessage)
		mc.Check(out[0][0].(int) == requester, "wrong-addressee", "a message asked for by %d goes to %d", requester, out[0][0])
		mc.Check(bytes.Equal(got, s.bytes) && bytes.Equal(sm.Signature, s.sig) && sm.From == s.from, "altered", "the message re-sent for %q is not the original (author %s, signature %q)", key, sm.From, sm.Signature)
		mc.Outcome("answered")
	}
}

func init() {
	for _, k := range workKinds {
		for _, l := range []int{0, 1} {
			register("C16", &mc.Scenario{Name: fmt.Sprintf("hostile%d-%s", l, kindName(k)), Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: hostileRun(k, l, 1, 1)})
		}
	}
	for _, k := range workKinds {
		register("C16", &mc.Scenario{Name: "stranger-" + kindName(k), Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: func(k wtypes.WorkType) func() {
			return func() { strangerRun(k, mc.Choose(2, 0))() }
		}(k)})
	}
	register("C16", &mc.Scenario{Name: "hostile-pairs", Sched: mc.Coop, Bounds: []int{0}, Body: hostileRun(wtypes.EdSigning, 1, 2, 1)},
		&mc.Scenario{Name: "hostile-batch-ecsign", Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: hostileRun(wtypes.EcSigning, 1, 1, 2)},
		&mc.Scenario{Name: "hostile-batch-edsign", Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: hostileRun(wtypes.EdSigning, 0, 1, 2)},
	)
	register("C15", &mc.Scenario{Name: "ask", Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: askRun(4)})
}
