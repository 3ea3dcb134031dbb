package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"time"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	p2pcrypto "github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/dheart/worker"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	fakep2p "github.com/sisu-network/dheart/zzmc/shim/libp2p"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C27: what every node derives alike

// orders lists all orders of l, or, if it is long, those that differ by a rotation, a reversal or a stride.
func orders(l []int) (o [][]int) {
	if len(l) > 7 {
		for r := 0; r < len(l); r++ {
			var a, b, c []int
			for i := range l {
				x := l[(i+r)%len(l)]
				a, b = append(a, x), append([]int{x}, b...)
			}
			for s := 0; s < 2; s++ {
				for i := s; i < len(a); i += 2 {
					c = append(c, a[i])
				}
			}
			o = append(o, a, b, c)
		}
		return
	}
	if len(l) == 0 {
		return [][]int{nil}
	}
	for i := range l {
		rest := append(append([]int{}, l[:i]...), l[i+1:]...)
		for _, r := range orders(rest) {
			o = append(o, append([]int{l[i]}, r...))
		}
	}
	return
}

func subsetsOf(n, max int) (o [][]int) {
	for m := 1; m < 1<<uint(n); m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) <= max {
			o = append(o, s)
		}
	}
	return
}

// someSets: all sets of up to 4 of 7 nodes, and some large ones.
func someSets() [][]int { return append(subsetsOf(7, 4), upto(0, 8), upto(0, 11), upto(3, 14), upto(0, 23)) }

func wantThreshold(n int) int { return (n+1)*2/3 - 1 }

func descr(ns []*core.Node) (s string) {
	for _, n := range ns {
		s += fmt.Sprintf("%s %x %s %d;", n.PeerId, n.PubKey.Bytes(), n.PartyId.Id, n.PartyId.Index)
	}
	return
}

// sameNodes: node lists depend on the set of keys only.
func sameNodes() {
	sets := someSets()
	set := sets[mc.Choose(len(sets), 0)]
	var want string
	for _, ord := range orders(set) {
		var ks, keep []ctypes.PubKey
		for _, i := range ord {
			ks = append(ks, allNodes[i].PubKey)
		}
		keep = append(keep, ks...)
		ns := core.NewNodes(ks)
		ns2, err := core.NewNodesFromKeys(ks)
		mc.Check(err == nil, "keys-refused", "%v", err)
		mc.Check(descr(ns) == descr(ns2), "nodes-differ", "two lists of the same keys differ")
		for i := range ks {
			mc.Check(ks[i].Equals(keep[i]), "keys-moved", "the caller's list of keys is changed")
		}
		mc.Check(len(ns) == len(set), "nodes-count", "%d nodes for %d keys", len(ns), len(set))
		seen := map[string]bool{}
		for i, n := range ns {
			mc.Check(n.PartyId.Index == i, "node-index", "the node at position %d has index %d", i, n.PartyId.Index)
			one := core.NewNode(n.PubKey)
			mc.Check(one.PeerId == n.PeerId && one.PartyId.Id == n.PartyId.Id && bytes.Equal(one.PartyId.Key, n.PartyId.Key), "node-identity", "the identity of a node depends on the others")
			mc.Check(n.PeerId == keyPeer(n.PubKey), "node-peer", "the peer id is not that of the key")
			mc.Check(n.PartyId.Id == n.PeerId.String(), "node-party", "party %s of peer %s", n.PartyId.Id, n.PeerId)
			mc.Check(!seen[n.PartyId.Id], "node-twice", "two keys give the same node")
			seen[n.PartyId.Id] = true
		}
		if d := descr(ns); want == "" {
			want = d
		} else {
			mc.Check(d == want, "order-of-keys", "listing the keys as %v changes the participants", ord)
		}
	}
}

func keyPeer(k ctypes.PubKey) peer.ID {
	un := p2pcrypto.UnmarshalEd25519PublicKey
	if k.Type() == "secp256k1" {
		un = p2pcrypto.UnmarshalSecp256k1PublicKey
	}
	pk, err := un(k.Bytes())
	if err != nil {
		panic(err)
	}
	id, err := peer.IDFromPublicKey(pk)
	if err != nil {
		panic(err)
	}
	return id
}

func sameThreshold() {
	for n := 1; n <= 64; n++ {
		got := utils.GetThreshold(n)
		mc.Check(got == wantThreshold(n), "threshold", "the threshold of %d nodes is %d", n, got)
	}
}

func newPids(ord []int) (o []*tss.PartyID) {
	for _, i := range ord {
		p := allNodes[i].PartyId
		o = append(o, tss.NewPartyID(p.Id, p.Moniker, p.KeyInt()))
	}
	return
}

// sameLeader: one leader for every work, whatever the order
func sameLeader() {
	sets := someSets()
	set := sets[mc.Choose(len(sets), 0)]
	for w := 0; w < 16; w++ {
		work := fmt.Sprint("work", w)
		if w == 15 {
			work = ""
		}
		lead := ""
		for _, ord := range orders(set) {
			for variant := 0; variant < 2; variant++ {
				ps := newPids(ord)
				if variant == 1 { // with any positions
					for i, p := range ps {
						p.Index = (i + w) % len(ps)
					}
				}
				keep := append([]*tss.PartyID{}, ps...)
				l := worker.ChooseLeader(work, ps)
				in := false
				for i := range ps {
					mc.Check(ps[i] == keep[i], "parties-moved", "choosing a leader changes the list of participants")
					in = in || l == ps[i]
				}
				mc.Check(in, "leader-outside", "the leader %v is none of the participants", l)
				if lead == "" {
					lead = l.Id
				}
				mc.Check(l.Id == lead, "leader-differs", "the leader of %q depends on the order of the participants", work)
			}
		}
	}
}

func newRequests(ps []*tss.PartyID, work string) []*wtypes.WorkRequest {
	t := utils.GetThreshold(len(ps))
	return []*wtypes.WorkRequest{
		wtypes.NewEcKeygenRequest("ecdsa", work, ps, t, nil),
		wtypes.NewEdKeygenRequest(work, ps, t),
		wtypes.NewEcSigningRequest(work, ps, t, [][]byte{{1}}, []string{"c"}, nil),
		wtypes.NewEdSigningRequest(work, ps, t, [][]byte{{1}}, []string{"c"}, nil),
	}
}

// sameRequests: requests have their own participants, in the order of their keys
func sameRequests() {
	sets := someSets()
	set := sets[mc.Choose(len(sets), 0)]
	want := ""
	for _, ord := range orders(set) {
		ps := newPids(ord)
		for i, p := range ps {
			p.Index = 10 + i
		}
		var all []*tss.PartyID
		keep := append([]*tss.PartyID{}, ps...)
		rs := append(newRequests(ps, "a"), newRequests(ps, "b")...)
		for _, r := range rs {
			s := ""
			for i, p := range r.AllParties {
				mc.Check(p.Index == i, "request-index", "participant %d has index %d", i, p.Index)
				s += p.Id + fmt.Sprintf("%x", p.Key) + ";"
				for _, q := range all {
					mc.Check(p != q && p.MessageWrapper_PartyID != q.MessageWrapper_PartyID, "shared", "two requests share a participant")
				}
				for _, q := range ps {
					mc.Check(p != q && p.MessageWrapper_PartyID != q.MessageWrapper_PartyID, "shared", "a request shares a participant with its caller")
				}
			}
			all = append(all, r.AllParties...)
			if want == "" {
				want = s
			}
			mc.Check(s == want, "request-order", "the participants depend on the order they are listed in")
			mc.Check(r.N == len(set) && r.Threshold == wantThreshold(len(set)), "request-threshold", "N %d threshold %d", r.N, r.Threshold)
		}
		for i, p := range ps {
			mc.Check(p == keep[i] && p.Index == 10+i, "caller-changed", "making a request changes the caller's participants")
		}
		// changes to those of one request
		for k, r := range rs {
			for _, p := range r.AllParties {
				p.Index = 100
				p.Key = []byte{1}
			}
			for _, o := range rs[k+1:] {
				for i, p := range o.AllParties {
					mc.Check(p.Index == i && len(p.Key) > 1, "shared", "two requests share participants")
				}
			}
		}
	}
}

// onWire lists the messages sent so far by node i (-1: all).
func onWire(i int) (o []*common.TssMessage) {
	at := map[*fakep2p.Stream]int{}
	for _, p := range fakep2p.W().Pushes { // in the order in which they were complete
		for i < 0 || p.S.Local == allNodes[i].PeerId {
			b := p.S.Wire[at[p.S]:p.Total]
			if len(b) < 4 {
				break
			}
			n := int(binary.LittleEndian.Uint32(b))
			if len(b) < 4+n {
				break
			}
			m := &common.SignedMessage{}
			if err := json.Unmarshal(b[4:4+n], m); err != nil || m.TssMessage == nil {
				mc.Fail("wire", "%v", err)
				return
			}
			o = append(o, m.TssMessage)
			at[p.S] += 4 + n
		}
	}
	return
}

// leaderOf is the leader the messages about a work speak of.
func leaderOf(ms []*common.TssMessage) (o map[string]bool) {
	o = map[string]bool{}
	for _, m := range ms {
		switch m.Type {
		case common.TssMessage_AVAILABILITY_REQUEST, common.TssMessage_PRE_EXEC_OUTPUT:
			o[m.From] = true
		case common.TssMessage_AVAILABILITY_RESPONSE:
			o[m.To] = true
		}
	}
	return
}

// sameHearts starts whole nodes with the given numbers.
func sameHearts(idx ...int) (o heartPair) { return sameHeartsWith(nil, idx...) }

func sameHeartsWith(edit func(n *hnode), idx ...int) (o heartPair) {
	for _, i := range idx {
		var ps []*p2ptypes.Peer
		for _, j := range idx {
			if j != i {
				ps = append(ps, heartPeer(j))
			}
		}
		n := newHeart(i, ps...)
		if edit != nil {
			edit(n)
			n.make()
		}
		o = append(o, newHeartWorld(n.boot()))
	}
	for _, w := range o {
		w := w
		err := w.n.api.SetPrivKey(encKey(nodeKeys[w.n.i]), nodeKeys[w.n.i].Type())
		mc.Check(err == nil, "set-key", "%v", err)
		w.n.api.SetSisuReady(true)
	}
	return
}

// watchParties: the participants of a running protocol keep their positions.
func watchParties() {
	seen := 0
	check := func(p *tssfake.Party) {
		ids := p.Params.Parties().IDs()
		for i, id := range ids {
			mc.Check(id.Index == i, "participants-changed", "the participant at position %d of a running work has index %d", i, id.Index)
			mc.Check(i == 0 || ids[i-1].KeyInt().Cmp(id.KeyInt()) < 0, "participants-unsorted", "the participants of a running work are not sorted")
			mc.Check(id.Id != p.Me() || p.PartyID().Index == i, "participants-changed", "a node counts itself as %d and is %d", p.PartyID().Index, i)
		}
	}
	c := tssfake.C()
	c.OnUpdate = func(*tssfake.Party, string, string, string, bool) {
		seen++
		for _, p := range c.Parties {
			if p.Running() {
				check(p)
			}
		}
	}
	c.Emit = func(p *tssfake.Party, name, to string) { check(p) }
	c.Foreign = func(p *tssfake.Party, detail string) {
		mc.Fail("foreign", "a message that does not belong to %v reaches it: %s", p, detail)
	}
}

// sameWorks: every node is asked with its own order of the keys
func sameWorks(idx []int, kinds []string, all bool) func() {
	return func() {
		p := sameHearts(idx...)
		watchParties()
		n := len(idx)
		ords := orders(idx)
		var mine [][]int
		for range p {
			if all {
				mine = append(mine, ords[mc.Choose(len(ords), 0)])
			} else { // all but one have the same
				mine = append(mine, ords[0])
			}
		}
		if !all {
			mine[mc.Choose(n, 0)] = ords[mc.Choose(len(ords), 0)]
		}
		kt := kinds[mc.Choose(len(kinds), 0)]
		for k := 0; k < 2; k++ {
			before := len(onWire(-1))
			posts := make([]int, n)
			for i, w := range p {
				posts[i] = len(w.n.cl.posts)
				i, w := i, w
				mc.GoNamed(fmt.Sprint("call at ", w.n.i), func() {
					var err error
					if k == 0 {
						err = w.n.api.KeyGen("gen", kt, wrappers(mine[i]...))
					} else {
						err = w.n.api.KeySign(signReq(kt, "t", "m1", "m2"), wrappers(mine[i]...))
					}
					mc.Check(err == nil, "refused", "%v", err)
				})
			}
			mc.Elapse(10 * time.Minute)
			ids := map[string]bool{}
			ms := onWire(-1)[before:]
			for _, m := range ms {
				ids[m.WorkId] = true
			}
			mc.Check(len(ids) == 1, "work-ids", "there are %d work ids for one request", len(ids))
			mc.Check(k == 1 || ids["gen"], "keygen-id", "a key generation runs under another id than the caller's: %v", ids)
			ls := leaderOf(ms)
			mc.Check(len(ls) == 1, "leaders", "there are %d leaders for one request", len(ls))
			for l := range ls {
				in := false
				for _, i := range idx {
					in = in || pid(i) == l
				}
				mc.Check(in, "leader-outside", "the leader is none of the participants")
			}
			good := 0
			for i, w := range p {
				mc.Check(len(w.n.cl.posts) == posts[i]+1, "posts", "%d results are posted by node %d", len(w.n.cl.posts)-posts[i], w.n.i)
				l := w.n.cl.posts[len(w.n.cl.posts)-1]
				if l.kg != nil && l.kg.Outcome == htypes.OutcomeSuccess || l.ks != nil && l.ks.Outcome == htypes.OutcomeSuccess {
					good++
				}
			}
			need := n
			if k == 1 {
				need = wantThreshold(n) + 1
			}
			mc.Check(good == need, "work-fails", "%d of %d nodes succeed where %d have to", good, n, need)
			for _, q := range tssfake.C().Parties {
				mc.Check(q.Params.Threshold() == wantThreshold(n), "threshold", "%v runs with threshold %d", q, q.Params.Threshold())
			}
			tssfake.C().Parties = nil
		}
	}
}

// aloneAmong starts node me with its shares stored, among peers that answer nothing.
func aloneAmong(me int, idx []int) *hnode {
	for _, h := range fakep2p.W().Hosts {
		mc.Fail("world", "%v still runs", h)
	}
	var ps []*p2ptypes.Peer
	for _, j := range idx {
		if j != me {
			r := newRawPeer(j)
			r.h.SetStreamHandler(p2p.TSSProtocolID, func(network.Stream) {})
			ps = append(ps, heartPeer(j))
		}
	}
	n := newHeart(me, ps...)
	d := n.openDb()
	set := newPids(idx)
	seed := tssfake.SeedOf(set)
	err := d.SaveEcKeygen("ecdsa", "old", set, tssfake.EcShare(seed, allNodes[me].PartyId))
	mc.Check(err == nil, "save", "%v", err)
	err = d.SaveEdKeygen("eddsa", "old", set, tssfake.EdShare(seed, allNodes[me].PartyId))
	mc.Check(err == nil, "save", "%v", err)
	n.boot()
	err = n.api.SetPrivKey(encKey(nodeKeys[me]), nodeKeys[me].Type())
	mc.Check(err == nil, "set-key", "%v", err)
	n.api.SetSisuReady(true)
	return n
}

func endAll() {
	var hs []*fakep2p.Host
	for _, h := range fakep2p.W().Hosts {
		hs = append(hs, h)
	}
	for _, h := range hs {
		h.Close()
	}
}

// derived makes a call and tells the work id and leader the node derives.
func derived(n *hnode, call func() error) (work, leader string) {
	before := len(onWire(n.i))
	err := call()
	mc.Check(err == nil, "refused", "%v", err)
	mc.Elapse(10 * time.Minute)
	ms := onWire(n.i)[before:]
	ls := leaderOf(ms)
	mc.Check(len(ls) == 1, "leaders", "node %d speaks of %d leaders", n.i, len(ls))
	for l := range ls {
		leader = l
	}
	for _, m := range ms {
		mc.Check(work == "" || work == m.WorkId, "work-ids", "there are several work ids for one request")
		work = m.WorkId
	}
	return
}

// sameAlone: what each node derives on its own for each order of the keys
func sameAlone(idx []int) func() {
	return func() {
		kt := []string{"ecdsa", "eddsa"}[mc.Choose(2, 0)]
		sign := mc.Choose(2, 0) == 1
		round := mc.Choose(3, 0)
		want := ""
		for _, me := range idx {
			n := aloneAmong(me, idx)
			for _, ord := range orders(idx) {
				w, l := derived(n, func() error {
					if sign {
						return n.api.KeySign(signReq(kt, "t", fmt.Sprint("m", round), "m"), wrappers(ord...))
					}
					return n.api.KeyGen(fmt.Sprint("gen", round), kt, wrappers(ord...))
				})
				if want == "" {
					want = w + " " + l
				}
				mc.Check(want == w+" "+l, "nodes-differ", "node %d with the keys as %v derives %s and leader %s, others %s", me, ord, w, l, want)
			}
			endAll()
		}
		mc.Outcome("%s", want)
	}
}

// sameIds: different lists of message ids or key types give different work ids, and equal ones the same
func sameIds(alphabet []string, max int) func() {
	return func() {
		n := aloneAmong(0, []int{0, 1})
		seen := map[string]string{}
		id := func(kt string, ids ...string) string {
			w, _ := derived(n, func() error { return n.api.KeySign(signReq(kt, "t", ids...), wrappers(0, 1)) })
			me := fmt.Sprintf("%s %q", kt, ids)
			mc.Check(seen[w] == "" || seen[w] == me, "work-id-shared", "%s and %s have the same work id", me, seen[w])
			seen[w] = me
			return w
		}
		lists := [][]string{}
		level := [][]string{nil}
		for k := 0; k < max; k++ {
			var next [][]string
			for _, l := range level {
				for _, a := range alphabet {
					next = append(next, append(append([]string{}, l...), a))
				}
			}
			lists = append(lists, next...)
			level = next
		}
		for _, kt := range []string{"ecdsa", "eddsa"} {
			for _, l := range lists {
				w := id(kt, l...)
				if len(l) <= 2 { // ids made of other ids
					again := id(kt, l...)
					mc.Check(w == again, "work-id-changes", "the work id of the same request changes")
					id(kt, w)
					for _, x := range alphabet[:2] {
						id(kt, w+x)
						id(kt, utils.KeccakHash32(l[0])+x)
						id(kt, w, x)
					}
				}
			}
		}
	}
}

// sameTogether: works run side by side, with participants of their own
func sameTogether(idx []int) func() {
	return func() {
		mc.Calm(true)
		p := sameHearts(idx...)
		watchParties()
		for _, kt := range []string{"ecdsa", "eddsa"} {
			for _, w := range p {
				w := w
				mc.GoNamed(fmt.Sprint("call at ", w.n.i), func() {
					err := w.n.api.KeyGen("gen"+kt, kt, wrappers(idx...))
					mc.Check(err == nil, "refused", "%v", err)
				})
			}
			mc.Elapse(10 * time.Minute)
		}
		mc.Calm(false)
		for k, kt := range []string{"ecdsa", "eddsa"} {
			for i, w := range p {
				k, i, w, kt := k, i, w, kt
				mc.GoNamed(fmt.Sprint("call at ", w.n.i), func() {
					ords := orders(idx)
					err := w.n.api.KeySign(signReq(kt, "t", fmt.Sprint("m", k)), wrappers(ords[(i+3*k)%len(ords)]...))
					mc.Check(err == nil, "refused", "%v", err)
				})
			}
		}
		mc.Elapse(10 * time.Minute)
		good := 0
		for _, w := range p {
			mc.Check(len(w.n.cl.posts) == 4, "posts", "%d results are posted by node %d", len(w.n.cl.posts), w.n.i)
			for _, l := range w.n.cl.posts {
				if l.ks != nil && l.ks.Outcome == htypes.OutcomeSuccess {
					good++
				}
			}
		}
		mc.Check(good == 2*(wantThreshold(len(idx))+1), "work-fails", "%d results of two signings of %d nodes succeed", good, len(idx))
	}
}

func init() {
	both := []string{"ecdsa", "eddsa"}
	register("C27",
		&mc.Scenario{Name: "same-nodes", Sched: mc.Fixed, MapDev: true, Bounds: []int{0, 1}, Body: sameNodes},
		&mc.Scenario{Name: "same-threshold", Sched: mc.Fixed, Body: sameThreshold},
		&mc.Scenario{Name: "same-leader", Sched: mc.Fixed, MapDev: true, Bounds: []int{0, 1}, Body: sameLeader},
		&mc.Scenario{Name: "same-requests", Sched: mc.Fixed, MapDev: true, Bounds: []int{0, 1}, Body: sameRequests},
		&mc.Scenario{Name: "same-alone", Sched: mc.Coop, Bounds: []int{0}, Body: sameAlone([]int{0, 2, 5})},
		&mc.Scenario{Name: "same-alone4", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: sameAlone([]int{0, 2, 5, 6})},
		&mc.Scenario{Name: "same-ids", MaxTime: 10000 * time.Hour, Sched: mc.Coop, Bounds: []int{0}, Body: sameIds([]string{"a", "b", "ab", ""}, 3)},
		&mc.Scenario{Name: "same-ids-more", MaxTime: 10000 * time.Hour, Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: sameIds([]string{"a", "b", "ab", "", "ba", "0", "aa"}, 3)},
		&mc.Scenario{Name: "same-works", Sched: mc.Coop, Bounds: []int{0}, Body: sameWorks([]int{0, 3, 5}, both, true)},
		&mc.Scenario{Name: "same-works2", Sched: mc.Coop, Bounds: []int{0}, Body: sameWorks([]int{1, 6}, both, true)},
		&mc.Scenario{Name: "same-works4", Sched: mc.Coop, Bounds: []int{0}, Body: sameWorks([]int{0, 1, 4, 6}, both[:1], false)},
		&mc.Scenario{Name: "same-works5", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: sameWorks([]int{0, 1, 2, 5, 6}, both, false)},
		&mc.Scenario{Name: "same-together", Sched: mc.Delay, Race: true, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: sameTogether([]int{0, 5})},
		&mc.Scenario{Name: "same-together3", Deep: true, Sched: mc.Delay, Race: true, Bounds: []int{0, 1}, Body: sameTogether([]int{0, 1, 5})},
	)
	assume("C27", "The nodes are whole hearts over stand-ins for the network library, the database server, the cryptographic library and the caller; work ids, leaders and participants are read from what is sent, and thresholds from what the library is started with.")
}
