package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/db"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/dheart/worker"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	fakesql "github.com/sisu-network/dheart/zzmc/shim/sql"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C29: the address book in use

func setPids(set ...int) tss.SortedPartyIDs {
	var ids tss.UnSortedPartyIDs
	for _, i := range set {
		x := allNodes[i].PartyId
		ids = append(ids, tss.NewPartyID(x.Id, x.Moniker, x.KeyInt()))
	}
	return tss.SortPartyIDs(ids)
}

func workLedBy(prefix string, leader int, set ...int) string {
	for k := 0; ; k++ {
		if s := fmt.Sprintf("%s-%d", prefix, k); worker.ChooseLeader(s, setPids(set...)).Id == pid(leader) {
			return s
		}
	}
}

// knows: messages of peer r that come before the node is asked to work with it count.
func (n *hnode) knows(r *rawPeer, tag string) bool {
	set := []int{n.i, r.i}
	work := workLedBy(fmt.Sprint(tag, "p", r.i), r.i, set...)
	req := wtypes.NewEdKeygenRequest(work, setPids(set...), utils.GetThreshold(2))
	var ps []*tss.PartyID
	for _, i := range set {
		ps = append(ps, allNodes[i].PartyId)
	}
	ms := []*common.TssMessage{common.NewAvailabilityRequestMessage(pid(r.i), pid(n.i), work), common.NewPreExecOutputMessage(pid(r.i), "", work, true, nil, ps)}
	proto, _ := protoOf(req, nil)
	kinds, direct := tssfake.Kinds(proto)
	for k := range kinds {
		to := -1
		if direct[k] {
			to = n.i
		}
		ms = append(ms, protoMsg(req, nil, kinds[k], []string{pid(n.i), pid(r.i)}, r.i, to))
	}
	n.api.SetSisuReady(true)
	r.send(n.i, ms...)
	mc.Elapse(5 * time.Second)
	before := len(n.cl.posts)
	err := n.api.KeyGen(work, "eddsa", wrappers(set...))
	mc.Check(err == nil, "refused", "a key generation is refused: %v", err)
	mc.Elapse(10 * time.Minute)
	ps2 := n.cl.posts[before:]
	mc.Check(len(ps2) == 1 && ps2[0].kg != nil, "outcome", "a key generation with a peer ends as %v", ps2)
	return ps2[0].kg.Outcome == htypes.OutcomeSuccess
}

// stored is the address book in the database.
func (n *hnode) stored() []*p2ptypes.Peer {
	d := db.NewDatabase(&n.cfg.Db)
	if err := d.Init(); err != nil {
		mc.Fail("db", "%v", err)
	}
	return d.LoadPeers()
}

func listed(ps []*p2ptypes.Peer) string {
	var o []string
	for _, p := range ps {
		o = append(o, js(p))
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

func badPeers() (o []*p2ptypes.Peer) {
	g := *heartPeer(3)
	for _, c := range [][2]string{{g.PubKey, "sr25519"}, {g.PubKey, ""}, {"zz", "ed25519"}, {"", "ed25519"}, {"", "secp256k1"}, {g.PubKey[2:], "ed25519"}, {g.PubKey + "00", "ed25519"}, {g.PubKey, "secp256k1"}, {"00", "secp256k1"}} {
		p := g
		p.PubKey, p.PubKeyType = c[0], c[1]
		o = append(o, &p)
	}
	return
}

func bookRun(faults int) func() {
	return func() {
		lists := [][]int{{1}, {5}, {1, 5}, {5, 1}, {1, 2, 5, 6}, append(upto(5, 20), 1, 2)}
		good := lists[mc.Choose(len(lists), 0)]
		var conf []*p2ptypes.Peer
		for _, i := range good {
			conf = append(conf, heartPeer(i))
		}
		if faults == 0 {
			bad := badPeers()
			if b := mc.Choose(len(bad)+1, 0); b > 0 {
				at := 0
				if len(conf) > 4 {
					at = mc.Choose(3, 0) * (len(conf) / 2)
				} else {
					at = mc.Choose(len(conf)+1, 0)
				}
				conf = append(append(append([]*p2ptypes.Peer{}, conf[:at]...), bad[b-1]), conf[at:]...)
			}
		}
		raws := map[int]*rawPeer{}
		for _, i := range append([]int{4}, good...) {
			raws[i] = newRawPeer(i)
		}
		fault, phase := 0, 0
		if faults > 0 {
			fault, phase = mc.Choose(faults, 0)+1, mc.Choose(2, 0)
		}
		hit := false
		start := func(n *hnode, ph int) bool {
			n.boot()
			calls := 0
			hitNow := false
			if fault > 0 && ph == phase {
				fakesql.W().Fault = func(kind, q string) fakesql.Fault {
					if calls++; calls == fault {
						hit, hitNow = true, true
						return fakesql.Before
					}
					return fakesql.OK
				}
			}
			err := n.setKey()
			fakesql.W().Fault = nil
			if err != nil {
				mc.Check(hitNow, "set-key", "a correct key is refused: %v", err)
				err = n.setKey()
				mc.Check(err == nil, "set-key", "after a failure, a correct key is refused: %v", err)
				hitNow = false // from the start
			}
			return !hitNow
		}
		check := func(n *hnode, tag string) {
			for _, i := range good {
				mc.Check(n.knows(raws[i], tag), "peer-unknown", "%s: messages of configured peer %d are not accepted", tag, i)
			}
			for _, p := range n.stored() {
				ok := false
				for _, c := range conf {
					ok = ok || js(c) == js(p)
				}
				mc.Check(ok, "made-up-peer", "%s: peer %s is stored, which was not configured", tag, js(p))
			}
			for _, i := range good {
				ok := false
				for _, p := range n.stored() {
					ok = ok || js(p) == js(heartPeer(i))
				}
				mc.Check(ok, "peer-lost", "%s: peer %d is not stored", tag, i)
			}
		}
		n := newHeart(0, conf...)
		if start(n, 0) {
			check(n, "first")
		} else if fault > 0 && phase == 0 {
			n = n.restart(conf...)
			start(n, -1)
			check(n, "again")
		}
		mode := mc.Choose(5, 0)
		if mode == 4 {
			mc.Elapse(time.Hour)
		}
		n = n.restart()
		if start(n, 1) {
			check(n, "restarted")
		}
		before := listed(n.stored())
		switch mode {
		case 0:
			n = n.restart()
		case 1, 4:
			n = n.restart(heartPeer(4)) // somebody else is configured
		case 2: // more peers than are known
			n = n.restart(append(append([]*p2ptypes.Peer{}, conf...), heartPeer(4))...)
		case 3:
			n = n.restart(heartPeer(4), heartPeer(3), heartPeer(6), heartPeer(2), heartPeer(5), heartPeer(1))
		}
		start(n, -1)
		check2 := n.stored()
		mc.Check(len(check2) > 0, "peer-lost", "the address book is empty after restarts")
		mc.Check(listed(check2) == before, "book-changed", "after a restart with other configured peers, the address book %s became %s", before, listed(check2))
		for _, i := range good {
			mc.Check(n.knows(raws[i], "third"), "peer-unknown", "messages of stored peer %d are not accepted", i)
		}
		mc.Outcome("%v", hit)
	}
}

// bookFirst: the first start of a node without any peer is no problem.
func bookNone() {
	n := newHeart(0)
	if mc.Choose(2, 0) == 1 {
		n.cfg.Connection.Peers = []*p2ptypes.Peer{}
		n.make()
	}
	n.boot()
	err := n.setKey()
	mc.Check(err == nil, "set-key", "a correct key is refused: %v", err)
	mc.Check(len(n.stored()) == 0, "made-up-peer", "peers are stored, although none is configured")
	r := newRawPeer(1)
	n.api.SetSisuReady(true)
	n.knows(r, "none")
	n = n.restart(heartPeer(1)).boot()
	err = n.setKey()
	mc.Check(err == nil, "set-key", "a correct key is refused: %v", err)
	mc.Check(n.knows(r, "later"), "peer-unknown", "messages of a peer configured later are not accepted")
	n = n.restart().boot()
	err = n.setKey()
	mc.Check(err == nil, "set-key", "a correct key is refused: %v", err)
	mc.Check(n.knows(r, "last"), "peer-unknown", "messages of a stored peer are not accepted")
}

func init() {
	_ = core.MaxWorker
	register("C29",
		&mc.Scenario{Name: "book-start", Sched: mc.Coop, Bounds: []int{0}, Body: bookRun(0)},
		&mc.Scenario{Name: "book-fault", Sched: mc.Coop, Bounds: []int{0}, Body: bookRun(8)},
		&mc.Scenario{Name: "book-none", Sched: mc.Coop, Bounds: []int{0}, Body: bookNone},
	)
	assume("C29", "That a node knows a peer is observed by whether it accepts the peer's messages before it is asked to work with it.")
}
