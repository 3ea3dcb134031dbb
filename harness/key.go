package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"strings"

	p2pcrypto "github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/peer"
	ma "github.com/multiformats/go-multiaddr"
	"github.com/sisu-network/dheart/core"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	mc "github.com/sisu-network/dheart/zzmc"
	fakep2p "github.com/sisu-network/dheart/zzmc/shim/libp2p"
	fakesql "github.com/sisu-network/dheart/zzmc/shim/sql"
)

// ------------------------------------------------------------ C24: setting the private key

// keyTry is one call of SetPrivKey.
type keyTry struct {
	name string
	enc  string
	typ  string
	id   peer.ID // identity of a correct key, otherwise ""
	odd  bool    // accepted or not, but never a crash
}

func idOf(k p2pcrypto.PrivKey, err error) peer.ID {
	if err != nil {
		panic(err)
	}
	id, err := peer.IDFromPublicKey(k.GetPublic())
	if err != nil {
		panic(err)
	}
	return id
}

func tryEd(i int) keyTry {
	return keyTry{name: fmt.Sprint("ed25519 key ", i), enc: encKey(nodeKeys[i]), typ: "ed25519", id: idOf(p2pcrypto.UnmarshalEd25519PrivateKey(nodeKeys[i].Bytes()))}
}

func trySecp(i int) keyTry {
	k := secpKey(i)
	return keyTry{name: fmt.Sprint("secp256k1 key ", i), enc: encKey(k), typ: "secp256k1", id: idOf(p2pcrypto.UnmarshalSecp256k1PrivateKey(k.Bytes()))}
}

func badTries() (o []keyTry) {
	bad := func(name string, enc string, typ string) { o = append(o, keyTry{name: name, enc: enc, typ: typ}) }
	good := encKey(nodeKeys[0])
	raw, _ := hex.DecodeString(good)
	for _, s := range []string{"", "zz", good[:len(good)-1], good + "0", good + "0g", "0x" + good, " " + good} {
		bad(fmt.Sprintf("malformed %.6q %d", s, len(s)), s, "ed25519")
	}
	for n := 0; n < len(raw); n++ {
		bad(fmt.Sprint("cut to ", n), hex.EncodeToString(raw[:n]), "ed25519")
	}
	for i := range raw {
		c := append([]byte{}, raw...)
		c[i] ^= 1
		bad(fmt.Sprint("changed at ", i), hex.EncodeToString(c), "ed25519")
	}
	bad("extended", good+"00", "ed25519")
	for _, k := range [][]byte{secretKey(32, 6), secretKey(16, 5), secretKey(24, 5)} {
		bad("encrypted with another key", hex.EncodeToString(seal(nodeKeys[0].Bytes(), k)), "ed25519")
	}
	bad("not encrypted", hex.EncodeToString(nodeKeys[0].Bytes()), "ed25519")
	full := append(append([]byte{}, nodeKeys[0].Bytes()...), nodeKeys[1].Bytes()...)
	for n := 0; n <= 128; n++ {
		if n != 64 {
			bad(fmt.Sprint("ed25519 of length ", n), hex.EncodeToString(seal(full[:n], heartAes)), "ed25519")
		}
		if n != 32 {
			bad(fmt.Sprint("secp256k1 of length ", n), hex.EncodeToString(seal(full[:n], heartAes)), "secp256k1")
		}
	}
	for _, t := range []string{"", "ED25519", "Ed25519", "ed25519 ", "secp256", "sr25519", "rsa", "ecdsa", "eddsa", "secp256k1\x00"} {
		bad("type "+t, good, t)
		bad("secp256k1 key of type "+t, encKey(secpKey(0)), t)
	}
	bad("ed25519 key as secp256k1", good, "secp256k1")
	bad("secp256k1 key as ed25519", encKey(secpKey(0)), "ed25519")
	return
}

func oddTries() (o []keyTry) {
	odd := func(name string, key []byte, typ string) {
		o = append(o, keyTry{name: name, enc: hex.EncodeToString(seal(key, heartAes)), typ: typ, odd: true})
	}
	odd("zero secp256k1 key", make([]byte, 32), "secp256k1")
	odd("secp256k1 key of ones", []byte(strings.Repeat("\xff", 32)), "secp256k1")
	odd("zero ed25519 key", make([]byte, 64), "ed25519")
	odd("mixed ed25519 key", append(append([]byte{}, nodeKeys[0].Bytes()[:32]...), nodeKeys[1].Bytes()[32:]...), "ed25519")
	o = append(o, keyTry{name: "upper case hex", enc: strings.ToUpper(encKey(nodeKeys[0])), typ: "ed25519", odd: true})
	return
}

// keyWorld follows the identity of a node.
type keyWorld struct {
	*hnode
	cur     peer.ID
	started int
}

func (w *keyWorld) look(when string) {
	var ids []string
	for id := range fakep2p.W().Hosts {
		if id != peer.ID("") && id != idOf(p2pcrypto.UnmarshalEd25519PrivateKey(nodeKeys[1].Bytes())) {
			ids = append(ids, id.Pretty())
		}
	}
	if w.cur == "" {
		mc.Check(len(ids) == 0, "host-left", "%s: no key is set, but the network runs as %v", when, ids)
	} else {
		mc.Check(len(ids) == 1 && ids[0] == w.cur.Pretty(), "identity", "%s: the network runs as %v, not as %v", when, ids, w.cur.Pretty())
	}
}

func startsOf(not peer.ID) (n int) {
	for _, id := range fakep2p.W().Started {
		if id != not {
			n++
		}
	}
	return
}

// set makes one call with at most one fault: 1 listen, 2 discover, 3... a database call, -1 the configured address is in use.
func (w *keyWorld) set(t keyTry, fault int) {
	other := idOf(p2pcrypto.UnmarshalEd25519PrivateKey(nodeKeys[1].Bytes()))
	hit, unread := false, false
	calls := 0
	fakep2p.W().Fault = func(op string, from, to peer.ID) bool {
		if from != other && (fault == 1 && op == "listen" || fault == 2 && op == "discover") {
			hit = true
		}
		return hit && fault > 0 && fault < 3
	}
	fakesql.W().Fault = func(kind, q string) fakesql.Fault {
		if calls++; fault >= 3 && calls == fault-2 {
			hit = true
			unread = unread || kind == "query" && strings.Contains(q, "presign")
			return fakesql.Before
		}
		unread = unread && !(kind == "query" && strings.Contains(q, "presign")) // read after all
		return fakesql.OK
	}
	before := startsOf(other)
	if fault < 0 && w.cur == "" {
		a, err := ma.NewMultiaddr("/ip4/0.0.0.0/tcp/28300")
		if err != nil {
			panic(err)
		}
		fakep2p.W().Hello("somebody else", a)
		hit = true
	}
	err := w.api.SetPrivKey(t.enc, t.typ)
	delete(fakep2p.W().Hosts, "somebody else")
	fakep2p.W().Fault, fakesql.W().Fault = nil, nil
	mc.Note("%s with fault %d: %v", t.name, fault, err)
	started := startsOf(other) - before
	if h := fakep2p.W().Hosts[t.id]; err == nil && t.id != "" && h != nil && w.cur == "" {
		found := false
		for _, a := range h.Addrs() {
			found = found || strings.HasSuffix(a.String(), "/tcp/28300")
		}
		mc.Check(found, "unreachable", "%s with fault %d: success is reported, but the node does not listen where the others know it: %v", t.name, fault, h.Addrs())
	}
	switch {
	case t.odd:
		if err == nil && w.cur == "" {
			for id := range fakep2p.W().Hosts {
				if id != other {
					w.cur = id
				}
			}
		}
	case t.id == "":
		mc.Check(err != nil, "bad-accepted", "%s is accepted", t.name)
		mc.Check(started == 0, "bad-started", "%s starts the network", t.name)
	case w.cur == "" && err == nil:
		mc.Check(!unread, "unread", "%s succeeds although the presigned values could not be read", t.name)
		mc.Check(started == 1, "starts", "%s starts the network %d times", t.name, started)
		w.cur = t.id
	case w.cur == "":
		mc.Check(hit, "good-refused", "%s is refused: %v", t.name, err)
	case w.cur == t.id:
		mc.Check(err == nil, "same-refused", "%s, set before, is refused: %v", t.name, err)
		mc.Check(started == 0, "same-started", "%s, set before, starts the network", t.name)
	default:
		mc.Check(err != nil, "different-accepted", "%s is accepted after another", t.name)
		mc.Check(started == 0, "different-started", "%s starts the network after another", t.name)
	}
	w.look(t.name)
	w.probe(t.name)
}

// probe: without a key, nothing is taken.
func (w *keyWorld) probe(when string) {
	if w.cur != "" {
		return
	}
	for i, err := range []error{
		w.api.KeyGen("early", "ecdsa", wrappers(0, 1)), w.api.KeyGen("early", "eddsa", wrappers(0, 1)),
		w.api.KeySign(signReq("ecdsa", "a", "early"), wrappers(0, 1)), w.api.KeySign(signReq("eddsa", "a", "early"), wrappers(0, 1)),
	} {
		mc.Check(errors.Is(err, core.ErrDheartNotReady), "taken-without-key", "%s: no key is set, but call %d gives %v", when, i, err)
	}
	mc.Check(len(w.cl.posts) == 0, "posted-without-key", "%s: no key is set, but results are posted: %v", when, w.cl.posts)
}

// finish: a later correct attempt succeeds in full.
func (w *keyWorld) finish() {
	own := tryEd(0)
	if w.cur == "" {
		w.set(own, 0)
	} else {
		w.set(keyTry{name: "another key", enc: encKey(nodeKeys[3]), typ: "ed25519", id: tryEd(3).id}, 0)
	}
	if w.cur != own.id {
		// it runs under another identity; what it is asked to do is taken
		w.api.SetSisuReady(true)
		err := w.api.KeyGen("k", "ecdsa", wrappers(2, 1))
		mc.Check(err == nil, "refused", "a key generation is refused: %v", err)
		w.look("at the end")
		return
	}
	a, b := newHeartWorld(w.hnode), newHeartWorld(newHeart(1, heartPeer(0)).boot())
	a.key = true
	p := heartPair{a, b}
	b.run(callKey())
	p.run(2, callReady(true))
	p.works("last")
	w.look("at the end")
}

func newKeyWorld() *keyWorld { return &keyWorld{hnode: newHeart(0, heartPeer(1)).boot()} }

// keyBad: each wrong attempt, alone or after a key was set
func keyBad(mk func() []keyTry) func() {
	return func() {
		tries := mk()
		w := newKeyWorld()
		t := tries[mc.Choose(len(tries), 0)]
		if mc.Choose(2, 0) == 1 {
			w.set(tryEd(0), 0)
			w.set(t, 0)
			w.set(tryEd(0), 0)
		} else {
			w.set(t, 0)
		}
		w.finish()
	}
}

func keyHistory(depth, faults int) func() {
	return func() {
		bad := badTries()
		tries := []keyTry{tryEd(0), tryEd(2), trySecp(0), bad[1], bad[len(bad)-1], bad[len(bad)-2], bad[7+11]}
		for _, b := range bad {
			if b.name == "type sr25519" || b.name == "ed25519 of length 32" || b.name == "changed at 30" {
				tries = append(tries, b)
			}
		}
		if depth > 2 {
			tries = append(tries[:5], tries[7], tries[9])
		}
		w := newKeyWorld()
		if depth > 2 || mc.Choose(2, 0) == 1 {
			w.api.SetSisuReady(true)
		}
		for k := 0; k < depth; k++ {
			t := tries[mc.Choose(len(tries), 0)]
			f := 0
			if t.id != "" && w.cur == "" {
				f = mc.Choose(faults+1, 0)
				if f == faults {
					f = -1
				}
			}
			w.set(t, f)
		}
		w.finish()
	}
}

// keyTogether: settings at the same time
func keyTogether(ready bool, mk func() []keyTry) func() {
	return func() {
		tries := mk()
		mc.Calm(true)
		w := newKeyWorld()
		mc.Calm(false)
		errs := make([]error, len(tries))
		var gs []*mc.G
		for i := range tries {
			i := i
			gs = append(gs, mc.GoNamed(fmt.Sprint("set ", i), func() { errs[i] = w.api.SetPrivKey(tries[i].enc, tries[i].typ) }))
		}
		if ready {
			gs = append(gs, mc.GoNamed("ready", func() {
				w.api.SetSisuReady(true)
				w.api.KeyGen("k", "ecdsa", wrappers(0, 1))
				w.api.KeySign(signReq("ecdsa", "a", "m"), wrappers(0, 1))
			}))
		}
		for _, g := range gs {
			g.Join()
		}
		mc.Calm(true)
		mc.Check(len(fakep2p.W().Started) == 1, "starts", "the network was started %d times", len(fakep2p.W().Started))
		w.cur = fakep2p.W().Started[0]
		for i, t := range tries {
			mc.Check((errs[i] == nil) == (t.id == w.cur), "answer", "%s gives %v, but the network runs as %v", t.name, errs[i], w.cur.Pretty())
		}
		w.look("together")
		if ready {
			mc.Elapse(600e9)
			w.cl.posts = nil
		}
		w.finish()
	}
}

// keyConfig: settings that let no start succeed, and a restart with correct ones
func keyConfig() {
	good := heartPeer(1)
	change := []func(n *hnode){
		func(n *hnode) {
			n.cfg.Connection.Peers[0] = &p2ptypes.Peer{PubKey: good.PubKey, PubKeyType: good.PubKeyType}
		},
		func(n *hnode) { n.cfg.Connection.Peers[0].Address = "/ip4/127.0.0.1/tcp/28301" },
		func(n *hnode) { n.cfg.Connection.Peers[0].Address = "127.0.0.1:28301" },
		func(n *hnode) { n.cfg.Connection.Peers[0].Address = good.Address + "x" },
		func(n *hnode) { n.cfg.Connection.Peers[0].Address = "/p2p/" + allNodes[1].PeerId.Pretty() },
		func(n *hnode) { n.cfg.Connection.Host = "" },
		func(n *hnode) { n.cfg.Connection.Host = "no host" },
		func(n *hnode) { n.cfg.Connection.Port = -1 },
		func(n *hnode) { n.cfg.Connection.Port = 70000 },
		func(n *hnode) { n.cfg.AesKey = nil },
		func(n *hnode) { n.cfg.AesKey = []byte("short") },
		func(n *hnode) { n.cfg.AesKey = append(n.cfg.AesKey, 0) },
		func(n *hnode) { n.cfg.AesKey[31] ^= 1 },
	}
	n := newHeart(0, heartPeer(1))
	cfg := n.cfg
	cfg.Connection.Peers = []*p2ptypes.Peer{heartPeer(1)}
	cfg.AesKey = append([]byte{}, heartAes...)
	c := mc.Choose(len(change), 0)
	change[c](n)
	n.make()
	n.boot()
	w := &keyWorld{hnode: n}
	for k := 0; k < 2; k++ {
		err := n.api.SetPrivKey(encKey(nodeKeys[0]), "ed25519")
		mc.Note("setting %d: %v", c, err)
		if err == nil {
			mc.Check(c < 9, "bad-accepted", "the key is set with a wrong AES key")
			w.cur = tryEd(0).id
		}
		w.look("wrong setting")
		n.api.SetSisuReady(true)
		n.api.KeyGen("k", "ecdsa", wrappers(0))
	}
	n.cfg = cfg
	w = &keyWorld{hnode: n.restart(cfg.Connection.Peers...).boot()}
	w.finish()
}

func init() {
	list := func(ks ...string) func() []keyTry {
		return func() (o []keyTry) {
			for _, k := range ks {
				o = append(o, map[string]func() keyTry{"a": func() keyTry { return tryEd(0) }, "b": func() keyTry { return tryEd(2) },
					"s": func() keyTry { return trySecp(0) }, "bad": func() keyTry { return badTries()[20] }}[k]())
			}
			return
		}
	}
	register("C24",
		&mc.Scenario{Name: "key-bad", Sched: mc.Coop, Bounds: []int{0}, Body: keyBad(badTries)},
		&mc.Scenario{Name: "key-odd", Sched: mc.Coop, Bounds: []int{0}, Body: keyBad(oddTries)},
		&mc.Scenario{Name: "key-history", Sched: mc.Coop, Bounds: []int{0}, Body: keyHistory(2, 8)},
		&mc.Scenario{Name: "key-history4", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: keyHistory(4, 6)},
		&mc.Scenario{Name: "key-config", Sched: mc.Coop, Bounds: []int{0}, Body: keyConfig},
		&mc.Scenario{Name: "key-same", Sched: mc.Delay, Race: true, Bounds: []int{0, 1, 2}, Body: keyTogether(false, list("a", "a"))},
		&mc.Scenario{Name: "key-different", Sched: mc.Delay, Race: true, Bounds: []int{0, 1, 2}, Body: keyTogether(false, list("a", "b"))},
		&mc.Scenario{Name: "key-types", Sched: mc.Delay, Race: true, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: keyTogether(false, list("s", "a", "bad"))},
		&mc.Scenario{Name: "key-ready", Sched: mc.Delay, Race: true, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: keyTogether(true, list("a", "a"))},
		&mc.Scenario{Name: "key-history3", Sched: mc.Coop, Bounds: []int{0}, Body: keyHistory(3, 5)},
	)
	assume("C24", "The node is a whole heart over stand-ins for the network library and the database server; listening, discovery and every database call fail at any attempt.")
}
