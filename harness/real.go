package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rand"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	htypes "github.com/sisu-network/dheart/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
)

// ------------------------------------------------------------ C30: the real library

var realRand = &tssfake.Rand{}

// realPosts collects the result every node posts for one request.
func (p heartPair) realPosts(before []int) (kgs []*htypes.KeygenResult, kss []*htypes.KeysignResult) {
	for i, w := range p {
		n := w.n.cl.posts[before[i]:]
		mc.Check(len(n) == 1, "posts", "node %d posts %d results", w.n.i, len(n))
		if n[0].kg != nil {
			kgs = append(kgs, n[0].kg)
		} else {
			kss = append(kss, n[0].ks)
		}
	}
	return
}

func (p heartPair) realCall(f func(w *heartWorld) error) []int {
	var before []int
	for _, w := range p {
		before = append(before, len(w.n.cl.posts))
	}
	for _, w := range p {
		w := w
		mc.GoNamed(fmt.Sprint("call at ", w.n.i), func() {
			err := f(w)
			mc.Check(err == nil, "refused", "%v", err)
		})
	}
	mc.Elapse(10 * time.Minute)
	return before
}

// realKeygen runs a key generation and returns the key.
func (p heartPair) realKeygen(kt string, idx []int) []byte {
	before := p.realCall(func(w *heartWorld) error { return w.n.api.KeyGen("gen", kt, wrappers(idx...)) })
	kgs, _ := p.realPosts(before)
	mc.Check(len(kgs) == len(idx), "kinds", "%d of %d nodes post a key generation", len(kgs), len(idx))
	key := kgs[0].PubKeyBytes
	for _, k := range kgs {
		mc.Check(k.Outcome == htypes.OutcomeSuccess && k.KeyType == kt, "keygen-fails", "%v", js(k))
		mc.Check(len(key) > 0 && string(key) == string(k.PubKeyBytes), "keys-differ", "the nodes end a key generation with %x and %x", key, k.PubKeyBytes)
	}
	return key
}

// secretOf puts the shares of the first t+1 nodes together.
func secretOf(ids, xs []*big.Int, n *big.Int) *big.Int {
	sum := new(big.Int)
	for i := range ids {
		l := new(big.Int).Set(xs[i])
		for j := range ids {
			if i != j {
				d := new(big.Int).Sub(ids[j], ids[i])
				l.Mul(l, ids[j])
				l.Mul(l, d.ModInverse(d.Mod(d, n), n))
				l.Mod(l, n)
			}
		}
		sum.Add(sum, l)
	}
	return sum.Mod(sum, n)
}

// realShares checks the shares that are stored against the key that was reported.
func (p heartPair) realShares(kt string, key []byte) {
	t := wantThreshold(len(p))
	var ids, xs []*big.Int
	for i, w := range p {
		d := w.n.openDb()
		if kt == "eddsa" {
			s, err := d.LoadEdKeygen(kt)
			mc.Check(err == nil && s != nil, "no-share", "node %d: %v", w.n.i, err)
			mc.Check(s.ShareID.Cmp(allNodes[w.n.i].PartyId.KeyInt()) == 0, "share-id", "node %d stores the share of another", w.n.i)
			mc.Check(string(edwards.NewPublicKey(s.EDDSAPub.X(), s.EDDSAPub.Y()).Serialize()) == string(key), "share-of-other-key", "the share of node %d is not of the key that is posted", w.n.i)
			ids, xs = append(ids, s.ShareID), append(xs, s.Xi)
		} else {
			s, err := d.LoadEcKeygen(kt)
			mc.Check(err == nil && s != nil, "no-share", "node %d: %v", w.n.i, err)
			mc.Check(s.ShareID.Cmp(allNodes[w.n.i].PartyId.KeyInt()) == 0, "share-id", "node %d stores the share of another", w.n.i)
			ids, xs = append(ids, s.ShareID), append(xs, s.Xi)
		}
		if i == t {
			break
		}
	}
	if kt == "eddsa" {
		n := edwards.Edwards().N
		_, pub, err := edwards.PrivKeyFromScalar(padTo32(secretOf(ids, xs, n)))
		mc.Check(err == nil && string(pub.Serialize()) == string(key), "shares", "the shares stored do not make up the key")
		return
	}
	k, err := ethcrypto.ToECDSA(padTo32(secretOf(ids, xs, ethcrypto.S256().Params().N)))
	mc.Check(err == nil && string(ethcrypto.FromECDSAPub(&k.PublicKey)) == string(key), "shares", "the shares stored do not make up the key")
}

func padTo32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }

// realSign runs a signing and checks its results.
func (p heartPair) realSign(kt string, idx []int, key []byte, msgs [][]byte) {
	r := &htypes.KeysignRequest{KeyType: kt}
	for j, m := range msgs {
		r.KeysignMessages = append(r.KeysignMessages, &htypes.KeysignMessage{Id: fmt.Sprint("m", j), OutChain: "out", OutHash: "hash", BytesToSign: m})
	}
	before := p.realCall(func(w *heartWorld) error { return w.n.api.KeySign(copyReq(r), wrappers(idx...)) })
	_, kss := p.realPosts(before)
	mc.Check(len(kss) == len(idx), "kinds", "%d of %d nodes post a signing", len(kss), len(idx))
	good := 0
	var sigs [][]byte
	for _, k := range kss {
		switch k.Outcome {
		case htypes.OutcomeSuccess:
			good++
			mc.Check(len(k.Signatures) == len(msgs), "signatures", "%d signatures for %d messages", len(k.Signatures), len(msgs))
			for j, m := range msgs {
				mc.Check(sigs != nil || singleVerify(kt, key, m, k.Signatures[j]), "signature", "the signature %x does not verify for message %x", k.Signatures[j], m)
			}
			mc.Check(sigs == nil || js(sigs) == js(k.Signatures), "signatures-differ", "the nodes post different signatures")
			sigs = k.Signatures
		case htypes.OutcometNotSelected:
		default:
			mc.Fail("sign-fails", "%v", js(k))
		}
	}
	mc.Check(good == wantThreshold(len(idx))+1, "sign-fails", "%d of %d nodes sign", good, len(idx))
}

func realInit(seeds int) {
	rand.Reader = realRand
	realRand.Reset(mc.Choose(seeds, 0))
	tssfake.C().Real = true
}

func realEnd() {
	n := 0
	for _, q := range tssfake.C().Parties {
		if q.Ended {
			n++
		}
	}
	mc.Check(n > 0, "not-real", "no protocol was run")
	mc.Outcome("%d", n)
}

// realBoth: key generation, then signing
func realBoth(idx []int, kt string, seeds int, msgs ...[]byte) func() {
	return func() {
		realInit(seeds)
		p := sameHeartsWith(func(n *hnode) { n.cfg.ShortcutPreparams = true }, idx...)
		key := p.realKeygen(kt, idx)
		p.realShares(kt, key)
		p.realSign(kt, idx, key, msgs)
		realEnd()
	}
}

// realGen: the schedules of a key generation
func realGen(idx []int, kt string) func() {
	return func() {
		mc.Calm(true)
		realInit(1)
		p := sameHearts(idx...)
		mc.Calm(false)
		key := p.realKeygen(kt, idx)
		mc.Calm(true)
		p.realShares(kt, key)
		realEnd()
	}
}

// realSigns: the schedules of a signing
func realSigns(idx []int, msgs ...[]byte) func() {
	return func() {
		mc.Calm(true)
		realInit(1)
		ds := edDealt(idx)
		for k, i := range idx {
			err := newHeart(i).openDb().SaveEdKeygen("eddsa", "old", newPids(idx), ds[k])
			mc.Check(err == nil, "save", "%v", err)
		}
		p := sameHearts(idx...)
		key := edwards.NewPublicKey(ds[0].EDDSAPub.X(), ds[0].EDDSAPub.Y()).Serialize()
		mc.Calm(false)
		p.realSign("eddsa", idx, key, msgs)
		mc.Calm(true)
		realEnd()
	}
}

// realBytes: messages of all shapes
func realBytes(idx []int) func() {
	return func() {
		realInit(1)
		ds := edDealt(idx)
		for k, i := range idx {
			err := newHeart(i).openDb().SaveEdKeygen("eddsa", "old", newPids(idx), ds[k])
			mc.Check(err == nil, "save", "%v", err)
		}
		p := sameHearts(idx...)
		key := edwards.NewPublicKey(ds[0].EDDSAPub.X(), ds[0].EDDSAPub.Y()).Serialize()
		long := []byte(strings.Repeat("long message ", 100))
		msgs := [][]byte{{1}, {1, 0, 0}, {255}, long, append([]byte{255}, make([]byte, 63)...), {0, 1}, {0}, append([]byte{0, 0}, long...), make([]byte, 32)}
		m := msgs[mc.Choose(len(msgs), 0)]
		r := &htypes.KeysignRequest{KeyType: "eddsa", KeysignMessages: []*htypes.KeysignMessage{{Id: "m", OutChain: "out", OutHash: "hash", BytesToSign: m}}}
		before := p.realCall(func(w *heartWorld) error { return w.n.api.KeySign(copyReq(r), wrappers(idx...)) })
		_, kss := p.realPosts(before)
		good := 0
		for _, k := range kss {
			if k.Outcome == htypes.OutcomeSuccess {
				good++
				mc.Check(len(k.Signatures) == 1 && singleVerify("eddsa", key, m, k.Signatures[0]), "signature", "the signature of message %x does not verify", m)
			}
		}
		if m[0] == 0 && good == 0 {
			mc.Fail("leading-zero", "message %x cannot be signed", m)
		}
		mc.Check(good == wantThreshold(len(idx))+1, "sign-fails", "%d of %d nodes sign message %x", good, len(idx), m)
		realEnd()
	}
}

// realEcBytes: an ECDSA message is a hash; of a longer one the first 32 bytes count, a shorter one is the number it stands for.
func realEcBytes(idx []int) func() {
	long := []byte(strings.Repeat("long message ", 5))
	order := ethcrypto.S256().Params().N
	msgs := [][]byte{long[:33], {1}, append([]byte{0, 0}, long[:30]...), long, long[:31],
		new(big.Int).Sub(order, big.NewInt(1)).Bytes(), order.Bytes(), new(big.Int).Add(order, big.NewInt(1)).Bytes(), bytes.Repeat([]byte{255}, 32), append(make([]byte, 31), 1), make([]byte, 32)}
	return func() {
		realInit(1)
		ds := ecDealt(idx)
		for k, i := range idx {
			err := newHeart(i).openDb().SaveEcKeygen("ecdsa", "old", newPids(idx), ds[k])
			mc.Check(err == nil, "save", "%v", err)
		}
		p := sameHearts(idx...)
		key := ethcrypto.FromECDSAPub(&ecdsa.PublicKey{Curve: ethcrypto.S256(), X: ds[0].ECDSAPub.X(), Y: ds[0].ECDSAPub.Y()})
		m := msgs[mc.Choose(len(msgs), 0)]
		r := &htypes.KeysignRequest{KeyType: "ecdsa", KeysignMessages: []*htypes.KeysignMessage{{Id: "m", OutChain: "out", OutHash: "hash", BytesToSign: m}}}
		before := p.realCall(func(w *heartWorld) error { return w.n.api.KeySign(copyReq(r), wrappers(idx...)) })
		_, kss := p.realPosts(before)
		good := 0
		h := m
		if len(h) > 32 {
			h = h[:32]
		}
		h = padTo32(new(big.Int).SetBytes(h))
		for _, k := range kss {
			if k.Outcome == htypes.OutcomeSuccess {
				good++
				mc.Check(len(k.Signatures) == 1 && singleVerify("ecdsa", key, h, k.Signatures[0]), "signature", "the signature of message %x does not verify", m)
			}
		}
		v := new(big.Int).SetBytes(h)
		if new(big.Int).Mod(v, order).Sign() == 0 && good == 0 {
			mc.Fail("zero-hash", "message %x cannot be signed", m)
		}
		if v.Cmp(order) >= 0 && good == 0 {
			mc.Fail("beyond-order", "message %x cannot be signed", m)
		}
		mc.Check(good == wantThreshold(len(idx))+1, "sign-fails", "%d of %d nodes sign message %x", good, len(idx), m)
		realEnd()
	}
}

func init() {
	m1 := []byte(strings.Repeat("one ", 8))
	m2 := []byte(strings.Repeat("two ", 8))
	register("C30",
		&mc.Scenario{Name: "real-ed2", Sched: mc.Coop, Bounds: []int{0}, Body: realBoth([]int{0, 1}, "eddsa", 4, m1, m2)},
		&mc.Scenario{Name: "real-ed3", Sched: mc.Coop, Bounds: []int{0}, Body: realBoth([]int{0, 1, 5}, "eddsa", 4, m1, m2)},
		&mc.Scenario{Name: "real-ed-bytes", Sched: mc.Coop, Bounds: []int{0}, Body: realBytes([]int{0, 1})},
		&mc.Scenario{Name: "real-ec-bytes", Sched: mc.Coop, Bounds: []int{0}, Body: realEcBytes([]int{0, 1})},
		&mc.Scenario{Name: "real-ec2", Sched: mc.Coop, Bounds: []int{0}, Body: realBoth([]int{0, 1}, "ecdsa", 1, m1)},
		&mc.Scenario{Name: "real-ec3", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: realBoth([]int{0, 1, 2}, "ecdsa", 2, m1, m2)},
		&mc.Scenario{Name: "real-ed-gen2", Sched: mc.Coop, Bounds: []int{0, 1}, Body: realGen([]int{0, 1}, "eddsa")},
		&mc.Scenario{Name: "real-ed-gen3", Deep: true, Sched: mc.Coop, Bounds: []int{0, 1}, Body: realGen([]int{0, 1, 5}, "eddsa")},
		&mc.Scenario{Name: "real-ed-sign2", Sched: mc.Coop, Bounds: []int{0, 1}, Body: realSigns([]int{0, 1}, m1)},
		&mc.Scenario{Name: "real-ed-sign3", Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: realSigns([]int{0, 1, 5}, m1)},
	)
	assume("C30", "The nodes are whole hearts with the real cryptographic library over stand-ins for the network library and the database server; the random numbers are the same in every execution.")
}
