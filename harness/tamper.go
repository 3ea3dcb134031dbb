package main

import (
	"crypto/ecdsa"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/ptypes"
	htypes "github.com/sisu-network/dheart/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C16: a participant that does not keep to the protocol

// tampering is a change of one field of a protocol message.
type tampering struct {
	name string
	do   func()
}

var scalars = []string{"order", "none", "zero", "flipped", "one", "all ones", "longer"}

func tamperBytes(b []byte, how string) []byte {
	c := append([]byte{}, b...)
	switch how {
	case "none":
		return nil
	case "zero":
		return []byte{0}
	case "one":
		return []byte{1}
	case "order":
		return ethcrypto.S256().Params().N.Bytes()
	case "flipped":
		if len(c) > 0 {
			c[len(c)/2] ^= 1
		}
	case "all ones":
		for i := range c {
			c[i] = 255
		}
	case "longer":
		c = append(append([]byte{1}, c...), 1, 2, 3, 4)
	}
	return c
}

// tamperings lists the changes of m; hows limits those of byte strings.
func tamperings(m proto.Message, hows int) (out []tampering) {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		f, fv := v.Type().Field(i), v.Field(i)
		if f.PkgPath != "" || strings.HasPrefix(f.Name, "XXX") {
			continue
		}
		add := func(name string, do func()) { out = append(out, tampering{f.Name + " " + name, do}) }
		nested := func(x proto.Message) {
			for _, t := range tamperings(x, hows) {
				add(t.name, t.do)
			}
		}
		switch x := fv.Interface().(type) {
		case []byte:
			for _, h := range scalars[:hows] {
				h := h
				add(h, func() { fv.SetBytes(tamperBytes(x, h)) })
			}
		case [][]byte:
			set := func(y [][]byte) func() { return func() { fv.Set(reflect.ValueOf(y)) } }
			add("no elements", set(nil))
			if len(x) > 0 {
				add("one less", set(x[:len(x)-1]))
			}
			add("one more", set(append(append([][]byte{}, x...), []byte{7})))
			add("twice", set(append(append([][]byte{}, x...), x...)))
			for j := range x {
				if j > 2 && j < len(x)-1 {
					continue
				}
				for _, h := range scalars[:hows] {
					y := append([][]byte{}, x...)
					y[j] = tamperBytes(y[j], h)
					add(fmt.Sprint(j, " ", h), set(y))
				}
			}
		default:
			switch fv.Kind() {
			case reflect.Ptr:
				add("absent", func() { fv.Set(reflect.Zero(fv.Type())) })
				if !fv.IsNil() {
					nested(fv.Interface().(proto.Message))
				}
			case reflect.Interface: // one of several
				add("absent", func() { fv.Set(reflect.Zero(fv.Type())) })
				for _, h := range []string{"zero", "order"} {
					b := tamperBytes(nil, h)
					l := [][]byte{b, b}
					add("abort "+h, func() {
						if _, ok := m.(*ecsigning.SignRound6Message); ok {
							fv.Set(reflect.ValueOf(&ecsigning.SignRound6Message_Abort{Abort: &ecsigning.SignRound6Message_AbortData{KI: b, GammaI: b, AlphaIJ: l, BetaJI: l}}))
						} else {
							fv.Set(reflect.ValueOf(&ecsigning.SignRound7Message_Abort{Abort: &ecsigning.SignRound7Message_AbortData{KI: b, KRandI: b, MuIJ: l, MuRandIJ: l}}))
						}
					})
				}
				if !fv.IsNil() {
					in := fv.Elem().Elem().Field(0)
					if x, ok := in.Interface().([]byte); ok {
						for _, h := range scalars[:hows] {
							h := h
							add(h, func() { in.SetBytes(tamperBytes(x, h)) })
						}
					} else {
						nested(in.Interface().(proto.Message))
					}
				}
			default:
				mc.Fail("harness", "field %s of %T", f.Name, m)
			}
		}
	}
	return
}

// tampered is a message with other bytes.
type tampered struct {
	tss.Message
	bz []byte
}

func (t *tampered) WireBytes() ([]byte, *tss.MessageRouting, error) {
	_, r, err := t.Message.WireBytes()
	return t.bz, r, err
}

// tamperer lets the last of the nodes change a field of one of its messages.
func tamperer(proto_, me string, hows int) {
	names, _ := tssfake.Kinds(proto_)
	k := names[mc.Choose(len(names), 0)]
	done := false
	tssfake.C().Raw = true
	tssfake.C().Tamper = func(p *tssfake.Party, m tss.Message) tss.Message {
		name, _ := tssfake.Parse(m.(tss.ParsedMessage).Content())
		if p.Me() != me || done || name != k {
			return m
		}
		done = true
		bz, _, err := m.WireBytes()
		mc.Check(err == nil, "harness", "%v", err)
		pm, err := tss.ParseWireMessage(bz, m.GetFrom(), m.IsBroadcast())
		mc.Check(err == nil, "harness", "%v", err)
		c := pm.Content()
		ts := tamperings(c, hows)
		t := ts[mc.Choose(len(ts), 0)]
		t.do()
		a, err := ptypes.MarshalAny(c)
		mc.Check(err == nil, "harness", "%v", err)
		bz, err = proto.Marshal(a)
		mc.Check(err == nil, "harness", "%v", err)
		mc.Outcome("%s: %s", name, t.name)
		return &tampered{m, bz}
	}
}

// tamperedSign: a signing with the real library in which the last node tampers, then one in which it does not.
func tamperedSign(idx []int, kt string, hows int, again bool) func() {
	return func() {
		realInit(1)
		for k, i := range idx {
			var err error
			if kt == "eddsa" {
				err = newHeart(i).openDb().SaveEdKeygen(kt, "old", newPids(idx), edDealt(idx)[k])
			} else {
				err = newHeart(i).openDb().SaveEcKeygen(kt, "old", newPids(idx), ecDealt(idx)[k])
			}
			mc.Check(err == nil, "save", "%v", err)
		}
		key := dealtKey(kt, idx)
		p := sameHearts(idx...)
		proto := tssfake.EdSigning
		if kt == "ecdsa" {
			proto = tssfake.EcSigning
		}
		tamperer(proto, allNodes[idx[len(idx)-1]].PartyId.Id, hows)
		m := []byte(strings.Repeat("one ", 8))
		r := &htypes.KeysignRequest{KeyType: kt, KeysignMessages: []*htypes.KeysignMessage{{Id: "tampered", OutChain: "out", OutHash: "hash", BytesToSign: m}}}
		before := p.realCall(func(w *heartWorld) error { return w.n.api.KeySign(copyReq(r), wrappers(idx...)) })
		_, kss := p.realPosts(before)
		mc.Check(len(kss) == len(idx), "kinds", "%d of %d nodes post a signing", len(kss), len(idx))
		for _, k := range kss {
			mc.Check(k.Outcome != htypes.OutcomeSuccess || len(k.Signatures) == 1 && singleVerify(kt, key, m, k.Signatures[0]), "signature", "a signature that does not verify is posted")
		}
		tssfake.C().Tamper = nil
		if again {
			p.realSign(kt, idx, key, [][]byte{[]byte(strings.Repeat("two ", 8))})
			realEnd()
		}
	}
}

// tamperedGen: a key generation in which the last node tampers, then one in which it does not.
func tamperedGen(idx []int, kt string, hows int) func() {
	return func() {
		realInit(1)
		p := sameHeartsWith(func(n *hnode) { n.cfg.ShortcutPreparams = true }, idx...)
		proto := tssfake.EdKeygen
		if kt == "ecdsa" {
			proto = tssfake.EcKeygen
		}
		tamperer(proto, allNodes[idx[len(idx)-1]].PartyId.Id, hows)
		before := p.realCall(func(w *heartWorld) error { return w.n.api.KeyGen("bad", kt, wrappers(idx...)) })
		kgs, _ := p.realPosts(before)
		mc.Check(len(kgs) == len(idx), "kinds", "%d of %d nodes post a key generation", len(kgs), len(idx))
		tssfake.C().Tamper = nil
		if kt == "eddsa" {
			p.realShares(kt, p.realKeygen(kt, idx))
		}
		realEnd()
	}
}

func init() {
	register("C16",
		&mc.Scenario{Name: "tampered-edsign", Sched: mc.Coop, Bounds: []int{0}, Body: tamperedSign([]int{0, 1}, "eddsa", 7, true)},
		&mc.Scenario{Name: "tampered-edkeygen", Sched: mc.Coop, Bounds: []int{0}, Body: tamperedGen([]int{0, 1}, "eddsa", 7)},
		&mc.Scenario{Name: "tampered-ecsign", Sched: mc.Coop, Bounds: []int{0}, Body: tamperedSign([]int{0, 1}, "ecdsa", 1, false)},
		&mc.Scenario{Name: "tampered-ecsign-all", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: tamperedSign([]int{0, 1}, "ecdsa", 7, true)},
		&mc.Scenario{Name: "tampered-eckeygen", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: tamperedGen([]int{0, 1}, "ecdsa", 7)},
	)
}

// foreignShares: the request names a node whose share is that of another key.
func foreignShares(kt string) func() {
	idx := []int{0, 1, 2}
	return func() {
		realInit(1)
		sets := [][]int{{0, 1}, {0, 1}, {1, 2}} // that generated the key each node has a share of
		own := []int{0, 1, 1}
		for k, i := range idx {
			var err error
			if kt == "eddsa" {
				err = newHeart(i).openDb().SaveEdKeygen(kt, "old", newPids(sets[k]), edDealt(sets[k])[own[k]])
			} else {
				err = newHeart(i).openDb().SaveEcKeygen(kt, "old", newPids(sets[k]), ecDealt(sets[k])[own[k]])
			}
			mc.Check(err == nil, "save", "%v", err)
		}
		late := mc.Choose(4, 0) // the node that is asked late
		p := sameHearts(idx...)
		tssfake.C().Raw = true
		m := []byte(strings.Repeat("one ", 8))
		r := &htypes.KeysignRequest{KeyType: kt, KeysignMessages: []*htypes.KeysignMessage{{Id: "mixed", OutChain: "out", OutHash: "hash", BytesToSign: m}}}
		var before []int
		for _, w := range p {
			before = append(before, len(w.n.cl.posts))
		}
		for k, w := range p {
			k, w := k, w
			mc.GoNamed(fmt.Sprint("call at ", w.n.i), func() {
				if k == late {
					mc.Elapse(time.Second)
				}
				err := w.n.api.KeySign(copyReq(r), wrappers(idx...))
				mc.Check(err == nil, "refused", "%v", err)
			})
		}
		mc.Elapse(10 * time.Minute)
		_, kss := p.realPosts(before)
		mc.Check(len(kss) == len(idx), "kinds", "%d of %d nodes post a signing", len(kss), len(idx))
		for _, k := range kss {
			if k.Outcome == htypes.OutcomeSuccess {
				mc.Check(len(k.Signatures) == 1 && singleVerify(kt, dealtKey(kt, []int{0, 1}), m, k.Signatures[0]), "signature", "a signature that does not verify is posted")
			}
			mc.Outcome("%v", k.Outcome)
		}
		p[:2].realSign(kt, idx[:2], dealtKey(kt, idx[:2]), [][]byte{[]byte(strings.Repeat("two ", 8))})
		realEnd()
	}
}

func dealtKey(kt string, idx []int) []byte {
	if kt == "eddsa" {
		d := edDealt(idx)[0]
		return edwards.NewPublicKey(d.EDDSAPub.X(), d.EDDSAPub.Y()).Serialize()
	}
	d := ecDealt(idx)[0]
	return ethcrypto.FromECDSAPub(&ecdsa.PublicKey{Curve: ethcrypto.S256(), X: d.ECDSAPub.X(), Y: d.ECDSAPub.Y()})
}

func init() {
	for _, kt := range []string{"ecdsa", "eddsa"} {
		register("C23", &mc.Scenario{Name: "real-foreign-share-" + kt, Sched: mc.Coop, Bounds: []int{0}, Body: foreignShares(kt)})
	}
}
