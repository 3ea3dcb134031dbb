package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	"github.com/sisu-network/dheart/core"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	tsscrypto "github.com/sisu-network/tss-lib/crypto"
	"github.com/sisu-network/tss-lib/crypto/paillier"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C30: the stand-in for the library beside the library

func deal(curve string, idx []int) (coef []*big.Int, at func(x *big.Int) *big.Int) {
	n, t := tss.EC(curve).Params().N, wantThreshold(len(idx))
	for i := 0; i <= t; i++ {
		coef = append(coef, new(big.Int).Mod(tssfake.KeyOf(fmt.Sprint("dealt", curve, idx, i)), n))
	}
	return coef, func(x *big.Int) *big.Int {
		v := new(big.Int)
		for i := t; i >= 0; i-- {
			v.Mul(v, x)
			v.Add(v, coef[i])
			v.Mod(v, n)
		}
		return v
	}
}

var dealt = map[string][]*edkeygen.LocalPartySaveData{}
var dealtEc = map[string][]*eckeygen.LocalPartySaveData{}

// edDealt deals shares as a key generation would leave them.
func edDealt(idx []int) (o []*edkeygen.LocalPartySaveData) {
	key := fmt.Sprint(idx)
	if s, ok := dealt[key]; ok {
		return s
	}
	coef, at := deal("eddsa", idx)
	ids := tss.SortPartyIDs(newPids(idx))
	pub := tsscrypto.ScalarBaseMult(tss.EC("eddsa"), coef[0])
	for k := range idx {
		d := edkeygen.NewLocalPartySaveData(len(idx))
		d.EDDSAPub = pub
		for j, id := range ids {
			d.Ks[j] = id.KeyInt()
			d.BigXj[j] = tsscrypto.ScalarBaseMult(tss.EC("eddsa"), at(id.KeyInt()))
		}
		d.ShareID = allNodes[idx[k]].PartyId.KeyInt()
		d.Xi = at(d.ShareID)
		o = append(o, &d)
	}
	dealt[key] = o
	return
}

func ecDealt(idx []int) (o []*eckeygen.LocalPartySaveData) {
	key := fmt.Sprint(idx)
	if s, ok := dealtEc[key]; ok {
		return s
	}
	coef, at := deal("ecdsa", idx)
	ids := tss.SortPartyIDs(newPids(idx))
	pub := tsscrypto.ScalarBaseMult(tss.EC("ecdsa"), coef[0])
	for k := range idx {
		d := eckeygen.NewLocalPartySaveData(len(idx))
		d.LocalPreParams = *mustPre(core.Preparams[k])
		d.ECDSAPub = pub
		for j, id := range ids {
			pre := mustPre(core.Preparams[nodeAt(idx, id.Id)])
			d.Ks[j] = id.KeyInt()
			d.BigXj[j] = tsscrypto.ScalarBaseMult(tss.EC("ecdsa"), at(id.KeyInt()))
			d.NTildej[j], d.H1j[j], d.H2j[j] = pre.NTildei, pre.H1i, pre.H2i
			d.PaillierPKs[j] = &paillier.PublicKey{N: pre.PaillierSK.N}
		}
		d.ShareID = allNodes[idx[k]].PartyId.KeyInt()
		d.Xi = at(d.ShareID)
		o = append(o, &d)
	}
	dealtEc[key] = o
	return
}

func nodeAt(idx []int, id string) int {
	for k, i := range idx {
		if pid(i) == id {
			return k
		}
	}
	return -1
}

var presigned = map[string][]*ecsigning.SignatureData_OneRoundData{}

// confRun runs a protocol of the real library, with the stand-in beside each party, for the delivery orders within the bound.
func confRun(proto string, idx []int) func() {
	return func() {
		realInit(1)
		confProto(proto, idx, mc.Choose)
	}
}

func confProto(proto string, idx []int, choose func(n, cost int) int) (pre []*ecsigning.SignatureData_OneRoundData) {
	n, t := len(idx), wantThreshold(len(idx))
	msg := new(big.Int).SetBytes([]byte(strings.Repeat("conf", 8)))
	out := make(chan tss.Message, 4096)
	eck, edk := make(chan eckeygen.LocalPartySaveData, 64), make(chan edkeygen.LocalPartySaveData, 64)
	ecs, eds := make(chan *ecsigning.SignatureData, 64), make(chan *edsigning.SignatureData, 64)
	if proto == tssfake.EcOneRound && presigned[fmt.Sprint(idx)] == nil {
		presigned[fmt.Sprint(idx)] = confProto(tssfake.EcPresign, idx, func(int, int) int { return 0 })
	}
	ids := tss.SortPartyIDs(newPids(idx))
	var ps []tss.Party
	of := map[string]int{}
	for k, me := range ids {
		own := tss.SortPartyIDs(newPids(idx)) // every node has its own
		params := tss.NewParameters(tss.NewPeerContext(own), own[k], n, t)
		i := nodeAt(idx, me.Id)
		of[me.Id] = k
		var p tss.Party
		switch proto {
		case tssfake.EcKeygen:
			p = tssfake.NewEcKeygen(params, out, eck, *mustPre(core.Preparams[i]))
		case tssfake.EdKeygen:
			p = tssfake.NewEdKeygen(params, out, edk)
		case tssfake.EcSigning:
			p = tssfake.NewEcSigning(msg, params, *ecDealt(idx)[i], nil, out, ecs)
		case tssfake.EcPresign:
			p = tssfake.NewEcSigning(nil, params, *ecDealt(idx)[i], nil, out, ecs)
		case tssfake.EcOneRound:
			p = tssfake.NewEcSigning(msg, params, *ecDealt(idx)[i], presigned[fmt.Sprint(idx)][k], out, ecs)
		case tssfake.EdSigning:
			p = tssfake.NewEdSigning(msg, params, *edDealt(idx)[i], out, eds)
		}
		ps = append(ps, p)
	}
	type event struct {
		p *int // start of a party
		m tss.Message
		k int // delivery to party k
	}
	var todo []event
	started, early := map[int]bool{}, false
	for k := range ps {
		k := k
		todo = append(todo, event{p: &k})
	}
	for len(todo) > 0 {
		c := choose(len(todo)+1, 1)
		again := c == len(todo)
		if again { // deliver it and keep it
			c = 0
		}
		e := todo[c]
		if e.p != nil {
			if !again {
				err := ps[*e.p].Start()
				mc.Check(err == nil, "start", "%v", err)
				started[*e.p] = true
			}
			todo = append(append([]event{}, todo[:c]...), todo[c+1:]...)
			if again { // starts last
				todo = append(todo, e)
			}
		} else {
			bz, _, err := e.m.WireBytes()
			if err != nil {
				panic(err)
			}
			var from *tss.PartyID
			for _, id := range ps[e.k].(*tssfake.Real).Params.Parties().IDs() {
				if id.Id == e.m.GetFrom().Id {
					from = id
				}
			}
			pm, err := tss.ParseWireMessage(bz, from, e.m.IsBroadcast())
			if err != nil {
				panic(err)
			}
			early = early || !started[e.k]
			_, terr := ps[e.k].Update(pm)
			mc.Check(terr == nil, "update", "%v", terr)
			if !again {
				todo = append(append([]event{}, todo[:c]...), todo[c+1:]...)
			} else {
				todo = append(todo, todo[0])
			}
		}
		for len(out) > 0 {
			m := <-out
			if m.IsBroadcast() {
				for k, id := range ids {
					if id.Id != m.GetFrom().Id {
						todo = append(todo, event{m: m, k: k})
					}
				}
			} else {
				todo = append(todo, event{m: m, k: of[m.GetTo()[0].Id]})
			}
		}
	}
	made, all := 0, true
	for _, p := range ps {
		r := p.(*tssfake.Real)
		// what is delivered before the start does not count until another message comes
		mc.Check(r.Ended || early, "conformance", "%v has not ended although all messages were delivered", r)
		all = all && r.Ended
		made += r.Made
	}
	mc.Outcome("%d messages", made)
	if !all {
		return
	}
	switch proto {
	case tssfake.EcKeygen:
		a := <-eck
		for k := 1; k < n; k++ {
			b := <-eck
			mc.Check(a.ECDSAPub.Equals(b.ECDSAPub), "keys-differ", "the parties end with different keys")
		}
	case tssfake.EdKeygen:
		a := <-edk
		for k := 1; k < n; k++ {
			b := <-edk
			mc.Check(a.EDDSAPub.Equals(b.EDDSAPub), "keys-differ", "the parties end with different keys")
		}
	case tssfake.EdSigning:
		key := edDealt(idx)[0].EDDSAPub
		for k := 0; k < n; k++ {
			s := <-eds
			pk := edwards.NewPublicKey(key.X(), key.Y()).Serialize()
			mc.Check(singleVerify("eddsa", pk, msg.Bytes(), s.Signature.Signature), "signature", "the signature does not verify")
		}
	default:
		by := map[string]*ecsigning.SignatureData_OneRoundData{}
		for k := 0; k < n; k++ {
			s := <-ecs
			if proto == tssfake.EcPresign {
				by[s.OneRoundData.PartyId] = s.OneRoundData
				mc.Check(s.Signature == nil, "presign-signs", "a presigning gives a signature")
				continue
			}
			mc.Check(s.Signature != nil, "no-signature", "there is no signature")
		}
		if proto == tssfake.EcPresign {
			for _, id := range ids {
				pre = append(pre, by[id.Id])
			}
			mc.Check(len(by) == n, "presign-parties", "the values of %d parties are told apart", len(by))
		}
	}
	return
}

func init() {
	two, three, four := []int{0, 1}, []int{0, 1, 5}, []int{0, 1, 2, 5}
	fx := func(name, proto string, idx []int, quick, deep []int) {
		if quick != nil {
			register("C30", &mc.Scenario{Name: name, Sched: mc.Fixed, Bounds: quick, BoundsDeep: deep, Body: confRun(proto, idx)})
		} else {
			register("C30", &mc.Scenario{Name: name, Deep: true, Sched: mc.Fixed, Bounds: deep, Body: confRun(proto, idx)})
		}
	}
	fx("conf-ed-keygen2", tssfake.EdKeygen, two, []int{0, 1}, []int{0, 1, 2})
	fx("conf-ed-sign2", tssfake.EdSigning, two, []int{0, 1}, []int{0, 1, 2})
	fx("conf-ed-keygen3", tssfake.EdKeygen, three, []int{0}, []int{0, 1})
	fx("conf-ed-sign3", tssfake.EdSigning, three, []int{0, 1}, []int{0, 1})
	fx("conf-ed-keygen4", tssfake.EdKeygen, four, nil, []int{0})
	fx("conf-ed-sign4", tssfake.EdSigning, four, nil, []int{0})
	fx("conf-ec-keygen2", tssfake.EcKeygen, two, []int{0}, []int{0, 1})
	fx("conf-ec-sign2", tssfake.EcSigning, two, []int{0}, []int{0, 1})
	fx("conf-ec-presign2", tssfake.EcPresign, two, []int{0}, []int{0})
	fx("conf-ec-one2", tssfake.EcOneRound, two, []int{0}, []int{0, 1, 2})
	fx("conf-ec-one3", tssfake.EcOneRound, three, nil, []int{0, 1})
}
