package main

import (
	"bytes"
	"math/big"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	htypes "github.com/sisu-network/dheart/types"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
)

func ecPubBytes(seed string) []byte {
	p := tssfake.EcPub(seed)
	out := []byte{4}
	for _, v := range []*big.Int{p.X(), p.Y()} {
		b := make([]byte, 32)
		v.FillBytes(b)
		out = append(out, b...)
	}
	return out
}

func edPubBytes(seed string) []byte {
	_, p := tssfake.EdPriv(seed)
	return edwards.NewPublicKey(p.X(), p.Y()).Serialize()
}

var verified = map[string]bool{}

func sigValid(seed string, kind wtypes.WorkType, msg, sig []byte) bool {
	k := seed + kind.String() + string(msg) + "/" + string(sig)
	if v, ok := verified[k]; ok {
		return v
	}
	v := false
	if kind == wtypes.EcSigning {
		if len(sig) == 65 {
			h := make([]byte, 32)
			copy(h[32-len(msg):], msg)
			pub, err := ethcrypto.Ecrecover(h, sig)
			v = err == nil && bytes.Equal(pub, ecPubBytes(seed))
		}
	} else if len(sig) == 64 {
		_, p := tssfake.EdPriv(seed)
		if s, err := edwards.ParseSignature(sig); err == nil {
			v = edwards.Verify(edwards.NewPublicKey(p.X(), p.Y()), msg, s.GetR(), s.GetS())
		}
	}
	verified[k] = v
	return v
}

// checkOutcomeValid: successful outcomes carry what the request asked for.
func checkOutcomeValid(seed string, o outcome) {
	switch o.kind {
	case "keygen":
		mc.Check(o.kg.Outcome == htypes.OutcomeSuccess, "keygen-outcome", "node %d: key generation %s reported with outcome %v", o.node, o.work, o.kg.Outcome)
		want := ecPubBytes(seed)
		if len(o.kg.PubKeyBytes) == 32 {
			want = edPubBytes(seed)
		}
		mc.Check(bytes.Equal(o.kg.PubKeyBytes, want), "keygen-pubkey", "node %d: %s reported public key %x, want %x", o.node, o.work, o.kg.PubKeyBytes, want)
	case "sign":
		mc.Check(len(o.sg.Signatures) == len(o.req.Messages), "sign-count", "node %d: %s has %d signatures for %d messages", o.node, o.work, len(o.sg.Signatures), len(o.req.Messages))
		for i, m := range o.req.Messages {
			mc.Check(sigValid(seed, o.req.WorkType, m, o.sg.Signatures[i]), "sign-invalid", "node %d: %s signature %d (%x) does not verify for its message", o.node, o.work, i, o.sg.Signatures[i])
		}
	}
}
