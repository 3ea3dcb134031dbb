package signing

import (
	"math/big"

	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	"github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

func NewLocalParty(msg *big.Int, params *tss.Parameters, key keygen.LocalPartySaveData, out chan<- tss.Message, end chan<- *SignatureData) tss.Party {
	return tssfake.NewEdSigning(msg, params, key, out, end)
}
