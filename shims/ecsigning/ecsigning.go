package signing

import (
	"math/big"

	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	"github.com/sisu-network/tss-lib/ecdsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

func NewLocalParty(msg *big.Int, params *tss.Parameters, key keygen.LocalPartySaveData, oneRoundData *SignatureData_OneRoundData,
	out chan<- tss.Message, end chan<- *SignatureData) tss.Party {
	return tssfake.NewEcSigning(msg, params, key, oneRoundData, out, end)
}
