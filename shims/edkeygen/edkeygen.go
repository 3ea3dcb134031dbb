package keygen

import (
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	"github.com/sisu-network/tss-lib/tss"
)

func NewLocalParty(params *tss.Parameters, out chan<- tss.Message, end chan<- LocalPartySaveData) tss.Party {
	return tssfake.NewEdKeygen(params, out, end)
}
