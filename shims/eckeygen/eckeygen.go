package keygen

import (
	"errors"
	"time"

	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	real "github.com/sisu-network/tss-lib/ecdsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

func NewLocalParty(params *tss.Parameters, out chan<- tss.Message, end chan<- LocalPartySaveData, optionalPreParams ...LocalPreParams) tss.Party {
	return tssfake.NewEcKeygen(params, out, end, optionalPreParams...)
}

// GenErr makes the generation fail.
func GeneratePreParams(timeout time.Duration, optionalConcurrency ...int) (*real.LocalPreParams, error) {
	g := tssfake.Gen()
	g.Calls++
	mc.Point("generate preparams")
	if g.Fail > 0 {
		g.Fail--
		return nil, errors.New("timeout or error while generating")
	}
	return tssfake.PreParams(g.Calls), nil
}
