package tssfake

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"strings"
	"sync"

	mc "github.com/sisu-network/dheart/zzmc"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// Real is a party of the real library.  A fake party is run beside it on the same events, and both have to
// take the same messages, emit the same messages in the same order and end at the same time.
type Real struct {
	*Party  // the fake one
	inner   tss.Party
	mu      mc.Mutex
	native  chan tss.Message
	forward chan<- tss.Message
	// result hands on the result of the inner party and tells if there is one.
	result func() bool
	ended  bool
	log    []string // what the fake one emitted
	Made   int      // messages compared so far
}

const depth = 4096

func newReal(fake tss.Party, inner tss.Party, native chan tss.Message, forward chan<- tss.Message, result func() bool) tss.Party {
	r := &Real{Party: fake.(*Party), inner: inner, native: native, forward: forward, result: result}
	r.Party.sink = func(name, to string) { r.log = append(r.log, name+">"+to) }
	r.Party.finish = func() {}
	return r
}

func (r *Real) String() string { return strings.Replace(r.Party.String(), "fake", "real", 1) }

func (r *Real) Start() *tss.Error {
	r.mu.Lock()
	defer r.mu.Unlock()
	err := r.inner.Start()
	if C().Raw {
		r.handOut(r.drain())
		return err
	}
	ferr := r.Party.Start()
	r.compare("start", err, ferr)
	return err
}

func (r *Real) Running() bool { return r.Party.Running() }

func (r *Real) UpdateFromBytes(b []byte, from *tss.PartyID, isBroadcast bool) (bool, *tss.Error) {
	msg, err := tss.ParseWireMessage(b, from, isBroadcast)
	if err != nil {
		return false, r.WrapError(err)
	}
	return r.Update(msg)
}

func (r *Real) ValidateMessage(msg tss.ParsedMessage) (bool, *tss.Error) { return r.inner.ValidateMessage(msg) }

func (r *Real) Update(msg tss.ParsedMessage) (bool, *tss.Error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	ok, err := r.inner.Update(msg)
	if C().Raw {
		r.handOut(r.drain())
		return ok, err
	}
	name, _ := Parse(msg.Content())
	var ferr *tss.Error
	for _, k := range kinds[r.Proto] {
		if k.name == name {
			var to *tss.PartyID
			if !msg.IsBroadcast() {
				to = r.PartyID()
			}
			_, ferr = r.Party.Update(Message(r.Proto, name, r.Session, msg.GetFrom(), to).(tss.ParsedMessage))
		}
	}
	r.compare("message "+name, err, ferr)
	return ok, err
}

func (r *Real) compare(what string, err, ferr *tss.Error) {
	var got []string
	ms := r.drain()
	for _, m := range ms {
		name, _ := Parse(m.(tss.ParsedMessage).Content())
		to := ""
		if !m.IsBroadcast() {
			to = m.GetTo()[0].Id
		}
		got = append(got, name+">"+to)
	}
	a, b := strings.Join(got, " "), strings.Join(r.log, " ")
	r.log = nil
	mc.Check(a == b, "conformance", "%v emits %q on %s, its stand-in %q", r, a, what, b)
	mc.Check((err == nil) == (ferr == nil), "conformance", "%v gives %v on %s, its stand-in %v", r, err, what, ferr)
	r.handOut(ms)
	mc.Check(r.ended == r.Party.Ended, "conformance", "%v has ended: %v, its stand-in: %v after %s", r, r.ended, r.Party.Ended, what)
}

func (r *Real) drain() (ms []tss.Message) {
	for len(r.native) > 0 {
		ms = append(ms, <-r.native)
	}
	return
}

// handOut hands on messages and the result.
func (r *Real) handOut(ms []tss.Message) {
	r.Made += len(ms)
	for _, m := range ms {
		if c := C(); c.Tamper != nil {
			m = c.Tamper(r.Party, m)
		}
		mc.S(r.forward).Send(m)
	}
	r.ended = r.result() || r.ended
	if C().Raw {
		r.Party.Ended = r.ended
	}
}

// ---------------------------------------------------------------- constructors

func realEcKeygen(params *tss.Parameters, out chan<- tss.Message, end chan<- eckeygen.LocalPartySaveData, pre ...eckeygen.LocalPreParams) tss.Party {
	n, e := make(chan tss.Message, depth), make(chan eckeygen.LocalPartySaveData, depth)
	return newReal(fakeEcKeygen(params, out, end, pre...), eckeygen.NewLocalParty(params, n, e, pre...), n, out, func() bool {
		if len(e) == 0 {
			return false
		}
		mc.S(end).Send(<-e)
		return true
	})
}

func realEdKeygen(params *tss.Parameters, out chan<- tss.Message, end chan<- edkeygen.LocalPartySaveData) tss.Party {
	n, e := make(chan tss.Message, depth), make(chan edkeygen.LocalPartySaveData, depth)
	return newReal(fakeEdKeygen(params, out, end), edkeygen.NewLocalParty(params, n, e), n, out, func() bool {
		if len(e) == 0 {
			return false
		}
		mc.S(end).Send(<-e)
		return true
	})
}

func realEcSigning(msg *big.Int, params *tss.Parameters, key eckeygen.LocalPartySaveData, pre *ecsigning.SignatureData_OneRoundData,
	out chan<- tss.Message, end chan<- *ecsigning.SignatureData) tss.Party {
	n, e := make(chan tss.Message, depth), make(chan *ecsigning.SignatureData, depth)
	return newReal(fakeEcSigning(msg, params, key, pre, out, end), ecsigning.NewLocalParty(msg, params, key, pre, n, e), n, out, func() bool {
		if len(e) == 0 {
			return false
		}
		mc.S(end).Send(<-e)
		return true
	})
}

func realEdSigning(msg *big.Int, params *tss.Parameters, key edkeygen.LocalPartySaveData, out chan<- tss.Message, end chan<- *edsigning.SignatureData) tss.Party {
	n, e := make(chan tss.Message, depth), make(chan *edsigning.SignatureData, depth)
	return newReal(fakeEdSigning(msg, params, key, out, end), edsigning.NewLocalParty(msg, params, key, n, e), n, out, func() bool {
		if len(e) == 0 {
			return false
		}
		mc.S(end).Send(<-e)
		return true
	})
}

// ---------------------------------------------------------------- randomness

// Rand is a stream of bytes that is the same in every execution, so that a schedule has one outcome.
type Rand struct {
	mu   sync.Mutex
	n    uint64
	rest []byte
}

// Reset starts the stream again.
func (r *Rand) Reset(seed int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n, r.rest = uint64(seed)<<32, nil
}

func (r *Rand) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for len(r.rest) < len(p) {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], r.n)
		r.n++
		h := sha256.Sum256(append([]byte("tssfake rand "), b[:]...))
		r.rest = append(r.rest, h[:]...)
	}
	copy(p, r.rest)
	r.rest = r.rest[len(p):]
	return len(p), nil
}

