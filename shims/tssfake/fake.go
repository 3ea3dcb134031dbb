// Package tssfake stands in for the multi-party protocols of tss-lib.  A fake
// party goes through the same rounds with the same message kinds, destinations
// and blocking behaviour as the real one, but its messages carry only their
// identity (protocol, session, author, addressee) and its results come from
// fixed keys.  See DESIGN.md (conformance) for how it is kept bound to tss-lib.
package tssfake

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	mc "github.com/sisu-network/dheart/zzmc"
	libcommon "github.com/sisu-network/tss-lib/common"
	"github.com/sisu-network/tss-lib/crypto"
	"github.com/sisu-network/tss-lib/crypto/dlnp"
	"github.com/sisu-network/tss-lib/crypto/mta"
	"github.com/sisu-network/tss-lib/crypto/paillier"
	"github.com/sisu-network/tss-lib/crypto/zkp"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// Protocols.
const (
	EcKeygen   = "eck"
	EcSigning  = "ecs"
	EcOneRound = "ec1"
	EcPresign  = "ecp"
	EdKeygen   = "edk"
	EdSigning  = "eds"
)

type kind struct {
	name  string
	p2p   bool
	round int
}

var kinds = map[string][]kind{
	EcKeygen:   {{"KG1", false, 1}, {"KG2M1", true, 2}, {"KG2M2", false, 2}, {"KG3", false, 3}},
	EcSigning:  {{"R1M1", true, 1}, {"R1M2", false, 1}, {"R2", true, 2}, {"R3", false, 3}, {"R4", false, 4}, {"R5", false, 5}, {"R6", false, 6}, {"R7", false, 7}},
	EcOneRound: {{"R7", false, 1}},
	EcPresign:  {{"R1M1", true, 1}, {"R1M2", false, 1}, {"R2", true, 2}, {"R3", false, 3}, {"R4", false, 4}, {"R5", false, 5}, {"R6", false, 6}},
	EdKeygen:   {{"KG1", false, 1}, {"KG2M1", true, 2}, {"KG2M2", false, 2}},
	EdSigning:  {{"R1", false, 1}, {"R2", false, 2}, {"R3", false, 3}},
}

// Kinds lists the message kinds of a protocol in order of emission.
func Kinds(proto string) (names []string, p2p []bool) {
	for _, k := range kinds[proto] {
		names = append(names, k.name)
		p2p = append(p2p, k.p2p)
	}
	return
}

// Ctl is the per-execution control and record of all fake parties.
type Ctl struct {
	// StartErr makes Start fail.
	StartErr func(p *Party) error
	// Stall makes a party stop before starting the given round (rounds+1: before the result).
	Stall func(p *Party, round int) bool
	// Reject makes Update fail.
	Reject func(p *Party, name, from string) error
	// OnUpdate sees every accepted message.
	OnUpdate func(p *Party, name, from, to string, broadcast bool)
	// Foreign is called when a message of another session, author or addressee reaches a party;
	// the message is then rejected as the real protocol would.
	Foreign func(p *Party, detail string)
	// ECSig, EDSig override the final signatures.
	ECSig func(p *Party, msg []byte) *libcommon.ECSignature
	EDSig func(p *Party, msg []byte) *libcommon.ECSignature
	// ECKey, EDKey override the generated shares.
	ECKey func(p *Party) *eckeygen.LocalPartySaveData
	EDKey func(p *Party) *edkeygen.LocalPartySaveData
	// Emit sees every message handed out.
	Emit func(p *Party, name, to string)
	// Real makes parties run the real library.
	Real bool
	// Raw leaves the stand-in beside a real party out.
	Raw bool
	// Tamper replaces the messages of real parties.
	Tamper func(p *Party, m tss.Message) tss.Message
	// Slow makes every round start a scheduling point.
	Slow    bool
	Parties []*Party
}

// C returns the control block of the running execution.
func C() *Ctl {
	return mc.Local("tssfake", func() interface{} { return &Ctl{} }).(*Ctl)
}

// Party is a fake tss.Party.
type Party struct {
	*tss.BaseParty
	Proto   string
	Session string
	Msg     *big.Int
	Pre     *ecsigning.SignatureData_OneRoundData
	Params  *tss.Parameters
	EcKey   *eckeygen.LocalPartySaveData
	EdKey   *edkeygen.LocalPartySaveData
	EcPre   *eckeygen.LocalPreParams
	Seq     int
	Ended   bool

	out    chan<- tss.Message
	finish func()
	sink   func(name, to string)
	mu     mc.Mutex
	rnd    int // 0: not started
	got    map[string]map[int]bool
	Recv   map[string]int
}

func newParty(proto, session string, params *tss.Parameters, out chan<- tss.Message) *Party {
	c := C()
	p := &Party{BaseParty: new(tss.BaseParty), Proto: proto, Session: session, Params: params, out: out,
		got: map[string]map[int]bool{}, Recv: map[string]int{}, Seq: len(c.Parties)}
	c.Parties = append(c.Parties, p)
	return p
}

func (p *Party) Me() string                 { return p.Params.PartyID().Id }
func (p *Party) PartyID() *tss.PartyID      { return p.Params.PartyID() }
func (p *Party) FirstRound() tss.Round      { return nil }
func (p *Party) Running() bool              { return p.rnd != 0 && !p.Ended }
func (p *Party) String() string             { return "fake " + p.Proto + " " + p.Session + " at " + p.Me() }
func (p *Party) WaitingFor() []*tss.PartyID { return nil }
func (p *Party) WrapError(err error, culprits ...*tss.PartyID) *tss.Error {
	return tss.NewError(err, p.Proto, p.rnd, p.PartyID(), culprits...)
}

func (p *Party) Start() *tss.Error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.PartyID() == nil || !p.PartyID().ValidateBasic() {
		return p.WrapError(fmt.Errorf("could not start. this party has an invalid PartyID: %+v", p.PartyID()))
	}
	if p.rnd != 0 {
		return p.WrapError(errors.New("could not start. this party is in an unexpected state"))
	}
	if f := C().StartErr; f != nil {
		if err := f(p); err != nil {
			return p.WrapError(err)
		}
	}
	if i := p.PartyID().Index; i < 0 || i >= p.n() || p.Params.Parties().IDs()[i].Id != p.Me() {
		return p.WrapError(fmt.Errorf("own party has a wrong index %d", i))
	}
	p.rnd = 1
	p.emit()
	return nil
}

func (p *Party) n() int { return len(p.Params.Parties().IDs()) }

func (p *Party) rounds() int {
	ks := kinds[p.Proto]
	return ks[len(ks)-1].round
}

func (p *Party) stalled() bool {
	f := C().Stall
	return f != nil && f(p, p.rnd)
}

// emit starts the current round.
func (p *Party) emit() {
	c := C()
	if c.Slow {
		mc.Point("tss round")
	}
	if p.stalled() {
		return
	}
	me := p.PartyID()
	for _, k := range kinds[p.Proto] {
		if k.round != p.rnd {
			continue
		}
		p.store(k.name, me.Index)
		if !k.p2p {
			p.send(k, nil)
			continue
		}
		for _, to := range p.Params.Parties().IDs() {
			if to.Id != me.Id {
				p.send(k, to)
			}
		}
	}
}

func (p *Party) send(k kind, to *tss.PartyID) {
	meta := tss.MessageRouting{From: p.PartyID(), IsBroadcast: !k.p2p}
	tid := ""
	if to != nil {
		meta.To = []*tss.PartyID{to}
		tid = to.Id
	}
	if f := C().Emit; f != nil {
		f(p, k.name, tid)
	}
	if p.sink != nil {
		p.sink(k.name, tid)
		return
	}
	content := Content(p.Proto, k.name, Tag(p.Proto, k.name, p.Session, p.Me(), tid))
	mc.S(p.out).Send(tss.Message(tss.NewMessage(meta, content, tss.NewMessageWrapper(meta, content))))
}

// Tag is the identity a message carries.
func Tag(proto, name, session, from, to string) string {
	return strings.Join([]string{proto, name, session, from, to}, "|")
}

func (p *Party) store(name string, idx int) {
	if p.got[name] == nil {
		p.got[name] = map[int]bool{}
	}
	p.got[name][idx] = true
}

func (p *Party) complete() bool {
	if p.stalled() {
		return false
	}
	for _, k := range kinds[p.Proto] {
		if k.round == p.rnd && len(p.got[k.name]) < p.n() {
			return false
		}
	}
	return true
}

func (p *Party) ValidateMessage(msg tss.ParsedMessage) (bool, *tss.Error) {
	if msg == nil || msg.Content() == nil {
		return false, p.WrapError(fmt.Errorf("received nil msg: %s", msg))
	}
	if msg.GetFrom() == nil || !msg.GetFrom().ValidateBasic() {
		return false, p.WrapError(fmt.Errorf("received msg with an invalid sender: %s", msg))
	}
	if max := p.n() - 1; max < msg.GetFrom().Index {
		return false, p.WrapError(fmt.Errorf("received msg with a sender index too great"), msg.GetFrom())
	}
	if !basic(msg) {
		return false, p.WrapError(fmt.Errorf("message failed ValidateBasic"), msg.GetFrom())
	}
	return true, nil
}

// basic is ValidateBasic, except that proofs are not verified.
func basic(msg tss.ParsedMessage) bool {
	switch m := msg.Content().(type) {
	case *ecsigning.SignRound3Message:
		return m.GetTI() != nil && m.GetTI().ValidateBasic() && len(m.GetDeltaI()) > 0 && len(m.GetTProofT()) > 0 && len(m.GetTProofU()) > 0
	case *ecsigning.SignRound5Message:
		return m.GetRI() != nil && m.GetRI().ValidateBasic() && libcommon.NonEmptyMultiBytes(m.GetProofPdlWSlack(), zkp.PDLwSlackMarshalledParts)
	}
	return msg.ValidateBasic()
}

func (p *Party) StoreMessage(msg tss.ParsedMessage) (bool, *tss.Error) { return true, nil }

func (p *Party) UpdateFromBytes(wireBytes []byte, from *tss.PartyID, isBroadcast bool) (bool, *tss.Error) {
	msg, err := tss.ParseWireMessage(wireBytes, from, isBroadcast)
	if err != nil {
		return false, p.WrapError(err)
	}
	return p.Update(msg)
}

func (p *Party) Update(msg tss.ParsedMessage) (bool, *tss.Error) {
	if _, err := p.ValidateMessage(msg); err != nil {
		return false, err
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	c := C()
	name, tag := Parse(msg.Content())
	var k *kind
	for i := range kinds[p.Proto] {
		if kinds[p.Proto][i].name == name {
			k = &kinds[p.Proto][i]
		}
	}
	f := strings.Split(tag, "|")
	if k == nil || len(f) == 5 && f[0] != p.Proto && !(f[0][:2] == "ec" && f[0] != EcKeygen && p.Proto[:2] == "ec" && p.Proto != EcKeygen) {
		// unrecognised message, ignored as by the real party
		if c.Foreign != nil {
			c.Foreign(p, "kind "+tag)
		}
		return false, nil
	}
	from := msg.GetFrom()
	if c.Reject != nil {
		if err := c.Reject(p, name, from.Id); err != nil {
			return false, p.WrapError(err, from)
		}
	}
	want := ""
	if k.p2p {
		want = p.Me()
	}
	if len(f) != 5 || f[0] != p.Proto || f[2] != p.Session || f[3] != from.Id || f[4] != want || msg.IsBroadcast() == k.p2p ||
		from.Id == p.Me() || p.Params.Parties().IDs()[from.Index].Id != from.Id {
		if c.Foreign != nil {
			c.Foreign(p, fmt.Sprintf("%s attributed to %s (index %d, broadcast %v)", tag, from.Id, from.Index, msg.IsBroadcast()))
		}
		return false, p.WrapError(fmt.Errorf("message %q does not verify", tag), from)
	}
	p.Recv[name+"/"+from.Id]++
	if c.OnUpdate != nil {
		c.OnUpdate(p, name, from.Id, want, msg.IsBroadcast())
	}
	p.store(name, from.Index)
	for p.rnd > 0 && !p.Ended && p.complete() {
		p.rnd++
		if p.rnd > p.rounds() {
			if p.stalled() {
				return true, nil
			}
			p.Ended = true
			p.finish()
			return true, nil
		}
		p.emit()
	}
	return true, nil
}

// ---------------------------------------------------------------- contents

func pt(curve string) *libcommon.ECPoint {
	if curve == "ecdsa" {
		return ecPoint
	}
	return edPoint
}

var ecPoint = crypto.ScalarBaseMult(tss.EC("ecdsa"), big.NewInt(7)).ToProtobufPoint()
var edPoint = crypto.ScalarBaseMult(tss.EC("eddsa"), big.NewInt(7)).ToProtobufPoint()

func rep(n int) [][]byte {
	o := make([][]byte, n)
	for i := range o {
		o[i] = []byte{1}
	}
	return o
}

// Content builds a content of the real message type that passes ValidateBasic.
func Content(proto, name, tag string) tss.MessageContent {
	t := []byte(tag)
	one := []byte{1}
	if proto == EcPresign {
		proto = EcSigning
	}
	switch proto + name {
	case "eckKG1":
		return &eckeygen.KGRound1Message{Commitment: t, PaillierN: one, NTilde: one, H1: one, H2: one,
			Dlnproof_1: rep(2 + dlnp.Iterations*2), Dlnproof_2: rep(2 + dlnp.Iterations*2)}
	case "eckKG2M1":
		return &eckeygen.KGRound2Message1{Share: t}
	case "eckKG2M2":
		return &eckeygen.KGRound2Message2{DeCommitment: [][]byte{t}}
	case "eckKG3":
		pf := rep(paillier.ProofIters)
		pf[0] = t
		return &eckeygen.KGRound3Message{PaillierProof: pf}
	case "ecsR1M1":
		return &ecsigning.SignRound1Message1{C: t, RangeProofAlice: rep(mta.RangeProofAliceBytesParts)}
	case "ecsR1M2":
		return &ecsigning.SignRound1Message2{Commitment: t}
	case "ecsR2":
		return &ecsigning.SignRound2Message{C1: t, C2: one, ProofBob: rep(mta.ProofBobBytesParts), ProofBobWc: rep(mta.ProofBobWCBytesParts)}
	case "ecsR3":
		return &ecsigning.SignRound3Message{DeltaI: t, TI: pt("ecdsa"), TProofAlpha: pt("ecdsa"), TProofT: one, TProofU: one}
	case "ecsR4":
		return &ecsigning.SignRound4Message{DeCommitment: [][]byte{t, one, one}}
	case "ecsR5":
		pf := rep(zkp.PDLwSlackMarshalledParts)
		pf[0] = t
		return &ecsigning.SignRound5Message{RI: pt("ecdsa"), ProofPdlWSlack: pf}
	case "ecsR6":
		return &ecsigning.SignRound6Message{Content: &ecsigning.SignRound6Message_Success{Success: &ecsigning.SignRound6Message_SuccessData{
			SI: pt("ecdsa"), StProofAlpha: pt("ecdsa"), StProofBeta: pt("ecdsa"), StProofT: t, StProofU: one}}}
	case "ecsR7", "ec1R7":
		return &ecsigning.SignRound7Message{Content: &ecsigning.SignRound7Message_SI{SI: t}}
	case "edkKG1":
		return &edkeygen.KGRound1Message{Commitment: t}
	case "edkKG2M1":
		return &edkeygen.KGRound2Message1{Share: t}
	case "edkKG2M2":
		return &edkeygen.KGRound2Message2{DeCommitment: [][]byte{t}, ProofAlpha: pt("eddsa"), ProofT: one}
	case "edsR1":
		return &edsigning.SignRound1Message{Commitment: t}
	case "edsR2":
		return &edsigning.SignRound2Message{DeCommitment: [][]byte{t, one, one}, ProofAlpha: pt("eddsa"), ProofT: one}
	case "edsR3":
		return &edsigning.SignRound3Message{S: t}
	}
	panic("tssfake: unknown message " + proto + name)
}

// SelfCheck says which contents the real library would not take for well-formed.
func SelfCheck() (bad []string) {
	for proto, ks := range kinds {
		for _, k := range ks {
			c := Content(proto, k.name, "a|b|c|d|e")
			m := tss.NewMessage(tss.MessageRouting{}, c, nil)
			if n, t := Parse(c); n != k.name || t != "a|b|c|d|e" || !basic(m) {
				bad = append(bad, proto+k.name)
			}
		}
	}
	return
}

// Parse gives the kind name and tag of a content.
func Parse(c tss.MessageContent) (name, tag string) {
	first := func(b [][]byte) string {
		if len(b) == 0 {
			return ""
		}
		return string(b[0])
	}
	switch m := c.(type) {
	case *eckeygen.KGRound1Message:
		return "KG1", string(m.Commitment)
	case *eckeygen.KGRound2Message1:
		return "KG2M1", string(m.Share)
	case *eckeygen.KGRound2Message2:
		return "KG2M2", first(m.DeCommitment)
	case *eckeygen.KGRound3Message:
		return "KG3", first(m.PaillierProof)
	case *ecsigning.SignRound1Message1:
		return "R1M1", string(m.C)
	case *ecsigning.SignRound1Message2:
		return "R1M2", string(m.Commitment)
	case *ecsigning.SignRound2Message:
		return "R2", string(m.C1)
	case *ecsigning.SignRound3Message:
		return "R3", string(m.DeltaI)
	case *ecsigning.SignRound4Message:
		return "R4", first(m.DeCommitment)
	case *ecsigning.SignRound5Message:
		return "R5", first(m.ProofPdlWSlack)
	case *ecsigning.SignRound6Message:
		if s := m.GetSuccess(); s != nil {
			return "R6", string(s.StProofT)
		}
		return "R6", ""
	case *ecsigning.SignRound7Message:
		return "R7", string(m.GetSI())
	case *edkeygen.KGRound1Message:
		return "KG1", string(m.Commitment)
	case *edkeygen.KGRound2Message1:
		return "KG2M1", string(m.Share)
	case *edkeygen.KGRound2Message2:
		return "KG2M2", first(m.DeCommitment)
	case *edsigning.SignRound1Message:
		return "R1", string(m.Commitment)
	case *edsigning.SignRound2Message:
		return "R2", first(m.DeCommitment)
	case *edsigning.SignRound3Message:
		return "R3", string(m.S)
	}
	return "?", ""
}

// ---------------------------------------------------------------- keys and results

func keyOf(seed string) *big.Int {
	h := sha256.Sum256([]byte("tssfake key " + seed))
	return new(big.Int).Rsh(new(big.Int).SetBytes(h[:]), 8)
}

// KeyOf is a number that depends on the seed only.
func KeyOf(seed string) *big.Int { return keyOf(seed) }

// SeedOf names the group key of a party set.
func SeedOf(ids []*tss.PartyID) string {
	c := make(tss.UnSortedPartyIDs, len(ids))
	for i, p := range ids {
		c[i] = tss.NewPartyID(p.Id, p.Moniker, p.KeyInt())
	}
	s := groupSeed(tss.SortPartyIDs(c))
	Known(s)
	return s
}

// KeygenSession and SignSession name the session of a run.
func KeygenSession(threshold int) string { return fmt.Sprintf("kg%d", threshold) }
func SignSession(msg *big.Int, pre *ecsigning.SignatureData_OneRoundData) string {
	if pre != nil {
		return session(msg, "/"+string(pre.GetRSigmaI()))
	}
	return session(msg, "")
}

// Message builds the message a party of the given session would emit.
func Message(proto, name, sess string, from, to *tss.PartyID) tss.Message {
	meta := tss.MessageRouting{From: from, IsBroadcast: to == nil}
	tid := ""
	if to != nil {
		meta.To = []*tss.PartyID{to}
		tid = to.Id
	}
	content := Content(proto, name, Tag(proto, name, sess, from.Id, tid))
	return tss.NewMessage(meta, content, tss.NewMessageWrapper(meta, content))
}

// groupSeed names the group key of a party set.
func groupSeed(ids []*tss.PartyID) string {
	s := ""
	for _, p := range ids {
		s += p.Id + ";"
	}
	return s
}

type memo map[string]interface{}

var cache = memo{}

func (m memo) get(k string, f func() interface{}) interface{} {
	if len(m) > 5000 {
		for x := range m {
			delete(m, x)
		}
	}
	if v, ok := m[k]; ok {
		return v
	}
	v := f()
	m[k] = v
	return v
}

// EcGroupKey is the private key of an ECDSA group.
func EcGroupKey(seed string) *big.Int { return keyOf("ec" + seed) }

// EcPub is the public point of a group.
func EcPub(seed string) *crypto.ECPoint {
	return cache.get("ecpub"+seed, func() interface{} {
		return crypto.ScalarBaseMult(tss.EC("ecdsa"), EcGroupKey(seed))
	}).(*crypto.ECPoint)
}

type edKey struct {
	priv *edwards.PrivateKey
	pub  *crypto.ECPoint
}

// EdPriv is the private key of an EdDSA group.
func EdPriv(seed string) (*edwards.PrivateKey, *crypto.ECPoint) {
	k := cache.get("ed"+seed, func() interface{} {
		h := sha256.Sum256([]byte("tssfake ed " + seed))
		priv, pub := edwards.PrivKeyFromSecret(h[:])
		p, err := crypto.NewECPoint(tss.EC("eddsa"), pub.X, pub.Y)
		if err != nil {
			panic(err)
		}
		return edKey{priv, p}
	}).(edKey)
	return k.priv, k.pub
}

// EcShare is the saved share of party me.
func EcShare(seed string, me *tss.PartyID) *eckeygen.LocalPartySaveData {
	d := eckeygen.NewLocalPartySaveData(1)
	d.ECDSAPub = EcPub(seed)
	d.ShareID = me.KeyInt()
	d.Xi = new(big.Int).Add(keyOf("xi"+seed), me.KeyInt())
	return &d
}

// EdShare is the saved share of party me.
func EdShare(seed string, me *tss.PartyID) *edkeygen.LocalPartySaveData {
	d := edkeygen.NewLocalPartySaveData(1)
	_, d.EDDSAPub = EdPriv(seed)
	d.ShareID = me.KeyInt()
	d.Xi = new(big.Int).Add(keyOf("xi"+seed), me.KeyInt())
	return &d
}

var seeds = map[string]string{}

// GenState controls the generation of preparameters.
type GenState struct{ Calls, Fail int }

// Gen is the state of the running execution.
func Gen() *GenState {
	return mc.Local("tssgen", func() interface{} { return &GenState{} }).(*GenState)
}

// PreParams gives distinguishable preparameters.
func PreParams(i int) *eckeygen.LocalPreParams {
	n := big.NewInt(int64(1000 + i))
	return &eckeygen.LocalPreParams{
		PaillierSK: &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: n}, LambdaN: big.NewInt(2), PhiN: big.NewInt(3)},
		NTildei:    n, H1i: n, H2i: n, Alpha: n, Beta: n, P: n, Q: n,
	}
}

// OneRound is a presigned value of set name belonging to party me.
func OneRound(name string, me string) *ecsigning.SignatureData_OneRoundData {
	return &ecsigning.SignatureData_OneRoundData{T: 1, KI: []byte("k" + me), RSigmaI: []byte(name), BigR: ecPoint, PartyId: me}
}

// Known makes group keys of a seed resolvable from their public point.
func Known(seed string) {
	seeds["ec"+EcPub(seed).X().String()] = seed
	_, p := EdPriv(seed)
	seeds["ed"+p.X().String()] = seed
}

func EcSign(seed string, msg []byte) *libcommon.ECSignature {
	return cache.get("ecsig"+seed+string(msg), func() interface{} {
		h := make([]byte, 32)
		copy(h[32-len(msg):], msg)
		k, err := ethcrypto.ToECDSA(leftPad(EcGroupKey(seed).Bytes()))
		if err != nil {
			panic(err)
		}
		s, err := ethcrypto.Sign(h, k)
		if err != nil {
			panic(err)
		}
		return &libcommon.ECSignature{R: new(big.Int).SetBytes(s[:32]).Bytes(), S: new(big.Int).SetBytes(s[32:64]).Bytes(),
			SignatureRecovery: []byte{s[64]}, Signature: s[:64], M: msg}
	}).(*libcommon.ECSignature)
}

func leftPad(b []byte) []byte {
	o := make([]byte, 32)
	copy(o[32-len(b):], b)
	return o
}

func EdSign(seed string, msg []byte) *libcommon.ECSignature {
	return cache.get("edsig"+seed+string(msg), func() interface{} {
		priv, _ := EdPriv(seed)
		s, err := priv.Sign(msg)
		if err != nil {
			panic(err)
		}
		return &libcommon.ECSignature{R: s.GetR().Bytes(), S: s.GetS().Bytes(), Signature: s.Serialize(), M: msg}
	}).(*libcommon.ECSignature)
}

// ---------------------------------------------------------------- constructors

func NewEcKeygen(params *tss.Parameters, out chan<- tss.Message, end chan<- eckeygen.LocalPartySaveData, pre ...eckeygen.LocalPreParams) tss.Party {
	if C().Real {
		return realEcKeygen(params, out, end, pre...)
	}
	return fakeEcKeygen(params, out, end, pre...)
}

func fakeEcKeygen(params *tss.Parameters, out chan<- tss.Message, end chan<- eckeygen.LocalPartySaveData, pre ...eckeygen.LocalPreParams) tss.Party {
	seed := groupSeed(params.Parties().IDs())
	Known(seed)
	p := newParty(EcKeygen, fmt.Sprintf("kg%d", params.Threshold()), params, out)
	if len(pre) > 0 {
		p.EcPre = &pre[0]
	}
	p.finish = func() {
		d := EcShare(seed, p.PartyID())
		if f := C().ECKey; f != nil {
			d = f(p)
		}
		mc.S(end).Send(*d)
	}
	return p
}

func NewEdKeygen(params *tss.Parameters, out chan<- tss.Message, end chan<- edkeygen.LocalPartySaveData) tss.Party {
	if C().Real {
		return realEdKeygen(params, out, end)
	}
	return fakeEdKeygen(params, out, end)
}

func fakeEdKeygen(params *tss.Parameters, out chan<- tss.Message, end chan<- edkeygen.LocalPartySaveData) tss.Party {
	seed := groupSeed(params.Parties().IDs())
	Known(seed)
	p := newParty(EdKeygen, fmt.Sprintf("kg%d", params.Threshold()), params, out)
	p.finish = func() {
		d := EdShare(seed, p.PartyID())
		if f := C().EDKey; f != nil {
			d = f(p)
		}
		mc.S(end).Send(*d)
	}
	return p
}

func session(msg *big.Int, setup string) string {
	if msg == nil {
		return "none" + setup
	}
	return msg.Text(16) + setup
}

func NewEcSigning(msg *big.Int, params *tss.Parameters, key eckeygen.LocalPartySaveData, pre *ecsigning.SignatureData_OneRoundData,
	out chan<- tss.Message, end chan<- *ecsigning.SignatureData) tss.Party {
	if C().Real {
		return realEcSigning(msg, params, key, pre, out, end)
	}
	return fakeEcSigning(msg, params, key, pre, out, end)
}

func fakeEcSigning(msg *big.Int, params *tss.Parameters, key eckeygen.LocalPartySaveData, pre *ecsigning.SignatureData_OneRoundData,
	out chan<- tss.Message, end chan<- *ecsigning.SignatureData) tss.Party {
	proto, setup := EcSigning, ""
	if pre != nil {
		proto = EcOneRound
		setup = "/" + string(pre.GetRSigmaI())
	} else if msg == nil {
		proto = EcPresign
	}
	p := newParty(proto, session(msg, setup), params, out)
	p.Msg, p.EcKey, p.Pre = msg, &key, pre
	p.finish = func() {
		d := &ecsigning.SignatureData{OneRoundData: pre}
		if proto == EcPresign {
			d.OneRoundData = OneRound("made by "+p.Me(), p.Me())
		}
		if msg != nil {
			if f := C().ECSig; f != nil {
				d.Signature = f(p, msg.Bytes())
			}
			if d.Signature == nil {
				d.Signature = EcSign(seeds["ec"+key.ECDSAPub.X().String()], msg.Bytes())
			}
		}
		mc.S(end).Send(d)
	}
	return p
}

func NewEdSigning(msg *big.Int, params *tss.Parameters, key edkeygen.LocalPartySaveData, out chan<- tss.Message, end chan<- *edsigning.SignatureData) tss.Party {
	if C().Real {
		return realEdSigning(msg, params, key, out, end)
	}
	return fakeEdSigning(msg, params, key, out, end)
}

func fakeEdSigning(msg *big.Int, params *tss.Parameters, key edkeygen.LocalPartySaveData, out chan<- tss.Message, end chan<- *edsigning.SignatureData) tss.Party {
	p := newParty(EdSigning, session(msg, ""), params, out)
	p.Msg, p.EdKey = msg, &key
	p.finish = func() {
		var s *libcommon.ECSignature
		if f := C().EDSig; f != nil {
			s = f(p, msg.Bytes())
		}
		if s == nil {
			s = EdSign(seeds["ed"+key.EDDSAPub.X().String()], msg.Bytes())
		}
		mc.S(end).Send(&edsigning.SignatureData{Signature: s})
	}
	return p
}
