package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/decred/dcrd/dcrec/edwards/v2"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/p2p"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/dheart/worker/interfaces"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	libcommon "github.com/sisu-network/tss-lib/common"
	"github.com/sisu-network/tss-lib/crypto"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C17 signatures on outgoing messages

// recCM records what a node writes.
type recCM struct {
	p2p.ConnectionManager
	out  []recWrite
	lock mc.Mutex
	fail func(to string) error
}

type recWrite struct {
	to    string
	proto protocol.ID
	data  []byte
}

func (c *recCM) WriteToStream(p peer.ID, proto protocol.ID, msg []byte) error {
	c.lock.Lock()
	c.out = append(c.out, recWrite{p.String(), proto, append([]byte(nil), msg...)})
	c.lock.Unlock()
	if c.fail != nil {
		return c.fail(p.String())
	}
	return nil
}

// badKey cannot sign.
type badKey struct{ ctypes.PrivKey }

func (badKey) Sign([]byte) ([]byte, error) { return nil, errors.New("cannot sign") }

var c17keys = []ctypes.PrivKey{ed25519.GenPrivKeyFromSecret([]byte("c17 ed")), secp256k1.GenPrivKeyFromSecret([]byte("c17 secp"))}
var sigCache = map[string]bool{}

func verifySig(k ctypes.PrivKey, msg, sig []byte) bool {
	if len(msg) > 1<<14 {
		return k.PubKey().VerifySignature(msg, sig)
	}
	c := string(k.PubKey().Bytes()) + "/" + string(msg) + "/" + string(sig)
	v, ok := sigCache[c]
	if !ok {
		if len(sigCache) > 4000 {
			sigCache = map[string]bool{}
		}
		v = k.PubKey().VerifySignature(msg, sig)
		sigCache[c] = v
	}
	return v
}

// checkWrite: one written message is from me, signed by my key over exactly its content.
func checkWrite(me string, key ctypes.PrivKey, w recWrite) *common.TssMessage {
	mc.Check(w.proto == p2p.TSSProtocolID, "protocol", "message written under protocol %s", w.proto)
	mc.Check(w.to != me, "self-send", "the node writes to itself")
	sm := &common.SignedMessage{}
	err := json.Unmarshal(w.data, sm)
	mc.Check(err == nil && sm.TssMessage != nil, "undecodable", "the written bytes do not decode: %v", err)
	mc.Check(sm.From == me, "author", "message %v names %q as its author, not %q", sm.TssMessage.Type, sm.From, me)
	mc.Check(sm.TssMessage.From == me, "author", "message %v names %q as its author, not %q", sm.TssMessage.Type, sm.TssMessage.From, me)
	enc, err := json.Marshal(sm.TssMessage)
	if err != nil {
		panic(err)
	}
	mc.Check(verifySig(key, enc, sm.Signature), "signature", "the signature (%d bytes) of message %v to %s does not verify over its content", len(sm.Signature), sm.TssMessage.Type, sm.TssMessage.To)
	return sm.TssMessage
}

// c17msg makes a message of every kind a worker sends.
func c17msg(kind int, tag string, me, to string) *common.TssMessage {
	work := "work-" + tag
	switch kind {
	case 0:
		return common.NewAvailabilityRequestMessage(me, to, work)
	case 1:
		return common.NewAvailabilityResponseMessage(me, to, work, common.AvailabilityResponseMessage_YES, 1)
	case 2:
		return common.NewPreExecOutputMessage(me, to, work, true, []string{"p-0"}, []*tss.PartyID{allNodes[0].PartyId, allNodes[1].PartyId})
	case 3:
		return common.NewPreExecOutputMessage(me, to, work, false, nil, nil)
	case 4:
		return common.NewRequestMessage(me, to, work, common.GetMessageKey(work, pid(1), to, "KGRound1Message"))
	}
	f := tss.NewPartyID(me, "", big.NewInt(1))
	f.Index = 0
	var t *tss.PartyID
	name := "KG1"
	if to != "" {
		t = tss.NewPartyID(to, "", big.NewInt(2))
		name = "KG2M1"
	}
	m := tssfake.Message(tssfake.EdKeygen, name, "kg1", f, t)
	var ms []tss.Message
	for i := 5; i <= kind; i++ {
		ms = append(ms, m)
	}
	u, err := common.NewTssMessage(me, to, work, ms, m.Type())
	if err != nil {
		panic(err)
	}
	return u
}

const c17kinds = 8

func c17engine(key ctypes.PrivKey) (core.Engine, interfaces.MessageDispatcher, *recCM) {
	cm := &recCM{}
	me := allNodes[0]
	eng := core.NewEngine(&core.Node{PeerId: me.PeerId, PubKey: me.PubKey, PartyId: me.PartyId}, cm, newMemDB(), (&world{nodes: []*enode{{}}}).nodes[0], key, testCfg())
	w := &world{n: 3}
	eng.AddNodes(w.coreNodes())
	return eng, eng.(interfaces.MessageDispatcher), cm
}

var perms3 = [][]int{{}, {0}, {1}, {2}, {0, 1}, {1, 0}, {1, 2}, {2, 1}, {0, 2}, {2, 0}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {1, 4, 2}}

func pidsOf(is []int) (ps []*tss.PartyID) {
	for _, i := range is {
		ps = append(ps, allNodes[i].PartyId)
	}
	return
}

// wantTo: the known addressees other than the node itself.
func wantTo(is []int, n int) (s []string) {
	for _, i := range is {
		if i != 0 && i < n {
			s = append(s, pid(i))
		}
	}
	sort.Strings(s)
	return
}

func gotTo(ws []recWrite, sel func(recWrite) bool) (s []string) {
	for _, w := range ws {
		if sel == nil || sel(w) {
			s = append(s, w.to)
		}
	}
	sort.Strings(s)
	return
}

// every kind, key and list of addressees, one after another on one engine
func c17inputs() {
	key := c17keys[mc.Choose(2, 0)]
	_, d, cm := c17engine(key)
	kind := mc.Choose(c17kinds, 0)
	set := perms3[mc.Choose(len(perms3), 0)]
	mode := mc.Choose(4, 0) // broadcast, unicast to each, writes failing, broadcast twice
	if mode == 2 {
		cm.fail = func(to string) error { return errors.New("unreachable") }
	}
	var want []string
	send := func(tag string) {
		if mode == 1 {
			for _, i := range set {
				m := c17msg(kind, tag, pid(0), pid(i))
				d.UnicastMessage(allNodes[i].PartyId, m)
			}
		} else {
			d.BroadcastMessage(pidsOf(set), c17msg(kind, tag, pid(0), ""))
		}
		want = append(want, wantTo(set, 3)...)
	}
	send("a")
	if mode == 3 {
		send("b")
	}
	mc.Quiesce()
	sort.Strings(want)
	got := gotTo(cm.out, nil)
	mc.Check(strings.Join(got, " ") == strings.Join(want, " "), "addressees", "message kind %d for %v was written to %v, want %v", kind, set, got, want)
	for _, w := range cm.out {
		m := checkWrite(pid(0), key, w)
		mc.Check(mode != 1 || m.To == w.to, "misdirected", "the message for %s is written to %s", m.To, w.to)
		tag := m.WorkId[len("work-"):]
		to := ""
		if mode == 1 {
			to = w.to
		}
		a, _ := json.Marshal(m)
		b, _ := json.Marshal(c17msg(kind, tag, pid(0), to))
		mc.Check(bytes.Equal(a, b), "altered", "message sent %s, written %s", b, a)
	}
	mc.Outcome("%d", len(got))
}

// messages of every length and with unusual characters
func c17sizes() {
	key := c17keys[mc.Choose(2, 0)]
	_, d, cm := c17engine(key)
	kind := mc.Choose(c17kinds, 0)
	tag := []string{"a", "<&>", "é\u2028", "a\"b\\", strings.Repeat("long", 4000)}[mc.Choose(5, 0)]
	m := c17msg(kind, tag, pid(0), "")
	if kind >= 5 {
		n := []int{0, 1, 31, 1000, 4097, 70000, 1100000}[mc.Choose(7, 0)]
		for j, u := range m.UpdateMessages {
			u.Data = someBytes(n, byte(j+1))
			u.SerializedMessageRouting = someBytes(n/2, byte(j+7))
		}
	}
	if kind == 2 {
		for i := mc.Choose(2, 0) * 3000; i > 0; i-- {
			m.PreExecOutputMessage.PresignIds = append(m.PreExecOutputMessage.PresignIds, fmt.Sprint("presign", i))
		}
	}
	want, _ := json.Marshal(m)
	d.BroadcastMessage(pidsOf([]int{0, 1, 2}), m)
	mc.Quiesce()
	mc.Check(strings.Join(gotTo(cm.out, nil), " ") == strings.Join(wantTo([]int{0, 1, 2}, 3), " "), "addressees", "message kind %d was written to %v", kind, gotTo(cm.out, nil))
	for _, w := range cm.out {
		got, _ := json.Marshal(checkWrite(pid(0), key, w))
		mc.Check(bytes.Equal(got, want), "altered", "a message of kind %d and %d bytes was altered", kind, len(want))
	}
	mc.Outcome("%d %d", kind, len(want))
}

// messages addressed to the node itself, or that it cannot sign, are not sent at all
func c17silent() {
	i := mc.Choose(3, 0)
	key := c17keys[i%2]
	if i == 2 {
		key = badKey{c17keys[0]}
	}
	_, d, cm := c17engine(key)
	kind := mc.Choose(c17kinds, 0)
	uni := mc.Choose(2, 0) == 0
	if i == 2 {
		if uni {
			d.UnicastMessage(allNodes[1].PartyId, c17msg(kind, "x", pid(0), pid(1)))
		} else {
			d.BroadcastMessage(pidsOf([]int{0, 1, 2}), c17msg(kind, "x", pid(0), ""))
		}
		mc.Quiesce()
		mc.Check(len(cm.out) == 0, "unsigned", "a message that could not be signed was sent to %v", gotTo(cm.out, nil))
		return
	}
	if uni {
		d.UnicastMessage(allNodes[0].PartyId, c17msg(kind, "x", pid(0), pid(0)))
	} else {
		d.BroadcastMessage(pidsOf([]int{0}), c17msg(kind, "x", pid(0), ""))
	}
	mc.Quiesce()
	mc.Check(len(cm.out) == 0, "self-send", "a message to the node itself was written to %v", gotTo(cm.out, nil))
}

// concurrent senders
func c17concurrent(n int) func() {
	return func() {
		key := c17keys[mc.Choose(2, 0)]
		eng, d, cm := c17engine(key)
		shared := mc.Choose(2, 0) == 1 // the same list of addressees for all senders
		list := pidsOf([]int{0, 1, 2})
		var gs []*mc.G
		for g := 0; g < n; g++ {
			g := g
			gs = append(gs, mc.GoNamed(fmt.Sprintf("sender %d", g), func() {
				l := list
				if !shared {
					l = pidsOf([]int{2, 1, 0})
				}
				if g == 1 {
					d.UnicastMessage(allNodes[2].PartyId, c17msg(5, fmt.Sprint(g), pid(0), pid(2)))
					return
				}
				d.BroadcastMessage(l, c17msg(5+g, fmt.Sprint(g), pid(0), ""))
			}))
		}
		gs = append(gs, mc.GoNamed("nodes", func() { eng.AddNodes((&world{n: 3}).coreNodes()) }))
		for _, g := range gs {
			g.Join()
		}
		mc.Quiesce()
		cnt := map[string]int{}
		for _, w := range cm.out {
			m := checkWrite(pid(0), key, w)
			cnt[m.WorkId+">"+w.to]++
		}
		for g := 0; g < n; g++ {
			for i := 1; i < 3; i++ {
				want := 1
				if g == 1 && i == 1 {
					want = 0
				}
				mc.Check(cnt[fmt.Sprintf("work-%d>%s", g, pid(i))] == want, "addressees", "message of sender %d reached node %d %d times", g, i, cnt[fmt.Sprintf("work-%d>%s", g, pid(i))])
			}
		}
	}
}

// a whole work with real keys: everything a node writes is signed by it, retransmissions are unchanged
func c17run(kind wtypes.WorkType) func() {
	return func() {
		w := newWorld(3, 0)
		key := c17keys[mc.Choose(2, 0)]
		nd := w.nodes[0]
		me := allNodes[0]
		rec := &tapCM{netCM: netCM{nd}}
		nd.eng = core.NewEngine(&core.Node{PeerId: me.PeerId, PubKey: me.PubKey, PartyId: tss.NewPartyID(me.PartyId.Id, "", me.PartyId.KeyInt())}, rec, nd.db, nd, key, w.cfg)
		nd.eng.AddNodes(w.coreNodes())
		first := map[string]bool{}
		rec.see = func(to string, proto protocol.ID, bz []byte) {
			sm := &common.SignedMessage{}
			if json.Unmarshal(bz, sm) == nil && sm.TssMessage != nil && sm.From != pid(0) {
				return // another node's message, passed on (C15)
			}
			m := checkWrite(pid(0), key, recWrite{to, proto, bz})
			mc.Check(m.To == "" || m.To == to, "misdirected", "the message for %s is written to %s", m.To, to)
			if m.Type == common.TssMessage_UPDATE_MESSAGES {
				k := to + string(bz)
				mc.Check(!first[k], "twice", "a %s message is sent twice to %s", m.UpdateMessages[0].Round, to)
				first[k] = true
			}
		}
		work := w.workLed("w", mc.Choose(2, 0))
		if err := nd.eng.AddRequest(w.request(0, kind, work, 2)); err != nil {
			mc.Fail("refused", "%v", err)
		}
		mc.Quiesce()
		os := w.outcomesOf(0, work)
		mc.Check(len(os) == 1 && (os[0].kind == "sign" || os[0].kind == "keygen"), "no-success", "the work ended as %v", os)
	}
}

type tapCM struct {
	netCM
	see func(to string, proto protocol.ID, bz []byte)
}

func (c *tapCM) WriteToStream(p peer.ID, proto protocol.ID, msg []byte) error {
	c.see(p.String(), proto, msg)
	return c.netCM.WriteToStream(p, proto, msg)
}

func init() {
	register("C17",
		&mc.Scenario{Name: "sign-inputs", Sched: mc.Fixed, Bounds: []int{0}, Body: c17inputs},
		&mc.Scenario{Name: "sign-sizes", Sched: mc.Fixed, Bounds: []int{0}, Body: c17sizes},
		&mc.Scenario{Name: "sign-silent", Sched: mc.Fixed, Bounds: []int{0}, Body: c17silent},
		&mc.Scenario{Name: "sign-2", Sched: mc.Delay, Race: true, Bounds: []int{1, 2}, BoundsDeep: []int{1, 2, 3, 4}, Body: c17concurrent(2)},
		&mc.Scenario{Name: "sign-3", Sched: mc.Delay, Race: true, Bounds: []int{1, 2}, BoundsDeep: []int{1, 2, 3}, Body: c17concurrent(3)})
	for _, k := range workKinds {
		register("C17", &mc.Scenario{Name: "sign-run-" + kindName(k), Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: c17run(k)})
	}
}

// ------------------------------------------------------------ C21 share stored before the key is published

func ecKeyOf(p *tssfake.Party) *eckeygen.LocalPartySaveData {
	d := eckeygen.NewLocalPartySaveData(1)
	d.ECDSAPub = tssfake.EcPub("c21" + p.Session)
	d.ShareID, d.Xi = p.PartyID().KeyInt(), big.NewInt(int64(1000+p.Params.Threshold()))
	return &d
}

func edKeyOf(p *tssfake.Party) *edkeygen.LocalPartySaveData {
	d := edkeygen.NewLocalPartySaveData(1)
	_, d.EDDSAPub = tssfake.EdPriv("c21" + p.Session)
	d.ShareID, d.Xi = p.PartyID().KeyInt(), big.NewInt(int64(2000+p.Params.Threshold()))
	return &d
}

func ecBytes(p *crypto.ECPoint) []byte {
	out := []byte{4}
	for _, v := range []*big.Int{p.X(), p.Y()} {
		b := make([]byte, 32)
		v.FillBytes(b)
		out = append(out, b...)
	}
	return out
}

func edBytes(p *crypto.ECPoint) []byte { return edwards.NewPublicKey(p.X(), p.Y()).Serialize() }

// stored: the database of node i holds, under the key type, the share belonging to the public key.
func (w *world) stored(i int, keyType string, pub []byte, xi int64) string {
	d := w.nodes[i].db
	if x := d.ec[keyType]; x != nil && bytes.Equal(ecBytes(x.ECDSAPub), pub) {
		if x.ShareID == nil || x.ShareID.Cmp(allNodes[i].PartyId.KeyInt()) != 0 || x.Xi == nil || xi != 0 && x.Xi.Int64() != xi {
			return "the stored share is not this node's"
		}
		return ""
	}
	if x := d.ed[keyType]; x != nil && bytes.Equal(edBytes(x.EDDSAPub), pub) {
		if x.ShareID == nil || x.ShareID.Cmp(allNodes[i].PartyId.KeyInt()) != 0 || x.Xi == nil || xi != 0 && x.Xi.Int64() != xi {
			return "the stored share is not this node's"
		}
		return ""
	}
	return "no share of that key is stored under its key type"
}

// keystore: key generations on one real node among scripted peers, with database failures.
func keystore(kinds []wtypes.WorkType, failures bool, again bool) func() {
	return func() {
		w := newWorld(3, 0)
		d := w.nodes[0].db
		d.ec, d.ed = map[string]*eckeygen.LocalPartySaveData{}, map[string]*edkeygen.LocalPartySaveData{}
		c := tssfake.C()
		c.ECKey, c.EDKey = ecKeyOf, edKeyOf
		at, nfail := -1, 0
		if failures {
			at = mc.Choose(5, 0) - 1
			if at >= 0 && again {
				nfail = mc.Choose(3, 0)
			}
			nfail++
		}
		n, failed := 0, map[string]bool{}
		failing := false
		d.fail = func(op string) bool {
			mc.Point("database " + op)
			f := n >= at && n < at+nfail && at >= 0
			n++
			failing = failing || f
			if f && strings.HasPrefix(op, "Save") {
				failed[op] = true
			}
			return f
		}
		xi := map[string]int64{}
		w.onOut = func(o outcome) {
			if o.kind != "keygen" {
				return
			}
			mc.Check(o.kg.Outcome == htypes.OutcomeSuccess, "keygen-outcome", "key generation reported with outcome %v", o.kg.Outcome)
			mc.Check(o.kg.KeyType == o.work, "keytype", "key reported under %q", o.kg.KeyType)
			if s := w.stored(0, o.kg.KeyType, o.kg.PubKeyBytes, xi[o.work]); s != "" {
				mc.Fail("published-unstored", "public key of %s is reported but %s", o.kg.KeyType, s)
			}
		}
		w.boot(0)
		var works []string
		var gs []*mc.G
		for k, kind := range kinds {
			work := w.workLed(fmt.Sprintf("key%d", k), k%2)
			works = append(works, work)
			r := w.request(0, kind, work, 1)
			r.Threshold = 1 + k
			xi[work] = int64(1000 + r.Threshold)
			if kind == wtypes.EdKeygen {
				xi[work] += 1000
			}
			gs = append(gs, mc.GoNamed("submit", func() {
				if err := w.nodes[0].eng.AddRequest(r); err != nil {
					mc.Fail("refused", "%v", err)
				}
			}))
		}
		for _, g := range gs {
			g.Join()
		}
		mc.Quiesce()
		check := func(extra int) string {
			s := ""
			for k, work := range works {
				os := w.outcomesOf(0, work)
				mc.Check(len(os) >= 1 && len(os) <= 1+extra, "outcome-count", "%s reported %v", work, os)
				o := os[len(os)-1]
				s += o.kind[:1]
				if o.kind == "keygen" {
					if x := w.stored(0, work, o.kg.PubKeyBytes, xi[work]); x != "" {
						mc.Fail("share-lost", "public key of %s was reported but %s", work, x)
					}
				} else {
					mc.Check(o.kind == "fail", "outcome", "%s reported %v", work, o)
					mc.Check(failing, "failed", "%s failed although the database works", work)
				}
				save := "SaveEcKeygen"
				if kinds[k] == wtypes.EdKeygen {
					save = "SaveEdKeygen"
				}
				if len(kinds) == 1 && failed[save] && extra == 0 {
					mc.Check(o.kind == "fail", "save-error-ignored", "storing the share of %s failed but the work reported %v", work, o)
				}
			}
			mc.Check(w.nodes[0].eng.GetActiveWorkerCount() == 0, "slot-leak", "%d works still active", w.nodes[0].eng.GetActiveWorkerCount())
			return s
		}
		s := check(0)
		if again && strings.Contains(s, "f") {
			// a repeated key generation succeeds once the database works
			d.fail = nil
			failing = false
			for k, kind := range kinds {
				nw := w.workLed(fmt.Sprintf("again%d", k), k%2)
				r := w.request(0, kind, nw, 1)
				r.Threshold = 1 + k
				r.KeygenType = nw
				xi[nw] = xi[works[k]]
				works[k] = nw
				if err := w.nodes[0].eng.AddRequest(r); err != nil {
					mc.Fail("refused", "%v", err)
				}
			}
			mc.Quiesce()
			s += " " + check(1)
		}
		mc.Outcome("%s", s)
	}
}

// keySlow: storing takes its time, and then succeeds or fails.
func keySlow(kind wtypes.WorkType, leader int) func() {
	return func() {
		w := newWorld(3, 0)
		d := w.nodes[0].db
		d.ec, d.ed = map[string]*eckeygen.LocalPartySaveData{}, map[string]*edkeygen.LocalPartySaveData{}
		takes := []time.Duration{time.Millisecond, 1500 * time.Millisecond, 8 * time.Second, 25 * time.Second, 65 * time.Second, 20 * time.Minute}[mc.Choose(6, 0)]
		bad := mc.Choose(2, 0) == 1
		busy := false
		d.fail = func(op string) bool {
			if !strings.HasPrefix(op, "Save") {
				return false
			}
			busy = true
			mc.Sleep(int64(takes))
			busy = false
			return bad
		}
		w.onOut = func(o outcome) {
			mc.Check(!busy, "early", "the work ends as %v while its share is being stored", o)
			if o.kind == "keygen" {
				if s := w.stored(0, o.kg.KeyType, o.kg.PubKeyBytes, 0); s != "" {
					mc.Fail("published-unstored", "public key of %s is reported but %s", o.kg.KeyType, s)
				}
			}
		}
		w.boot(0)
		work := w.workLed("key", leader)
		if err := w.nodes[0].eng.AddRequest(w.request(0, kind, work, 1)); err != nil {
			mc.Fail("refused", "%v", err)
		}
		mc.Quiesce()
		os := w.outcomesOf(0, work)
		want := map[bool]string{true: "fail", false: "keygen"}[bad]
		mc.Check(len(os) == 1 && os[0].kind == want, "outcome", "storing takes %s and fails: %v; the work ends as %v", takes, bad, os)
		mc.Check(w.nodes[0].eng.GetActiveWorkerCount() == 0, "slot-leak", "%d works still active", w.nodes[0].eng.GetActiveWorkerCount())
		mc.Outcome("%s", want)
	}
}

// keystoreNet: three full nodes, one database failing; nobody publishes without its share.
func keystoreNet(kind wtypes.WorkType) func() {
	return func() {
		w := newWorld(3, 0, 1, 2)
		bad := mc.Choose(4, 0) - 1
		for i := 0; i < 3; i++ {
			d := w.nodes[i].db
			d.ec, d.ed = map[string]*eckeygen.LocalPartySaveData{}, map[string]*edkeygen.LocalPartySaveData{}
			i := i
			d.fail = func(op string) bool { return i == bad && strings.HasPrefix(op, "Save") }
		}
		w.onOut = func(o outcome) {
			if o.kind == "keygen" {
				if s := w.stored(o.node, o.kg.KeyType, o.kg.PubKeyBytes, 0); s != "" {
					mc.Fail("published-unstored", "node %d reports the public key of %s but %s", o.node, o.kg.KeyType, s)
				}
			}
		}
		for i := 0; i < 3; i++ {
			w.boot(i)
		}
		for i := 0; i < 3; i++ {
			if err := w.nodes[i].eng.AddRequest(w.request(i, kind, "key", 1)); err != nil {
				mc.Fail("refused", "%v", err)
			}
		}
		mc.Quiesce()
		for i := 0; i < 3; i++ {
			os := w.outcomesOf(i, "key")
			want := "keygen"
			if i == bad {
				want = "fail"
			}
			mc.Check(len(os) == 1 && os[0].kind == want, "outcome", "node %d reports %v, want %s", i, os, want)
		}
	}
}

func init() {
	ec, ed := wtypes.EcKeygen, wtypes.EdKeygen
	for _, k := range []wtypes.WorkType{ec, ed} {
		register("C21",
			&mc.Scenario{Name: "key-" + kindName(k), Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2, 3}, Body: keystore([]wtypes.WorkType{k}, true, true)},
			&mc.Scenario{Name: "key-slow-" + kindName(k), Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: keySlow(k, 1)},
			&mc.Scenario{Name: "key-slow-led-" + kindName(k), Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: keySlow(k, 0)},
			&mc.Scenario{Name: "key-net-" + kindName(k), Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: keystoreNet(k)})
	}
	for _, k := range [][]wtypes.WorkType{{ec, ed}, {ec, ec}, {ed, ed}} {
		k := k
		register("C21", &mc.Scenario{Name: "key-two-" + kindName(k[0]) + "-" + kindName(k[1]), Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: keystore(k, true, false)})
	}
}

// ------------------------------------------------------------ C22 encodings

// oneNode runs one work on a real node among scripted peers and returns its outcome.
func oneNode(kind wtypes.WorkType, mut func(w *world, r *wtypes.WorkRequest), batch int) (*world, outcome) {
	w := newWorld(3, 0)
	w.boot(0)
	work := w.workLed("w", 1)
	r := w.request(0, kind, work, batch)
	if mut != nil {
		mut(w, r)
	}
	if err := w.nodes[0].eng.AddRequest(r); err != nil {
		mc.Fail("refused", "%v", err)
	}
	mc.Quiesce()
	os := w.outcomesOf(0, work)
	mc.Check(len(os) == 1, "outcome-count", "the work reported %v", os)
	return w, os[0]
}

func someBytes(n int, tag byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = tag + byte(i*7)
	}
	if n > 0 && b[0] == 0 {
		b[0] = 1
	}
	return b
}

func padded(b []byte) []byte {
	o := make([]byte, 32)
	copy(o[32-len(b):], b)
	return o
}

func encLengths() {
	rl, sl := mc.Choose(33, 0), mc.Choose(33, 0)
	rec := byte((rl + sl) % 4)
	r, s := someBytes(rl, 0x81), someBytes(sl, 0x35)
	r0, s0 := append([]byte(nil), r...), append([]byte(nil), s...)
	tssfake.C().ECSig = func(p *tssfake.Party, msg []byte) *libcommon.ECSignature {
		return &libcommon.ECSignature{R: r, S: s, SignatureRecovery: []byte{rec}, M: msg}
	}
	_, o := oneNode(wtypes.EcSigning, nil, 1)
	mc.Check(o.kind == "sign" && len(o.sg.Signatures) == 1, "outcome", "signing reported %v", o)
	want := append(append(padded(r0), padded(s0)...), rec)
	mc.Check(bytes.Equal(o.sg.Signatures[0], want), "encoding", "R of %d and S of %d bytes reported as %x, want %x", rl, sl, o.sg.Signatures[0], want)
}

func padInputs() {
	n, l := mc.Choose(40, 0), mc.Choose(40, 0)
	b := someBytes(n, 0x11)
	c := append([]byte(nil), b...)
	got := utils.PadToLengthBytesForSignature(b, l)
	want := c
	if n < l {
		want = append(make([]byte, l-n), c...)
	}
	mc.Check(bytes.Equal(got, want), "padding", "%d bytes padded to %d give %x", n, l, got)
}

// lead0 are messages whose numeric value is shorter than their bytes.
func variantMsg(v, j int) []byte {
	m := msgBytes(fmt.Sprint("enc", v), j)
	switch v {
	case 1:
		m[0] = 0
	case 2:
		m[0], m[1] = 0, 0
	case 3:
		m = m[:5]
	}
	return m
}

func encBatch(kind wtypes.WorkType) func() {
	return func() {
		batch := 1 + mc.Choose(3, 0)
		bad := -1
		if kind == wtypes.EdSigning {
			bad = mc.Choose(batch+1, 0) - 1
		}
		wrong := 0
		if bad >= 0 {
			wrong = mc.Choose(3, 0)
		}
		var vs []int
		for j := 0; j < batch; j++ {
			vs = append(vs, mc.Choose(4, 0))
		}
		seed := tssfake.SeedOf(freshPids(3))
		if bad >= 0 {
			tssfake.C().EDSig = func(p *tssfake.Party, msg []byte) *libcommon.ECSignature {
				if p.Msg.Cmp(new(big.Int).SetBytes(variantMsg(vs[bad], bad))) != 0 {
					return nil
				}
				g := tssfake.EdSign(seed, msg)
				c := &libcommon.ECSignature{R: append([]byte(nil), g.R...), S: append([]byte(nil), g.S...), Signature: append([]byte(nil), g.Signature...), M: g.M}
				switch wrong {
				case 0:
					c.S[len(c.S)-1] ^= 1
					c.Signature[32] ^= 1
				case 1:
					return tssfake.EdSign(seed, append([]byte{9}, msg...))
				case 2:
					return tssfake.EdSign("another key"+seed, msg)
				}
				return c
			}
		}
		w, o := oneNode(kind, func(w *world, r *wtypes.WorkRequest) {
			for j := range r.Messages {
				r.Messages[j] = variantMsg(vs[j], j)
			}
		}, batch)
		must := bad < 0
		for _, v := range vs {
			if kind == wtypes.EdSigning && (v == 1 || v == 2) {
				must = false // the library signs the number, not the bytes
			}
		}
		mc.Check(o.kind == "sign" || o.kind == "fail", "outcome", "signing reported %v", o)
		mc.Check(!must || o.kind == "sign", "failed", "signing of %v failed", vs)
		mc.Check(bad < 0 || o.kind == "fail", "bad-success", "signing reported success although signature %d of %d does not verify", bad, batch)
		w.checkValid(o)
		if o.kind == "sign" {
			for j := range o.sg.Signatures {
				n := 65
				if kind == wtypes.EdSigning {
					n = 64
				}
				mc.Check(len(o.sg.Signatures[j]) == n, "length", "signature %d has %d bytes", j, len(o.sg.Signatures[j]))
			}
		}
		mc.Check(w.nodes[0].eng.GetActiveWorkerCount() == 0, "slot-leak", "%d works still active", w.nodes[0].eng.GetActiveWorkerCount())
		mc.Outcome("%s", o.kind)
	}
}

// real ECDSA signatures with a short R or S
func encShortReal() {
	seed := tssfake.SeedOf(freshPids(3))
	want := mc.Choose(2, 0)
	var msg []byte
	for k := 0; ; k++ {
		msg = msgBytes(fmt.Sprint("short", want), k)
		g := tssfake.EcSign(seed, msg)
		if want == 0 && len(g.R) < 32 || want == 1 && len(g.S) < 32 {
			break
		}
	}
	w, o := oneNode(wtypes.EcSigning, func(w *world, r *wtypes.WorkRequest) { r.Messages[1] = msg }, 2)
	mc.Check(o.kind == "sign", "failed", "signing reported %v", o)
	w.checkValid(o)
}

var shortEc, shortEd []*crypto.ECPoint

// shortPoints are public keys with a short X, a short Y, and neither.
func shortPoints() ([]*crypto.ECPoint, []*crypto.ECPoint) {
	if shortEc != nil {
		return shortEc, shortEd
	}
	find := func(scheme string) (o []*crypto.ECPoint) {
		c := tss.EC(scheme)
		for mode := 0; mode < 3; mode++ {
			for k := int64(3); ; k++ {
				p := crypto.ScalarBaseMult(c, big.NewInt(k*7919))
				sx, sy := len(p.X().Bytes()) < 32, len(p.Y().Bytes()) < 32
				if mode == 0 && !sx && !sy || mode == 1 && sx || mode == 2 && sy {
					o = append(o, p)
					break
				}
			}
		}
		return
	}
	shortEc, shortEd = find("ecdsa"), find("eddsa")
	return shortEc, shortEd
}

func encKeys() {
	ecs, eds := shortPoints()
	i := mc.Choose(3, 0)
	c := tssfake.C()
	c.ECKey = func(p *tssfake.Party) *eckeygen.LocalPartySaveData {
		d := eckeygen.NewLocalPartySaveData(1)
		d.ECDSAPub, d.ShareID, d.Xi = ecs[i], p.PartyID().KeyInt(), big.NewInt(5)
		return &d
	}
	c.EDKey = func(p *tssfake.Party) *edkeygen.LocalPartySaveData {
		d := edkeygen.NewLocalPartySaveData(1)
		d.EDDSAPub, d.ShareID, d.Xi = eds[i], p.PartyID().KeyInt(), big.NewInt(5)
		return &d
	}
	kind := []wtypes.WorkType{wtypes.EcKeygen, wtypes.EdKeygen}[mc.Choose(2, 0)]
	_, o := oneNode(kind, nil, 1)
	mc.Check(o.kind == "keygen", "failed", "key generation reported %v", o)
	if kind == wtypes.EcKeygen {
		mc.Check(bytes.Equal(o.kg.PubKeyBytes, ecBytes(ecs[i])), "pubkey", "public key reported as %x, want %x", o.kg.PubKeyBytes, ecBytes(ecs[i]))
	} else {
		want := make([]byte, 32)
		y := eds[i].Y().Bytes()
		for k := range y {
			want[len(y)-1-k] = y[k]
		}
		if eds[i].X().Bit(0) == 1 {
			want[31] |= 0x80
		}
		mc.Check(bytes.Equal(o.kg.PubKeyBytes, want), "pubkey", "public key reported as %x, want %x", o.kg.PubKeyBytes, want)
	}
}

func init() {
	register("C22",
		&mc.Scenario{Name: "enc-lengths", Sched: mc.Fixed, Bounds: []int{0}, Body: encLengths},
		&mc.Scenario{Name: "enc-pad", Sched: mc.Fixed, Bounds: []int{0}, Body: padInputs},
		&mc.Scenario{Name: "enc-batch-ec", Sched: mc.Fixed, Bounds: []int{0}, Body: encBatch(wtypes.EcSigning)},
		&mc.Scenario{Name: "enc-batch-ed", Sched: mc.Fixed, Bounds: []int{0}, Body: encBatch(wtypes.EdSigning)},
		&mc.Scenario{Name: "enc-batch-ec-sched", Sched: mc.Delay, Bounds: []int{1}, BoundsDeep: []int{1, 2}, Body: func() {
			w, o := oneNode(wtypes.EcSigning, nil, 3)
			w.checkValid(o)
			mc.Check(o.kind == "sign", "failed", "signing reported %v", o)
		}},
		&mc.Scenario{Name: "enc-batch-ed-sched", Sched: mc.Delay, Bounds: []int{1}, BoundsDeep: []int{1, 2}, Body: func() {
			w, o := oneNode(wtypes.EdSigning, nil, 3)
			w.checkValid(o)
			mc.Check(o.kind == "sign", "failed", "signing reported %v", o)
		}},
		&mc.Scenario{Name: "enc-short-real", Sched: mc.Fixed, Bounds: []int{0}, Body: encShortReal},
		&mc.Scenario{Name: "enc-keys", Sched: mc.Fixed, Bounds: []int{0}, Body: encKeys})
}
