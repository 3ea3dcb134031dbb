package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ identities

// cheapKey signs without curve arithmetic; the public key is a real one.
type cheapKey struct{ ctypes.PrivKey }

func (k cheapKey) Sign(msg []byte) ([]byte, error) {
	h := sha256.Sum256(msg)
	return h[:8], nil
}

var nodeKeys []ctypes.PrivKey
var allNodes []*core.Node

func init() {
	if bad := tssfake.SelfCheck(); len(bad) > 0 {
		panic(fmt.Sprint("stand-in messages are not well-formed: ", bad))
	}
	byPeer := map[string]ctypes.PrivKey{}
	var pubs []ctypes.PubKey
	for i := 0; i < 5; i++ {
		k := ed25519.GenPrivKeyFromSecret([]byte(fmt.Sprintf("node %d", i)))
		pubs = append(pubs, k.PubKey())
		byPeer[k.PubKey().String()] = k
	}
	allNodes = core.NewNodes(pubs)
	for _, n := range allNodes {
		nodeKeys = append(nodeKeys, byPeer[n.PubKey.String()])
	}
	// nodes of the other key type
	for i := 5; i < 24; i++ {
		nodeKeys = append(nodeKeys, secpKey(i))
		allNodes = append(allNodes, core.NewNode(secpKey(i).PubKey()))
	}
}

// freshPids gives new PartyID values, sorted, of the first n nodes (or those listed).
func freshPids(n int) tss.SortedPartyIDs {
	var ids tss.UnSortedPartyIDs
	for _, x := range allNodes[:n] {
		ids = append(ids, tss.NewPartyID(x.PartyId.Id, x.PartyId.Moniker, x.PartyId.KeyInt()))
	}
	return tss.SortPartyIDs(ids)
}

func pid(i int) string { return allNodes[i].PartyId.Id }

func nodeIdx(id string) int {
	for i, n := range allNodes {
		if n.PartyId.Id == id {
			return i
		}
	}
	return -1
}

// ------------------------------------------------------------ storage stand-in

type memPresign struct {
	id, work, pids string
	used           bool
	data           *ecsigning.SignatureData_OneRoundData
}

// memDB is an in-memory db.Database whose calls are scheduling points and can fail.
type memDB struct {
	db.Database
	mu       mc.Mutex
	pre      *eckeygen.LocalPreParams
	ec       map[string]*eckeygen.LocalPartySaveData
	ed       map[string]*edkeygen.LocalPartySaveData
	presigns []*memPresign
	peers    []*p2ptypes.Peer
	fail     func(op string) bool
	ops      []string
	onOp     func(op string)
}

func newMemDB() *memDB {
	return &memDB{Database: db.NewMockDatabase(), pre: tssfake.PreParams(1), ec: map[string]*eckeygen.LocalPartySaveData{}, ed: map[string]*edkeygen.LocalPartySaveData{}}
}

var errDB = errors.New("database failure")

func (d *memDB) op(name string) error {
	d.mu.Lock()
	d.ops = append(d.ops, name)
	d.mu.Unlock()
	if d.fail != nil && d.fail(name) {
		return errDB
	}
	return nil
}

func (d *memDB) did(name string) {
	if d.onOp != nil {
		d.onOp(name)
	}
}

func (d *memDB) Init() error  { return d.op("Init") }
func (d *memDB) Close() error { return nil }
func (d *memDB) SavePreparams(p *eckeygen.LocalPreParams) error {
	if err := d.op("SavePreparams"); err != nil {
		return err
	}
	d.pre = p
	d.did("SavePreparams")
	return nil
}
func (d *memDB) LoadPreparams() (*eckeygen.LocalPreParams, error) {
	if err := d.op("LoadPreparams"); err != nil {
		return nil, err
	}
	if d.pre == nil {
		return nil, db.ErrNotFound
	}
	return d.pre, nil
}
func (d *memDB) SaveEcKeygen(keyType string, workId string, pids []*tss.PartyID, o *eckeygen.LocalPartySaveData) error {
	if err := d.op("SaveEcKeygen"); err != nil {
		return err
	}
	d.ec[keyType] = o
	d.did("SaveEcKeygen " + keyType)
	return nil
}
func (d *memDB) LoadEcKeygen(keyType string) (*eckeygen.LocalPartySaveData, error) {
	if err := d.op("LoadEcKeygen"); err != nil {
		return nil, err
	}
	return d.ec[keyType], nil
}
func (d *memDB) SaveEdKeygen(keyType string, workId string, pids []*tss.PartyID, o *edkeygen.LocalPartySaveData) error {
	if err := d.op("SaveEdKeygen"); err != nil {
		return err
	}
	d.ed[keyType] = o
	d.did("SaveEdKeygen " + keyType)
	return nil
}
func (d *memDB) LoadEdKeygen(keyType string) (*edkeygen.LocalPartySaveData, error) {
	if err := d.op("LoadEdKeygen"); err != nil {
		return nil, err
	}
	return d.ed[keyType], nil
}

func pidString(pids []string) string {
	s := append([]string(nil), pids...)
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (d *memDB) SavePresignData(workId string, pids []*tss.PartyID, out []*ecsigning.SignatureData_OneRoundData) error {
	if err := d.op("SavePresignData"); err != nil {
		return err
	}
	var ids []string
	for _, p := range pids {
		ids = append(ids, p.Id)
	}
	for i := range out {
		if d.find(fmt.Sprintf("%s-%d", workId, i)) != nil {
			return errDB // duplicate key
		}
	}
	for i, o := range out {
		d.presigns = append(d.presigns, &memPresign{id: fmt.Sprintf("%s-%d", workId, i), work: workId, pids: pidString(ids), data: o})
	}
	d.did("SavePresignData")
	return nil
}
func (d *memDB) GetAvailablePresignShortForm() ([]string, []string, error) {
	if err := d.op("GetAvailablePresignShortForm"); err != nil {
		return nil, nil, err
	}
	var a, b []string
	for _, p := range d.presigns {
		if !p.used {
			a, b = append(a, p.id), append(b, p.pids)
		}
	}
	return a, b, nil
}
func (d *memDB) find(id string) *memPresign {
	for _, p := range d.presigns {
		if p.id == id {
			return p
		}
	}
	return nil
}
func (d *memDB) LoadPresign(ids []string) ([]*ecsigning.SignatureData_OneRoundData, error) {
	if err := d.op("LoadPresign"); err != nil {
		return nil, err
	}
	var out []*ecsigning.SignatureData_OneRoundData
	for _, id := range ids {
		p := d.find(id)
		if p == nil {
			return nil, db.ErrNotFound
		}
		out = append(out, p.data)
	}
	return out, nil
}
func (d *memDB) LoadPresignStatus(ids []string) ([]string, error) {
	if err := d.op("LoadPresignStatus"); err != nil {
		return nil, err
	}
	var out []string
	for _, id := range ids {
		p := d.find(id)
		if p == nil {
			return nil, db.ErrNotFound
		}
		out = append(out, map[bool]string{true: db.PresignStatusUsed, false: db.PresignStatusNotUsed}[p.used])
	}
	return out, nil
}
func (d *memDB) UpdatePresignStatus(ids []string) error {
	if err := d.op("UpdatePresignStatus"); err != nil {
		return err
	}
	for _, id := range ids {
		if p := d.find(id); p != nil {
			p.used = true
		}
	}
	d.did("UpdatePresignStatus")
	return nil
}
func (d *memDB) SavePeers(ps []*p2ptypes.Peer) error {
	if err := d.op("SavePeers"); err != nil {
		return err
	}
	for _, p := range ps {
		c := *p
		d.peers = append(d.peers, &c)
	}
	return nil
}
func (d *memDB) LoadPeers() []*p2ptypes.Peer {
	if err := d.op("LoadPeers"); err != nil {
		return nil
	}
	var out []*p2ptypes.Peer
	for _, p := range d.peers {
		c := *p
		out = append(out, &c)
	}
	return out
}

// addPresign stores a presigned value of node me.
func (d *memDB) addPresign(work string, n int, set []int, me int) {
	var ids []string
	for _, i := range set {
		ids = append(ids, pid(i))
	}
	for k := 0; k < n; k++ {
		id := fmt.Sprintf("%s-%d", work, k)
		d.presigns = append(d.presigns, &memPresign{id: id, work: work, pids: pidString(ids), data: tssfake.OneRound(id, pid(me))})
	}
}

// ------------------------------------------------------------ world

type outcome struct {
	node int
	kind string // keygen, sign, notsel, fail, signfail
	work string
	kg   *htypes.KeygenResult
	sg   *htypes.KeysignResult
	req  *wtypes.WorkRequest
	at   int64
}

func (o outcome) String() string { return fmt.Sprintf("%d:%s:%s", o.node, o.kind, o.work) }

// enode is one node: a real engine, or a scripted peer if eng is nil.
type enode struct {
	w    *world
	i    int
	eng  core.Engine
	db   *memDB
	outs []outcome
	// scripted peer
	silent  bool // answers nothing
	no      bool // answers NO
	mute    bool // takes part in the selection but sends no protocol messages
	answers map[string]map[int]bool
	sent    map[string]bool
}

type world struct {
	thr     int // threshold, if not the usual one
	n       int
	nodes   []*enode
	links   map[[2]int]chan []byte
	cfg     config.TimeoutConfig
	drop    func(from, to int, m *common.TssMessage) bool
	tap     func(from, to int, m *common.SignedMessage)
	reqs    map[string]*wtypes.WorkRequest
	onOut   func(o outcome)
	writes  int
	werr    func(from, to int) error
	hold    func(m *common.TssMessage) bool // messages of scripted peers held back until release
	held    []func()
	exclude map[string]bool // works whose scripted leader leaves the real nodes out
	reorder bool            // a delivery goroutine per message
	t0      int64
}

func testCfg() config.TimeoutConfig {
	return config.TimeoutConfig{
		PresignJobTimeout:      60 * time.Second,
		KeygenJobTimeout:       60 * time.Second,
		SigningJobTimeout:      50 * time.Second,
		MonitorMessageTimeout:  7 * time.Second,
		SelectionLeaderTimeout: 10 * time.Second,
		SelectionMemberTimeout: 20 * time.Second,
	}
}

// newWorld makes n nodes; those listed in real run an engine.
func newWorld(n int, real ...int) *world {
	w := &world{n: n, t0: mc.Now(), exclude: map[string]bool{}, links: map[[2]int]chan []byte{}, cfg: testCfg(), reqs: map[string]*wtypes.WorkRequest{}}
	for i := 0; i < n; i++ {
		w.nodes = append(w.nodes, &enode{w: w, i: i, answers: map[string]map[int]bool{}, sent: map[string]bool{}})
	}
	for _, i := range real {
		nd := w.nodes[i]
		nd.db = newMemDB()
		seed := tssfake.SeedOf(freshPids(n))
		for _, kt := range []string{"ecdsa"} {
			nd.db.ec[kt] = tssfake.EcShare(seed, allNodes[i].PartyId)
		}
		nd.db.ed["eddsa"] = tssfake.EdShare(seed, allNodes[i].PartyId)
	}
	return w
}

// boot creates the engine of node i.
func (w *world) boot(i int) core.Engine {
	nd := w.nodes[i]
	me := allNodes[i]
	my := &core.Node{PeerId: me.PeerId, PubKey: me.PubKey, PartyId: tss.NewPartyID(me.PartyId.Id, me.PartyId.Moniker, me.PartyId.KeyInt())}
	nd.eng = core.NewEngine(my, &netCM{nd: nd}, nd.db, nd, cheapKey{nodeKeys[i]}, w.cfg)
	nd.eng.AddNodes(w.coreNodes())
	if len(nd.db.presigns) > 0 {
		if err := nd.eng.Init(); err != nil {
			mc.Fail("init", "%v", err)
		}
	}
	return nd.eng
}

func (w *world) coreNodes() []*core.Node {
	var ns []*core.Node
	for _, x := range allNodes[:w.n] {
		ns = append(ns, &core.Node{PeerId: x.PeerId, PubKey: x.PubKey, PartyId: tss.NewPartyID(x.PartyId.Id, x.PartyId.Moniker, x.PartyId.KeyInt())})
	}
	return ns
}

func (nd *enode) out(o outcome) {
	o.node, o.at = nd.i, mc.Now()
	nd.outs = append(nd.outs, o)
	if nd.w.onOut != nil {
		nd.w.onOut(o)
	}
	mc.Point("outcome " + o.kind)
}

func (nd *enode) OnWorkKeygenFinished(r *htypes.KeygenResult) {
	nd.out(outcome{kind: "keygen", work: r.KeyType, kg: r})
}

func (nd *enode) OnWorkSigningFinished(req *wtypes.WorkRequest, r *htypes.KeysignResult) {
	k := "sign"
	switch {
	case r.Outcome == htypes.OutcometNotSelected:
		k = "notsel"
	case r.Outcome != htypes.OutcomeSuccess:
		k = "signfail"
	}
	nd.out(outcome{kind: k, work: req.WorkId, sg: r, req: req})
}

func (nd *enode) OnWorkFailed(req *wtypes.WorkRequest, culprits []*tss.PartyID) {
	nd.out(outcome{kind: "fail", work: req.WorkId, req: req})
}

// netCM is the ConnectionManager of node nd in the controlled network.
type netCM struct{ nd *enode }

func (c *netCM) Start(privKeyBytes []byte, keyType string) error                { return nil }
func (c *netCM) AddListener(protocol protocol.ID, listener p2p.P2PDataListener) {}
func (c *netCM) IsReady() bool                                                  { return true }
func (c *netCM) WriteToStream(p peer.ID, proto protocol.ID, msg []byte) error {
	w := c.nd.w
	w.writes++
	to := nodeIdx(p.String())
	if to < 0 || to >= w.n {
		return errors.New("unknown peer")
	}
	if to == c.nd.i {
		mc.Fail("self-send", "node %d sends to itself", to)
	}
	if w.werr != nil {
		if err := w.werr(c.nd.i, to); err != nil {
			return err
		}
	}
	w.send(c.nd.i, to, append([]byte(nil), msg...))
	return nil
}

func (w *world) send(from, to int, bz []byte) {
	k := [2]int{from, to}
	if w.tap != nil || w.drop != nil {
		sm := &common.SignedMessage{}
		if err := json.Unmarshal(bz, sm); err == nil && sm.TssMessage != nil {
			if w.tap != nil {
				w.tap(from, to, sm)
			}
			if w.drop != nil && w.drop(from, to, sm.TssMessage) {
				return
			}
		}
	}
	if w.hold != nil && w.nodes[from].eng == nil {
		sm := &common.SignedMessage{}
		if err := json.Unmarshal(bz, sm); err == nil && sm.TssMessage != nil && w.hold(sm.TssMessage) {
			w.held = append(w.held, func() { w.send(from, to, bz) })
			return
		}
	}
	if w.reorder {
		mc.GoNamed(fmt.Sprintf("net %d>%d", from, to), func() { w.arrive(from, to, bz) })
		return
	}
	ch := w.links[k]
	if ch == nil {
		ch = make(chan []byte, 4096)
		w.links[k] = ch
		mc.GoNamed(fmt.Sprintf("net %d>%d", from, to), func() {
			for {
				w.arrive(from, to, mc.Recv((<-chan []byte)(ch)))
			}
		})
	}
	mc.S((chan<- []byte)(ch)).Send(bz)
}

func (w *world) release() {
	w.hold = nil
	h := w.held
	w.held = nil
	for _, f := range h {
		f()
	}
}

func (w *world) arrive(from, to int, bz []byte) {
	nd := w.nodes[to]
	if nd.eng != nil {
		nd.eng.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: pid(from), Data: bz})
		return
	}
	if nd.db != nil {
		return // engine not started
	}
	sm := &common.SignedMessage{}
	if json.Unmarshal(bz, sm) == nil && sm.TssMessage != nil {
		nd.script(from, sm.TssMessage)
	}
}

// ------------------------------------------------------------ scripted peers

func (nd *enode) put(to int, m *common.TssMessage) {
	bz, err := json.Marshal(&common.SignedMessage{From: pid(nd.i), TssMessage: m, Signature: []byte("sig")})
	if err != nil {
		panic(err)
	}
	nd.w.send(nd.i, to, bz)
}

func (nd *enode) script(from int, m *common.TssMessage) {
	req := nd.w.reqs[m.WorkId]
	if nd.silent || req == nil {
		return
	}
	switch m.Type {
	case common.TssMessage_AVAILABILITY_REQUEST:
		nd.answer(from, m.WorkId)
	case common.TssMessage_AVAILABILITY_RESPONSE:
		if worker.ChooseLeader(req.WorkId, req.AllParties).Id != pid(nd.i) || nd.sent["sel"+m.WorkId] {
			return
		}
		a := nd.answers[m.WorkId]
		if a == nil {
			a = map[int]bool{nd.i: true}
			nd.answers[m.WorkId] = a
		}
		a[from] = true
		// scripted peers are always ready
		for j, o := range nd.w.nodes {
			if o.eng == nil && o.db == nil && !o.silent && !o.no {
				a[j] = true
			}
		}
		if len(a) < req.GetMinPartyCount() && !nd.w.exclude[m.WorkId] {
			return
		}
		// the answering node is always chosen
		set := []int{nd.i, from}
		if nd.w.exclude[m.WorkId] {
			set = []int{nd.i}
			for j := 0; j < nd.w.n; j++ {
				if nd.w.nodes[j].eng == nil && j != nd.i {
					a[j] = true
				}
			}
			a[from] = false
		}
		for j := 0; j < nd.w.n && len(set) < req.GetMinPartyCount(); j++ {
			if a[j] && j != nd.i && j != from {
				set = append(set, j)
			}
		}
		nd.announce(m.WorkId, set)
	case common.TssMessage_PRE_EXEC_OUTPUT:
		if m.PreExecOutputMessage != nil && m.PreExecOutputMessage.Success {
			nd.run(m.WorkId, m.PreExecOutputMessage.Pids, m.PreExecOutputMessage.PresignIds)
		}
	}
}

func (nd *enode) answer(to int, work string) {
	m := common.NewAvailabilityResponseMessage(pid(nd.i), pid(to), work, common.AvailabilityResponseMessage_YES, 1)
	if nd.no {
		m.AvailabilityResponseMessage.Answer = common.AvailabilityResponseMessage_NO
	}
	nd.put(to, m)
}

// announce is the leader's choice, sent to all real nodes and acted on by the scripted ones.
func (nd *enode) announce(work string, set []int) {
	nd.sent["sel"+work] = true
	var ps []*tss.PartyID
	var ids []string
	for _, j := range set {
		ps = append(ps, allNodes[j].PartyId)
		ids = append(ids, pid(j))
	}
	for j, o := range nd.w.nodes {
		if o.eng != nil {
			nd.put(j, common.NewPreExecOutputMessage(pid(nd.i), "", work, true, nil, ps))
		}
	}
	for _, j := range set {
		if o := nd.w.nodes[j]; o.eng == nil {
			o.run(work, ids, nil)
		}
	}
}

// protoOf gives the protocol and sessions of a request.
func protoOf(req *wtypes.WorkRequest, presigns []string) (string, []string) {
	switch req.WorkType {
	case wtypes.EcKeygen:
		return tssfake.EcKeygen, []string{tssfake.KeygenSession(req.Threshold)}
	case wtypes.EdKeygen:
		return tssfake.EdKeygen, []string{tssfake.KeygenSession(req.Threshold)}
	}
	var ss []string
	for i, m := range req.Messages {
		var pre *ecsigning.SignatureData_OneRoundData
		if i < len(presigns) {
			pre = tssfake.OneRound(presigns[i], "")
		}
		if m == nil {
			return tssfake.EcPresign, make1(len(req.Messages), tssfake.SignSession(nil, nil))
		}
		ss = append(ss, tssfake.SignSession(new(big.Int).SetBytes(m), pre))
	}
	if req.WorkType == wtypes.EdSigning {
		return tssfake.EdSigning, ss
	}
	if len(presigns) > 0 {
		return tssfake.EcOneRound, ss
	}
	return tssfake.EcSigning, ss
}

func make1(n int, s string) (o []string) {
	for i := 0; i < n; i++ {
		o = append(o, s)
	}
	return
}

// protoMsg is the message a party sends for one kind of a work.
func protoMsg(req *wtypes.WorkRequest, presigns []string, kind string, set []string, from, to int) *common.TssMessage {
	proto, sess := protoOf(req, presigns)
	var ids tss.UnSortedPartyIDs
	for _, s := range set {
		n := allNodes[nodeIdx(s)].PartyId
		ids = append(ids, tss.NewPartyID(n.Id, n.Moniker, n.KeyInt()))
	}
	sorted := tss.SortPartyIDs(ids)
	var f, t *tss.PartyID
	for _, p := range sorted {
		if p.Id == pid(from) {
			f = p
		}
		if to >= 0 && p.Id == pid(to) {
			t = p
		}
	}
	tid := ""
	if to >= 0 {
		tid = pid(to)
	}
	var ms []tss.Message
	for _, s := range sess {
		ms = append(ms, tssfake.Message(proto, kind, s, f, t))
	}
	m, err := common.NewTssMessage(pid(from), tid, req.WorkId, ms, ms[0].Type())
	if err != nil {
		panic(err)
	}
	return m
}

// run sends all protocol messages of a scripted participant.
func (nd *enode) run(work string, set []string, presigns []string) {
	if nd.mute || nd.silent || nd.sent["run"+work] {
		return
	}
	in := false
	for _, s := range set {
		in = in || s == pid(nd.i)
	}
	if !in {
		return
	}
	nd.sent["run"+work] = true
	req := nd.w.reqs[work]
	proto, _ := protoOf(req, presigns)
	names, p2p := tssfake.Kinds(proto)
	for k, name := range names {
		for _, s := range set {
			j := nodeIdx(s)
			if nd.w.nodes[j].eng == nil {
				continue
			}
			if p2p[k] {
				nd.put(j, protoMsg(req, presigns, name, set, nd.i, j))
			} else {
				nd.put(j, protoMsg(req, presigns, name, set, nd.i, -1))
			}
		}
	}
}

// ------------------------------------------------------------ requests

var workKinds = []wtypes.WorkType{wtypes.EcKeygen, wtypes.EcSigning, wtypes.EdKeygen, wtypes.EdSigning}

func kindName(k wtypes.WorkType) string {
	return map[wtypes.WorkType]string{wtypes.EcKeygen: "eckeygen", wtypes.EcSigning: "ecsign", wtypes.EdKeygen: "edkeygen", wtypes.EdSigning: "edsign"}[k]
}

func threshold(n int) int { return (n+1)*2/3 - 1 }

func (w *world) threshold() int {
	if w.thr > 0 {
		return w.thr
	}
	return threshold(w.n)
}

func msgBytes(work string, i int) []byte {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s %d", work, i)))
	h[0] |= 1 // no leading zero byte: that EdDSA messages with one are mishandled is C30's finding
	return h[:]
}

// request builds node i's copy of a work request. Key-generation works report under key type = work id.
func (w *world) request(i int, kind wtypes.WorkType, work string, batch int) *wtypes.WorkRequest {
	ids := freshPids(w.n)
	t := w.threshold()
	seed := tssfake.SeedOf(ids)
	me := allNodes[i].PartyId
	var msgs [][]byte
	var chains []string
	for j := 0; j < batch; j++ {
		msgs = append(msgs, msgBytes(work, j))
		chains = append(chains, "eth")
	}
	var r *wtypes.WorkRequest
	switch kind {
	case wtypes.EcKeygen:
		r = wtypes.NewEcKeygenRequest(work, work, ids, t, tssfake.PreParams(i))
	case wtypes.EdKeygen:
		r = wtypes.NewEdKeygenRequest(work, ids, t)
		r.KeygenType = work
	case wtypes.EcSigning:
		r = wtypes.NewEcSigningRequest(work, ids, t, msgs, chains, tssfake.EcShare(seed, me))
	case wtypes.EdSigning:
		r = wtypes.NewEdSigningRequest(work, ids, t, msgs, chains, tssfake.EdShare(seed, me))
	}
	w.reqs[work] = r
	return r
}

// outcomesOf collects what node i reported for a work.
func (w *world) outcomesOf(i int, work string) []outcome {
	var o []outcome
	for _, x := range w.nodes[i].outs {
		if x.work == work {
			o = append(o, x)
		}
	}
	return o
}

func (w *world) leader(work string) int {
	return nodeIdx(worker.ChooseLeader(work, freshPids(w.n)).Id)
}

// workLed finds a work id led by node i.
func (w *world) workLed(prefix string, i int) string {
	for k := 0; ; k++ {
		s := fmt.Sprintf("%s-%d", prefix, k)
		if w.leader(s) == i {
			return s
		}
	}
}

// checkValid verifies one successful outcome.
func (w *world) checkValid(o outcome) {
	seed := tssfake.SeedOf(freshPids(w.n))
	checkOutcomeValid(seed, o)
}
