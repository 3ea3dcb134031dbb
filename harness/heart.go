package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p"
	p2pcrypto "github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/host"
	"github.com/libp2p/go-libp2p/core/peer"
	ma "github.com/multiformats/go-multiaddr"
	"github.com/sisu-network/dheart/client"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/server"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	mc "github.com/sisu-network/dheart/zzmc"
	fakep2p "github.com/sisu-network/dheart/zzmc/shim/libp2p"
	fakesql "github.com/sisu-network/dheart/zzmc/shim/sql"
)

// ------------------------------------------------------------ whole nodes: server API, heart, engine, database, network

var errPost = errors.New("the server cannot be reached")

// recClient records what is posted to the caller's server.
type recClient struct {
	client.Client
	posts  []*hpost
	onPost func(p *hpost)
	fail   func() bool
}

type hpost struct {
	kg  *htypes.KeygenResult
	ks  *htypes.KeysignResult
	req string // content of the request it carries
	at  int64
}

func (p *hpost) String() string {
	if p.kg != nil {
		return fmt.Sprintf("keygen %s outcome %d", p.kg.KeyType, p.kg.Outcome)
	}
	return fmt.Sprintf("keysign outcome %d %s", p.ks.Outcome, p.req)
}

func (c *recClient) add(p *hpost) error {
	p.at = mc.Now()
	if p.ks != nil {
		p.req = js(p.ks.Request)
	}
	c.posts = append(c.posts, p)
	mc.Note("posted: %v", p)
	if c.onPost != nil {
		c.onPost(p)
	}
	mc.Point("post")
	if c.fail != nil && c.fail() {
		return errPost
	}
	return nil
}

func (c *recClient) PostKeygenResult(r *htypes.KeygenResult) error {
	v := *r
	return c.add(&hpost{kg: &v})
}
func (c *recClient) PostKeysignResult(r *htypes.KeysignResult) error {
	v := *r
	return c.add(&hpost{ks: &v})
}
func (c *recClient) PostPresignResult(r *htypes.PresignResult) error {
	mc.Fail("presign-posted", "a presign result is posted")
	return nil
}
func (c *recClient) TryDial() {}

var heartAes = secretKey(32, 5)

// hnode is one node with everything real but the network, the database server and the caller.
type hnode struct {
	i   int
	cfg config.HeartConfig
	h   *core.Heart
	api *server.TssApi
	cl  *recClient
}

func heartAddr(i int) string {
	return fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", 28300+i, allNodes[i].PeerId)
}

func heartPeer(i int) *p2ptypes.Peer {
	return &p2ptypes.Peer{Address: heartAddr(i), PubKey: hex.EncodeToString(allNodes[i].PubKey.Bytes()), PubKeyType: nodeKeys[i].Type()}
}

// newHeart prepares node i with the given configured peers.
func newHeart(i int, peers ...*p2ptypes.Peer) *hnode {
	d := config.GetLocalhostDbConfig()
	d.Schema = fmt.Sprint("dheart", i)
	n := &hnode{i: i, cl: &recClient{}, cfg: config.HeartConfig{
		HomeDir: "/tmp/none", Db: d, AesKey: append([]byte{}, heartAes...),
		Connection: p2ptypes.ConnectionsConfig{Host: "0.0.0.0", Port: 28300 + i, Rendezvous: "r", Protocol: p2p.TSSProtocolID, Peers: peers},
	}}
	n.make()
	return n
}

func (n *hnode) make() {
	n.h = core.NewHeart(n.cfg, n.cl)
	n.api = server.NewTssApi(n.h)
}

// boot starts the node up to the point where its key is set.
func (n *hnode) boot() *hnode {
	n.api.Init()
	return n
}

// restart ends the process and starts another one on the same database.
func (n *hnode) restart(peers ...*p2ptypes.Peer) *hnode {
	if h := fakep2p.W().Hosts[allNodes[n.i].PeerId]; h != nil {
		h.Close()
	}
	o := &hnode{i: n.i, cl: &recClient{}, cfg: n.cfg}
	o.cfg.Connection.Peers = peers
	o.make()
	return o
}

func encKey(key ctypes.PrivKey) string { return hex.EncodeToString(seal(key.Bytes(), heartAes)) }

func (n *hnode) setKey() error {
	return n.api.SetPrivKey(encKey(nodeKeys[n.i]), "ed25519")
}

// up is boot, the node's own key and readiness.
func (n *hnode) up() *hnode {
	n.boot()
	err := n.setKey()
	mc.Check(err == nil, "set-key", "a correct key is refused: %v", err)
	n.api.SetSisuReady(true)
	return n
}

func wrappers(idx ...int) (o []htypes.PubKeyWrapper) {
	for _, i := range idx {
		o = append(o, htypes.PubKeyWrapper{KeyType: nodeKeys[i].Type(), Key: append([]byte{}, allNodes[i].PubKey.Bytes()...)})
	}
	return
}

func signReq(keyType string, tag string, ids ...string) *htypes.KeysignRequest {
	r := &htypes.KeysignRequest{KeyType: keyType}
	for j, id := range ids {
		r.KeysignMessages = append(r.KeysignMessages, &htypes.KeysignMessage{Id: id, InChain: "in" + tag, OutChain: "out", OutHash: "hash",
			Bytes: []byte(tag + id), BytesToSign: msgBytes("heart "+tag+id, j)})
	}
	return r
}

// expect is one result still to be posted.
type expect struct {
	key  string // key type of a key generation
	req  string // request of a signing
	what string
}

// expecting compares what was posted with what has to be.
type expecting struct {
	n    *hnode
	list []expect
	seen int
}

func (e *expecting) check(all bool) {
	for ; e.seen < len(e.n.cl.posts); e.seen++ {
		p := e.n.cl.posts[e.seen]
		hit := -1
		for i, x := range e.list {
			if p.kg != nil && x.req == "" && x.key == p.kg.KeyType || p.ks != nil && x.req != "" && x.req == p.req {
				hit = i
				break
			}
		}
		if hit < 0 {
			var w []string
			for _, x := range e.list {
				w = append(w, x.what)
			}
			mc.Fail("unexpected-post", "posted is %v, still to be posted are: %s", p, strings.Join(w, "; "))
			return
		}
		e.list = append(append([]expect{}, e.list[:hit]...), e.list[hit+1:]...)
	}
	if all && len(e.list) > 0 {
		mc.Fail("never-posted", "no result is posted for: %s", e.list[0].what)
	}
}

// heartSeq: every history of API calls of one node working alone
type heartCall struct {
	name string
	do   func(w *heartWorld) error
	// must: 1 has to be accepted, -1 has to be refused, 0 either
	must  func(w *heartWorld) int
	exp   func(w *heartWorld) expect
	loose bool
}

type heartWorld struct {
	*expecting
	ready bool
	key   bool
	share map[string]int // key type -> 0 none, 1 perhaps, 2 stored
	busy  map[string]bool
	n     *hnode
}

func (w *heartWorld) working() bool { return w.ready && w.key }

func callKeygen(kt, id string) heartCall {
	return heartCall{"keygen " + kt + " " + id,
		func(w *heartWorld) error {
			err := w.n.api.KeyGen(id, kt, wrappers(0, 1))
			if err == nil && w.share[kt] == 0 {
				w.share[kt] = 1
			}
			return err
		},
		func(w *heartWorld) int {
			if !w.working() {
				return -1
			}
			if w.busy["kg"+id] {
				return 0
			}
			return 1
		},
		func(w *heartWorld) expect { return expect{key: kt, what: "keygen " + kt} }, false,
	}
}

func callSign(kt, tag string, ids ...string) heartCall {
	r := signReq(kt, tag, ids...)
	want := js(r)
	key := fmt.Sprint(kt, ids)
	return heartCall{fmt.Sprint("keysign ", kt, " ", tag, ids),
		func(w *heartWorld) error {
			c := &htypes.KeysignRequest{}
			if err := json.Unmarshal([]byte(want), c); err != nil {
				panic(err)
			}
			return w.n.api.KeySign(c, wrappers(0, 1))
		},
		func(w *heartWorld) int {
			switch {
			case !w.working() || w.share[kt] == 0:
				return -1
			case w.busy[key] || w.share[kt] == 1:
				return 0
			}
			return 1
		},
		func(w *heartWorld) expect { return expect{req: want, what: "keysign " + want} }, false,
	}
}

// callBad are calls that cannot be served.
func callBad() (o []heartCall) {
	bad := func(name string, f func(w *heartWorld) error) {
		o = append(o, heartCall{name: name, do: f, must: func(*heartWorld) int { return -1 }})
	}
	for _, kt := range []string{"", "ECDSA", "secp256k1", "x"} {
		kt := kt
		bad("keygen of key type "+kt, func(w *heartWorld) error { return w.n.api.KeyGen("bad"+kt, kt, wrappers(w.n.i)) })
		bad("keysign of key type "+kt, func(w *heartWorld) error { return w.n.api.KeySign(signReq(kt, "b", "b1"), wrappers(w.n.i)) })
	}
	good := wrappers(0)[0]
	for _, b := range badWrappers() {
		name, k := b.name, b.k
		for pos := 0; pos < 3; pos++ {
			ks := []htypes.PubKeyWrapper{k}
			if pos == 1 {
				ks = []htypes.PubKeyWrapper{good, k}
			} else if pos == 2 {
				ks = []htypes.PubKeyWrapper{k, good}
			}
			bad(fmt.Sprint("keygen with ", name, pos), func(w *heartWorld) error { return w.n.api.KeyGen("badkey", "eddsa", ks) })
			bad(fmt.Sprint("keysign with ", name, pos), func(w *heartWorld) error { return w.n.api.KeySign(signReq("eddsa", "b", "b2"), ks) })
			bad(fmt.Sprint("ecdsa keygen with ", name, pos), func(w *heartWorld) error { return w.n.api.KeyGen("badkey", "ecdsa", ks) })
			bad(fmt.Sprint("ecdsa keysign with ", name, pos), func(w *heartWorld) error { return w.n.api.KeySign(signReq("ecdsa", "b", "b2"), ks) })
		}
	}
	bad("keygen without keys", func(w *heartWorld) error { return w.n.api.KeyGen("badnone", "ecdsa", nil) })
	for _, kt := range []string{"ecdsa", "eddsa"} {
		kt := kt
		bad("keysign without keys "+kt, func(w *heartWorld) error { return w.n.api.KeySign(signReq(kt, "b", "b3"), nil) })
		bad("keysign without messages "+kt, func(w *heartWorld) error { return w.n.api.KeySign(signReq(kt, "b"), wrappers(w.n.i)) })
		bad("keysign with a nil message "+kt, func(w *heartWorld) error {
			r := signReq(kt, "b", "b4", "b5")
			r.KeysignMessages[1] = nil
			return w.n.api.KeySign(r, wrappers(w.n.i))
		})
		for _, e := range [][]byte{nil, {}} {
			e := e
			bad("keysign of nothing "+kt, func(w *heartWorld) error {
				r := signReq(kt, "b", "b6", "b7")
				r.KeysignMessages[0].BytesToSign = e
				return w.n.api.KeySign(r, wrappers(w.n.i))
			})
		}
		bad("keysign without a share "+kt+" of other keys", func(w *heartWorld) error {
			if w.share[kt] != 0 {
				return errPost
			}
			return w.n.api.KeySign(signReq(kt, "b", "b8"), wrappers(0, 1, 2))
		})
	}
	bad("keysign without a request", func(w *heartWorld) error { return w.n.api.KeySign(nil, wrappers(w.n.i)) })
	return
}

type badWrapper struct {
	name string
	k    htypes.PubKeyWrapper
}

func badWrappers() []badWrapper {
	g := wrappers(0)[0]
	return []badWrapper{
		{"no key", htypes.PubKeyWrapper{}},
		{"no type", htypes.PubKeyWrapper{Key: g.Key}},
		{"unknown type", htypes.PubKeyWrapper{KeyType: "sr25519", Key: g.Key}},
		{"short key", htypes.PubKeyWrapper{KeyType: "ed25519", Key: g.Key[:31]}},
		{"long key", htypes.PubKeyWrapper{KeyType: "ed25519", Key: append(append([]byte{}, g.Key...), 0)}},
		{"empty key", htypes.PubKeyWrapper{KeyType: "ed25519"}},
		{"empty secp key", htypes.PubKeyWrapper{KeyType: "secp256k1"}},
		{"no curve point", htypes.PubKeyWrapper{KeyType: "secp256k1", Key: append([]byte{2}, make([]byte, 32)...)}},
		{"key of the other type", htypes.PubKeyWrapper{KeyType: "secp256k1", Key: g.Key}},
	}
}

func callReady(v bool) heartCall {
	return heartCall{fmt.Sprint("ready ", v), func(w *heartWorld) error { w.n.api.SetSisuReady(v); w.ready = v; return nil }, nil, nil, false}
}

func callKey() heartCall {
	return heartCall{"set the key", func(w *heartWorld) error {
		err := w.n.setKey()
		mc.Check(err == nil, "set-key", "a correct key is refused: %v", err)
		w.key = true
		return nil
	}, nil, nil, false}
}

func callBlock() heartCall {
	return heartCall{"block end", func(w *heartWorld) error { w.n.api.BlockEnd(7); return nil }, nil, nil, false}
}

// run makes one call and checks its answer.
func (w *heartWorld) run(c heartCall) {
	mc.Note("call %s", c.name)
	must := 0
	if c.must != nil {
		must = c.must(w)
	}
	working := w.working()
	var x *expect
	if c.exp != nil {
		e := c.exp(w)
		x = &e
		w.list = append(w.list, e) // it can be posted before the call returns
	}
	err := c.do(w)
	if c.must == nil {
		return
	}
	mc.Check(must != 1 || err == nil, "refused", "%s is refused: %v", c.name, err)
	mc.Check(must != -1 || err != nil, "accepted", "%s is accepted", c.name)
	mc.Check(working || c.exp == nil || errors.Is(err, core.ErrDheartNotReady), "not-ready-error", "%s before the node is ready gives the error %v", c.name, err)
	if err != nil && x != nil {
		w.drop(*x)
	}
	if err == nil {
		w.busy[busyKey(c.name)] = true
	}
}

// drop: nothing has to be posted for a call that was refused.
func (e *expecting) drop(x expect) {
	for i := range e.list {
		if e.list[i] == x {
			e.list = append(append([]expect{}, e.list[:i]...), e.list[i+1:]...)
			return
		}
	}
}

func busyKey(name string) string {
	f := strings.SplitN(name, " ", 3)
	if f[0] == "keygen" {
		return "kg" + f[2]
	}
	return f[1] + "[" + strings.SplitN(name, "[", 2)[1]
}

func (w *heartWorld) ended() {
	w.check(true)
	for k, v := range w.share {
		if v == 1 {
			w.share[k] = 0
		}
	}
	for _, p := range w.n.cl.posts {
		if p.kg != nil && p.kg.Outcome == htypes.OutcomeSuccess {
			w.share[p.kg.KeyType] = 2
		}
	}
	w.busy = map[string]bool{}
}

// heartPair is a network of two nodes.
type heartPair []*heartWorld

func newPair() (o heartPair) { return newHearts(2) }

func newHearts(n int) (o heartPair) {
	for i := 0; i < n; i++ {
		var ps []*p2ptypes.Peer
		for j := 0; j < n; j++ {
			if j != i {
				ps = append(ps, heartPeer(j))
			}
		}
		o = append(o, newHeartWorld(newHeart(i, ps...).boot()))
	}
	return
}

func (p heartPair) start() {
	p.run(len(p), callKey(), callReady(true))
}

// run makes a call at the first n nodes at the same time.
func (p heartPair) run(n int, cs ...heartCall) {
	for _, c := range cs {
		c := c
		var gs []*mc.G
		for _, w := range p[:n] {
			w := w
			gs = append(gs, mc.GoNamed(fmt.Sprint("call at ", w.n.i), func() { w.run(c) }))
		}
		for _, g := range gs {
			g.Join()
		}
	}
}

func (p heartPair) rest() {
	mc.Elapse(10 * time.Minute)
	for _, w := range p {
		w.ended()
	}
}

// works: key generation and signing succeed at both nodes.
func (p heartPair) works(tag string) {
	for _, kt := range []string{"ecdsa", "eddsa"} {
		for k, c := range []heartCall{callKeygen(kt, tag+kt), callSign(kt, tag, tag+"1", tag+"2")} {
			p.run(2, c)
			p.rest()
			var out [2]string
			for i, w := range p {
				l := w.n.cl.posts[len(w.n.cl.posts)-1]
				if k == 0 {
					mc.Check(l.kg != nil && l.kg.Outcome == htypes.OutcomeSuccess, "work-fails", "%s at node %d: %v", c.name, i, l)
					out[i] = js(l.kg)
				} else {
					mc.Check(l.ks != nil && l.ks.Outcome == htypes.OutcomeSuccess && len(l.ks.Signatures) == 2, "work-fails", "%s at node %d: %v", c.name, i, l)
					out[i] = js(l.ks)
				}
			}
			mc.Check(out[0] == out[1], "nodes-differ", "%s: the nodes post %s and %s", c.name, out[0], out[1])
		}
	}
}

func newHeartWorld(n *hnode) *heartWorld {
	return &heartWorld{expecting: &expecting{n: n}, n: n, share: map[string]int{}, busy: map[string]bool{}}
}

// heartHistory: histories of calls of two nodes, or only one of them, with time to end the works or not between calls
func heartHistory(depth int, alone bool, start []heartCall, calls []heartCall) func() {
	return func() {
		p := newPair()
		for _, c := range start {
			p.run(2, c)
			p.rest()
		}
		for k := 0; k < depth; k++ {
			c := calls[mc.Choose(len(calls), 0)]
			n := 2
			if alone {
				n -= mc.Choose(2, 0)
			}
			p.run(n, c)
			if mc.Choose(2, 0) == 0 {
				p.rest()
			}
		}
		p.rest()
		// what is served does not depend on the history: once the key is set and Sisu ready, everything works
		if p[0].key {
			p.run(2, callReady(true))
			p.works("last")
		}
	}
}

// heartBad: each call that cannot be served, at each stage
func heartBad() {
	bad := callBad()
	p := newPair()
	stage := mc.Choose(4, 0)
	c := bad[mc.Choose(len(bad), 0)]
	if stage > 0 {
		p.run(2, callKey())
	}
	if stage > 1 {
		p.run(2, callReady(true))
	}
	if stage > 2 {
		p.run(2, callKeygen("ecdsa", "k1"))
		p.run(2, callKeygen("eddsa", "k2"))
		p.rest()
	}
	p.run(1, c)
	p.rest()
	if stage < 1 {
		p.run(2, callKey())
	}
	p.run(2, callReady(true))
	p.works("last")
}

// heartRetry: a call that was refused is served when it comes again later.
func heartRetry() {
	p := newPair()
	kt := []string{"ecdsa", "eddsa"}[mc.Choose(2, 0)]
	calls := []heartCall{callSign(kt, "r", "r1"), callSign(kt, "r", "r1", "r2"), callKeygen(kt, "k9")}
	c := calls[mc.Choose(len(calls), 0)]
	n := 2 - mc.Choose(2, 0)
	again := 1 + mc.Choose(2, 0)
	stage := mc.Choose(4, 0)
	if stage > 0 {
		p.run(2, callKey())
	}
	if stage > 1 {
		p.run(2, callReady(true))
	}
	if stage > 2 { // the database fails
		p.run(2, callKeygen("ecdsa", "k1"), callKeygen("eddsa", "k2"))
		p.rest()
		fakesql.W().Fault = func(kind, q string) fakesql.Fault { return fakesql.Before }
		c := c
		c.must = func(*heartWorld) int { return 0 }
		for k := 0; k < again; k++ {
			p.run(n, c)
		}
		fakesql.W().Fault = nil
		p.rest()
	} else if !strings.HasPrefix(c.name, "keygen") || stage < 2 {
		for k := 0; k < again; k++ {
			p.run(n, c)
		}
	}
	p.rest()
	if stage < 1 {
		p.run(2, callKey())
	}
	p.run(2, callReady(true))
	if stage < 3 {
		p.run(2, callKeygen("ecdsa", "k1"), callKeygen("eddsa", "k2"))
		p.rest()
	}
	for k := 0; k < 2; k++ {
		if k > 0 && strings.HasPrefix(c.name, "keygen") {
			break
		}
		p.run(2, c)
		p.rest()
		for _, w := range p {
			l := w.n.cl.posts[len(w.n.cl.posts)-1]
			mc.Check(l.kg != nil && l.kg.Outcome == htypes.OutcomeSuccess || l.ks != nil && l.ks.Outcome == htypes.OutcomeSuccess || strings.HasPrefix(c.name, "keygen"), "work-fails", "%s, called again, at node %d: %v", c.name, w.n.i, l)
		}
	}
	p.works("last")
}

// heartTogether: callers at the same time
func heartTogether(nodes int, callers [][]heartCall) func() {
	return func() {
		mc.Calm(true)
		p := newPair()
		p.run(2, callKey(), callReady(true), callKeygen("ecdsa", "k1"), callKeygen("eddsa", "k2"))
		p.rest()
		mc.Calm(false)
		var gs []*mc.G
		for i := range callers {
			for _, w := range p[:nodes] {
				i, w := i, w
				gs = append(gs, mc.GoNamed(fmt.Sprint("caller", i, " at ", w.n.i), func() {
					for _, c := range callers[i] {
						var x expect
						if c.exp != nil {
							x = c.exp(w)
							w.list = append(w.list, x)
						}
						err := c.do(w)
						mc.Note("%s: %v", c.name, err)
						if c.exp != nil && err != nil {
							mc.Check(c.loose, "refused", "%s is refused: %v", c.name, err)
							w.drop(x)
						}
					}
				}))
			}
		}
		for _, g := range gs {
			g.Join()
		}
		p.rest()
		mc.Calm(true)
		p.works("last")
	}
}

// heartOdd: lists of keys that make little sense are refused or answered like any other.
func heartOdd() {
	lists := [][]int{{0, 0}, {0, 1, 1}, {0, 0, 1}, {1}, {1, 2}, {2}, {0, 1, 2}, {0, 2}, {1, 1}, {0}}
	p := newPair()
	p.start()
	if mc.Choose(2, 0) == 1 {
		p.run(2, callKeygen("ecdsa", "k1"), callKeygen("eddsa", "k2"))
		p.rest()
	}
	ks := wrappers(lists[mc.Choose(len(lists), 0)]...)
	kt := []string{"ecdsa", "eddsa"}[mc.Choose(2, 0)]
	sign := mc.Choose(2, 0) == 1
	n := 2 - mc.Choose(2, 0)
	for _, w := range p[:n] {
		w := w
		x := expect{key: kt, what: "odd keygen"}
		r := signReq(kt, "odd", "o1", "o2")
		if sign {
			x = expect{req: js(r), what: "odd keysign"}
		}
		mc.GoNamed(fmt.Sprint("odd call at ", w.n.i), func() {
			w.list = append(w.list, x)
			var err error
			if sign {
				err = w.n.api.KeySign(r, ks)
			} else {
				err = w.n.api.KeyGen("odd", kt, ks)
			}
			mc.Note("odd: %v", err)
			if err != nil {
				w.drop(x)
			}
		})
	}
	p.rest()
	p.works("last")
}

// heartThree: three nodes, of which a signing leaves one out; posting fails or not.
func heartThree() {
	p := newHearts(3)
	for _, w := range p {
		w.n.cl.fail = nil
	}
	p.start()
	order := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[mc.Choose(6, 0)]
	kt := []string{"ecdsa", "eddsa"}[mc.Choose(2, 0)]
	gap := []time.Duration{0, time.Second, 20 * time.Second}[mc.Choose(3, 0)]
	if mc.Choose(2, 0) == 1 {
		for _, w := range p {
			w.n.cl.fail = func() bool { return true }
		}
	}
	for k, ids := range [][]string{nil, {"m1"}, {"m2", "m3"}} {
		tag := fmt.Sprint("t", k)
		r := signReq(kt, tag, ids...)
		want := js(r)
		for _, i := range order {
			w := p[i]
			x := expect{key: kt, what: "keygen"}
			if ids != nil {
				x = expect{req: want, what: "keysign " + want}
			}
			w.list = append(w.list, x)
			var err error
			if ids == nil {
				err = w.n.api.KeyGen(tag, kt, wrappers(order...))
			} else {
				err = w.n.api.KeySign(signReq(kt, tag, ids...), wrappers(order...))
			}
			mc.Check(err == nil || gap == 20*time.Second && ids != nil, "refused", "%s is refused: %v", x.what, err)
			if err != nil {
				w.drop(x)
			}
			mc.Elapse(gap)
		}
		p.rest()
		out := map[string]int{}
		for _, w := range p {
			l := w.n.cl.posts[len(w.n.cl.posts)-1]
			switch {
			case l.ks == nil && ids != nil: // refused
			case ids == nil:
				mc.Check(l.kg != nil && l.kg.Outcome != htypes.OutcometNotSelected, "keygen-left-out", "%v", l)
				out[fmt.Sprint(l.kg.Outcome)]++
			default:
				out[fmt.Sprint(l.ks.Outcome)]++
				mc.Check(l.ks.Outcome != htypes.OutcomeSuccess || len(l.ks.Signatures) == len(ids), "signatures", "%v", l)
			}
		}
		mc.Outcome("%v", len(out))
		if gap < 20*time.Second {
			s, n := fmt.Sprint(htypes.OutcomeSuccess), fmt.Sprint(htypes.OutcometNotSelected)
			if ids == nil {
				mc.Check(out[s] == 3, "work-fails", "keygen: %v", out)
			} else {
				mc.Check(out[s] == 2 && out[n] == 1, "work-fails", "keysign: %v", out)
			}
		}
	}
}

// rawPeer is a network host without a node behind it.
type rawPeer struct {
	i    int
	h    host.Host
	got  []*common.SignedMessage
	from []string
}

func newRawPeer(i int) *rawPeer {
	un := p2pcrypto.UnmarshalEd25519PrivateKey
	if nodeKeys[i].Type() == "secp256k1" {
		un = p2pcrypto.UnmarshalSecp256k1PrivateKey
	}
	k, err := un(nodeKeys[i].Bytes())
	if err != nil {
		panic(err)
	}
	a, err := ma.NewMultiaddr(fmt.Sprintf("/ip4/0.0.0.0/tcp/%d", 28300+i))
	if err != nil {
		panic(err)
	}
	h, err := fakep2p.New(libp2p.ListenAddrs(a), libp2p.Identity(k))
	if err != nil {
		mc.Fail("raw-peer", "%v", err)
	}
	return &rawPeer{i: i, h: h}
}

// send delivers messages to node to.
func (r *rawPeer) send(to int, ms ...*common.TssMessage) {
	a, err := ma.NewMultiaddr(heartAddr(to))
	if err != nil {
		panic(err)
	}
	info, err := peer.AddrInfoFromP2pAddr(a)
	if err != nil {
		panic(err)
	}
	err = r.h.Connect(context.Background(), *info)
	mc.Check(err == nil, "unreachable", "node %d cannot be reached: %v", to, err)
	s, err := r.h.NewStream(context.Background(), info.ID, p2p.TSSProtocolID)
	mc.Check(err == nil, "unreachable", "node %d takes no stream: %v", to, err)
	for _, m := range ms {
		bz, err := json.Marshal(&common.SignedMessage{From: pid(r.i), TssMessage: m, Signature: []byte("s")})
		if err != nil {
			panic(err)
		}
		if err := p2p.WriteStreamWithBuffer(bz, s); err != nil {
			mc.Fail("raw-write", "%v", err)
		}
	}
}

func secpKey(i int) ctypes.PrivKey {
	return secp256k1.GenPrivKeyFromSecret([]byte(fmt.Sprint("secp ", i)))
}

func init() {
	simple := []heartCall{callReady(true), callReady(false), callKey(), callKeygen("ecdsa", "k1"), callSign("ecdsa", "a", "m1"), callBlock()}
	full := []heartCall{callKeygen("ecdsa", "k1"), callKeygen("eddsa", "k2"), callSign("ecdsa", "a", "m1"), callSign("ecdsa", "b", "m1"),
		callSign("ecdsa", "c", "m1", "m2"), callSign("eddsa", "d", "m1"), callSign("eddsa", "e", "m3", "m4", "m5")}
	begin := []heartCall{callKey(), callReady(true)}
	gen := append(append([]heartCall{}, begin...), callKeygen("ecdsa", "k1"), callKeygen("eddsa", "k2"))
	loose := func(c heartCall) heartCall { c.loose = true; return c }
	two := [][]heartCall{{callSign("ecdsa", "a", "m1")}, {callSign("ecdsa", "b", "m2")}}
	mix := [][]heartCall{{callKeygen("eddsa", "k3"), callSign("ecdsa", "a", "m1")}, {callReady(true), callSign("eddsa", "b", "m2")}, {callBlock(), callKey()}}
	register("C23",
		&mc.Scenario{Name: "heart-ready", Sched: mc.Coop, Bounds: []int{0}, Body: heartHistory(3, false, nil, simple)},
		&mc.Scenario{Name: "heart-ready4", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: heartHistory(4, false, nil, simple)},
		&mc.Scenario{Name: "heart-served3", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: heartHistory(3, true, gen, full)},
		&mc.Scenario{Name: "heart-fresh", Sched: mc.Coop, Bounds: []int{0}, Body: heartHistory(2, true, begin, full)},
		&mc.Scenario{Name: "heart-served", Sched: mc.Coop, Bounds: []int{0}, Body: heartHistory(2, true, gen, full)},
		&mc.Scenario{Name: "heart-unset", Sched: mc.Coop, Bounds: []int{0}, Body: keyHistory(1, 8)},
		&mc.Scenario{Name: "heart-retry", Sched: mc.Coop, Bounds: []int{0}, Body: heartRetry},
		&mc.Scenario{Name: "heart-bad", Sched: mc.Coop, Bounds: []int{0}, Body: heartBad},
		&mc.Scenario{Name: "heart-odd", Sched: mc.Coop, Bounds: []int{0}, Body: heartOdd},
		&mc.Scenario{Name: "heart-three", Sched: mc.Coop, Bounds: []int{0}, Body: heartThree},
		&mc.Scenario{Name: "heart-two", Sched: mc.Delay, Race: true, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: heartTogether(1, two)},
		&mc.Scenario{Name: "heart-two-pair", Deep: true, Sched: mc.Delay, Race: true, Bounds: []int{0, 1}, Body: heartTogether(2, two)},
		&mc.Scenario{Name: "heart-mix", Sched: mc.Delay, Race: true, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: heartTogether(1, mix)},
		&mc.Scenario{Name: "heart-mix-pair", Deep: true, Sched: mc.Delay, Race: true, Bounds: []int{0, 1}, Body: heartTogether(2, mix)},
		&mc.Scenario{Name: "heart-same", Sched: mc.Delay, Race: true, Bounds: []int{0, 1}, Body: heartTogether(2, [][]heartCall{{loose(callSign("ecdsa", "a", "m1"))}, {loose(callSign("ecdsa", "b", "m1"))}})},
	)
	assume("C23", "The nodes are whole hearts over stand-ins for the network library, the database server, the cryptographic library and the caller; a preparameter set is generated at once.")
}
