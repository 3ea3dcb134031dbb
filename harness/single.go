package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"time"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/sisu-network/dheart/server"
	htypes "github.com/sisu-network/dheart/types"
	mc "github.com/sisu-network/dheart/zzmc"
)

// ------------------------------------------------------------ C32: the API of a single node

type singleWorld struct {
	api     *server.SingleNodeApi
	cl      *recClient
	pending map[string]int      // key generations to be answered
	keys    map[string][][]byte // reported
	seen    int
	signs   []*singleSign
	kgs     map[string]int
	later   []func() bool
}

type singleSign struct {
	want string
	kt   string
	key  []byte // the key it has to be signed with; nil: any
	msgs [][]byte
}

func newSingle() *singleWorld {
	w := &singleWorld{cl: &recClient{}, pending: map[string]int{}, keys: map[string][][]byte{}, kgs: map[string]int{}}
	w.api = server.NewSingleNodeApi(w.cl)
	w.api.Init()
	w.cl.onPost = func(p *hpost) {
		switch {
		case p.kg != nil:
			kt := p.kg.KeyType
			mc.Check(w.kgs[kt] > 0, "unexpected-post", "posted is %v, which nobody asked for", p)
			mc.Check(p.kg.Outcome == htypes.OutcomeSuccess, "keygen-fails", "posted is %v", p)
			n := map[string]int{"ecdsa": 65, "eddsa": 32}[kt]
			mc.Check(len(p.kg.PubKeyBytes) == n, "key-size", "a public key of %d bytes is posted for %s", len(p.kg.PubKeyBytes), kt)
			w.kgs[kt]--
			w.pending[kt]--
			for _, k := range w.keys[kt] {
				mc.Check(string(k) != string(p.kg.PubKeyBytes), "key-repeated", "two key generations give the same key")
			}
			w.keys[kt] = append(w.keys[kt], p.kg.PubKeyBytes)
		default:
			hit := -1
			for i, s := range w.signs {
				if s.want == p.req {
					hit = i
					break
				}
			}
			if hit < 0 {
				mc.Fail("unexpected-post", "posted is %v, which nobody asked for", p)
				return
			}
			s := w.signs[hit]
			w.signs = append(append([]*singleSign{}, w.signs[:hit]...), w.signs[hit+1:]...)
			mc.Check(p.ks.Outcome == htypes.OutcomeSuccess, "sign-fails", "an accepted signing is posted as %v", p)
			mc.Check(len(p.ks.Signatures) == len(s.msgs), "signatures", "%d signatures for %d messages", len(p.ks.Signatures), len(s.msgs))
			ks := w.keys[s.kt]
			if s.key != nil {
				ks = [][]byte{s.key}
			}
			for i, m := range s.msgs {
				ok := false
				for _, k := range ks {
					ok = ok || singleVerify(s.kt, k, m, p.ks.Signatures[i])
				}
				mc.Check(ok || s.key == nil, "signature", "signature %d of a %s request does not verify under the reported key", i, s.kt)
				if !ok { // with a key still to be reported
					sig := p.ks.Signatures[i]
					w.later = append(w.later, func() bool {
						for _, k := range w.keys[s.kt] {
							if singleVerify(s.kt, k, m, sig) {
								return true
							}
						}
						return false
					})
				}
			}
		}
	}
	return w
}

func singleVerify(kt string, key, msg, sig []byte) bool {
	if kt == "ecdsa" {
		if len(sig) != 65 {
			return false
		}
		pub, err := crypto.Ecrecover(msg, sig)
		return err == nil && string(pub) == string(key)
	}
	k, err := edwards.ParsePubKey(key)
	if err != nil {
		return false
	}
	s, err := edwards.ParseSignature(sig)
	if err != nil {
		return false
	}
	return edwards.Verify(k, msg, s.GetR(), s.GetS())
}

func (w *singleWorld) keygen(id, kt string) {
	known := kt == "ecdsa" || kt == "eddsa"
	if known { // it can be posted before the call returns
		w.kgs[kt]++
		w.pending[kt]++
	}
	err := w.api.KeyGen(id, kt, wrappers(0))
	mc.Note("keygen %s: %v", kt, err)
	mc.Check(known == (err == nil), "keygen-answer", "a key generation of type %q gives %v", kt, err)
}

func (w *singleWorld) sign(r *htypes.KeysignRequest) {
	want := js(r)
	bad := r == nil || len(r.KeysignMessages) == 0 || r.KeyType != "ecdsa" && r.KeyType != "eddsa"
	s := &singleSign{want: want}
	must := false
	if !bad {
		s.kt = r.KeyType
		for _, m := range r.KeysignMessages {
			if m == nil || r.KeyType == "ecdsa" && len(m.BytesToSign) != 32 {
				bad = true
				break
			}
			s.msgs = append(s.msgs, append([]byte{}, m.BytesToSign...))
		}
		n := len(w.keys[s.kt])
		bad = bad || n == 0 && w.pending[s.kt] == 0
		must = !bad && n > 0
		if n > 0 && w.pending[s.kt] == 0 {
			s.key = w.keys[s.kt][n-1]
		}
	}
	if !bad {
		w.signs = append(w.signs, s)
	}
	err := w.api.KeySign(r, wrappers(0))
	mc.Note("sign %s: %v", want, err)
	mc.Check(!bad || err != nil, "bad-accepted", "signing %s is accepted", want)
	mc.Check(!must || err == nil, "sign-refused", "signing %s is refused: %v", want, err)
	if err != nil {
		for i := range w.signs {
			if w.signs[i] == s {
				w.signs = append(append([]*singleSign{}, w.signs[:i]...), w.signs[i+1:]...)
				break
			}
		}
	}
}

func (w *singleWorld) finish() {
	mc.Elapse(time.Minute)
	mc.Check(len(w.signs) == 0, "never-posted", "%d signings are never answered", len(w.signs))
	for kt, n := range w.kgs {
		mc.Check(n == 0, "never-posted", "%d key generations of type %s are never answered", n, kt)
	}
	for _, f := range w.later {
		mc.Check(f(), "signature", "a signature does not verify under any reported key")
	}
}

func copyReq(r *htypes.KeysignRequest) *htypes.KeysignRequest {
	if r == nil {
		return nil
	}
	o := &htypes.KeysignRequest{}
	if err := json.Unmarshal([]byte(js(r)), o); err != nil {
		panic(err)
	}
	mc.Check(reflect.DeepEqual(o, r), "wire", "a request %s does not survive its encoding", js(r))
	return o
}

func singleCalls() (o []func(w *singleWorld)) {
	for _, kt := range []string{"ecdsa", "eddsa", "x"} {
		kt := kt
		o = append(o, func(w *singleWorld) { w.keygen("k", kt) })
	}
	add := func(r *htypes.KeysignRequest) { o = append(o, func(w *singleWorld) { w.sign(copyReq(r)) }) }
	add(signReq("ecdsa", "a", "1"))
	add(signReq("ecdsa", "a", "2", "3", "2"))
	add(signReq("eddsa", "a", "1", "4"))
	o = append(o, func(w *singleWorld) { mc.Elapse(time.Second) }, func(w *singleWorld) { mc.Elapse(10 * time.Second) })
	return
}

func singleBadCalls() (o []func(w *singleWorld)) {
	add := func(r *htypes.KeysignRequest) { o = append(o, func(w *singleWorld) { w.sign(r) }) }
	add(nil)
	for _, kt := range []string{"", "x", "ECDSA"} {
		kt := kt
		add(signReq(kt, "a", "1"))
		o = append(o, func(w *singleWorld) { w.keygen("k", kt) })
	}
	for _, kt := range []string{"ecdsa", "eddsa"} {
		for i := 0; i < 3; i++ {
			r := signReq(kt, "a", "1", "2", "3")
			r.KeysignMessages[i] = nil
			add(r)
		}
		for _, n := range []int{0, 1, 31, 33, 64} {
			for i := 0; i < 2; i++ {
				r := signReq(kt, "a", "1", "2")
				r.KeysignMessages[i].BytesToSign = make([]byte, n)
				if kt == "ecdsa" {
					add(r)
				} else {
					o = append(o, func(w *singleWorld) { // whether any bytes can be signed is open
						w.sign(r)
					})
				}
			}
		}
	}
	return
}

func singleHistory(depth int, bad bool) func() {
	return func() {
		w := newSingle()
		if mc.Choose(2, 0) == 1 {
			w.cl.fail = func() bool { return true }
		}
		cs := singleCalls()
		if bad {
			bs := singleBadCalls()
			at := mc.Choose(depth+1, 0)
			for k := 0; k <= depth; k++ {
				if k == at {
					bs[mc.Choose(len(bs), 0)](w)
				} else {
					cs[mc.Choose(len(cs), 0)](w)
				}
			}
		} else {
			for k := 0; k < depth; k++ {
				cs[mc.Choose(len(cs), 0)](w)
			}
		}
		w.finish()
		w.keygen("k", "ecdsa")
		w.keygen("k", "eddsa")
		mc.Elapse(time.Minute)
		w.sign(signReq("ecdsa", "z", "8", "9"))
		w.sign(signReq("eddsa", "z", "8", "9"))
		w.finish()
	}
}

func singleTogether(first bool, fs ...func(w *singleWorld)) func() {
	return func() {
		mc.Calm(true)
		w := newSingle()
		if first {
			w.keygen("k", "ecdsa")
			w.keygen("k", "eddsa")
			mc.Elapse(time.Minute)
		}
		mc.Calm(false)
		for i, f := range fs {
			f := f
			mc.GoNamed(fmt.Sprint("caller ", i), func() { f(w) })
		}
		mc.Elapse(time.Minute)
		w.finish()
		mc.Calm(true)
		w.keygen("k", "ecdsa")
		mc.Elapse(time.Minute)
		w.sign(signReq("ecdsa", "z", "8"))
		w.finish()
	}
}

func init() {
	kg := func(kt string) func(w *singleWorld) { return func(w *singleWorld) { w.keygen("k", kt) } }
	sg := func(kt, tag string, ids ...string) func(w *singleWorld) {
		return func(w *singleWorld) { w.sign(signReq(kt, tag, ids...)) }
	}
	late := func(f func(w *singleWorld)) func(w *singleWorld) {
		return func(w *singleWorld) { mc.Elapse(3 * time.Second); f(w) }
	}
	register("C32",
		&mc.Scenario{Name: "single-history", Sched: mc.Coop, Bounds: []int{0}, Body: singleHistory(3, false)},
		&mc.Scenario{Name: "single-history4", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: singleHistory(4, false)},
		&mc.Scenario{Name: "single-bad", Sched: mc.Coop, Bounds: []int{0}, Body: singleHistory(1, true)},
		&mc.Scenario{Name: "single-bad2", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: singleHistory(2, true)},
		&mc.Scenario{Name: "single-keys", Sched: mc.Delay, Race: true, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: singleTogether(false, kg("ecdsa"), kg("ecdsa"), kg("eddsa"), late(sg("ecdsa", "a", "1")))},
		&mc.Scenario{Name: "single-signs", Sched: mc.Delay, Race: true, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: singleTogether(true, sg("ecdsa", "a", "1", "2"), sg("ecdsa", "b", "1"), sg("eddsa", "c", "1"))},
		&mc.Scenario{Name: "single-mixed", Sched: mc.Delay, Race: true, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: singleTogether(true, kg("ecdsa"), late(sg("ecdsa", "b", "1", "2")), late(kg("eddsa")), late(sg("eddsa", "b", "1")))},
	)
	assume("C32", "Keys and signatures are those of the real libraries; their randomness does not influence which execution is explored.")
}
