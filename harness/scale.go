package main

import (
	"bytes"
	"fmt"
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/dheart/zzmc/shim/leveldb"
	"math/big"
	"time"

	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/tools"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/tss-lib/tss"
)

// The other scenarios take every history of a small system; these take every member of a small family of
// large ones, for limits that only show with many senders, works, entries or requests.

// cacheLarge: many senders, each with more messages than its share.
func cacheLarge() {
	d := newCacheDriver()
	ns := []int{1, 5, 50}[mc.Choose(3, 0)]
	nw := []int{1, 3, 70}[mc.Choose(3, 0)]
	per := []int{63, 64, 65, 200}[mc.Choose(4, 0)]
	turn := mc.Choose(2, 0) // senders one after the other, or in turn
	take := mc.Choose(3, 0) // nothing, one work or every second work is taken half-way
	d.log = append(d.log, fmt.Sprintf("%d senders, %d works, %d messages each", ns, nw, per))
	types := []common.TssMessage_Type{common.TssMessage_UPDATE_MESSAGES, common.TssMessage_AVAILABILITY_REQUEST, common.TssMessage_PRE_EXEC_OUTPUT}
	work := func(i int) string { return fmt.Sprintf("w%d", i%nw) }
	half := func() {
		for w := 0; take > 0 && w < nw; w += 2 {
			d.compare("take "+work(w), d.c.PopAllMessages(work(w), nil), d.ref.match(work(w), nil))
			d.ref.remove(work(w), nil)
			d.log = append(d.log, "take "+work(w))
			if take == 1 {
				break
			}
		}
	}
	for i := 0; i < ns*per; i++ {
		s, k := i/per, i%per
		if turn == 1 {
			s, k = i%ns, i/ns
		}
		d.add(fmt.Sprintf("S%d", s), work(k), types[(k+s)%3])
		if i == ns*per/2 {
			half()
		}
	}
	var works []string
	for w := 0; w < nw; w++ {
		works = append(works, work(w))
	}
	for _, f := range []map[common.TssMessage_Type]bool{common.GetPreworkSelectionMsgType(), nil} {
		w := work(nw / 2)
		d.compare("take "+w, d.c.PopAllMessages(w, f), d.ref.match(w, f))
		d.ref.remove(w, f)
	}
	d.final(works...)
	mc.Outcome("%d/%d/%d", ns, nw, per)
}

// ringLarge: the newest of many additions are all there.
func ringLarge() {
	size := []int{64, 100, 320, 1000}[mc.Choose(4, 0)]
	nkeys := []int{size - 1, size, size + 1, 2*size + 3, 7}[mc.Choose(5, 0)]
	step := []int{1, 5}[mc.Choose(2, 0)]
	q := tools.NewCircularQueue(size)
	last := map[int]int{}
	n := 3*size + 17
	for i := 1; i <= n; i++ {
		k := i * step % nkeys
		q.Add(fmt.Sprint(k), i)
		last[k] = i
		if i%(size/2) != 0 && i != n && i != size+1 {
			continue
		}
		held := 0
		for k := 0; k < nkeys; k++ {
			got := q.Get(fmt.Sprint(k))
			at, ever := last[k]
			switch {
			case !ever:
				mc.Check(got == nil, "ghost", "key %d was never added but returns %v", k, got)
			case i-at < size:
				mc.Check(got != nil && got.(int) == at, "lost", "size %d, %d keys, after %d additions: key %d, added %d additions ago, gives %v instead of %d", size, nkeys, i, k, i-at, got, at)
			default:
				mc.Check(got == nil || got.(int) == at, "stale", "size %d, after %d additions: key %d gives %v, its latest value is %d", size, i, k, got, at)
			}
			if got != nil {
				held++
			}
		}
		mc.Check(held <= size, "unbounded", "size %d: %d keys are held", size, held)
	}
}

// workCacheLarge: the engine's store with its real sizes.
func workCacheLarge() {
	per := cache.MaxMessagePerNode
	ns := []int{1, 4, 30}[mc.Choose(3, 0)]
	turn := mc.Choose(2, 0)
	own := mc.Choose(2, 0)
	me := tss.NewPartyID("me", "", big.NewInt(1))
	c := cache.NewWorkMessageCache(per, me)
	hist := map[string][]*common.SignedMessage{}
	add := func(s string) {
		m := &common.SignedMessage{From: s}
		c.Add(fmt.Sprintf("%s-%d", s, len(hist[s])), m)
		hist[s] = append(hist[s], m)
	}
	n := 2*per + 5
	for i := 0; i < ns*n; i++ {
		s := i / n
		if turn == 1 {
			s = i % ns
		}
		add(fmt.Sprintf("S%d", s))
		if own == 1 {
			for k := 0; k < 3; k++ {
				add("me")
			}
		}
	}
	for s, h := range hist {
		size := per
		if s == "me" {
			size = per * 5
		}
		for k, m := range h {
			got := c.Get(s, fmt.Sprintf("%s-%d", s, k))
			if len(h)-k <= size {
				mc.Check(got == m, "lost", "%d senders: message %d of %d of %s is not returned", ns, k, len(h), s)
			} else {
				mc.Check(got == nil, "unbounded", "%d senders: message %d of %d of %s is still held", ns, k, len(h), s)
			}
		}
	}
}

// queueLarge: many waiting requests.
func queueLarge() {
	n := []int{9, 10, 11, 100, 1000}[mc.Choose(5, 0)]
	pat := mc.Choose(4, 0)
	pops := mc.Choose(3, 0) // none, one after every third addition, one after every addition
	types := []wtypes.WorkType{wtypes.EcKeygen, wtypes.EcSigning, wtypes.EdSigning, wtypes.EdKeygen}
	q := core.NewRequestQueue()
	var keygens, others []*wtypes.WorkRequest
	pop := func(i int) {
		var want *wtypes.WorkRequest
		if len(keygens) > 0 {
			want, keygens = keygens[0], keygens[1:]
		} else if len(others) > 0 {
			want, others = others[0], others[1:]
		}
		got := q.Pop()
		mc.Check(got == want, "order", "%d requests: at %d the next request should be %s, got %s", n, i, wname(want), wname(got))
	}
	for i := 0; i < n; i++ {
		t := types[1+i%2]
		switch pat {
		case 1:
			t = types[i%4]
		case 2:
			if i > n/2 {
				t = types[0]
			}
		case 3:
			if i%10 == 9 {
				t = types[3]
			}
		}
		w := mkWork(i, t)
		mc.Check(q.AddWork(w), "rejected", "request %d of %d is refused", i, n)
		if prio(t) == 2 {
			keygens = append(keygens, w)
		} else {
			others = append(others, w)
		}
		if len(keygens)+len(others) > 1 {
			old := others
			if len(old) == 0 {
				old = keygens
			}
			mc.Check(!q.AddWork(mkWorkId(old[0].WorkId, wtypes.EcKeygen)), "duplicate", "a request with the id of waiting %s is accepted", wname(old[0]))
		}
		if pops == 1 && i%3 == 2 || pops == 2 {
			pop(i)
		}
		mc.Check(q.Size() == len(keygens)+len(others), "size", "after %d additions: size %d, should be %d", i, q.Size(), len(keygens)+len(others))
	}
	for len(keygens)+len(others) > 0 {
		pop(n)
	}
	pop(n)
}

func mkWorkId(id string, t wtypes.WorkType) *wtypes.WorkRequest {
	w := mkWork(0, t)
	w.WorkId = id
	return w
}

// monLarge: many participants, of which some are behind.
func monLarge(kind wtypes.WorkType) func() {
	return func() {
		n := []int{5, 20}[mc.Choose(2, 0)]
		r := newMonRunN(kind, n)
		r.start()
		mc.Elapse(time.Second)
		K := len(r.names)
		front := mc.Choose(K+1, 0)
		behind := []int{0, 1, n / 2, n - 1}[mc.Choose(4, 0)] // how many are behind
		by := 1 + mc.Choose(2, 0)
		last := mc.Choose(2, 0) // those behind are the last or the first ones
		for i := 1; i < n; i++ {
			have := front
			if last == 1 && i >= n-behind || last == 0 && i <= behind {
				have -= by
			}
			for k := 0; k < have; k++ {
				r.recv(i, k)
			}
			if have < front && front > 1 && i%2 == 1 {
				r.recv(i, front-1) // a hole
			}
		}
		r.recv(n, 0)
		r.elapse(40*time.Second, false)
		r.mon.Stop()
		r.elapse(20*time.Second, true)
		mc.Outcome("%d reports", len(r.reps))
	}
}

// presignsLarge: many values of many sets of parties.
func presignsLarge() {
	p := newPman()
	p.n = 9
	m := pmodel{}
	nsets := []int{1, 12, 40}[mc.Choose(3, 0)]
	per := []int{1, 9, 40}[mc.Choose(3, 0)]
	batch := []int{1, 10, 33}[mc.Choose(3, 0)]
	live := mc.Choose(2, 0) // stored before the start, or added while running
	size := []int{3, 6}[mc.Choose(2, 0)]
	var sets [][]int
	for b := 0; b < 1<<9 && len(sets) < nsets; b++ {
		var s []int
		for i := 0; i < 9; i++ {
			if b>>uint(i)&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) == size {
			sets = append(sets, s)
		}
	}
	if live == 1 {
		p.load()
	}
	for i, s := range sets {
		n := per + i%3
		if live == 1 {
			p.add(fmt.Sprintf("w%d", i), s, n)
		} else {
			p.d.addPresign(fmt.Sprintf("w%d", i), n, s, 0)
		}
		m[setKey(s)] += n
	}
	if live == 0 {
		p.load()
	}
	avails := [][]int{upto(0, 8), upto(0, 5), {0, 1, 2}, upto(3, 8)}
	for step := 0; step < 400; step++ {
		av := avails[step%len(avails)]
		t := p.take(batch, av)
		p.checkOnce(t)
		p.checkFits(t)
		mc.Check(m.apply(&pop{kind: "take", n: batch, set: av, res: t}), "wrong-answer", "step %d: taking %d with %d parties available gives %v of %v", step, batch, len(av), t.ids, t.pids)
		if step == 7 {
			p.restart()
			p.load()
		}
		if !m.fits(batch, avails[0]) {
			break
		}
	}
	p.drain(m)
	mc.Outcome("%d %d %d", nsets, per, batch)
}

func (p *pman) load() {
	if err := p.m.Load(); err != nil {
		mc.Fail("load", "%v", err)
	}
}

// secretsLarge: texts of any size.
func secretsLarge() {
	w := leveldb.W()
	defer w.Stop()
	key := secretKey(keySizes[mc.Choose(3, 0)], 0)
	n := []int{64, 100, 255, 256, 257, 1000, 1024, 4096, 4099, 16384, 65535, 65536, 65537, 1 << 20}[mc.Choose(14, 0)]
	text := plain(n, mc.Choose(2, 0)*2)
	ct, err := utils.AESDEncrypt(append([]byte{}, text...), key)
	mc.Check(err == nil, "encrypt-fails", "encrypting %d bytes fails: %v", n, err)
	for i, c := range [][]byte{ct, seal(text, key)} {
		got, err := utils.AESDecrypt(c, key)
		mc.Check(err == nil && bytes.Equal(got, text), "not-the-text", "a text of %d bytes is decrypted to %d bytes, %v (%d)", n, len(got), err, i)
	}
	for pos := 0; pos <= 8; pos++ {
		for _, d := range []int{-17, -16, -1, 0, 1, 11, 12, 13} {
			i := len(ct)*pos/8 + d
			if i < 0 || i >= len(ct) {
				continue
			}
			bz := append([]byte{}, ct...)
			bz[i] ^= 4
			_, err := utils.AESDecrypt(bz, key)
			mc.Check(err != nil, "damage-accepted", "byte %d of %d changed is not noticed", i, len(ct))
			_, err = utils.AESDecrypt(ct[:i], key)
			mc.Check(err != nil, "damage-accepted", "the first %d of %d bytes are decrypted", i, len(ct))
		}
	}
	s := openStore("s", key)
	mc.Check(s.PutEncrypted([]byte("k"), append([]byte{}, text...)) == nil, "put-fails", "a value of %d bytes cannot be put", n)
	for i := 0; i < 2; i++ {
		got, err := s.GetEncrypted([]byte("k"))
		mc.Check(err == nil && bytes.Equal(got, text), "not-the-value", "a value of %d bytes is read as %d bytes, %v (%d)", n, len(got), err, i)
		w.Stop()
		s = openStore("s", key)
	}
}

func init() {
	for _, id := range []string{"C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C31"} {
		assume(id, "The cryptographic library is represented by a stand-in with the same rounds, messages and failures, bound to the real one by the conformance scenarios of C30; time is virtual.")
	}
	for _, id := range []string{"C01", "C03", "C04", "C05"} {
		assume(id, "Go's memory model is sequentially consistent here; data races are reported separately by the scenarios that look for them.")
	}
	small("C03", &mc.Scenario{Name: "cache-large", Sched: mc.Fixed, Bounds: []int{0}, Body: cacheLarge})
	small("C04", &mc.Scenario{Name: "ring-large", Sched: mc.Fixed, Bounds: []int{0}, Body: ringLarge},
		&mc.Scenario{Name: "workcache-large", Sched: mc.Fixed, Bounds: []int{0}, Body: workCacheLarge})
	small("C05", &mc.Scenario{Name: "queue-large", Sched: mc.Fixed, Bounds: []int{0}, Body: queueLarge})
	for _, k := range workKinds {
		k := k
		small("C14", &mc.Scenario{Name: "mon-large-" + kindName(k), Sched: mc.Fixed, Bounds: []int{0}, Body: monLarge(k)})
		nm, sign := kindName(k), k == wtypes.EcSigning || k == wtypes.EdSigning
		b0, b01 := []int{0}, []int{0, 1}
		if sign {
			small("C11", &mc.Scenario{Name: "batch24-" + nm, Sched: mc.Coop, Bounds: b0, BoundsDeep: b01, Body: batchRun(3, k, 24, false, 9)})
			small("C12", &mc.Scenario{Name: "outside24-" + nm, Sched: mc.Coop, Bounds: b0, BoundsDeep: b0, Body: outsiderRun(k, 12)})
			small("C13", &mc.Scenario{Name: "loss1-large-" + nm, Sched: mc.Coop, Bounds: b0, BoundsDeep: b0, Body: lossRun(map[bool]int{true: 5, false: 7}[k == wtypes.EcSigning], k, 5, 1, false)})
			small("C22", &mc.Scenario{Name: "enc-large-" + nm, Sched: mc.Fixed, Bounds: b0, Body: func() {
				w, o := oneNode(k, nil, []int{10, 33}[mc.Choose(2, 0)])
				w.checkValid(o)
				mc.Check(o.kind == "sign", "failed", "signing reported %v", o)
			}})
		}
		small("C11", &mc.Scenario{Name: "crowd12-" + nm, Sched: mc.Coop, Bounds: b0, BoundsDeep: b01, Body: batchRun(12, k, 1, false, 9)})
		small("C12", &mc.Scenario{Name: "route12-" + nm, Sched: mc.Coop, Bounds: b0, BoundsDeep: b01, Body: batchRun(12, k, map[bool]int{true: 12, false: 1}[sign], false, 1)})
	}
	small("C11", &mc.Scenario{Name: "batch24p-ecsign", Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: batchRun(3, wtypes.EcSigning, 24, true, 9)})
	small("C18", &mc.Scenario{Name: "once-large", Sched: mc.Fixed, Bounds: []int{0}, BoundsDeep: []int{0, 1}, MapDev: true, Body: presignsLarge})
	small("C19", &mc.Scenario{Name: "pre-large", Sched: mc.Fixed, Bounds: []int{0}, BoundsDeep: []int{0, 1}, MapDev: true, Body: presignsLarge})
	small("C25", &mc.Scenario{Name: "secrets-large", Sched: mc.Fixed, Bounds: []int{0}, Body: secretsLarge})
	var many []wtypes.WorkType
	var led []int
	for i := 0; i < 40; i++ {
		many = append(many, workKinds[(i*3+1)%4])
		led = append(led, i%3)
	}
	small("C06", &mc.Scenario{Name: "eng-many", Sched: mc.Coop, Bounds: []int{0}, Body: engineRun(many, led, 2, false, 4)},
		&mc.Scenario{Name: "eng-many-dup", Sched: mc.Coop, Bounds: []int{0}, Body: engineRun(many, led, 3, true, 1)})
}
