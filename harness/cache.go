package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/tools"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C03 early-message cache

type refMsg struct {
	id   int
	from string
	work string
	typ  common.TssMessage_Type
}

type refCache map[string][]refMsg

func (r refCache) add(m refMsg) {
	l := append(r[m.from], m)
	if len(l) > 64 {
		l = l[len(l)-64:]
	}
	r[m.from] = l
}

func (r refCache) match(work string, filter map[common.TssMessage_Type]bool) map[string][]int {
	out := map[string][]int{}
	for f, l := range r {
		for _, m := range l {
			if m.work == work && (filter == nil || filter[m.typ]) {
				out[f] = append(out[f], m.id)
			}
		}
	}
	return out
}

func (r refCache) remove(work string, filter map[common.TssMessage_Type]bool) {
	for f, l := range r {
		var keep []refMsg
		for _, m := range l {
			if !(m.work == work && (filter == nil || filter[m.typ])) {
				keep = append(keep, m)
			}
		}
		r[f] = keep
	}
}

type cacheDriver struct {
	c   *cache.MessageCache
	ref refCache
	ids map[*common.TssMessage]int
	n   int
	log []string
}

func newCacheDriver() *cacheDriver {
	return &cacheDriver{c: cache.NewMessageCache(), ref: refCache{}, ids: map[*common.TssMessage]int{}}
}

func (d *cacheDriver) mk(from, work string, typ common.TssMessage_Type) *common.TssMessage {
	m := &common.TssMessage{From: from, WorkId: work, Type: typ}
	d.n++
	d.ids[m] = d.n
	return m
}

func (d *cacheDriver) add(from, work string, typ common.TssMessage_Type) {
	m := d.mk(from, work, typ)
	d.c.AddMessage(m)
	d.ref.add(refMsg{d.ids[m], from, work, typ})
}

func (d *cacheDriver) bySender(ms []*common.TssMessage) map[string][]int {
	out := map[string][]int{}
	for _, m := range ms {
		if m == nil {
			mc.Fail("cache-nil", "a nil message was returned after %v", d.log)
		}
		out[m.From] = append(out[m.From], d.ids[m])
	}
	return out
}

func (d *cacheDriver) compare(op string, got []*common.TssMessage, want map[string][]int) {
	g := d.bySender(got)
	if a, b := fmt.Sprint(g), fmt.Sprint(want); a != b {
		mc.Fail("cache-mismatch", "after %s: %s returned %s, the cache should hold %s (message numbers per sender)", strings.Join(d.log, "; "), op, clip(a), clip(b))
	}
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:300] + " ... " + s[len(s)-300:]
	}
	return s
}

func (d *cacheDriver) final(works ...string) {
	for _, w := range works {
		d.compare("final listing of "+w, d.c.GetAllMessages(w), d.ref.match(w, nil))
	}
	for _, w := range works {
		d.compare("final take of "+w, d.c.PopAllMessages(w, nil), d.ref.match(w, nil))
		d.ref.remove(w, nil)
	}
}

var preTypes = common.GetPreworkSelectionMsgType

func cacheSeq(depth int, types []common.TssMessage_Type) func() {
	return func() {
		d := newCacheDriver()
		senders := []string{"A", "A1"} // "A" and "1w" is not "A1" and "w"
		works := []string{"1w", "w"}
		// start state: how full the senders' shares are
		switch mc.Choose(5, 0) {
		case 1:
			for i := 0; i < 63; i++ {
				d.add(senders[0], works[0], common.TssMessage_UPDATE_MESSAGES)
			}
			d.log = append(d.log, "63 updates of w1 from A")
		case 2:
			for i := 0; i < 64; i++ {
				d.add(senders[0], works[i%2], common.TssMessage_UPDATE_MESSAGES)
			}
			d.log = append(d.log, "64 updates of w1/w2 alternating from A")
		case 3:
			for i := 0; i < 70; i++ {
				d.add(senders[0], works[0], common.TssMessage_UPDATE_MESSAGES)
			}
			d.add(senders[1], works[0], common.TssMessage_UPDATE_MESSAGES)
			d.log = append(d.log, "70 updates of w1 from A, 1 from B")
		case 4:
			d.add(senders[0], works[1], common.TssMessage_AVAILABILITY_REQUEST)
			d.add(senders[1], works[1], common.TssMessage_UPDATE_MESSAGES)
			d.add("C", works[0], common.TssMessage_PRE_EXEC_OUTPUT)
			d.log = append(d.log, "A w2 request, B w2 update, C w1 outcome")
		}
		filters := []map[common.TssMessage_Type]bool{nil, common.GetPreworkSelectionMsgType(), common.GetUpdateMessageType()}
		fnames := []string{"any", "selection", "update"}
		nAdd := len(senders) * len(works) * len(types)
		for i := 0; i < depth; i++ {
			k := mc.Choose(nAdd+len(works)*len(filters)+len(works), 0)
			switch {
			case k < nAdd:
				s, w, t := senders[k%2], works[k/2%2], types[k/4]
				d.log = append(d.log, fmt.Sprintf("add %s %s %v", s, w, t))
				d.add(s, w, t)
			case k < nAdd+6:
				k -= nAdd
				w, f := works[k%2], k/2
				op := fmt.Sprintf("take %s (%s)", w, fnames[f])
				got := d.c.PopAllMessages(w, filters[f])
				d.compare(op, got, d.ref.match(w, filters[f]))
				d.ref.remove(w, filters[f])
				d.log = append(d.log, op)
			default:
				w := works[k-nAdd-6]
				d.compare("list "+w, d.c.GetAllMessages(w), d.ref.match(w, nil))
				d.log = append(d.log, "list "+w)
			}
		}
		d.final(works...)
		mc.Outcome("pending=%d", len(d.ref[senders[0]])+len(d.ref[senders[1]]))
	}
}

// concurrent adds and takes: nothing lost, nothing twice
func cacheConc() {
	c := cache.NewMessageCache()
	n := 0
	id := map[*common.TssMessage]string{}
	mk := func(from, work string) *common.TssMessage {
		m := &common.TssMessage{From: from, WorkId: work, Type: common.TssMessage_UPDATE_MESSAGES}
		n++
		id[m] = fmt.Sprintf("%s/%s/%d", from, work, n)
		return m
	}
	a := []*common.TssMessage{mk("A", "w1"), mk("A", "w2"), mk("A", "w1")}
	b := []*common.TssMessage{mk("B", "w1"), mk("A", "w1")}
	taken := map[string]int{}
	var gs []*mc.G
	put := func(l []*common.TssMessage) func() {
		return func() {
			for _, m := range l {
				c.AddMessage(m)
			}
		}
	}
	take := func(w string) func() {
		return func() {
			for _, m := range c.PopAllMessages(w, nil) {
				if m.WorkId != w {
					mc.Fail("cache-foreign", "taking %s returned a message of %s", w, m.WorkId)
				}
				taken[id[m]]++
			}
		}
	}
	gs = append(gs, mc.GoNamed("addA", put(a)), mc.GoNamed("addB", put(b)), mc.GoNamed("take1", take("w1")), mc.GoNamed("take2", take("w2")))
	for _, g := range gs {
		g.Join()
	}
	first := len(taken)
	take("w1")()
	take("w2")()
	for m, s := range id {
		_ = m
		if taken[s] != 1 {
			mc.Fail("cache-conc", "message %s was returned %d times by concurrent takes", s, taken[s])
		}
	}
	mc.Outcome("first=%d", first)
}

// ------------------------------------------------------------ C04 retransmission store

func circularSeq(size, nkeys, depth int) func() {
	return func() {
		q := tools.NewCircularQueue(size)
		type add struct {
			key string
			val int
		}
		var hist []add
		keys := make([]string, nkeys)
		for i := range keys {
			keys[i] = fmt.Sprintf("k%d", i)
		}
		verify := func() {
			for _, k := range keys {
				got := q.Get(k)
				last, distinct := -1, map[string]bool{}
				for i := len(hist) - 1; i >= 0; i-- {
					if hist[i].key == k {
						last = i
						break
					}
					distinct[hist[i].key] = true
				}
				switch {
				case last < 0:
					if got != nil {
						mc.Fail("ghost", "key %s was never added but returns %v (history %v)", k, got, hist)
					}
				case len(hist)-last <= size:
					if got == nil || got.(int) != hist[last].val {
						mc.Fail("lost", "size %d, history %v: key %s should give %d, got %v", size, hist, k, hist[last].val, got)
					}
				default:
					if got != nil && got.(int) != hist[last].val {
						mc.Fail("stale", "size %d, history %v: key %s gives %v, its latest value is %d", size, hist, k, got, hist[last].val)
					}
					if got != nil && len(distinct) >= size {
						mc.Fail("unbounded", "size %d, history %v: key %s is still held behind %d newer keys", size, hist, k, len(distinct))
					}
				}
			}
		}
		for i := 0; i < depth; i++ {
			k := mc.Choose(nkeys+1, 0)
			if k == nkeys {
				break
			}
			q.Add(keys[k], i+1)
			hist = append(hist, add{keys[k], i + 1})
			verify()
		}
		mc.Outcome("adds=%d", len(hist))
	}
}

func workCacheSeq(depth int) func() {
	return func() {
		const per = 2
		me := tss.NewPartyID("me", "", big.NewInt(1))
		c := cache.NewWorkMessageCache(per, me)
		senders := []string{"me", "A", "Ak"} // "A" and "k0" is not "Ak" and "0"
		keys := []string{"k0", "0", "k1"}
		type add struct {
			key string
			msg *common.SignedMessage
		}
		hist := map[string][]add{}
		if mc.Choose(2, 0) == 1 {
			// my own messages up to the limit
			for i := 0; i < per*5; i++ {
				m := &common.SignedMessage{From: "me"}
				k := fmt.Sprintf("own%d", i)
				c.Add(k, m)
				hist["me"] = append(hist["me"], add{k, m})
			}
		}
		for i := 0; i < depth; i++ {
			k := mc.Choose(9, 0)
			s, key := senders[k%3], keys[k/3]
			m := &common.SignedMessage{From: s}
			c.Add(key, m)
			hist[s] = append(hist[s], add{key, m})
			for _, from := range senders {
				size := per
				if from == "me" {
					size = per * 5
				}
				h := hist[from]
				all := append([]string{}, keys...)
				for j := 0; j < per*5; j++ {
					all = append(all, fmt.Sprintf("own%d", j))
				}
				for _, q := range all {
					got := c.Get(from, q)
					last := -1
					distinct := map[string]bool{}
					for j := len(h) - 1; j >= 0; j-- {
						if h[j].key == q {
							last = j
							break
						}
						distinct[h[j].key] = true
					}
					if last < 0 {
						if got != nil {
							mc.Fail("ghost", "sender %s key %s was never stored", from, q)
						}
						continue
					}
					if len(h)-last <= size {
						if got != h[last].msg {
							mc.Fail("lost", "sender %s key %s (one of its latest %d messages) is not returned", from, q, size)
						}
					} else if got != nil && (got != h[last].msg || len(distinct) >= size) {
						mc.Fail("stale", "sender %s key %s returns an outdated message", from, q)
					}
				}
			}
		}
		if c.Get("nobody", "k0") != nil {
			mc.Fail("ghost", "unknown sender")
		}
	}
}

func workCacheConc() {
	me := tss.NewPartyID("me", "", big.NewInt(1))
	c := cache.NewWorkMessageCache(2, me)
	mA1, mA2, mB := &common.SignedMessage{From: "A"}, &common.SignedMessage{From: "A"}, &common.SignedMessage{From: "B"}
	g1 := mc.GoNamed("a1", func() { c.Add("x", mA1) })
	g2 := mc.GoNamed("a2", func() { c.Add("y", mA2) })
	g3 := mc.GoNamed("b", func() { c.Add("x", mB) })
	var seen *common.SignedMessage
	g4 := mc.GoNamed("get", func() { seen = c.Get("A", "x") })
	g1.Join()
	g2.Join()
	g3.Join()
	g4.Join()
	if seen != nil && seen != mA1 {
		mc.Fail("wrong", "a concurrent read returned another message")
	}
	if c.Get("A", "x") != mA1 || c.Get("A", "y") != mA2 || c.Get("B", "x") != mB {
		mc.Fail("lost", "concurrent additions lost a message")
	}
	mc.Outcome("%v", seen != nil)
}

// ------------------------------------------------------------ C05 request queue

func mkWork(i int, t wtypes.WorkType) *wtypes.WorkRequest {
	return &wtypes.WorkRequest{WorkId: fmt.Sprintf("w%d", i), WorkType: t, Messages: [][]byte{{1}}}
}

func prio(t wtypes.WorkType) int {
	if t == wtypes.EcKeygen || t == wtypes.EdKeygen {
		return 2
	}
	return 1
}

func queueSeq(depth int) func() {
	return func() {
		q := core.NewRequestQueue()
		types := []wtypes.WorkType{wtypes.EcKeygen, wtypes.EcSigning, wtypes.EdSigning, wtypes.EdKeygen}
		var ref []*wtypes.WorkRequest
		var log []string
		n := 0
		pop := func() {
			got := q.Pop()
			var want *wtypes.WorkRequest
			if len(ref) > 0 {
				want = ref[0]
				ref = ref[1:]
			}
			log = append(log, "pop")
			if got != want {
				mc.Fail("order", "after %v: next request should be %s, got %s", log, wname(want), wname(got))
			}
		}
		for i := 0; i < depth; i++ {
			k := mc.Choose(len(types)+3, 0)
			switch {
			case k < len(types):
				w := mkWork(n, types[k])
				n++
				log = append(log, fmt.Sprintf("add %s(%v)", w.WorkId, types[k]))
				if !q.AddWork(w) {
					mc.Fail("rejected", "after %v: a new request was refused", log)
				}
				ref = refInsert(ref, w)
			case k == len(types):
				// same id again, other object
				id := 0
				if n > 0 {
					id = n - 1
				}
				w := mkWork(id, wtypes.EcSigning)
				dup := false
				for _, r := range ref {
					if r.WorkId == w.WorkId {
						dup = true
					}
				}
				log = append(log, "re-add "+w.WorkId)
				if q.AddWork(w) == dup {
					mc.Fail("duplicate", "after %v: queued already = %v but AddWork says otherwise", log, dup)
				}
				if !dup {
					ref = refInsert(ref, w)
				}
				if n == 0 {
					n = 1
				}
			default:
				pop()
				if k == len(types)+2 {
					pop()
				}
			}
			if q.Size() != len(ref) {
				mc.Fail("size", "after %v: size %d, should be %d", log, q.Size(), len(ref))
			}
		}
		for len(ref) > 0 {
			pop()
		}
		pop()
		mc.Outcome("ops=%d added=%d", len(log), n)
	}
}

func wname(w *wtypes.WorkRequest) string {
	if w == nil {
		return "none"
	}
	return fmt.Sprintf("%s(%v)", w.WorkId, w.WorkType)
}

func refInsert(ref []*wtypes.WorkRequest, w *wtypes.WorkRequest) []*wtypes.WorkRequest {
	out := append(append([]*wtypes.WorkRequest{}, ref...), w)
	sort.SliceStable(out, func(i, j int) bool { return prio(out[i].WorkType) > prio(out[j].WorkType) })
	return out
}

func queueConc() {
	q := core.NewRequestQueue()
	k1, s1, s2 := mkWork(0, wtypes.EcKeygen), mkWork(1, wtypes.EcSigning), mkWork(2, wtypes.EdSigning)
	dup := mkWork(1, wtypes.EcSigning)
	q.AddWork(mkWork(9, wtypes.EcSigning))
	acc := map[*wtypes.WorkRequest]bool{}
	got := map[*wtypes.WorkRequest]int{}
	var order []string
	g1 := mc.GoNamed("add1", func() { acc[k1] = q.AddWork(k1); acc[s1] = q.AddWork(s1) })
	g2 := mc.GoNamed("add2", func() { acc[dup] = q.AddWork(dup); acc[s2] = q.AddWork(s2) })
	g3 := mc.GoNamed("pop", func() {
		for i := 0; i < 2; i++ {
			if w := q.Pop(); w != nil {
				got[w]++
				order = append(order, w.WorkId)
			}
			q.Size()
		}
	})
	g1.Join()
	g2.Join()
	g3.Join()
	for {
		w := q.Pop()
		if w == nil {
			break
		}
		got[w]++
		order = append(order, w.WorkId)
	}
	if !acc[k1] || !acc[s2] {
		mc.Fail("rejected", "a new request was refused")
	}
	for _, w := range []*wtypes.WorkRequest{k1, s1, s2, dup} {
		n := 0
		if acc[w] {
			n = 1
		}
		if got[w] != n {
			mc.Fail("lost", "request %s accepted=%v came out %d times (order %v)", w.WorkId, acc[w], got[w], order)
		}
	}
	if !acc[s1] && !acc[dup] {
		mc.Fail("rejected", "both requests with the same id were refused")
	}
	mc.Outcome("%v", order)
}

func init() {
	all := []common.TssMessage_Type{common.TssMessage_UPDATE_MESSAGES, common.TssMessage_AVAILABILITY_REQUEST}
	register("C03",
		&mc.Scenario{Name: "cache-seq3", Sched: mc.Fixed, MapDev: true, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2, 3}, Body: cacheSeq(3, all)},
		&mc.Scenario{Name: "cache-seq4u", Sched: mc.Fixed, MapDev: true, Bounds: []int{0}, BoundsDeep: []int{0, 1, 2}, Body: cacheSeq(4, all[:1])},
		&mc.Scenario{Name: "cache-conc", Sched: mc.Preempt, MapFree: true, Race: true, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3, 4}, Body: cacheConc},
	)
	register("C04",
		&mc.Scenario{Name: "ring-1", Sched: mc.Fixed, Body: circularSeq(1, 3, 6)},
		&mc.Scenario{Name: "ring-2", Sched: mc.Fixed, Body: circularSeq(2, 3, 8)},
		&mc.Scenario{Name: "ring-3", Sched: mc.Fixed, Body: circularSeq(3, 4, 7)},
		&mc.Scenario{Name: "workcache-seq", Sched: mc.Fixed, Body: workCacheSeq(5)},
		&mc.Scenario{Name: "workcache-conc", Sched: mc.Preempt, Race: true, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3, 4}, Body: workCacheConc},
	)
	register("C05",
		&mc.Scenario{Name: "queue-seq", Sched: mc.Fixed, Body: queueSeq(6)},
		&mc.Scenario{Name: "queue-conc", Sched: mc.Preempt, Race: true, Bounds: []int{0, 1, 2, 3}, BoundsDeep: []int{0, 1, 2, 3, 4, 5}, Body: queueConc},
	)
}
