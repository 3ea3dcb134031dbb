package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker/components"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C14 the monitor alone

var protoOfKind = map[wtypes.WorkType]string{wtypes.EcKeygen: tssfake.EcKeygen, wtypes.EcSigning: tssfake.EcSigning, wtypes.EdKeygen: tssfake.EdKeygen, wtypes.EdSigning: tssfake.EdSigning}

type report struct {
	at int64
	m  map[string][]string
}

type monRun struct {
	mon   components.MessageMonitor
	proto string
	names []string
	p2p   []bool
	types []string
	ids   tss.SortedPartyIDs
	n     int // participants, 0 is the node itself
	got   [][]bool
	last  int64 // last reception of a message of a participant
	beg   int64
	reps  []report
}

const monT = 7 * time.Second

func (r *monRun) OnMissingMesssageDetected(m map[string][]string) {
	r.reps = append(r.reps, report{mc.Now(), m})
}

func newMonRun(kind wtypes.WorkType) *monRun { return newMonRunN(kind, 3) }

func newMonRunN(kind wtypes.WorkType, n int) *monRun {
	r := &monRun{n: n, got: make([][]bool, n), proto: protoOfKind[kind], ids: freshPids(n + 1)}
	r.names, r.p2p = tssfake.Kinds(r.proto)
	m := map[string]*tss.PartyID{}
	for i := 0; i < n; i++ {
		m[r.idOf(i).Id] = r.idOf(i)
		r.got[i] = make([]bool, len(r.names))
	}
	for k := range r.names {
		r.types = append(r.types, r.msg(1, k).Type())
	}
	r.mon = components.NewMessageMonitor(r.idOf(0), kind, r, m, monT)
	return r
}

func (r *monRun) idOf(i int) *tss.PartyID {
	for _, p := range r.ids {
		if p.Id == pid(i) {
			return p
		}
	}
	return nil
}

func (r *monRun) msg(from, k int) tss.ParsedMessage {
	var to *tss.PartyID
	if r.p2p[k] {
		to = r.idOf(0)
	}
	bz, _, err := tssfake.Message(r.proto, r.names[k], "s", r.idOf(from), to).WireBytes()
	if err != nil {
		panic(err)
	}
	m, err := tss.ParseWireMessage(bz, r.idOf(from), !r.p2p[k])
	if err != nil {
		panic(err)
	}
	return m
}

func (r *monRun) recv(from, k int) {
	if from < r.n {
		r.got[from][k] = true
		r.last = mc.Now()
	}
	r.mon.NewMessageReceived(r.msg(from, k), r.idOf(from))
}

// missing computes what has to be asked for now.
func (r *monRun) missing() map[int][]string {
	max := -1
	for i := 1; i < r.n; i++ {
		for k, g := range r.got[i] {
			if g && k > max {
				max = k
			}
		}
	}
	out := map[int][]string{}
	for i := 1; i < r.n; i++ {
		for k := 0; k <= max; k++ {
			if !r.got[i][k] {
				out[i] = append(out[i], r.types[k])
			}
		}
	}
	if len(out) == 0 && max+1 < len(r.types) {
		for i := 1; i < r.n; i++ {
			out[i] = []string{r.types[max+1]}
		}
	}
	return out
}

func showMissing(m map[int][]string) string {
	var s []string
	for i, l := range m {
		c := append([]string(nil), l...)
		sort.Strings(c)
		s = append(s, fmt.Sprintf("%d:%s", i, strings.Join(c, ",")))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func (r report) show() string {
	m := map[int][]string{}
	for p, l := range r.m {
		m[nodeIdx(p)] = l
	}
	return showMissing(m)
}

// elapse lets d pass and checks the reports made meanwhile. d must not end on a multiple of the period.
func (r *monRun) elapse(d time.Duration, stopped bool) {
	n := len(r.reps)
	t0 := mc.Now()
	mc.Elapse(d)
	mc.Settle()
	want := showMissing(r.missing())
	quiet := t0
	for _, x := range r.reps[n:] {
		mc.Check(!stopped, "after-stop", "the stopped monitor reports %s", x.show())
		mc.Check(x.at-r.last >= int64(monT) || r.last == 0, "not-stalled", "reported at %v although a message arrived at %v", time.Duration(x.at), time.Duration(r.last))
		mc.Check(want != "" && x.show() == want, "wrong-report", "reported [%s], missing is [%s]", x.show(), want)
		mc.Check(x.at-quiet <= 2*int64(monT), "late-report", "no report between %v and %v", time.Duration(quiet), time.Duration(x.at))
		quiet = x.at
	}
	if !stopped && want != "" {
		mc.Check(mc.Now()-quiet <= 2*int64(monT), "late-report", "no report of [%s] between %v and %v", want, time.Duration(quiet), time.Duration(mc.Now()))
	}
}

func (r *monRun) start() {
	mc.GoNamed("monitor", r.mon.Start)
	mc.Settle()
	r.beg = mc.Now()
}

// monSets: every set of received messages, then a stall.
func monSets(kind wtypes.WorkType) func() {
	return func() {
		r := newMonRun(kind)
		r.start()
		mc.Elapse(time.Second)
		K := len(r.names)
		order := mc.Choose(2, 0)
		pick := func(i int, free bool) (l []int) {
			if free {
				for k := 0; k < K; k++ {
					if mc.Choose(2, 0) == 1 {
						l = append(l, k)
					}
				}
				return
			}
			// a prefix with at most one hole
			n := mc.Choose(K+1, 0)
			hole := -1
			if n > 1 {
				hole = mc.Choose(n, 0) - 1 // -1: none
			}
			for k := 0; k < n; k++ {
				if k != hole {
					l = append(l, k)
				}
			}
			return
		}
		a, b := pick(1, true), pick(2, K <= 4)
		if order == 0 {
			for _, k := range a {
				r.recv(1, k)
			}
			for _, k := range b {
				r.recv(2, k)
			}
		} else {
			for i := len(b) - 1; i >= 0; i-- {
				r.recv(2, b[i])
			}
			for i := len(a) - 1; i >= 0; i-- {
				r.recv(1, a[i])
			}
		}
		r.elapse(40*time.Second, false)
		r.mon.Stop()
		r.elapse(20*time.Second, true)
		mc.Outcome("%d reports", len(r.reps))
	}
}

// monHistory: receptions, pauses and a stop in every order.
func monHistory(kind wtypes.WorkType, depth int, ks []int) func() {
	return func() {
		r := newMonRun(kind)
		r.start()
		stopped := false
		mc.Elapse(time.Second)
		for d := 0; d < depth; d++ {
			c := mc.Choose(2*len(ks)+5, 0)
			switch {
			case c < 2*len(ks):
				r.recv(1+c%2, ks[c/2])
			case c == 2*len(ks):
				r.elapse(3*time.Second, stopped)
			case c == 2*len(ks)+1:
				r.elapse(8*time.Second, stopped)
			case c == 2*len(ks)+2: // outsiders' and own messages do not count
				r.recv(3, 0)
			case c == 2*len(ks)+3:
				r.elapse(29*time.Second, stopped)
			default:
				r.mon.Stop()
				stopped = true
			}
		}
		r.elapse(29*time.Second, stopped)
		mc.Outcome("%v %d", stopped, len(r.reps))
	}
}

// monRace: receptions and the stop race with the timer.
func monRace() {
	r := newMonRun(wtypes.EcKeygen)
	r.start()
	for i := 1; i < 3; i++ {
		i := i
		mc.GoNamed(fmt.Sprintf("peer %d", i), func() {
			r.recvAt(i, 0)
			mc.Sleep(int64(monT))
			r.recvAt(i, 1)
		})
	}
	g := mc.GoNamed("stopper", func() {
		mc.Sleep(int64(3 * monT))
		r.mon.Stop()
	})
	mc.Quiesce()
	mc.Check(g.Done(), "blocked", "Stop never returns")
	mc.Check(mc.Live("monitor") == nil, "leak", "the stopped monitor keeps running")
	for _, x := range r.reps {
		for p, l := range x.m {
			i := nodeIdx(p)
			mc.Check(i == 1 || i == 2, "wrong-report", "reports node %d", i)
			mc.Check(len(l) > 0, "wrong-report", "reports nothing of %d", i)
		}
	}
	mc.Outcome("%d", len(r.reps))
}

func (r *monRun) recvAt(from, k int) { r.mon.NewMessageReceived(r.msg(from, k), r.idOf(from)) }

// ------------------------------------------------------------ C13 lost protocol messages

// lossRun: n engines run one work; lost protocol messages, each the first of its kind between two nodes.
func lossRun(n int, kind wtypes.WorkType, batch, lost int, presigned bool) func() {
	return func() {
		var real []int
		for i := 0; i < n; i++ {
			real = append(real, i)
		}
		w := newWorld(n, real...)
		set := []int{}
		for i := 0; i <= threshold(n); i++ {
			set = append(set, i)
		}
		proto := protoOfKind[kind]
		if presigned {
			for i := range real {
				w.nodes[i].db.addPresign("pa", batch, set, i)
			}
			proto = tssfake.EcOneRound
		}
		names, p2p := tssfake.Kinds(proto)
		type loss struct{ from, to, k int }
		var ls []loss
		first := 0
		all := n * (n - 1) * len(names)
		for c := 0; c < lost; c++ {
			x := first + mc.Choose(all-first, 0)
			first = x
			l := loss{k: x % len(names)}
			x /= len(names)
			l.from = x / (n - 1)
			l.to = (l.from + 1 + x%(n-1)) % n
			ls = append(ls, l)
		}
		gone := map[loss]bool{}
		type mkey struct {
			from, to int
			key      string
		}
		first1 := map[mkey]bool{}
		asked := map[string]bool{}
		work := w.workLed("w", 0)
		w.drop = func(from, to int, m *common.TssMessage) bool {
			switch m.Type {
			case common.TssMessage_ASK_MESSAGE_REQUEST:
				if m.AskRequestMessage != nil {
					asked[fmt.Sprintf("%d>%d %s", to, from, m.AskRequestMessage.MsgKey)] = true
				}
				return false
			case common.TssMessage_UPDATE_MESSAGES:
			default:
				return false
			}
			key, err := m.GetMessageKey()
			if err != nil {
				return false
			}
			author := nodeIdx(m.From)
			k := mkey{from, to, key}
			if author != from || first1[k] { // sent again
				mc.Check(asked[fmt.Sprintf("%d>%d %s", from, to, key)], "unasked", "node %d re-sends a message of %d to %d that did not ask for it", from, author, to)
				return false
			}
			first1[k] = true
			for _, l := range ls {
				if l.from == from && l.to == to && !gone[l] {
					if kn := kindOfRound(proto, names, p2p, m); kn == l.k {
						gone[l] = true
						return true
					}
				}
			}
			return false
		}
		for i := range real {
			w.boot(i)
			if presigned {
				if err := w.nodes[i].eng.Init(); err != nil {
					mc.Fail("harness", "%v", err)
				}
			}
		}
		for i := range real {
			i := i
			mc.GoNamed(fmt.Sprintf("node %d", i), func() {
				if err := w.nodes[i].eng.AddRequest(w.request(i, kind, work, batch)); err != nil {
					mc.Fail("refused", "%v", err)
				}
			})
		}
		mc.Quiesce()
		if len(gone) == 0 {
			mc.Outcome("no such message")
			return
		}
		desc := ""
		for _, l := range ls {
			if gone[l] {
				desc += fmt.Sprintf("%s %d>%d ", names[l.k], l.from, l.to)
			}
		}
		succ := 0
		for i := range real {
			os := w.outcomesOf(i, work)
			mc.Check(len(os) == 1, "outcome-count", "lost %s: node %d reports %v", desc, i, os)
			mc.Check(os[0].kind != "fail", "not-recovered", "lost %s: node %d fails", desc, i)
			w.checkValid(os[0])
			if os[0].kind != "notsel" {
				succ++
				lim := w.t0 + int64(w.cfg.SelectionLeaderTimeout+w.cfg.SigningJobTimeout)
				mc.Check(os[0].at <= lim, "late", "lost %s: node %d ends at %v", desc, i, time.Duration(os[0].at-w.t0))
			}
		}
		need := threshold(n) + 1
		if kind == wtypes.EcKeygen || kind == wtypes.EdKeygen {
			need = n
		}
		mc.Check(succ >= need, "participants", "lost %s: only %d nodes end successfully", desc, succ)
		mc.Outcome("recovered")
	}
}

// kindOfRound finds which kind of message m is.
func kindOfRound(proto string, names []string, p2p []bool, m *common.TssMessage) int {
	ids := freshPids(4)
	for k, n := range names {
		var to *tss.PartyID
		if p2p[k] {
			to = ids[1]
		}
		if tssfake.Message(proto, n, "s", ids[0], to).Type() == m.UpdateMessages[0].Round {
			return k
		}
	}
	return -1
}

func init() {
	for _, k := range workKinds {
		names, _ := tssfake.Kinds(protoOfKind[k])
		register("C14", &mc.Scenario{Name: "mon-sets-" + kindName(k), Sched: mc.Fixed, Bounds: []int{0}, Body: monSets(k)})
		ks := []int{0, 1, 2}
		if len(names) > 3 {
			ks = []int{0, 1, len(names) - 1}
		}
		register("C14", &mc.Scenario{Name: "mon-hist-" + kindName(k), Sched: mc.Fixed, Bounds: []int{0}, Body: monHistory(k, 4, ks)})
	}
	register("C14", &mc.Scenario{Name: "mon-race", Sched: mc.Delay, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, TimerDev: true, Race: true, Body: monRace})
	for _, k := range workKinds {
		for _, n := range []int{2, 3} {
			register("C13", &mc.Scenario{Name: fmt.Sprintf("loss1-%d-%s", n, kindName(k)), Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: lossRun(n, k, 1, 1, false)})
		}
	}
	for _, k := range workKinds {
		register("C13", &mc.Scenario{Name: "loss2-2-" + kindName(k), Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: lossRun(2, k, 1, 2, false)})
	}
	register("C13",
		&mc.Scenario{Name: "loss2-3-edsign", Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: lossRun(3, wtypes.EdSigning, 1, 2, false)},
		&mc.Scenario{Name: "loss1-4-ecsign", Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: lossRun(4, wtypes.EcSigning, 1, 1, false)},
		&mc.Scenario{Name: "loss1-4-edsign", Sched: mc.Coop, Bounds: []int{0}, BoundsDeep: []int{0, 1}, Body: lossRun(4, wtypes.EdSigning, 2, 1, false)},
		&mc.Scenario{Name: "loss1-2-presigned", Sched: mc.Coop, Bounds: []int{0, 1}, Body: lossRun(2, wtypes.EcSigning, 1, 1, true)},
		&mc.Scenario{Name: "loss1-4-presigned", Sched: mc.Coop, Bounds: []int{0, 1}, Body: lossRun(4, wtypes.EcSigning, 2, 1, true)},
	)
}
