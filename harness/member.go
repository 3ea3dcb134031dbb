package main

import (
	"fmt"
	"time"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C08, C09, C10 member

type ann struct {
	from    int
	what    string
	pids    []string
	pres    []string
	success bool
	verdict string // join, out, fail
}

// anns lists the announcements a member of n (me, leader) may get for a work.
func anns(k *wkr, n, me, leader int) []ann {
	sign := k.req.IsSigning()
	need := n
	if sign {
		need = k.req.Threshold + 1
	}
	ids := func(ix ...int) (o []string) {
		for _, i := range ix {
			o = append(o, pid(i))
		}
		return
	}
	rest := []int{}
	for i := 0; i < n; i++ {
		if i != me && i != leader {
			rest = append(rest, i)
		}
	}
	in := append([]int{leader, me}, rest...)
	out := append([]int{leader}, rest...)
	bad := func(what string, p []string) ann { return ann{what: what, pids: p, success: true, verdict: "fail"} }
	as := []ann{
		{what: "good", pids: ids(in[:need]...), success: true, verdict: "join"},
		{what: "failure", verdict: "fail"},
	}
	if sign {
		as = append(as, ann{what: "others", pids: ids(out[:need]...), success: true, verdict: "out"})
		as = append(as, ann{what: "all", pids: ids(in...), success: true, verdict: "join"})
	}
	few := ids(in[:need-1]...)
	as = append(as, bad("twice", append(append([]string{}, few...), pid(leader))), bad("few", few),
		bad("unknown", append(append([]string{}, few...), "nobody")), bad("outsider", append(append([]string{}, few...), pid(4))), bad("empty", nil))
	if k.kind == wtypes.EcSigning {
		p := func(what string, verdict string, pr ...string) {
			as = append(as, ann{what: what, pids: ids(in[:need]...), pres: pr, success: true, verdict: verdict})
		}
		if k.batch == 1 {
			p("presigned", "join", "pa-0")
			p("presign-missing", "fail", "zz-0")
			p("presign-many", "fail", "pa-0", "pa-1")
		} else {
			p("presigned", "join", "pa-1", "pa-0")
			p("presign-missing", "fail", "pa-0", "zz-0")
			p("presign-few", "fail", "pa-0")
			p("presign-twice", "fail", "pa-0", "pa-0")
		}
	}
	return as
}

func (a ann) msg(k *wkr) *common.TssMessage {
	var ps []*tss.PartyID
	for _, id := range a.pids {
		ps = append(ps, &tss.PartyID{MessageWrapper_PartyID: &tss.MessageWrapper_PartyID{Id: id}})
	}
	from := "nobody"
	if a.from >= 0 {
		from = pid(a.from)
	}
	return common.NewPreExecOutputMessage(from, "", k.work, a.success, a.pres, ps)
}

// memberRun: up to k announcements from the leader and others, before or after the start.
func memberRun(n int, kind wtypes.WorkType, batch, count int, late bool) func() {
	return func() {
		const me, leader = 1, 0
		k := newWkr(n, me, leader, kind, batch)
		k.db.addPresign("pa", 2, []int{leader, me}, me)
		k.make()
		opts := anns(k, n, me, leader)
		senders := []int{leader, 2, 4}
		if count > 1 {
			senders = senders[:2]
		}
		lim := int64(k.cfg.SelectionMemberTimeout)
		var pre []*common.TssMessage
		// A failure announced before the work starts belongs to an earlier attempt; one that arrives while it starts may
		// be taken for such. firsts are the announcements that may be the one that counts.
		type counted struct {
			a  *ann
			at int64
		}
		var firsts []counted
		open := true
		type post struct {
			a  ann
			at time.Duration
		}
		var posts []post
		prevAt := time.Duration(0)
		for c := 0; c < count; c++ {
			x := mc.Choose(1+len(senders)*len(opts), 0)
			if x == 0 {
				break
			}
			x--
			a := opts[x%len(opts)]
			a.from = senders[x/len(opts)]
			early := false
			nt := 2
			if late {
				nt = 4
			}
			switch mc.Choose(nt, 0) {
			case 0:
			case 1:
				early = true
			case 2:
				prevAt += 5 * time.Second
			case 3:
				prevAt += 25 * time.Second
			}
			at := int64(prevAt)
			if a.from == leader && open && at < lim {
				before := early && len(posts) == 0
				if a.what != "failure" || !before {
					b := a
					firsts = append(firsts, counted{&b, at})
					open = a.what == "failure" && at == 0
				}
			}
			if early && len(posts) == 0 {
				pre = append(pre, a.msg(k))
			} else {
				posts = append(posts, post{a, prevAt})
			}
		}
		// other selection traffic a member may get, more than any buffer holds
		noise := mc.Choose(3, 1)
		startWk(k, pre)
		g := mc.GoNamed("network", func() {
			for _, p := range posts {
				if d := int64(p.at) - (mc.Now() - k.t0); d > 0 {
					mc.Elapse(time.Duration(d))
				}
				k.deliver(p.a.msg(k))
			}
		})
		g2 := mc.GoNamed("network2", func() {
			switch noise {
			case 1:
				for i := 0; i < n+2; i++ {
					k.deliver(common.NewAvailabilityResponseMessage(pid(2), pid(me), k.work, common.AvailabilityResponseMessage_YES, 1))
				}
			case 2:
				for i := 0; i < 2; i++ {
					k.deliver(common.NewAvailabilityRequestMessage(pid(leader), pid(me), k.work))
				}
			}
		})
		mc.Quiesce()
		mc.Check(g.Done() && g2.Done(), "blocked", "the call delivering a selection message never returns: %s%s", g.Blocked(), g2.Blocked())
		mc.Check(len(k.selections()) == 0, "member-announces", "a member announces a selection")
		mc.Check(len(k.res) == 1, "results", "the work reported %d results", len(k.res))
		r := k.res[0]
		us, ps := k.used()
		judge := func(first *ann, at int64) (bool, string, string) {
			want, desc := "fail", "nothing from the leader"
			if first != nil {
				want, desc = first.verdict, fmt.Sprintf("%q from the leader at %v", first.what, time.Duration(at))
			}
			got := fmt.Sprintf("%s: outcome %s at %v, %d protocol runs", desc, r.kind, time.Duration(r.at), len(us))
			switch want {
			case "join":
				if len(us) != batch {
					return false, "not-started", got
				}
				for i := range us {
					if us[i] != sortedIds(first.pids) {
						return false, "other-set", fmt.Sprintf("%s: member runs with %s, announced %s", got, us[i], sortedIds(first.pids))
					}
					p := ""
					if len(first.pres) > 0 {
						p = first.pres[i]
					}
					if ps[i] != p {
						return false, "other-presign", fmt.Sprintf("%s: job %d uses presign %q, announced %v", got, i, ps[i], first.pres)
					}
				}
				if r.kind != "fail" || r.at != at+int64(15*time.Second) {
					return false, "run-end", got
				}
			case "out":
				if len(us) != 0 {
					return false, "runs-excluded", got
				}
				if r.kind != "notsel" || r.at != at {
					return false, "excluded-outcome", got
				}
			case "fail":
				if len(us) != 0 {
					return false, "runs-rejected", got
				}
				if r.kind != "fail" || r.at != at {
					return false, "rejected-outcome", got
				}
			}
			return true, desc, ""
		}
		if open {
			firsts = append(firsts, counted{nil, lim})
		}
		desc, key, why := "", "", ""
		for _, f := range firsts {
			ok, x, y := judge(f.a, f.at)
			if ok {
				desc = x
				break
			}
			if key == "" {
				key, why = x, y
			}
		}
		mc.Check(desc != "", key, "%s", why)
		if noise == 2 {
			y := 0
			for _, x := range k.sent {
				if x.m.Type == common.TssMessage_AVAILABILITY_RESPONSE && x.uni && x.to[0] == pid(leader) && x.m.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
					y++
				}
			}
			mc.Check(y > 0, "no-answer", "the leader's availability request is not answered")
		}
		mc.Outcome("%s %s", desc, r.kind)
	}
}

// defaultTimeouts: a leader that needs all of its time is still heard by members that started before it.
func defaultTimeouts() {
	cfg := config.NewDefaultTimeoutConfig()
	mc.Check(cfg.SelectionMemberTimeout > cfg.SelectionLeaderTimeout, "default-timeouts", "by default members wait %v for the leader, the leader %v for members", cfg.SelectionMemberTimeout, cfg.SelectionLeaderTimeout)
	mc.Check(cfg.SelectionLeaderTimeout > 0 && cfg.MonitorMessageTimeout > 0 && cfg.MonitorMessageTimeout < cfg.KeygenJobTimeout && cfg.MonitorMessageTimeout < cfg.SigningJobTimeout,
		"default-monitor", "the default time limits leave no time to ask for missing messages: %+v", cfg)
	// ECDSA signing with one of three parties away: the leader needs its whole time
	k := newWkr(3, 1, 0, wtypes.EcSigning, 1)
	k.cfg = cfg
	k.make()
	startWk(k, nil)
	mc.Elapse(cfg.SelectionLeaderTimeout + time.Second)
	k.deliver(common.NewPreExecOutputMessage(pid(0), "", k.work, true, nil, []*tss.PartyID{allNodes[0].PartyId, allNodes[1].PartyId}))
	mc.Quiesce()
	us, _ := k.used()
	mc.Check(len(us) == 1, "default-too-late", "a member with default time limits does not take part in a work whose leader decided at its time limit")
}

func init() {
	register("C09", &mc.Scenario{Name: "defaults", Sched: mc.Delay, Bounds: []int{0, 1}, Body: defaultTimeouts})
	for _, kd := range workKinds {
		nm := kindName(kd)
		b := 1
		register("C10", &mc.Scenario{Name: "member-" + nm, Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Race: true, Body: memberRun(3, kd, b, 2, false)},
			&mc.Scenario{Name: "member4-" + nm, Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: memberRun(4, kd, b, 1, true)})
		register("C09", &mc.Scenario{Name: "membert-" + nm, Sched: mc.Coop, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: memberRun(3, kd, b, 2, true)})
		register("C08", &mc.Scenario{Name: "memberc-" + nm, Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: memberRun(3, kd, b, 1, false)})
		if kd == wtypes.EcSigning {
			register("C10", &mc.Scenario{Name: "memberb-" + nm, Sched: mc.Coop, Bounds: []int{0, 1}, Body: memberRun(3, kd, 2, 1, false)})
		}
	}
}
