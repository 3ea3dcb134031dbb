package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/db"
	htypes "github.com/sisu-network/dheart/types"
	mc "github.com/sisu-network/dheart/zzmc"
	fakesql "github.com/sisu-network/dheart/zzmc/shim/sql"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
)

// ------------------------------------------------------------ C26: starting a node, preparameters

func (n *hnode) openDb() db.Database {
	d := db.NewDatabase(&n.cfg.Db)
	if err := d.Init(); err != nil {
		mc.Fail("db", "%v", err)
	}
	return d
}

// prepStored reads what is stored, past the code under test.
func (n *hnode) prepStored() (o []string) {
	c := n.cfg.Db
	d, err := fakesql.Open("mysql", fmt.Sprintf("%s:%s@tcp(%s:%d)/%s", c.Username, c.Password, c.Host, c.Port, c.Schema))
	if err != nil {
		panic(err)
	}
	rows, err := d.Query("SELECT preparams FROM preparams")
	if err != nil {
		return nil // no such table yet
	}
	defer rows.Close()
	for rows.Next() {
		var bz []byte
		if err := rows.Scan(&bz); err != nil {
			panic(err)
		}
		p := &eckeygen.LocalPreParams{}
		if json.Unmarshal(bz, p) != nil {
			o = append(o, "?"+string(bz))
		} else {
			o = append(o, js(p))
		}
	}
	return
}

func (n *hnode) prepExec(q string, args ...interface{}) {
	c := n.cfg.Db
	d, _ := fakesql.Open("mysql", fmt.Sprintf("%s:%s@tcp(%s:%d)/%s", c.Username, c.Password, c.Host, c.Port, c.Schema))
	if _, err := d.Exec(q, args...); err != nil {
		panic(err)
	}
}

// startOnce starts a fresh process on the node's database, with one fault, and gives the result of Start.
func startOnce(n *hnode, fault func(k int, kind, q string) fakesql.Fault, rowFault, limit time.Duration) (*hnode, error, bool) {
	n.make()
	w := fakesql.W()
	calls := 0
	w.Fault = func(kind, q string) fakesql.Fault {
		if fault == nil {
			return fakesql.OK
		}
		calls++
		return fault(calls, kind, q)
	}
	w.RowFault = func(q string, row int) bool {
		if rowFault == 0 || row != 0 || !strings.Contains(q, "FROM preparams") {
			return false
		}
		rowFault = 0
		return true
	}
	var err error
	g := mc.GoNamed("start", func() { err = n.h.Start() })
	mc.Elapse(limit)
	w.Fault, w.RowFault = nil, nil
	return n, err, g.Done()
}

// prepStart: histories of starts with a failure each
func prepStart(depth int) func() {
	return func() {
		n := newHeart(0)
		want := "" // the set that is stored
		for k := 0; k < depth; k++ {
			gen := tssfake.Gen()
			gen.Fail = 0
			before := gen.Calls
			c := mc.Choose(8, 0)
			var f func(int, string, string) fakesql.Fault
			rowFault := time.Duration(0)
			failed := false
			hit := func(q string) { failed = true }
			once := func(match string, t fakesql.Fault) func(int, string, string) fakesql.Fault {
				return func(k int, kind, q string) fakesql.Fault {
					if !failed && strings.Contains(q, match) {
						hit(q)
						return t
					}
					return fakesql.OK
				}
			}
			down := 0
			switch c {
			case 1: // the server cannot be reached for a while
				down = 1 + mc.Choose(3, 0)
				left := down
				f = func(k int, kind, q string) fakesql.Fault {
					if left > 0 && (kind == "open" || strings.Contains(q, "CREATE DATABASE")) {
						left--
						return fakesql.Before
					}
					return fakesql.OK
				}
			case 2:
				gen.Fail = 1
				failed = want == ""
			case 3:
				f = once("INTO preparams", fakesql.Before)
			case 4:
				f = once("INTO preparams", fakesql.After)
			case 5:
				f = once("FROM preparams", fakesql.Before)
			case 6:
				rowFault = 1
				failed = true
			case 7: // the answer to creating the database is lost
				once := false
				f = func(k int, kind, q string) fakesql.Fault {
					if !once && strings.Contains(q, "CREATE DATABASE") {
						once = true
						return fakesql.After
					}
					return fakesql.OK
				}
			}
			_, err, done := startOnce(n, f, rowFault, 10*time.Minute)
			mc.Check(done, "start-hangs", "start %d (fault %d) never ends", k, c)
			st := n.prepStored()
			mc.Check(len(st) <= 1, "stored-twice", "%d preparameter sets are stored", len(st))
			cur := strings.Join(st, "")
			mc.Check(want == "" || cur == want, "stored-changed", "the stored set changed from %.60s to %.60s", want, cur)
			mc.Check(err != nil || cur != "", "not-stored", "start %d (fault %d) succeeds, but no preparameters are stored", k, c)
			mc.Check(!failed || err != nil, "error-lost", "start %d succeeds in spite of the failure %d", k, c)
			mc.Check(failed || err == nil, "start-fails", "start %d (fault %d) fails: %v", k, c, err)
			mc.Check(want == "" || gen.Calls == before, "generated-again", "start %d generates preparameters although some are stored", k)
			mc.Check(gen.Calls <= before+1, "generated-again", "start %d generates %d sets", k, gen.Calls-before)
			if cur != "" && want == "" {
				mc.Check(cur == js(tssfake.PreParams(gen.Calls)), "stored-other", "stored is not what was generated")
			}
			want = cur
		}
		// the database is kept over all this
		_, err, done := startOnce(n, nil, 0, 10*time.Minute)
		mc.Check(done && err == nil, "start-fails", "the last start gives %v", err)
		p, err := n.openDb().LoadPreparams()
		mc.Check(err == nil && (want == "" || js(p) == want), "stored-other", "the stored set is read as %v %v", js(p), err)
	}
}

// prepBroken: stored preparameters that cannot be read are an error, and are kept.
func prepBroken() {
	n := newHeart(0)
	_, err, done := startOnce(n, nil, 0, time.Minute)
	mc.Check(done && err == nil, "start-fails", "the first start gives %v", err)
	bad := []string{"", "x", "{\"", "[]", "null null"}[mc.Choose(5, 0)]
	n.prepExec("UPDATE preparams SET preparams = ?", bad)
	_, err, done = startOnce(n, nil, 0, 10*time.Minute)
	mc.Check(done && err != nil, "broken-used", "a start with unreadable preparameters succeeds")
	mc.Check(len(n.prepStored()) == 1, "stored-twice", "%d preparameter sets are stored", len(n.prepStored()))
}

// prepShortcut: the shortcut for development stores a set once.
func prepShortcut() {
	n := newHeart(mc.Choose(3, 0))
	n.cfg.ShortcutPreparams = true
	other := mc.Choose(2, 0) == 1
	if other {
		n.cfg.ShortcutPreparams = false
		startOnce(n, nil, 0, time.Minute)
		n.cfg.ShortcutPreparams = true
	}
	want := ""
	for k := 0; k < 3; k++ {
		if k == 2 {
			n.cfg.ShortcutPreparams = false
		}
		_, err, done := startOnce(n, nil, 0, time.Minute)
		mc.Check(done && err == nil, "start-fails", "start gives %v", err)
		st := n.prepStored()
		mc.Check(len(st) == 1 && (want == "" || st[0] == want), "stored-changed", "%d sets are stored", len(st))
		want = st[0]
	}
	calls := tssfake.Gen().Calls
	mc.Check(other == (calls == 1) && calls < 2, "generated-again", "%d sets are generated", calls)
	if !other {
		mc.Check(want == js(mustPre(core.Preparams[n.i])), "stored-other", "another set than the one of the node is stored")
	}
}

func mustPre(s string) *eckeygen.LocalPreParams {
	p := &eckeygen.LocalPreParams{}
	if err := json.Unmarshal([]byte(s), p); err != nil {
		panic(err)
	}
	return p
}

// prepUse: ECDSA key generation uses exactly the stored set, or fails if it cannot be read.
func prepUse(faults int) func() {
	return func() {
		p := newPair()
		p.start()
		if mc.Choose(2, 0) == 1 { // another process
			for i, w := range p {
				w.n = w.n.restart(heartPeer(1 - i)).boot()
				w.expecting.n = w.n
				w.key, w.ready = false, false
			}
			p.start()
		}
		var want []string
		for _, w := range p {
			want = append(want, w.n.prepStored()...)
		}
		mc.Check(len(want) == 2 && want[0] != want[1], "stored", "the nodes store %d sets", len(want))
		f, calls := mc.Choose(faults, 0), 0
		if mc.Choose(2, 0) == 1 {
			fakesql.W().RowFault = func(q string, row int) bool {
				calls++
				return f > 0 && calls == f
			}
		} else {
			fakesql.W().Fault = func(kind, q string) fakesql.Fault {
				if calls++; f > 0 && calls == f {
					return fakesql.Before
				}
				return fakesql.OK
			}
		}
		n0 := len(tssfake.C().Parties)
		p.run(2, callKeygen("ecdsa", "use"))
		p.rest()
		fakesql.W().Fault, fakesql.W().RowFault = nil, nil
		hit := f > 0 && calls >= f
		for i, w := range p {
			l := w.n.cl.posts[len(w.n.cl.posts)-1]
			mc.Check(hit || l.kg.Outcome == htypes.OutcomeSuccess, "work-fails", "keygen at node %d: %v", i, l)
		}
		look := func() {
			for _, x := range tssfake.C().Parties[n0:] {
				if x.Proto != tssfake.EcKeygen {
					continue
				}
				i := nodeIdx(x.PartyID().Id)
				mc.Check(x.EcPre != nil && js(x.EcPre) == want[i], "other-set", "key generation at node %d runs with another set than the stored one", i)
			}
		}
		look()
		p.works("last")
		look()
		for i, w := range p {
			st := w.n.prepStored()
			mc.Check(len(st) == 1 && st[0] == want[i], "stored-changed", "the stored set of node %d changed", i)
		}
	}
}

func init() {
	register("C26",
		&mc.Scenario{Name: "prep-start", Sched: mc.Coop, Bounds: []int{0}, Body: prepStart(3)},
		&mc.Scenario{Name: "prep-start4", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: prepStart(4)},
		&mc.Scenario{Name: "prep-broken", Sched: mc.Coop, Bounds: []int{0}, Body: prepBroken},
		&mc.Scenario{Name: "prep-shortcut", Sched: mc.Coop, Bounds: []int{0}, Body: prepShortcut},
		&mc.Scenario{Name: "prep-use", Sched: mc.Coop, Bounds: []int{0}, Body: prepUse(9)},
	)
	assume("C26", "The generation of preparameters is represented by a stand-in that gives a distinct set each time, or fails; a migration that was interrupted is repaired by the operator, as its library demands.")
}
