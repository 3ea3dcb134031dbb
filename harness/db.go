package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/sql"
	"github.com/sisu-network/dheart/zzmc/shim/tssfake"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// ------------------------------------------------------------ C20, C29 the database

func js(v interface{}) string {
	bz, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(bz)
}

func pids(set ...int) (o []*tss.PartyID) {
	for _, i := range set {
		o = append(o, allNodes[i].PartyId)
	}
	return
}

// presignBatch is a batch to save.
type presignBatch struct {
	work string
	set  []int // in the order the parties are passed
	n    int
}

var dbBatches = []presignBatch{
	{"w", []int{1, 0}, 1},
	{"w-1", []int{0, 1, 2}, 3},
	{"x'y%_\" \\", []int{2}, 2},
	{"none", []int{0}, 0},
}

func (b presignBatch) data() []*ecsigning.SignatureData_OneRoundData {
	d := presignData(b.work, b.n)
	for k := range d {
		d[k].KI = []byte(strings.Repeat(fmt.Sprint(k), 1+k%3*3000))
	}
	return d
}

func (b presignBatch) ids() (o []string) {
	for k := 0; k < b.n; k++ {
		o = append(o, fmt.Sprintf("%s-%d", b.work, k))
	}
	return
}

// dbState is what has to be in the database.
type dbState struct {
	pre   string            // preparameters
	keys  map[string]string // key type -> share
	data  map[string]string // presign id -> value
	used  map[string]bool
	pids  map[string]string
	peers map[string]string
}

func newDbState() *dbState {
	return &dbState{keys: map[string]string{}, data: map[string]string{}, used: map[string]bool{}, pids: map[string]string{}, peers: map[string]string{}}
}

func (s *dbState) clone() *dbState {
	c := newDbState()
	c.pre = s.pre
	for _, p := range [][2]map[string]string{{c.keys, s.keys}, {c.data, s.data}, {c.pids, s.pids}, {c.peers, s.peers}} {
		for k, v := range p[1] {
			p[0][k] = v
		}
	}
	for k, v := range s.used {
		c.used[k] = v
	}
	return c
}

// dbWorld is a database under test and its expected content.
type dbWorld struct {
	mem bool
	d   db.Database
	m   *dbState
}

func dbConfig(mem bool) *config.DbConfig {
	c := config.GetLocalhostDbConfig()
	c.Schema = "dheart"
	c.InMemory = mem
	return &c
}

func openDb(mem bool) *dbWorld {
	w := &dbWorld{mem: mem, d: db.NewDatabase(dbConfig(mem)), m: newDbState()}
	err := w.d.Init()
	mc.Check(err == nil, "init", "a reachable database cannot be opened: %v", err)
	return w
}

func (w *dbWorld) restart() {
	w.d.Close()
	w.d = db.NewDatabase(dbConfig(w.mem))
	err := w.d.Init()
	mc.Check(err == nil, "reopen", "the database cannot be opened again: %v", err)
}

type dbOp struct {
	name string
	// do calls the database; the new expected state if it succeeds
	do func(d db.Database) error
	to func(s *dbState)
	ok func(s *dbState) bool // nil: has to succeed in every state
}

func saveKey(ed bool, kt, work, seed string) dbOp {
	o := dbOp{name: fmt.Sprintf("save %s share of %s", kt, seed)}
	var v interface{}
	if ed {
		x := tssfake.EdShare(seed, allNodes[0].PartyId)
		v = x
		o.do = func(d db.Database) error {
			mc.Elapse(time.Second)
			return d.SaveEdKeygen(kt, work, pids(0, 1), x)
		}
	} else {
		x := tssfake.EcShare(seed, allNodes[0].PartyId)
		v = x
		o.do = func(d db.Database) error {
			mc.Elapse(time.Second)
			return d.SaveEcKeygen(kt, work, pids(0, 1), x)
		}
	}
	o.to = func(s *dbState) { s.keys[kt], s.keys[kt+"/"+work] = js(v), js(v) }
	o.ok = func(s *dbState) bool { _, has := s.keys[kt+"/"+work]; return !has }
	return o
}

func savePre(i int) dbOp {
	v := tssfake.PreParams(i)
	return dbOp{fmt.Sprint("save preparameters ", i), func(d db.Database) error { return d.SavePreparams(v) },
		func(s *dbState) { s.pre = js(v) }, func(s *dbState) bool { return s.pre == "" }}
}

func saveBatch(b presignBatch) dbOp {
	return dbOp{fmt.Sprintf("save %d values of %s", b.n, b.work),
		func(d db.Database) error { return d.SavePresignData(b.work, pids(b.set...), b.data()) },
		func(s *dbState) {
			var names []string
			for _, i := range b.set {
				names = append(names, pid(i))
			}
			sort.Strings(names)
			for k, x := range b.data() {
				id := b.ids()[k]
				s.data[id], s.pids[id], s.used[id] = js(x), strings.Join(names, ","), false
			}
		},
		func(s *dbState) bool { _, has := s.data[b.work+"-0"]; return !has }}
}

func markUsed(ids ...string) dbOp {
	return dbOp{fmt.Sprintf("mark %q", ids),
		func(d db.Database) error { return d.UpdatePresignStatus(append([]string(nil), ids...)) },
		func(s *dbState) {
			for _, id := range ids {
				if _, has := s.data[id]; has {
					s.used[id] = true
				}
			}
		},
		func(s *dbState) bool {
			for _, id := range ids {
				if _, has := s.data[id]; !has {
					return false // may be refused
				}
			}
			return len(ids) > 0
		}}
}

func savePeers(ps ...*p2ptypes.Peer) dbOp {
	return dbOp{fmt.Sprintf("save %d peers", len(ps)),
		func(d db.Database) error { return d.SavePeers(ps) },
		func(s *dbState) {
			for _, p := range ps {
				s.peers[p.PubKey] = js(p)
			}
		},
		func(s *dbState) bool {
			for _, p := range ps {
				if _, has := s.peers[p.PubKey]; has {
					return false
				}
			}
			return len(ps) > 0
		}}
}

func dbOps() []dbOp {
	ops := []dbOp{
		saveKey(false, "ecdsa", "k1", "a"), saveKey(true, "eddsa", "k1", "b"), saveKey(false, "ecdsa", "k0", "c"), saveKey(true, "eddsa", "k0", "d"), savePre(1), savePre(2),
		markUsed("w-0"), markUsed("w-1-1", "w-0"), markUsed("x'y%_\" \\-1", "absent"), markUsed(), markUsed("w-1-2", "w-1-0", "w-1-1"),
	}
	for _, b := range dbBatches {
		ops = append(ops, saveBatch(b))
	}
	return ops
}

// run does one operation; the state afterwards is the old one or the new one.
func (w *dbWorld) run(o dbOp) {
	err := o.do(w.d)
	mc.Note("%s: %v", o.name, err)
	mc.Check(err == nil || o.ok != nil && !o.ok(w.m), "refused", "%s fails: %v", o.name, err)
	if err == nil {
		o.to(w.m)
	}
}

// orders are the lists of ids asked for.
func (s *dbState) orders() (o [][]string) {
	var ids []string
	for id := range s.data {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	o = append(o, ids)
	var rev []string
	for i := len(ids) - 1; i >= 0; i-- {
		rev = append(rev, ids[i])
	}
	o = append(o, rev)
	for i := range ids {
		o = append(o, ids[i:i+1])
		for j := range ids {
			if i != j {
				o = append(o, []string{ids[i], ids[j]})
			}
		}
	}
	o = append(o, []string{"absent"}, append([]string{"absent"}, ids...), append(append([]string{}, rev...), "w"))
	return
}

// verify reads everything. lost: calls may fail.
func (w *dbWorld) verify(lost bool) {
	s := w.m
	fail := func(what string, err error) bool {
		if err == nil {
			return false
		}
		mc.Check(lost, "load-fails", "%s: %v", what, err)
		return true
	}
	pre, err := w.d.LoadPreparams()
	if s.pre == "" {
		mc.Check(pre == nil, "made-up", "preparameters nobody saved are loaded")
		mc.Check(errors.Is(err, db.ErrNotFound) || lost && err != nil, "not-found", "absent preparameters give %v", err)
	} else if !fail("load preparameters", err) {
		mc.Check(pre != nil && js(pre) == s.pre, "preparams", "preparameters %s are read back for %s", js(pre), s.pre)
	} else {
		mc.Check(!errors.Is(err, db.ErrNotFound), "lost-as-absent", "a failing call says that there are no preparameters")
		mc.Check(pre == nil, "data-and-error", "a failed call returns data")
	}
	ec, err := w.d.LoadEcKeygen("ecdsa")
	if !fail("load ecdsa share", err) {
		want, has := s.keys["ecdsa"]
		mc.Check(has == (ec != nil), "share-presence", "ecdsa share saved: %v, loaded: %v", has, ec != nil)
		mc.Check(!has || js(ec) == want, "share", "the ecdsa share is not read back as saved")
	}
	ed, err := w.d.LoadEdKeygen("eddsa")
	if !fail("load eddsa share", err) {
		want, has := s.keys["eddsa"]
		mc.Check(has == (ed != nil), "share-presence", "eddsa share saved: %v, loaded: %v", has, ed != nil)
		mc.Check(!has || js(ed) == want, "share", "the eddsa share is not read back as saved")
	}
	for _, ids := range s.orders() {
		if len(ids) == 0 {
			continue // nothing is asked for
		}
		missing := false
		for _, id := range ids {
			_, has := s.data[id]
			missing = missing || !has
		}
		vals, err := w.d.LoadPresign(append([]string(nil), ids...))
		if missing {
			mc.Check(err != nil, "missing-no-error", "loading %q of which some do not exist gives no error", ids)
		} else if !fail(fmt.Sprintf("load %q", ids), err) {
			mc.Check(len(vals) == len(ids), "presign-count", "loading %q gives %d values", ids, len(vals))
			for i := range ids {
				mc.Check(vals[i] != nil && js(vals[i]) == s.data[ids[i]], "presign-order", "loading %q: value %d is not that of %s", ids, i, ids[i])
			}
		}
		stats, err := w.d.LoadPresignStatus(append([]string(nil), ids...))
		if missing {
			mc.Check(err != nil, "missing-no-error", "asking the status of %q of which some do not exist gives no error", ids)
		} else if !fail(fmt.Sprintf("status of %q", ids), err) {
			mc.Check(len(stats) == len(ids), "status-count", "asking the status of %q gives %v", ids, stats)
			for i := range ids {
				want := db.PresignStatusNotUsed
				if s.used[ids[i]] {
					want = db.PresignStatusUsed
				}
				mc.Check(stats[i] == want, "status-order", "the status of %q is %v: number %d should be %s", ids, stats, i, want)
			}
		}
	}
	ids, ps, err := w.d.GetAvailablePresignShortForm()
	if !fail("list unused", err) {
		mc.Check(len(ids) == len(ps), "unused-shape", "%d unused values with %d sets of parties", len(ids), len(ps))
		seen := map[string]bool{}
		for i, id := range ids {
			_, has := s.data[id]
			mc.Check(has && !s.used[id] && !seen[id], "unused", "%s is listed as unused", id)
			mc.Check(ps[i] == s.pids[id], "unused-parties", "%s is listed with parties %s, not %s", id, ps[i], s.pids[id])
			seen[id] = true
		}
		for id := range s.data {
			mc.Check(s.used[id] || seen[id], "unused", "an unused value is not listed")
		}
	}
}

// reverse lets the database answer in either order.
func reverse() {
	sql.W().Reverse = func(string, int) bool { return mc.Choose(2, 1) == 1 }
}

func dbSequence(mem bool, depth int, devs bool) func() {
	return func() {
		if devs {
			reverse()
		}
		w := openDb(mem)
		w.verify(false)
		ops := dbOps()
		for k := 0; k < depth; k++ {
			n := len(ops) + 1
			if !mem {
				n++
			}
			switch i := mc.Choose(n, 0); {
			case i < len(ops):
				w.run(ops[i])
			case i == len(ops):
				mc.Elapse(70 * time.Second)
			default:
				w.restart()
			}
		}
		w.verify(false)
		mc.Check(sql.W().Open == 0, "rows-open", "%d results are never closed", sql.W().Open)
	}
}

// dbSizes: batches of any size
func dbSizes(mem bool) func() {
	return func() {
		n := []int{1, 2, 3, 5, 7, 9, 10, 11, 17, 33, 64, 101, 129}[mc.Choose(13, 0)]
		w := openDb(mem)
		w.run(saveBatch(presignBatch{work: "other", n: 3, set: []int{0, 1}}))
		b := presignBatch{work: "big", n: n, set: []int{1, 0}}
		w.run(saveBatch(b))
		mc.Check(w.m.data[fmt.Sprintf("big-%d", n-1)] != "", "refused", "a batch of %d is not stored", n)
		ids := b.ids()
		check := func() {
			for _, l := range [][]string{ids, append(append([]string{}, ids[n/2:]...), ids[:n/2]...), {ids[n-1], ids[0]}, append([]string{"other-1"}, ids...)} {
				if n == 1 && len(l) == 2 && l[0] == l[1] {
					continue
				}
				vals, err := w.d.LoadPresign(append([]string(nil), l...))
				mc.Check(err == nil && len(vals) == len(l), "presign-count", "loading %d values gives %d, %v", len(l), len(vals), err)
				stats, err := w.d.LoadPresignStatus(append([]string(nil), l...))
				mc.Check(err == nil && len(stats) == len(l), "status-count", "asking the status of %d values gives %d, %v", len(l), len(stats), err)
				for i, id := range l {
					mc.Check(vals[i] != nil && js(vals[i]) == w.m.data[id], "presign-order", "loading %q: value %d is not that of %s", l, i, id)
					mc.Check((stats[i] == db.PresignStatusUsed) == w.m.used[id], "status-order", "the status of %s is %s", id, stats[i])
				}
			}
			got, _, err := w.d.GetAvailablePresignShortForm()
			free := 0
			for _, id := range got {
				mc.Check(w.m.data[id] != "" && !w.m.used[id], "unused", "%s is listed as unused", id)
				free++
			}
			for id := range w.m.data {
				if !w.m.used[id] {
					free--
				}
			}
			mc.Check(err == nil && free == 0, "unused", "the list of unused values differs by %d, %v", free, err)
		}
		check()
		switch mc.Choose(3, 0) {
		case 0:
			w.run(markUsed(ids...))
		case 1:
			w.run(markUsed(ids[n/2:]...))
		case 2:
			w.run(markUsed(ids[n-1]))
		}
		check()
	}
}

// one failing call at any place of a history
func dbFault(mem bool) func() {
	return func() {
		armed, hit := false, false
		w := &dbWorld{mem: mem, m: newDbState()}
		sw := sql.W()
		sw.Fault = func(kind, q string) sql.Fault {
			if !armed || hit {
				return sql.OK
			}
			f := sql.Fault(mc.Choose(3, 1))
			hit = f != sql.OK
			return f
		}
		sw.RowFault = func(q string, row int) bool {
			if !armed || hit {
				return false
			}
			hit = mc.Choose(2, 1) == 1
			return hit
		}
		reliable := func(f func()) {
			old := armed
			armed = false
			f()
			armed = old
		}
		armed = true
		w.d = db.NewDatabase(dbConfig(mem))
		if err := w.d.Init(); err != nil {
			mc.Check(hit, "init", "a reachable database cannot be opened: %v", err)
			// once more
			w.d = db.NewDatabase(dbConfig(mem))
			if err := w.d.Init(); err != nil {
				return // an interrupted migration has to be repaired by hand
			}
		}
		wasHit := hit
		seq := [][]dbOp{
			{savePre(1), saveKey(false, "ecdsa", "k", "a"), saveBatch(dbBatches[1]), markUsed("w-1-1", "w-1-2")},
			{saveBatch(dbBatches[2]), markUsed("x'y%_\" \\-0"), saveKey(true, "eddsa", "k", "b"), savePeers(peerN(0), peerN(1))},
		}[mc.Choose(2, 0)]
		for _, o := range seq {
			before, after := w.m.clone(), w.m.clone()
			o.to(after)
			err := o.do(w.d)
			mc.Note("%s: %v", o.name, err)
			mc.Check(err == nil || hit && !wasHit, "refused", "%s fails: %v", o.name, err)
			if err == nil {
				w.m = after
			} else {
				wasHit = true
				// it took effect or not, but not by half
				reliable(func() {
					if w.holds(after) {
						w.m = after
					} else {
						w.m = before
					}
				})
			}
			reliable(func() { w.verify(false) })
		}
		w.verify(true)
		reliable(func() {
			w.verify(false)
			if !mem {
				w.restart()
				w.verify(false)
			}
		})
		mc.Check(sw.Open == 0, "rows-open", "%d results are never closed", sw.Open)
	}
}

// a failing call while a batch of any size is saved or marked
func dbSizeFault(mem bool) func() {
	return func() {
		sizes := []int{1, 2, 8, 16, 33, 65, 129, 300}
		n := sizes[mc.Choose(len(sizes), 0)]
		w := openDb(mem)
		w.run(saveBatch(presignBatch{work: "other", n: 3, set: []int{0, 1}}))
		armed, hit := false, false
		sql.W().Fault = func(kind, q string) sql.Fault {
			if !armed || hit {
				return sql.OK
			}
			f := sql.Fault(mc.Choose(3, 1))
			hit = f != sql.OK
			return f
		}
		free := func() (o []string) {
			armed = false
			got, _, err := w.d.GetAvailablePresignShortForm()
			mc.Check(err == nil, "unused", "the unused values cannot be listed: %v", err)
			for _, id := range got {
				if strings.HasPrefix(id, "big-") {
					o = append(o, id)
				}
			}
			armed = true
			return
		}
		b := presignBatch{work: "big", n: n, set: []int{1, 0}}
		ids := b.ids()
		armed = true
		op := saveBatch(b)
		err := op.do(w.d)
		mc.Check(err == nil || hit, "refused", "a batch of %d cannot be saved: %v", n, err)
		k := len(free())
		mc.Check(k == n || k == 0 && err != nil, "half", "saving %d values (%v) leaves %d", n, err, k)
		if k == 0 {
			armed = false
			err := op.do(w.d)
			mc.Check(err == nil && len(free()) == n, "again", "after a failure a batch of %d cannot be saved any more: %v", n, err)
			armed = true
		}
		// the status is of interest only if the database did not fail yet
		was := hit
		err = w.d.UpdatePresignStatus(append([]string(nil), ids[n/2:]...))
		mc.Check(err == nil || hit && !was, "refused", "marking fails: %v", err)
		k = len(free())
		mc.Check(k == n/2 || k == n && err != nil, "half-marked", "marking %d of %d values (%v) leaves %d unused", n-n/2, n, err, k)
	}
}

// holds: the content of the database is that of s, as far as a first look tells.
func (w *dbWorld) holds(s *dbState) bool {
	pre, _ := w.d.LoadPreparams()
	ec, _ := w.d.LoadEcKeygen("ecdsa")
	ed, _ := w.d.LoadEdKeygen("eddsa")
	ids, _, _ := w.d.GetAvailablePresignShortForm()
	unused := 0
	for id := range s.data {
		if !s.used[id] {
			unused++
		}
	}
	return (pre != nil) == (s.pre != "") && (ec != nil) == (s.keys["ecdsa"] != "") && (ed != nil) == (s.keys["eddsa"] != "") &&
		len(ids) == unused && len(w.d.LoadPeers()) == len(s.peers)
}

// stored bytes that do not decode are an error, and no number of failing or empty calls uses up the connections
func dbRepeat() {
	w := openDb(false)
	for _, o := range []dbOp{savePre(1), saveKey(false, "ecdsa", "k", "a"), saveKey(true, "eddsa", "k", "b"), saveBatch(dbBatches[1]), savePeers(peerN(0))} {
		w.run(o)
	}
	raw, err := sql.Open("mysql", "root@tcp(0.0.0.0:3306)/dheart")
	if err != nil {
		panic(err)
	}
	tamper := [][2]string{{"", ""},
		{"preparams", "UPDATE preparams SET preparams = ?"}, {"ec", "UPDATE keygen SET keygen_output = ? WHERE key_type='ecdsa'"},
		{"ed", "UPDATE keygen SET keygen_output = ? WHERE key_type='eddsa'"}, {"presign", "UPDATE presign SET presign_output = ? WHERE presign_id='w-1-1'"}}[mc.Choose(5, 0)]
	bad := []interface{}{[]byte(`{"ks":`), []byte("x"), []byte{}, []byte(`"a"`), nil}[mc.Choose(5, 0)]
	if tamper[0] != "" {
		if _, err := raw.Exec(tamper[1], bad); err != nil {
			panic(err)
		}
	}
	faulty := mc.Choose(3, 0)
	switch faulty {
	case 1:
		sql.W().Fault = func(kind, q string) sql.Fault { return sql.Before }
	case 2:
		sql.W().RowFault = func(q string, row int) bool { return true }
	}
	for k := 0; k < 13; k++ {
		calls := []struct {
			what string
			f    func() (interface{}, bool, error)
		}{
			{"preparams", func() (interface{}, bool, error) { x, err := w.d.LoadPreparams(); return x, x != nil, err }},
			{"ec", func() (interface{}, bool, error) { x, err := w.d.LoadEcKeygen("ecdsa"); return x, x != nil, err }},
			{"ed", func() (interface{}, bool, error) { x, err := w.d.LoadEdKeygen("eddsa"); return x, x != nil, err }},
			{"none", func() (interface{}, bool, error) { x, err := w.d.LoadEcKeygen("none"); return x, x != nil, err }},
			{"presign", func() (interface{}, bool, error) {
				x, err := w.d.LoadPresign([]string{"w-1-0", "w-1-1"})
				return x, len(x) != 0, err
			}},
			{"status", func() (interface{}, bool, error) {
				x, err := w.d.LoadPresignStatus([]string{"w-1-0", "w-1-1"})
				return x, len(x) != 0, err
			}},
			{"list", func() (interface{}, bool, error) {
				x, _, err := w.d.GetAvailablePresignShortForm()
				return x, len(x) != 0, err
			}},
		}
		for _, c := range calls {
			_, some, err := c.f()
			if faulty != 0 || c.what == tamper[0] {
				mc.Check(err != nil, "error-lost", "%s: a failing call or undecodable bytes give no error", c.what)
				mc.Check(!some, "data-and-error", "%s: data together with an error", c.what)
				mc.Check(!errors.Is(err, db.ErrNotFound), "lost-as-absent", "%s: a failing call counts as not found", c.what)
			} else {
				mc.Check(err == nil, "load-fails", "%s: %v", c.what, err)
			}
		}
		w.d.LoadPeers()
		if faulty == 1 {
			mc.Check(w.d.UpdatePresignStatus([]string{"w-1-0"}) != nil, "error-lost", "a failing update gives no error")
			mc.Check(w.d.SavePreparams(tssfake.PreParams(9)) != nil, "error-lost", "a failing save of preparameters gives no error")
			mc.Check(dbBatchSave(w.d, presignBatch{"z", []int{0}, 2}) != nil, "error-lost", "a failing save of presigned values gives no error")
			mc.Check(saveKey(false, "ecdsa", "z", "q").do(w.d) != nil, "error-lost", "a failing save of a share gives no error")
			mc.Check(saveKey(true, "eddsa", "z", "q").do(w.d) != nil, "error-lost", "a failing save of a share gives no error")
		}
	}
	sql.W().Fault, sql.W().RowFault = nil, nil
	if tamper[0] == "" {
		w.verify(false)
	}
}

func dbBatchSave(d db.Database, b presignBatch) error {
	return d.SavePresignData(b.work, pids(b.set...), b.data())
}

// callers at the same time
func dbConcurrent(mem bool) func() {
	return func() {
		w := openDb(mem)
		w.run(saveBatch(dbBatches[1]))
		ops := [][]dbOp{{savePre(1)}, {saveBatch(dbBatches[0]), markUsed("w-0")}, {markUsed("w-1-2")}}
		var gs []*mc.G
		for i := range ops {
			i := i
			gs = append(gs, mc.GoNamed(fmt.Sprint("caller", i), func() {
				for _, o := range ops[i] {
					err := o.do(w.d)
					mc.Check(err == nil, "refused", "%s fails: %v", o.name, err)
				}
				vals, err := w.d.LoadPresign([]string{"w-1-2", "w-1-0"})
				mc.Check(err == nil && len(vals) == 2, "load-fails", "loading next to other callers: %d values, %v", len(vals), err)
			}))
		}
		for _, g := range gs {
			g.Join()
		}
		for _, l := range ops {
			for _, o := range l {
				o.to(w.m)
			}
		}
		w.verify(false)
	}
}

// ------------------------------------------------------------ peers

func peerN(i int) *p2ptypes.Peer {
	k := fmt.Sprintf("%066x", i+1)
	return &p2ptypes.Peer{Address: fmt.Sprintf("/ip4/10.0.0.%d/tcp/28300", i), PubKey: k, PubKeyType: "secp256k1"}
}

func (w *dbWorld) verifyPeers() {
	got := w.d.LoadPeers()
	seen := map[string]bool{}
	for _, p := range got {
		mc.Check(p != nil, "nil-peer", "a peer that is read back is nil")
		want, has := w.m.peers[p.PubKey]
		mc.Check(has && !seen[p.PubKey], "made-up-peer", "peer %s was not saved", js(p))
		mc.Check(js(p) == want, "peer", "peer %s is read back as %s", want, js(p))
		seen[p.PubKey] = true
	}
	mc.Check(len(seen) == len(w.m.peers), "peer-lost", "%d of %d peers are read back", len(seen), len(w.m.peers))
}

func peerBook(mem bool, depth int) func() {
	return func() {
		w := openDb(mem)
		odd := &p2ptypes.Peer{Address: "/dns4/a'b%_\"\\/tcp/1", PubKey: "K'%\"", PubKeyType: "ed25519"}
		var many []*p2ptypes.Peer
		for i := 10; i < 40; i++ {
			many = append(many, peerN(i))
		}
		ops := []dbOp{savePeers(), savePeers(peerN(0)), savePeers(peerN(1), odd), savePeers(peerN(2), peerN(0), peerN(3)), savePeers(many...),
			savePeers(&p2ptypes.Peer{PubKey: "x"})}
		w.verifyPeers()
		for k := 0; k < depth; k++ {
			switch i := mc.Choose(len(ops)+2, 0); {
			case i < len(ops):
				w.run(ops[i])
			case i == len(ops):
				mc.Elapse(70 * time.Second)
			case !mem:
				w.restart()
			}
			w.verifyPeers()
		}
	}
}

func peerFault() {
	w := openDb(false)
	first := savePeers(peerN(0), peerN(1))
	w.run(first)
	hit := false
	sw := sql.W()
	mode := mc.Choose(3, 0)
	sw.Fault = func(kind, q string) sql.Fault {
		if mode == 2 || hit {
			return sql.OK
		}
		hit = true
		return sql.Fault(mode + 1)
	}
	at := mc.Choose(3, 0)
	sw.RowFault = func(q string, row int) bool {
		if mode != 2 || row != at || hit {
			return false
		}
		hit = true
		return true
	}
	if mode < 2 {
		o := savePeers(peerN(2))
		err := o.do(w.d)
		mc.Check(err != nil, "error-lost", "a failing save of peers gives no error")
		if mode == 1 {
			o.to(w.m)
		}
		w.verifyPeers()
		hit = false
	}
	for _, p := range w.d.LoadPeers() {
		_, has := w.m.peers[p.PubKey]
		mc.Check(has, "made-up-peer", "a failing call returns a peer nobody saved")
	}
	sw.Fault, sw.RowFault = nil, nil
	for k := 0; k < 12; k++ {
		w.verifyPeers()
	}
	w.restart()
	w.verifyPeers()
}

func init() {
	_ = eckeygen.LocalPreParams{}
	for _, mem := range []bool{false, true} {
		n := "mysql"
		if mem {
			n = "memory"
		}
		register("C20",
			&mc.Scenario{Name: "db-sequence-" + n, Sched: mc.Coop, Bounds: []int{0}, Body: dbSequence(mem, 3, false)},
			&mc.Scenario{Name: "db-sequence4-" + n, Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: dbSequence(mem, 4, false)},
			&mc.Scenario{Name: "db-order-" + n, Sched: mc.Coop, Bounds: []int{1}, Body: dbSequence(mem, 2, true)},
			&mc.Scenario{Name: "db-sizes-" + n, Sched: mc.Coop, Bounds: []int{0}, Body: dbSizes(mem)},
			&mc.Scenario{Name: "db-fault-" + n, Sched: mc.Coop, Bounds: []int{1}, Body: dbFault(mem)},
			&mc.Scenario{Name: "db-size-fault-" + n, Sched: mc.Coop, Bounds: []int{1}, Body: dbSizeFault(mem)},
			&mc.Scenario{Name: "db-concurrent-" + n, Sched: mc.Delay, Bounds: []int{0, 1, 2}, Race: true, Body: dbConcurrent(mem)},
		)
		register("C29",
			&mc.Scenario{Name: "peers-" + n, Sched: mc.Coop, Bounds: []int{0}, Body: peerBook(mem, 3)})
	}
	register("C20", &mc.Scenario{Name: "db-repeat", Sched: mc.Coop, Bounds: []int{0}, Body: dbRepeat})
	register("C29", &mc.Scenario{Name: "peers-fault", Sched: mc.Coop, Bounds: []int{0}, Body: peerFault})
	assume("C20",
		"The mysql server is represented by a sqlite engine behind a stand-in for database/sql that keeps its contents over restarts, refuses IN (), and answers statements without ORDER BY in either order; mysql's own limits (BLOB of 64 KB, packet size, collation) are not represented.",
		"Shares of one key type are saved at least a second apart, the resolution of the stored time.")
}
