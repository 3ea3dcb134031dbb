// Package mc is a stateless model checker for Go code whose synchronisation,
// channels, goroutines, clock and map iteration have been redirected to it.
//
// One execution is driven at a time: exactly one goroutine ("G") runs, and it
// hands the baton over at scheduling points.  Every source of nondeterminism
// (which G runs next, which ready select case, the order of a map range, the
// moment a timer fires, the answer of a fault point) is a numbered choice, so
// an execution is determined by its list of deviations from choice 0 and can
// be replayed.
package mc

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- choices

type point struct {
	n     int
	kind  byte
	costs []uint8 // nil: alternatives cost 1
	cost1 uint8   // uniform cost of alternatives >0 when costs == nil
}

func (p *point) cost(alt int) int {
	if alt == 0 {
		return 0
	}
	if p.costs != nil {
		return int(p.costs[alt])
	}
	return int(p.cost1)
}

// Dev is a deviation from the default: at choice point Pos take Alt.
type Dev struct {
	Pos, Alt int
	N        int // number of alternatives seen when the deviation was generated (0: unknown)
}

// SchedMode says how scheduling alternatives are charged.
type SchedMode int

const (
	// Delay: any departure from the deterministic default schedule costs 1.
	Delay SchedMode = iota
	// Preempt: switching away from a runnable G costs 1, the choice of the next
	// G when the current one blocks is free.
	Preempt
	// Full: every interleaving is free.
	Full
	// Coop: as Delay, but a G is only replaced when it blocks or ends.
	Coop
	// Fixed: default schedule only.
	Fixed
)

// Scenario is one closed harness body with its exploration options.
type Scenario struct {
	Name       string
	Sched      SchedMode
	Bounds     []int // deviation bounds to run, in order (quick)
	BoundsDeep []int // thorough
	Deep       bool  // thorough only
	MaxSteps   int
	MaxTime    time.Duration // virtual time horizon, 0 = 24h
	Race       bool          // happens-before race detection
	TimerDev   bool          // a timer may fire early as a deviation
	MapDev     bool          // map range order is explored (cost 1), else sorted order
	MapFree    bool          // map range order is explored at cost 0
	SwitchCap  int           // if >0 at most this many alternatives per scheduling point
	Body       func()
}

// ---------------------------------------------------------------- execution

type G struct {
	id     int
	name   string
	resume chan struct{}
	done   bool
	// pending operation
	enabled func() bool
	what    string
	where   string
	daemon  bool
	vc      VC
	quiesce bool
}

type timer struct {
	when    int64
	seq     int
	fire    func()
	stopped bool
	fired   bool
	vc      VC
	auto    bool
}

// Exec is one execution.
type Exec struct {
	foreign VC
	id        int
	sc        *Scenario
	devs      []Dev
	devi      int
	points    []point
	gs        []*G
	cur       *G
	now       int64
	timers    []*timer
	tseq      int
	steps     int
	aborting  bool
	onPanic   func(string) bool
	stopped   bool
	calm      bool
	finished  chan struct{}
	viol      *Violation
	outcome   []string
	notes     []string
	trace     []string
	tracing   bool
	cells     map[uintptr]*cell
	chans     map[unsafe.Pointer]*chanState
	ended     bool
	truncated string
	diverged  bool
	epochs    int
	locals    map[string]interface{}
}

type Violation struct {
	Key    string
	Detail string
}

var cur *Exec
var execSeq int
var beat int64 // progress heartbeat for the watchdog

// Active reports whether an execution is in progress.
func Active() bool { return cur != nil && !cur.aborting }

func E() *Exec { return cur }

const baseTime = int64(1_600_000_000_000_000_000)

// Now is the virtual clock in ns.
func Now() int64 {
	if cur == nil {
		return baseTime
	}
	return baseTime + cur.now
}

// Calm switches the exploration of schedules and of map orders off, for a part of an execution (a setup, say) which
// is not what a scenario is about; choices by Choose remain.
func Calm(on bool) {
	if cur != nil {
		cur.calm = on
	}
}

// Choose is a data choice with n alternatives; alternatives other than 0 cost `cost`.
func Choose(n int, cost int) int {
	return chooseKind(n, uint8(cost), 'd')
}

func chooseKind(n int, cost uint8, kind byte) int {
	e := cur
	if e == nil || e.aborting || n <= 1 {
		return 0
	}
	return e.choose(point{n: n, kind: kind, cost1: cost})
}

func (e *Exec) choose(p point) int {
	pos := len(e.points)
	e.points = append(e.points, p)
	if e.devi < len(e.devs) && e.devs[e.devi].Pos == pos {
		a := e.devs[e.devi].Alt
		if n := e.devs[e.devi].N; n != 0 && n != p.n {
			e.diverged = true
		}
		e.devi++
		if a >= p.n {
			e.diverged = true
			return 0
		}
		return a
	}
	return 0
}

// Fail records a property violation and ends the execution.
func Fail(key string, format string, args ...interface{}) {
	e := cur
	if e == nil {
		panic("mc.Fail outside execution: " + key + ": " + fmt.Sprintf(format, args...))
	}
	if e.viol == nil && !e.aborting {
		e.viol = &Violation{Key: key, Detail: fmt.Sprintf(format, args...)}
	}
	e.end()
	if e.cur != nil && !e.aborting {
		e.park(e.cur)
	}
	runtime.Goexit()
}

// OnPanic sets what decides whether a panic is the end of the program that was asked for: then the execution ends.
func OnPanic(f func(what string) bool) { cur.onPanic = f }

// Exit ends the program under test.
func Exit(code int) { panic(fmt.Sprintf("exit with code %d", code)) }

// Check fails with key if !ok.
func Check(ok bool, key string, format string, args ...interface{}) {
	if !ok {
		Fail(key, format, args...)
	}
}

// Outcome appends to the observable outcome of this execution.
func Outcome(format string, args ...interface{}) {
	if cur != nil {
		cur.outcome = append(cur.outcome, fmt.Sprintf(format, args...))
	}
}

// Note adds a line to the replay trace.
func Note(format string, args ...interface{}) {
	if cur != nil && cur.tracing {
		cur.trace = append(cur.trace, fmt.Sprintf("[%s] t=%s %s", cur.cur.name, time.Duration(cur.now), fmt.Sprintf(format, args...)))
	}
}

func Tracing() bool { return cur != nil && cur.tracing }

// Local is per-execution storage for shims.
func Local(key string, mk func() interface{}) interface{} {
	v, ok := cur.locals[key]
	if !ok {
		v = mk()
		cur.locals[key] = v
	}
	return v
}

func (e *Exec) end() {
	if !e.ended {
		e.ended = true
	}
}

// park stops the current G forever (until abort).
func (e *Exec) park(g *G) {
	g.enabled = func() bool { return false }
	g.what = "parked"
	e.toController()
	<-g.resume
	runtime.Goexit()
}

func (e *Exec) toController() { e.finished <- struct{}{} }

// yield is a scheduling point: the current G may continue once enabled() holds.
func yield(what string, enabled func() bool) {
	e := cur
	if e == nil {
		if enabled != nil && !enabled() {
			panic("mc: blocking operation outside execution: " + what)
		}
		return
	}
	if e.aborting {
		return
	}
	g := e.cur
	g.enabled = enabled
	g.what = what
	if e.tracing {
		g.where = caller()
	}
	e.sched(g)
	g.enabled = nil
	g.what = ""
}

func caller() string {
	pcs := make([]uintptr, 24)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.File, "/zzmc/") && !strings.Contains(f.File, "/usr/lib/go") && strings.Contains(f.Function, "dheart") {
			i := strings.Index(f.File, "/src/")
			s := f.File
			if i >= 0 {
				s = s[i+5:]
			}
			return fmt.Sprintf("%s:%d", s, f.Line)
		}
		if !more {
			return ""
		}
	}
}

func isEnabled(g *G) bool {
	return !g.done && !g.quiesce && (g.enabled == nil || g.enabled())
}

func (e *Exec) fireDue() {
	for {
		var best *timer
		for _, t := range e.timers {
			if t.when <= e.now && (best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq)) {
				best = t
			}
		}
		if best == nil {
			return
		}
		e.fire(best)
	}
}

func (e *Exec) fire(t *timer) {
	for i, x := range e.timers {
		if x == t {
			e.timers = append(e.timers[:i], e.timers[i+1:]...)
			break
		}
	}
	if t.when > e.now {
		e.now = t.when
	}
	t.fired = true
	if e.tracing {
		e.trace = append(e.trace, fmt.Sprintf("[clock] t=%s timer fires", time.Duration(e.now)))
	}
	t.fire()
}

func (e *Exec) nextTimer() *timer {
	var best *timer
	for _, t := range e.timers {
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

// sched picks the next G; g is the G at the scheduling point (nil if it just ended).
func (e *Exec) sched(g *G) {
	atomic.AddInt64(&beat, 1)
	e.steps++
	if e.ended {
		if g != nil {
			e.park(g)
		}
		e.toController()
		return
	}
	if e.steps > e.sc.MaxSteps {
		e.truncated = "steps"
		e.end()
		if g != nil {
			e.park(g)
		}
		e.toController()
		return
	}
	var next *G
	for {
		e.fireDue()
		cand := make([]*G, 0, 8)
		curEnabled := g != nil && isEnabled(g)
		if curEnabled {
			cand = append(cand, g)
		}
		start := 0
		if g != nil {
			start = g.id + 1
		} else if e.cur != nil {
			start = e.cur.id + 1
		}
		for i := 0; i < len(e.gs); i++ {
			x := e.gs[(start+i)%len(e.gs)]
			if x != g && isEnabled(x) {
				cand = append(cand, x)
			}
		}
		if len(cand) == 0 {
			// quiescence waiters first
			if q := e.quiescer(false); q != nil {
				q.quiesce = false
				next = q
				break
			}
			if t := e.nextTimer(); t != nil && t.when <= e.horizon() {
				e.fire(t)
				continue
			}
			if q := e.quiescer(true); q != nil {
				q.quiesce = false
				next = q
				break
			}
			// nothing can ever run again
			e.end()
			if g != nil {
				e.park(g)
			}
			e.toController()
			return
		}
		// early timer as a deviation
		nt := (*timer)(nil)
		if e.sc.TimerDev && !e.calm {
			nt = e.nextTimer()
			if nt != nil && nt.when > e.horizon() {
				nt = nil
			}
		}
		n := len(cand)
		if nt != nil {
			n++
		}
		idx := 0
		if n > 1 && !e.calm && e.sc.Sched != Fixed && !(e.sc.Sched == Coop && curEnabled) {
			p := point{n: n, kind: 's'}
			switch e.sc.Sched {
			case Delay, Coop:
				p.cost1 = 1
			case Preempt:
				if curEnabled {
					p.cost1 = 1
				} else {
					p.cost1 = 0
				}
				if nt != nil && p.cost1 == 0 {
					p.costs = make([]uint8, n)
					p.costs[n-1] = 1
				}
			case Full:
				p.cost1 = 0
				if nt != nil {
					p.costs = make([]uint8, n)
					p.costs[n-1] = 1
				}
			}
			idx = e.choose(p)
		}
		if nt != nil && idx == n-1 && idx >= len(cand) {
			e.fire(nt)
			continue
		}
		next = cand[idx]
		break
	}
	if e.tracing && next.what != "" {
		e.trace = append(e.trace, fmt.Sprintf("[%s] t=%s %s %s", next.name, time.Duration(e.now), next.what, next.where))
	}
	if next == g {
		return
	}
	e.cur = next
	next.resume <- struct{}{}
	if g == nil {
		return
	}
	<-g.resume
	if e.aborting {
		runtime.Goexit()
	}
}

func (e *Exec) horizon() int64 {
	if e.sc.MaxTime == 0 {
		return int64(24 * time.Hour)
	}
	return int64(e.sc.MaxTime)
}

func (e *Exec) quiescer(final bool) *G {
	for _, x := range e.gs {
		if x.quiesce && !x.done && (final || x.what == "settle") {
			return x
		}
	}
	return nil
}

// Settle blocks until no other G can run without the clock advancing.
func Settle() { quiesce("settle") }

// Quiesce blocks until no other G can run and no timer is pending within the horizon.
func Quiesce() { quiesce("quiesce") }

func quiesce(what string) {
	e := cur
	if e == nil || e.aborting {
		return
	}
	g := e.cur
	g.quiesce = true
	g.what = what
	e.sched(g)
	// everything that happened is now visible to the harness
	for _, x := range e.gs {
		g.vc = g.vc.join(x.vc)
	}
}

// Elapse lets virtual time pass by d while other Gs run.
func Elapse(d time.Duration) { Sleep(int64(d)) }

func (e *Exec) newG(name string, f func()) *G {
	g := &G{id: len(e.gs), name: name, resume: make(chan struct{}, 1)}
	if e.cur != nil {
		g.vc = e.cur.vc.copy()
		e.cur.vc = e.cur.vc.inc(e.cur.id)
	}
	g.vc = g.vc.inc(g.id)
	e.gs = append(e.gs, g)
	go func() {
		<-g.resume
		defer func() {
			r := recover()
			if r != nil && !e.aborting && e.onPanic != nil && e.onPanic(fmt.Sprint(r)) {
				e.stopped = true
				e.end()
			} else if r != nil && !e.aborting {
				if e.viol == nil {
					e.viol = &Violation{Key: "panic:" + panicSite(), Detail: fmt.Sprintf("panic in goroutine %s: %v\n%s", g.name, r, trimStack(debug.Stack()))}
				}
				e.end()
			}
			g.done = true
			if e.aborting {
				e.finished <- struct{}{}
				return
			}
			if e.ended {
				e.toController()
				return
			}
			e.sched(nil)
		}()
		if e.aborting {
			return
		}
		f()
	}()
	return g
}

func panicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	inPanic := false
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "runtime.") {
			if f.Function == "runtime.gopanic" || strings.Contains(f.Function, "runtime.panic") || f.Function == "runtime.sigpanic" {
				inPanic = true
			}
		} else if inPanic {
			if strings.Contains(f.Function, "sisu-network/dheart/") && !strings.Contains(f.Function, "/zzmc") {
				return f.Function[strings.LastIndex(f.Function, "dheart/")+7:]
			}
		}
		if !more {
			return "?"
		}
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Go starts f as a new G.
func Go(f func()) {
	e := cur
	if e == nil {
		panic("mc: go statement outside execution")
	}
	if e.aborting {
		return
	}
	name := fmt.Sprintf("g%d", len(e.gs))
	if e.tracing {
		name += "@" + caller()
	}
	e.newG(name, f)
}

// GoNamed starts f as a named G.
func GoNamed(name string, f func()) *G {
	e := cur
	if e == nil || e.aborting {
		return nil
	}
	return e.newG(name, f)
}

// Done reports whether the G has ended.
func (g *G) Done() bool { return g.done }

// Blocked says what g is waiting for ("" if it ended).
func (g *G) Blocked() string {
	if g.done {
		return ""
	}
	return g.what + " " + g.where
}

// Join blocks until g ends.
func (g *G) Join() {
	yield("join "+g.name, func() bool { return g.done })
	if cur != nil {
		cur.cur.vc = cur.cur.vc.join(g.vc)
	}
}

// Point is an explicit scheduling point.
func Point(what string) { yield(what, nil) }

// Block waits for cond (re-evaluated at every scheduling point).
func Block(what string, cond func() bool) { yield(what, cond) }

// Live returns the blocked Gs whose wait reason has the given prefix.
func Live(prefix string) []string {
	var out []string
	for _, g := range cur.gs {
		if !g.done && g != cur.cur && strings.HasPrefix(g.what, prefix) {
			out = append(out, g.name+": "+g.what)
		}
	}
	return out
}

// LiveCount is the number of Gs that have not ended, the caller excluded.
func LiveCount() int {
	n := 0
	for _, g := range cur.gs {
		if !g.done && g != cur.cur {
			n++
		}
	}
	return n
}

// Steps is the number of scheduling steps so far.
func Steps() int { return cur.steps }

// SetName names the current G for replay traces.
func SetName(n string) {
	if cur != nil && cur.cur != nil {
		cur.cur.name = n
	}
}

// RunOne performs one execution of sc with the given deviations.
func RunOne(sc *Scenario, devs []Dev, tracing bool) *Exec {
	execSeq++
	if sc.MaxSteps == 0 {
		sc.MaxSteps = 200000
	}
	e := &Exec{id: execSeq, sc: sc, devs: devs, finished: make(chan struct{}), tracing: tracing,
		chans: map[unsafe.Pointer]*chanState{}, locals: map[string]interface{}{}}
	if sc.Race {
		e.cells = map[uintptr]*cell{}
	}
	cur = e
	g := e.newG("main", func() {
		sc.Body()
		e.end()
	})
	e.cur = g
	g.resume <- struct{}{}
	<-e.finished
	// classify the way it stopped
	if e.viol == nil && e.truncated == "" && !g.done && !e.stopped {
		var w []string
		for _, x := range e.gs {
			if !x.done {
				w = append(w, x.name+": "+x.what+" "+x.where)
			}
		}
		e.viol = &Violation{Key: "deadlock", Detail: "no goroutine can run; waiting:\n  " + strings.Join(w, "\n  ")}
	}
	e.aborting = true
	for _, x := range e.gs {
		if !x.done {
			x.resume <- struct{}{}
			<-e.finished
		}
	}
	cur = nil
	if e.devi < len(e.devs) {
		e.diverged = true
	}
	return e
}

func (e *Exec) Outcomes() string { return strings.Join(e.outcome, "|") }

// Keys of a map in a deterministic order; the order is a choice if the scenario asks for it.
func Keys[M ~map[K]V, K comparable, V any](m M, site int) []K {
	MR(m, site)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	strs := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i, k := range keys {
		strs[i] = fmt.Sprint(any(k))
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
	out := make([]K, 0, len(keys))
	for _, i := range idx {
		out = append(out, keys[i])
	}
	e := cur
	if e == nil || e.aborting {
		return out
	}
	if !e.calm && (e.sc.MapDev || e.sc.MapFree) {
		c := uint8(1)
		if e.sc.MapFree {
			c = 0
		}
		for i := 0; i < len(out)-1; i++ {
			j := chooseKind(len(out)-i, c, 'm')
			if j > 0 {
				x := out[i+j]
				copy(out[i+1:i+j+1], out[i:i+j])
				out[i] = x
			}
		}
	}
	return out
}

func debugf(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, format, args...)
}

// MapIt drives a rewritten range over a map; the variables of the statement are shared by all iterations.
type MapIt[K comparable, V any] struct {
	ks   []K
	m    map[K]V
	site int
}

// MapIter starts a range over m.
func MapIter[M ~map[K]V, K comparable, V any](m M, site int) (k K, v V, it *MapIt[K, V]) {
	it = &MapIt[K, V]{ks: Keys[M, K, V](m, site), m: m, site: site}
	return
}

// Next moves to the next entry that is still in the map.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for len(it.ks) > 0 {
		x := it.ks[0]
		it.ks = it.ks[1:]
		MR(it.m, it.site)
		if y, ok := it.m[x]; ok {
			*k, *v = x, y
			return true
		}
	}
	return false
}

// SliceIt drives a rewritten range over the elements of a slice.
type SliceIt[T any] struct {
	s    []T
	i    int
	site int
}

// SliceIter starts a range over s.
func SliceIter[S ~[]T, T any](s S, site int) (i int, v T, it *SliceIt[T]) {
	it = &SliceIt[T]{s: s, site: site}
	return
}

// Next moves to the next element.
func (it *SliceIt[T]) Next(i *int, v *T) bool {
	if it.i >= len(it.s) {
		return false
	}
	p := &it.s[it.i]
	if unsafe.Sizeof(*p) > 0 {
		R(p, it.site)
	}
	*i, *v = it.i, *p
	it.i++
	return true
}
