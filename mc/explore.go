package mc

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Property groups the scenarios that decide one property.
type Property struct {
	ID          string
	Scenarios   []*Scenario
	Assumptions []string
}

// unit is a subtree of the choice tree: the execution Devs and, of its children
// in enumeration order, those with index >= From and index = Off mod Stride.
type unit struct {
	Devs    []Dev
	From    int
	Stride  int
	Off     int
	Counted bool // the execution Devs itself has been counted already
}

type job struct {
	Scenario string
	Bound    int
	Units    []unit
	SliceMs  int
	Max      int // stop after this many executions (0: none)
	Trace    bool
}

type foundViol struct {
	Key, Detail string
	Devs        []Dev
	Trace       []string
	Cost        int
}

type reply struct {
	Execs, Steps, Points, Truncated, Diverged int64
	Leaked                                    int64
	MaxPoints                                 int
	Outcomes                                  map[string]string // hash -> sample (new ones only)
	Viols                                     []foundViol
	ViolN                                     map[string]int64
	Rest                                      []unit
	Trace                                     []string
	Outcome                                   string
}

type frame struct {
	u    unit
	kids []Dev // all children in order
	next int
}

func totalCost(pts []point, devs []Dev) int {
	c := 0
	for _, d := range devs {
		if d.Pos < len(pts) {
			c += pts[d.Pos].cost(d.Alt)
		}
	}
	return c
}

func children(e *Exec, bound int) []Dev {
	last := -1
	if n := len(e.devs); n > 0 {
		last = e.devs[n-1].Pos
	}
	base := totalCost(e.points, e.devs)
	var out []Dev
	for p := last + 1; p < len(e.points); p++ {
		pt := &e.points[p]
		for a := 1; a < pt.n; a++ {
			if base+pt.cost(a) <= bound {
				out = append(out, Dev{Pos: p, Alt: a, N: pt.n})
			}
		}
	}
	return out
}

type violKeep struct {
	n int64
	v foundViol
}

func runJob(sc *Scenario, j *job, seenOut map[string]bool) *reply {
	rp := &reply{Outcomes: map[string]string{}, ViolN: map[string]int64{}}
	keep := map[string]*foundViol{}
	deadline := time.Now().Add(time.Duration(j.SliceMs) * time.Millisecond)
	var stack []*frame
	record := func(e *Exec) {
		rp.Execs++
		rp.Steps += int64(e.steps)
		// nodes of the choice tree that no other execution counts
		nw := len(e.points) + 1
		if n := len(e.devs); n > 0 {
			nw -= e.devs[n-1].Pos + 1
		}
		rp.Points += int64(nw)
		if len(e.points) > rp.MaxPoints {
			rp.MaxPoints = len(e.points)
		}
		if e.truncated != "" {
			rp.Truncated++
		}
		if e.diverged {
			rp.Diverged++
		}
		if e.viol != nil && !e.diverged {
			rp.ViolN[e.viol.Key]++
			c := totalCost(e.points, e.devs)
			if k := keep[e.viol.Key]; k == nil || c < k.Cost || (c == k.Cost && len(e.devs) < len(k.Devs)) {
				keep[e.viol.Key] = &foundViol{Key: e.viol.Key, Detail: e.viol.Detail, Devs: append([]Dev(nil), e.devs...), Cost: c}
			}
		}
		o := e.Outcomes()
		if e.viol != nil {
			o += " !" + e.viol.Key
		}
		h := fnv.New64a()
		io.WriteString(h, o)
		hs := fmt.Sprintf("%016x", h.Sum64())
		if !seenOut[hs] {
			seenOut[hs] = true
			if len(o) > 400 {
				o = o[:400]
			}
			rp.Outcomes[hs] = o
		}
	}
	push := func(u unit) {
		e := RunOne(sc, u.Devs, j.Trace)
		if j.Trace {
			rp.Trace = e.trace
			rp.Outcome = e.Outcomes()
		}
		if !u.Counted {
			record(e)
		}
		kids := children(e, j.Bound)
		if u.Stride == 0 {
			u.Stride = 1
		}
		if len(kids) > 0 {
			stack = append(stack, &frame{u: u, kids: kids, next: u.From})
		}
	}
	pending := append([]unit(nil), j.Units...)
	for {
		if len(stack) == 0 {
			if len(pending) == 0 {
				break
			}
			u := pending[0]
			pending = pending[1:]
			push(u)
			if j.Trace {
				break
			}
			continue
		}
		f := stack[len(stack)-1]
		for f.next < len(f.kids) && f.next%f.u.Stride != f.u.Off {
			f.next++
		}
		if f.next >= len(f.kids) {
			stack = stack[:len(stack)-1]
			continue
		}
		if rp.Execs > 0 && time.Now().After(deadline) { // never without progress
			break
		}
		d := append(append([]Dev(nil), f.u.Devs...), f.kids[f.next])
		f.next++
		push(unit{Devs: d, Stride: 1})
	}
	if !j.Trace {
		for _, f := range stack {
			for f.next < len(f.kids) && f.next%f.u.Stride != f.u.Off {
				f.next++
			}
			if f.next >= len(f.kids) {
				continue
			}
			if f.u.Stride > 1 || len(f.kids)-f.next > 1 {
				// split the rest in up to 8 strides
				n := (len(f.kids) - f.next + f.u.Stride - 1) / f.u.Stride
				k := 8
				if n < k {
					k = n
				}
				for i := 0; i < k; i++ {
					rp.Rest = append(rp.Rest, unit{Devs: f.u.Devs, From: f.next + i*f.u.Stride, Stride: f.u.Stride * k,
						Off: (f.next + i*f.u.Stride) % (f.u.Stride * k), Counted: true})
				}
			} else {
				rp.Rest = append(rp.Rest, unit{Devs: f.u.Devs, From: f.next, Stride: 1, Counted: true})
			}
		}
		rp.Rest = append(rp.Rest, pending...)
	}
	for _, v := range keep {
		rp.Viols = append(rp.Viols, *v)
	}
	return rp
}

// ------------------------------------------------------------------ worker

func workerMain(scs map[string]*Scenario) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	// anything the code under test prints must not reach the protocol stream
	os.Stdout = os.Stderr
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			b := atomic.LoadInt64(&beat)
			if b != last || cur == nil {
				last, since = b, time.Now()
				continue
			}
			if time.Since(since) > hangAfter {
				if e := cur; e != nil {
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					bz, _ := json.Marshal(map[string]interface{}{"Hang": true, "Devs": e.devs, "Stack": string(buf)})
					fmt.Fprintf(os.Stderr, "\nMCHANG %s\n", bz)
				}
				os.Exit(7)
			}
		}
	}()
	seen := map[string]map[string]bool{}
	for {
		j := &job{}
		if err := dec.Decode(j); err != nil {
			return
		}
		sc := scs[j.Scenario]
		if seen[j.Scenario] == nil {
			seen[j.Scenario] = map[string]bool{}
		}
		rp := runJob(sc, j, seen[j.Scenario])
		enc.Encode(rp)
		out.Flush()
	}
}

var hangAfter = 30 * time.Second

// ------------------------------------------------------------------ coordinator

type workerProc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	enc    *json.Encoder
	dec    *json.Decoder
	stderr *tailBuf
}

type tailBuf struct {
	b []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<18 {
		t.b = append([]byte(nil), t.b[len(t.b)-(1<<17):]...)
	}
	return len(p), nil
}

func startWorker() *workerProc {
	c := exec.Command(os.Args[0], "-worker")
	w := &workerProc{cmd: c, stderr: &tailBuf{}}
	w.in, _ = c.StdinPipe()
	so, _ := c.StdoutPipe()
	c.Stderr = w.stderr
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start worker:", err)
		os.Exit(3)
	}
	w.enc = json.NewEncoder(w.in)
	w.dec = json.NewDecoder(bufio.NewReaderSize(so, 1<<20))
	return w
}

func (w *workerProc) do(j *job) (*reply, error) {
	if err := w.enc.Encode(j); err != nil {
		return nil, err
	}
	rp := &reply{}
	if err := w.dec.Decode(rp); err != nil {
		w.in.Close()
		w.cmd.Wait()
		return nil, err
	}
	return rp, nil
}

func (w *workerProc) kill() {
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

type scResult struct {
	Name           string            `json:"scenario"`
	Bound          int               `json:"bound_completed"`
	Target         int               `json:"bound_target"`
	Execs          int64             `json:"executions"`
	Steps          int64             `json:"steps"`
	Points         int64             `json:"choice_points"`
	MaxPoints      int               `json:"longest_execution_choice_points"`
	Truncated      int64             `json:"truncated"`
	Diverged       int64             `json:"diverged"`
	Outcomes       int               `json:"distinct_outcomes"`
	Wall           float64           `json:"wall_s"`
	Exhaustive     bool              `json:"exhaustive"`
	Mode           string            `json:"exploration"`
	Samples        []string          `json:"-"`
	outs           map[string]string `json:"-"`
	Viols          map[string]*foundViol
	ViolN          map[string]int64
	PartialExecs   int64   `json:"executions_beyond_completed_bound"`
	last           float64 // seconds of the last attempt
}

func modeName(sc *Scenario) string {
	s := map[SchedMode]string{Delay: "deviation-bounded schedules", Coop: "deviation-bounded schedules, switches at blocking operations only", Preempt: "preemption-bounded schedules", Full: "all schedules", Fixed: "data choices only"}[sc.Sched]
	if sc.TimerDev {
		s += " + early timers"
	}
	if sc.MapDev || sc.MapFree {
		s += " + map orders"
	}
	if sc.Race {
		s += " + happens-before races"
	}
	return s
}

// explore runs one scenario at one bound until done or deadline.
func explore(sc *Scenario, bound int, ws []*workerProc, deadline time.Time, res *scResult, stop func(*foundViol) bool) (complete bool) {
	type ret struct {
		w   int
		rp  *reply
		err error
		j   *job
	}
	ch := make(chan ret)
	queue := []unit{{Stride: 1}}
	busy := 0
	idle := map[int]bool{}
	for i := range ws {
		idle[i] = true
	}
	slice := 60
	stopped := false
	var execs, steps, points, trunc, div int64
	for {
		for len(queue) > 0 && len(idle) > 0 && !stopped && time.Now().Before(deadline) {
			var w int
			for w = range idle {
				break
			}
			delete(idle, w)
			n := 1
			if len(queue) > 4*len(ws) {
				n = len(queue) / (2 * len(ws))
				if n > 64 {
					n = 64
				}
			}
			us := append([]unit(nil), queue[:n]...)
			queue = queue[n:]
			sl := slice
			if left := int(time.Until(deadline)/time.Millisecond) + 5; left < sl {
				sl = left
			}
			j := &job{Scenario: sc.Name, Bound: bound, Units: us, SliceMs: sl}
			busy++
			go func() {
				rp, err := ws[w].do(j)
				ch <- ret{w, rp, err, j}
			}()
		}
		if busy == 0 {
			break
		}
		r := <-ch
		busy--
		if r.err != nil {
			// the worker died: attribute to the unit
			v := crashViolation(sc, ws[r.w], r.j)
			ws[r.w] = startWorker()
			idle[r.w] = true
			if v != nil {
				if res.Viols[v.Key] == nil {
					res.Viols[v.Key] = v
				}
				res.ViolN[v.Key]++
				if stop(v) {
					stopped = true
				}
			}
			continue
		}
		idle[r.w] = true
		rp := r.rp
		execs += rp.Execs
		steps += rp.Steps
		points += rp.Points
		trunc += rp.Truncated
		div += rp.Diverged
		if rp.MaxPoints > res.MaxPoints {
			res.MaxPoints = rp.MaxPoints
		}
		for h, s := range rp.Outcomes {
			res.outs[h] = s
		}
		for k, n := range rp.ViolN {
			res.ViolN[k] += n
		}
		for i := range rp.Viols {
			v := rp.Viols[i]
			if o := res.Viols[v.Key]; o == nil || v.Cost < o.Cost || (v.Cost == o.Cost && len(v.Devs) < len(o.Devs)) {
				res.Viols[v.Key] = &v
			}
			if stop(&v) {
				stopped = true
			}
		}
		queue = append(queue, rp.Rest...)
		if len(queue) > 3*len(ws) {
			slice = 400
		} else {
			slice = 60
		}
	}
	complete = len(queue) == 0 && !stopped
	if complete {
		res.Execs, res.Steps, res.Points, res.Truncated, res.Diverged = execs, steps, points, trunc, div
		res.PartialExecs = 0
		res.Bound = bound
	} else {
		res.PartialExecs = execs
		if execs > res.Execs {
			res.Execs, res.Steps, res.Points = execs, steps, points
		}
		if div > res.Diverged {
			res.Diverged = div
		}
	}
	return complete
}

// crashViolation re-runs the units of a job one execution at a time to find which one kills the process.
func crashViolation(sc *Scenario, w *workerProc, j *job) *foundViol {
	txt := string(w.stderr.b)
	key := "crash"
	var devs []Dev
	if i := strings.LastIndex(txt, "MCHANG "); i >= 0 {
		key = "hang"
		var h struct {
			Devs  []Dev
			Stack string
		}
		json.NewDecoder(strings.NewReader(txt[i+7:])).Decode(&h)
		devs = h.Devs
		txt = h.Stack
	} else {
		re := regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*)$`)
		if m := re.FindString(txt); m != "" {
			key = "crash:" + m
			if len(key) > 120 {
				key = key[:120]
			}
			txt = txt[strings.Index(txt, m):]
		}
		if len(j.Units) > 0 {
			devs = j.Units[0].Devs
		}
	}
	if len(txt) > 6000 {
		txt = txt[:6000]
	}
	return &foundViol{Key: key, Detail: txt, Devs: devs}
}

type knownEntry struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"` // exact scenario name
	Key      string `json:"key"`      // regular expression matching the whole violation key
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
	re       *regexp.Regexp
	seen     bool
}

func loadKnown(path, prop string) []*knownEntry {
	var out []*knownEntry
	bz, err := ioutil.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(bz), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		k := &knownEntry{}
		if err := json.Unmarshal([]byte(l), k); err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			os.Exit(3)
		}
		if k.Property != prop || k.Fixed != "" {
			continue
		}
		k.re = regexp.MustCompile("^(?:" + k.Key + ")$")
		out = append(out, k)
	}
	return out
}

type replayFile struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Key      string   `json:"key"`
	Detail   string   `json:"detail"`
	Devs     []Dev    `json:"deviations"`
	Trace    []string `json:"trace"`
}

// Main is the entry point of the harness binary.
func Main(props []*Property) {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "")
	evid := flag.String("evidence", "", "evidence file to write")
	known := flag.String("known", "", "known findings file")
	replay := flag.String("replay", "", "replay a violation file")
	replayDir := flag.String("replaydir", "", "")
	worker := flag.Bool("worker", false, "")
	only := flag.String("scenario", "", "only this scenario (regexp)")
	budget := flag.Float64("budget", 0, "seconds for the exploration (0: by tier)")
	nw := flag.Int("workers", 8, "")
	verbose := flag.Bool("v", false, "")
	bnd := flag.Int("bound", -1, "override bound")
	list := flag.Bool("list", false, "")
	seed := flag.Int("seed", 1, "")
	flag.Parse()
	scs := map[string]*Scenario{}
	for _, p := range props {
		for _, s := range p.Scenarios {
			if o := scs[s.Name]; o != nil && o != s {
				panic("duplicate scenario " + s.Name)
			}
			scs[s.Name] = s
		}
	}
	if *worker {
		workerMain(scs)
		return
	}
	if *list {
		for _, p := range props {
			fmt.Println(p.ID)
			for _, s := range p.Scenarios {
				fmt.Println("   ", s.Name, modeName(s), s.Bounds, s.BoundsDeep)
			}
		}
		return
	}
	if *replay != "" {
		bz, err := ioutil.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		rf := &replayFile{}
		if err := json.Unmarshal(bz, rf); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		e := RunOne(scs[rf.Scenario], rf.Devs, true)
		for _, l := range e.trace {
			fmt.Println(l)
		}
		fmt.Println("outcome:", e.Outcomes())
		if e.viol != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s: %s\n", rf.Property, *replay, e.viol.Key, e.viol.Detail)
			os.Exit(1)
		}
		fmt.Println("no violation")
		return
	}
	var p *Property
	for _, x := range props {
		if x.ID == *prop {
			p = x
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	start := time.Now()
	total := *budget
	if total == 0 {
		total = 60
		if *tier == "thorough" {
			total = 600
		}
	}
	kn := loadKnown(*known, p.ID)
	ws := make([]*workerProc, *nw)
	for i := range ws {
		ws[i] = startWorker()
	}
	deadline := start.Add(time.Duration(total * float64(time.Second)))
	var results []*scResult
	var bad *foundViol
	var badSc *Scenario
	re := regexp.MustCompile(*only)
	var todo []*Scenario
	for _, sc := range p.Scenarios {
		if re.MatchString(sc.Name) && (!sc.Deep || *tier == "thorough" || *only != "") {
			todo = append(todo, sc)
		}
	}
	matchKnown := func(sc *Scenario, key string) *knownEntry {
		for _, k := range kn {
			if k.Scenario == sc.Name && k.re.MatchString(key) {
				return k
			}
		}
		return nil
	}
	flaky := 0
	rejected := map[*Scenario]map[string]bool{}
	resOf := map[*Scenario]*scResult{}
	pending := map[*Scenario][]int{}
	// runScenario explores the bounds of a scenario that are not done yet.
	runScenario := func(sc *Scenario, share time.Duration) {
		res := resOf[sc]
		s0 := time.Now()
		if share < 300*time.Millisecond {
			share = 300 * time.Millisecond
		}
		dl := s0.Add(share)
		stop := func(v *foundViol) bool {
			if rejected[sc][v.Key] {
				return false
			}
			if k := matchKnown(sc, v.Key); k != nil {
				k.seen = true
				return false
			}
			return true
		}
		for len(pending[sc]) > 0 {
			b := pending[sc][0]
			ok := explore(sc, b, ws, dl, res, stop)
			// unknown violations?
			var keys []string
			for k := range res.Viols {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				v := res.Viols[k]
				if rejected[sc][k] {
					continue
				}
				if e := matchKnown(sc, k); e != nil {
					e.seen = true
					continue
				}
				if confirm(sc, v) {
					if bad == nil || v.Cost < bad.Cost {
						bad, badSc = v, sc
					}
				} else {
					flaky++
					rejected[sc][k] = true
				}
			}
			if *verbose {
				fmt.Fprintf(os.Stderr, "%s bound %d complete=%v execs=%d steps=%d outcomes=%d trunc=%d div=%d maxpts=%d %.1fs viol=%v\n", sc.Name, b, ok, res.Execs, res.Steps, len(res.outs), res.Truncated, res.Diverged, res.MaxPoints, time.Since(s0).Seconds(), res.ViolN)
			}
			if bad != nil || !ok {
				break
			}
			pending[sc] = pending[sc][1:]
		}
		res.last = time.Since(s0).Seconds()
		res.Wall += res.last
	}
	for i, sc := range todo {
		if bad != nil {
			break
		}
		res := &scResult{Name: sc.Name, Bound: -1, outs: map[string]string{}, Viols: map[string]*foundViol{}, ViolN: map[string]int64{}, Mode: modeName(sc)}
		results = append(results, res)
		resOf[sc], rejected[sc] = res, map[string]bool{}
		bounds := sc.Bounds
		if *tier == "thorough" && sc.BoundsDeep != nil {
			bounds = sc.BoundsDeep
		}
		if *bnd >= 0 {
			bounds = []int{*bnd}
		}
		if len(bounds) == 0 {
			bounds = []int{0}
		}
		res.Target = bounds[len(bounds)-1]
		pending[sc] = bounds
		left := time.Until(deadline)
		share := left / time.Duration(len(todo)-i) * 3
		if share > left || i == len(todo)-1 {
			share = left
		}
		runScenario(sc, share)
	}
	// The time that is left goes to the scenarios that did not get far enough.
	for bad == nil {
		var open []*Scenario
		for _, sc := range todo {
			if len(pending[sc]) > 0 {
				open = append(open, sc)
			}
		}
		progress := false
		for i, sc := range open {
			left := time.Until(deadline)
			share := left / time.Duration(len(open)-i) * 2
			if share > left {
				share = left
			}
			if bad != nil || share < time.Second || share.Seconds() < 1.5*resOf[sc].last {
				continue
			}
			n := len(pending[sc])
			runScenario(sc, share)
			progress = progress || len(pending[sc]) < n
		}
		if !progress {
			break
		}
	}
	for _, res := range results {
		for _, sc := range todo {
			if resOf[sc] == res {
				res.Exhaustive = len(pending[sc]) == 0 && res.Truncated == 0 && bad == nil
			}
		}
		res.Outcomes = len(res.outs)
		var hs []string
		for h := range res.outs {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		for i, h := range hs {
			if i < 3 {
				res.Samples = append(res.Samples, res.Name+": "+res.outs[h])
			}
		}
		if *verbose {
			for _, h := range hs {
				if len(hs) < 40 {
					fmt.Fprintln(os.Stderr, "   outcome", res.outs[h])
				}
			}
		}
	}
	for _, w := range ws {
		w.kill()
	}
	rc := 0
	var violOut []map[string]interface{}
	for _, k := range kn {
		if k.seen {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}
	if bad != nil {
		rc = 1
		tr := RunOne(badSc, bad.Devs, true)
		rf := &replayFile{Property: p.ID, Scenario: badSc.Name, Key: bad.Key, Detail: bad.Detail, Devs: bad.Devs, Trace: tr.trace}
		if len(rf.Trace) > 4000 {
			rf.Trace = append(rf.Trace[:2000], rf.Trace[len(rf.Trace)-2000:]...)
		}
		os.MkdirAll(*replayDir, 0755)
		path := filepath.Join(*replayDir, p.ID+".json")
		bz, _ := json.MarshalIndent(rf, "", " ")
		ioutil.WriteFile(path, bz, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("scenario %s, %d deviations: %s\n%s\n", badSc.Name, len(bad.Devs), bad.Key, bad.Detail)
		violOut = append(violOut, map[string]interface{}{"scenario": badSc.Name, "key": bad.Key, "replay": path})
	}
	var states, trans, execs int64
	exh := true
	var samples []interface{}
	for _, r := range results {
		states += r.Points
		trans += r.Steps
		execs += r.Execs
		if !r.Exhaustive {
			exh = false
		}
		for _, s := range r.Samples {
			if len(samples) < 12 {
				samples = append(samples, s)
			}
		}
	}
	if *evid != "" {
		ev := map[string]interface{}{
			"property": p.ID, "tier": *tier, "seed": *seed, "level": "model_checking",
			"coverage": map[string]interface{}{
				"states": states, "transitions": trans, "traces_validated_against_impl": execs,
				"samples": samples, "exhaustive": exh, "scenarios": results,
				"meaning": "every execution is the real code (rewritten from the current tree) under the controlled scheduler; states = distinct nodes of the explored choice tree, transitions = scheduling steps, traces = distinct complete executions",
				"unreproducible_reports_discarded": flaky,
			},
			"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(violOut),
		}
		if violOut != nil {
			ev["violation_reports"] = violOut
		}
		if p.Assumptions == nil {
			ev["assumptions"] = []string{}
		}
		os.MkdirAll(filepath.Dir(*evid), 0755)
		bz, _ := json.MarshalIndent(ev, "", " ")
		ioutil.WriteFile(*evid, bz, 0644)
	}
	if rc == 0 {
		fmt.Printf("ok property=%s executions=%d steps=%d exhaustive=%v wall=%.1fs\n", p.ID, execs, trans, exh, time.Since(start).Seconds())
	}
	os.Exit(rc)
}

// confirm replays a violation in fresh processes.
func confirm(sc *Scenario, v *foundViol) bool {
	for i := 0; i < 3; i++ {
		w := startWorker()
		rp, err := w.do(&job{Scenario: sc.Name, Bound: -1, Units: []unit{{Devs: v.Devs, Stride: 1}}, SliceMs: 100000})
		ok := false
		if err != nil {
			ok = v.Key == "hang" || strings.HasPrefix(v.Key, "crash")
		} else {
			for _, x := range rp.Viols {
				if x.Key == v.Key {
					ok = true
				}
			}
			w.kill()
		}
		if !ok {
			return false
		}
	}
	return true
}
