package simtest

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/protobuf/encoding/protojson"

	"verifsim/netsim"
	"verifsim/simrt"
)

// Scenario is one complete, replayable run: the seed decides the schedule, the
// rest is explicit. When Ops is nil the profile's generator makes them up.
type Scenario struct {
	Prof string   `json:"prof"`
	Seed uint64   `json:"seed"`
	Env  *Env     `json:"env,omitempty"`
	Ops  []*Op    `json:"ops,omitempty"`
	Note []string `json:"note,omitempty"`
}

// Result is what came of a run.
type Result struct {
	Sc     Scenario       `json:"-"`
	Viol   []Violation    `json:"viol,omitempty"`
	Hash   string         `json:"hash"`
	Steps  int            `json:"steps"`
	Choice int            `json:"choices"`
	SimMs  int64          `json:"simms"`
	Stats  map[string]int `json:"stats"`
	Calls  map[string]int `json:"calls"`
	Yields map[string]int `json:"yields"`
	States []uint64       `json:"-"`
	Kinds  map[string]int `json:"kinds"`
	Trace  []string       `json:"-"`
	Ops    int            `json:"nops"`
	Oracle map[string]int `json:"oracle"`
}

// profile makes and judges the runs of one kind.
type profile struct {
	// env chooses the deployment for a seed.
	env func(r *simrt.Rand) *Env
	// run drives the simulation from the driver task. It fills s.ops.
	run func(s *Sim, sc *Scenario)
	// after judges when everything is over (outside any task).
	after func(s *Sim)
}

var profiles = map[string]*profile{}

// Run performs one scenario.
func Run(t *testing.T, sc Scenario, keep bool) *Result {
	p := profiles[sc.Prof]
	if p == nil {
		panic("harness: unknown profile " + sc.Prof)
	}
	var res *Result
	synctest.Test(t, func(t *testing.T) { res = runInBubble(p, sc, keep) })
	return res
}

func runInBubble(p *profile, sc Scenario, keep bool) *Result {
	if sc.Env == nil {
		sc.Env = p.env(simrt.NewRand(sc.Seed ^ 0xE5))
		if r := simrt.NewRand(sc.Seed ^ 0x5CA4); !sc.Env.memCache() && r.Bool(0.4) {
			sc.Env.Scan = []int{1, 2, 3, 10}[r.Intn(4)]
		}
	}
	s := &Sim{Env: *sc.Env, Seed: sc.Seed, Keep: keep, oracle: map[string]int{}}
	resetGlobals()
	s.S = simrt.NewSched(sc.Seed, simrt.Strategy{Kind: s.Env.Kind, Sticky: s.Env.Sticky, Change: s.Env.Change})
	s.S.MapMode = s.Env.MapMode
	s.S.PointGap = s.Env.PointGap
	s.setup()
	start := time.Now()
	if f := os.Getenv("VERIFSIM_STEPS"); f != "" {
		w, err := os.Create(fmt.Sprintf("%s.%d", f, sc.Seed))
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer w.Close()
		s.S.Trace = func(step int, t *simrt.Task, kind, detail, waiting string) {
			fmt.Fprintln(w, step, s.now(), t.ID, kind, detail, "<", waiting)
		}
	}
	s.S.Start()
	given := sc.Ops
	finished := false
	drv := s.S.Spawn("drv", nil, true, func(*simrt.Task) {
		defer simrt.Ordered()
		p.run(s, &sc)
		finished = true
	})
	ok := s.S.RunUntil(6*time.Hour, func() bool { return s.S.Done(drv) })
	simrt.Ordered()
	if drv.Panic != nil {
		panic(fmt.Sprintf("harness: driver of seed %d panicked: %v\n%s", sc.Seed, drv.Panic, drv.PanicStk))
	}
	if !ok || !finished {
		if s.S.Steps > s.S.MaxStep {
			s.violate(len(s.Hist)-1, "livelock", "the run did not end within the step budget; unfinished: "+s.S.Stuck(), s.hangProps()...)
		} else {
			s.violate(len(s.Hist)-1, "hang", "the system is stuck; unfinished tasks: "+s.S.Stuck(), s.hangProps()...)
		}
	} else if p.after != nil {
		p.after(s)
	}
	end := time.Now()
	// Background tasks which panicked.
	for _, t := range s.S.Panics {
		if !s.opPanic[t] && !t.Env {
			s.panickedTask(t)
		}
	}
	s.S.KillAll()
	s.W.Close()
	for i := 0; i < 200; i++ {
		if !s.S.Step() {
			if s.S.Live() == 0 {
				break
			}
			time.Sleep(time.Second)
		}
	}
	s.S.Stop()
	netsim.Cur = nil
	for i := 0; i < 20; i++ {
		synctest.Wait()
		time.Sleep(30 * time.Second)
	}
	if given == nil {
		sc.Ops = s.made
	}
	res := &Result{Sc: sc, Viol: append(s.Viol, s.Found...), Steps: s.S.Steps, Choice: s.S.Choices, SimMs: end.Sub(start).Milliseconds(), Stats: s.Net.Stats, Calls: s.Net.Calls, Yields: s.S.Yields, Trace: s.Trace, Ops: len(s.Hist), Kinds: map[string]int{}, Oracle: s.oracle}
	for _, e := range s.Hist {
		res.Kinds[e.Op.K]++
	}
	h := fnv.New64a()
	for _, e := range s.Hist {
		fmt.Fprintf(h, "%d %d %d %d %d %v %s|", e.I, e.S, e.E, e.T0, e.T1, e.Err != nil, e.Code)
		if e.Resp != nil {
			b, _ := protojson.Marshal(e.Resp)
			var v any
			_ = json.Unmarshal(b, &v)
			b, _ = json.Marshal(v)
			h.Write(b)
		}
	}
	res.Hash = fmt.Sprintf("%016x", s.S.Hash^h.Sum64())
	res.States = append(res.States, s.S.Hash)
	return res
}

// hangProps are the properties broken by a system that does not answer.
func (s *Sim) hangProps() []string {
	l := []string{"C24", "C25", "C01"}
	if s.Env.memory() {
		l = append(l, "C21")
	}
	if s.main != nil {
		l = append(l, "C20")
	}
	for _, ev := range s.Hist {
		if !ev.Done {
			l = append(l, opProps(ev.Op.K)...)
		}
	}
	return l
}

func (s *Sim) panickedTask(t *simrt.Task) {
	props := []string{"C24"}
	if s.Env.memory() {
		props = append(props, "C21")
	}
	if s.main != nil {
		props = append(props, "C20")
	}
	s.violate(-1, "panic", fmt.Sprintf("task %s panicked: %v", t.ID, t.Panic), props...)
}

// bootFailed reports that a process did not start although nothing was wrong.
func (s *Sim) bootFailed(n *Node) {
	s.violate(-1, "boot", "a process did not start although its dependencies were there: "+n.Err.Error(), "C28", "C24", "C01")
}

// dump writes down what is about to be performed, for the case that the process does not survive it.
func (s *Sim) dump(sc *Scenario) {
	f := os.Getenv("VERIFSIM_DUMP")
	if f == "" {
		return
	}
	c := *sc
	c.Ops = s.made
	b, _ := json.Marshal(c)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		panic("harness: " + err.Error())
	}
}

// Request is what the driver asks of a worker process.
type Request struct {
	Mode    string   `json:"mode"` // search, replay
	Prof    string   `json:"prof"`
	From    uint64   `json:"from"`
	Step    uint64   `json:"step"`
	N       int      `json:"n"`
	Budget  float64  `json:"budget"` // seconds
	Props   []string `json:"props"`  // violations of interest, all if empty
	Known   []string `json:"known"`  // "prop|kind" classes which are recorded findings
	File    string   `json:"file"`   // scenario to replay
	Out     string   `json:"out"`    // where replay files go
	Keep    bool     `json:"keep"`
	All     bool     `json:"all"` // go on after a violation
	MinSec  float64  `json:"minsec"`
	Hashes  bool     `json:"hashes"`  // tell of every run
	Oracles []string `json:"oracles"` // what makes a run count, any if empty
}

func emit(f *os.File, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	f.Write(append(b, '\n'))
}

// Summary is what a worker reports in the end.
type Summary struct {
	Type    string         `json:"type"`
	Runs    int            `json:"runs"`
	Ops     int            `json:"ops"`
	Steps   int            `json:"steps"`
	Choices int            `json:"choices"`
	SimMs   int64          `json:"simms"`
	Stats   map[string]int `json:"stats"`
	Calls   map[string]int `json:"calls"`
	Kinds   map[string]int `json:"kinds"`
	Yields  map[string]int `json:"yields"`
	Oracle  map[string]int `json:"oracle"`
	Engines map[string]int `json:"engines"`
	Good    []string       `json:"good"` // hashes of the runs which count
	Sample  map[string]any `json:"sample,omitempty"`
	Scheds  []string       `json:"scheds"`
	Last    uint64         `json:"last"`
	Known   map[string]int `json:"known"`
	Wall    float64        `json:"wall"`
}

func add(dst, src map[string]int) {
	for k, v := range src {
		dst[k] += v
	}
}

// counts says that one of the oracles judged something in the run.
func counts(r *Result, oracles []string) bool {
	for _, o := range oracles {
		if r.Oracle[o] > 0 {
			return true
		}
	}
	return len(oracles) == 0
}

// sample writes a run out for the evidence.
func sample(r *Result) map[string]any {
	n := len(r.Sc.Ops)
	return map[string]any{"seed": r.Sc.Seed, "deployment": r.Sc.Env, "hash": r.Hash, "operations": n, "first_operations": r.Sc.Ops[:min(n, 5)], "faults": r.Stats}
}

func match(v Violation, props []string) bool {
	if len(props) == 0 {
		return true
	}
	for _, p := range props {
		if p == v.Prop {
			return true
		}
	}
	return false
}

func pick(vs []Violation, props, known []string) (v Violation, ok bool, knowns []string) {
	for _, x := range vs {
		if !match(x, props) {
			continue
		}
		k := false
		for _, n := range known {
			if n == x.Prop+"|"+x.Kind {
				k = true
				knowns = append(knowns, n)
			}
		}
		if !k && !ok {
			v, ok = x, true
		}
	}
	return
}

// Serve is the worker.
func Serve(t *testing.T, req Request, out *os.File) {
	switch req.Mode {
	case "search":
		search(t, req, out)
	case "replay":
		b, err := os.ReadFile(req.File)
		if err != nil {
			t.Fatal(err)
		}
		var sc Scenario
		if err := json.Unmarshal(b, &sc); err != nil {
			t.Fatal(err)
		}
		warm(t, sc.Prof)
		r := Run(t, sc, true)
		emit(out, map[string]any{"type": "replay", "hash": r.Hash, "viol": r.Viol, "trace": r.Trace, "stats": r.Stats})
	default:
		t.Fatal("unknown mode")
	}
}

// warm makes one run before the first of a process whose runs start whole
// processes: what such a process does only the first time (the metrics server
// starts once) must not tell the first run, a replay, from the runs after it.
func warm(t *testing.T, prof string) {
	for _, p := range []string{"main", "wire-", "day-"} {
		if strings.HasPrefix(strings.TrimPrefix(prof, "race-"), p) {
			Run(t, Scenario{Prof: "main-mm", Seed: 1}, false)
			return
		}
	}
}

func search(t *testing.T, req Request, out *os.File) {
	began := wall()
	sum := Summary{Type: "summary", Stats: map[string]int{}, Calls: map[string]int{}, Kinds: map[string]int{}, Yields: map[string]int{}, Oracle: map[string]int{}, Engines: map[string]int{}, Known: map[string]int{}}
	step := req.Step
	if step == 0 {
		step = 1
	}
	for i := 0; i < req.N; i++ {
		if req.Budget > 0 && wall()-began > req.Budget {
			break
		}
		seed := req.From + uint64(i)*step
		emit(out, map[string]any{"type": "at", "seed": seed})
		if i == 0 {
			warm(t, req.Prof)
		}
		r := Run(t, Scenario{Prof: req.Prof, Seed: seed}, req.Keep)
		if req.Hashes {
			var vs []string
			for _, v := range r.Viol {
				vs = append(vs, v.String())
			}
			emit(out, map[string]any{"type": "run", "seed": seed, "hash": r.Hash, "steps": r.Steps, "simms": r.SimMs, "stats": r.Stats, "calls": r.Calls, "viol": vs})
		}
		sum.Runs++
		sum.Last = seed
		sum.Ops += r.Ops
		sum.Steps += r.Steps
		sum.Choices += r.Choice
		sum.SimMs += r.SimMs
		add(sum.Stats, r.Stats)
		add(sum.Calls, r.Calls)
		add(sum.Kinds, r.Kinds)
		add(sum.Yields, r.Yields)
		add(sum.Oracle, r.Oracle)
		sum.Engines[fmt.Sprintf("%s/%d", r.Sc.Env.Engine, r.Sc.Env.Nodes)]++
		if counts(r, req.Oracles) {
			sum.Good = append(sum.Good, r.Hash)
			if sum.Sample == nil {
				sum.Sample = sample(r)
			}
		}
		sum.Scheds = append(sum.Scheds, fmt.Sprintf("%016x", r.States[0]))
		if req.Keep {
			for _, l := range r.Trace {
				fmt.Println(l)
			}
		}
		v, bad, known := pick(r.Viol, req.Props, req.Known)
		for _, k := range known {
			sum.Known[k]++
		}
		if !bad {
			continue
		}
		ms := req.MinSec
		min := r
		if ms > 0 {
			min = Minimise(t, r, v, ms)
			v, _, _ = pick(min.Viol, []string{v.Prop}, req.Known)
		}
		rec := map[string]any{"type": "violation", "seed": seed, "prof": req.Prof, "viol": v, "all": r.Viol, "hash": min.Hash, "nops": len(min.Sc.Ops), "orig": len(r.Sc.Ops)}
		if req.Out != "" {
			min = Run(t, min.Sc, true)
			sc := min.Sc
			sc.Note = append([]string{"violation: " + v.String(), "hash: " + min.Hash}, min.Trace...)
			b, _ := json.MarshalIndent(sc, "", " ")
			f := fmt.Sprintf("%s/%s-%s-%d.json", req.Out, v.Prop, req.Prof, seed)
			if err := os.WriteFile(f, b, 0o644); err != nil {
				t.Fatal(err)
			}
			rec["file"] = f
			rec["trace"] = min.Trace
		}
		emit(out, rec)
		if !req.All {
			break
		}
	}
	sum.Wall = wall() - began
	emit(out, sum)
}

var wall0 = time.Now()

// wall is real time in seconds: it must be called outside bubbles.
func wall() float64 { return time.Since(wall0).Seconds() }

// Minimise cuts a failing run down, keeping a violation of the same property and
// kind.
func Minimise(t *testing.T, r *Result, v Violation, seconds float64) *Result {
	end := wall() + seconds
	best := r
	try := func(ops []*Op, env *Env) bool {
		if wall() > end {
			return false
		}
		sc := best.Sc
		sc.Ops = ops
		sc.Env = env
		if len(ops) == 0 {
			return false
		}
		n := Run(t, sc, false)
		for _, x := range n.Viol {
			if x.Prop == v.Prop && x.Kind == v.Kind {
				best = n
				return true
			}
		}
		return false
	}
	// Everything after the violation goes first.
	for pass := 0; pass < 3; pass++ {
		before := len(best.Sc.Ops)
		for size := (len(best.Sc.Ops) + 1) / 2; size >= 1; size /= 2 {
			for i := len(best.Sc.Ops); i > 0; i -= size {
				lo := i - size
				if lo < 0 {
					lo = 0
				}
				if i > len(best.Sc.Ops) {
					continue
				}
				ops := append(append([]*Op{}, best.Sc.Ops[:lo]...), best.Sc.Ops[i:]...)
				try(ops, best.Sc.Env)
				if wall() > end {
					return best
				}
			}
		}
		if len(best.Sc.Ops) == before {
			break
		}
	}
	mutate := func(i int, f func(o *Op)) {
		if i >= len(best.Sc.Ops) {
			return
		}
		ops := append([]*Op{}, best.Sc.Ops...)
		c := *ops[i]
		f(&c)
		ops[i] = &c
		try(ops, best.Sc.Env)
	}
	for i := range best.Sc.Ops {
		o := best.Sc.Ops[i]
		for j := len(o.Faults) - 1; j >= 0; j-- {
			mutate(i, func(c *Op) {
				c.Faults = append(append([]netsim.Fault{}, c.Faults[:j]...), c.Faults[j+1:]...)
			})
		}
		for j := len(o.Msgs) - 1; j >= 0 && len(o.Msgs) > 1; j-- {
			mutate(i, func(c *Op) {
				if len(c.Msgs) > 1 && j < len(c.Msgs) {
					c.Msgs = append(append([]Msg{}, c.Msgs[:j]...), c.Msgs[j+1:]...)
				}
			})
		}
		if o.Pre > 0 {
			mutate(i, func(c *Op) { c.Pre = 0 })
		}
		if wall() > end {
			return best
		}
	}
	// Simpler schedules.
	for _, f := range []func(e *Env){
		func(e *Env) { e.PointGap = 0 },
		func(e *Env) { e.Kind, e.Sticky = 1, 0.98 },
		func(e *Env) { e.MapMode = 0 },
		func(e *Env) { e.Foreign = false },
		func(e *Env) { e.Audit = false },
	} {
		e := *best.Sc.Env
		f(&e)
		try(best.Sc.Ops, &e)
	}
	return best
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
