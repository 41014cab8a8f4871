package simtest

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"

	"verifsim/netsim"
	"verifsim/simrt"
)

// Start-up runs: a process boots while its cache or storage is not there, silent
// or still starting, until some moment, or comes and goes.

// try is one attempt to get an answer.
type try struct {
	t0, t1 int64 // t1 < 0: it has not ended
	err    error
}

type tryGroup struct {
	label string
	l     []*try
}

type modeChange struct {
	at     int64
	target string
	mode   int
}

type startRun struct {
	s       *Sim
	groups  []*tryGroup // in order of their first try
	by      map[string]*tryGroup
	changes []modeChange
	began   int64
	over    bool
}

func (r *startRun) onTry(target string) func(error) {
	if r.over {
		return func(error) {}
	}
	g := r.by[target]
	if g == nil {
		g = &tryGroup{label: target}
		r.by[target] = g
		r.groups = append(r.groups, g)
	}
	if g != r.groups[len(r.groups)-1] {
		return func(error) {} // disconnecting
	}
	x := &try{t0: r.s.now(), t1: -1}
	g.l = append(g.l, x)
	return func(err error) { x.t1, x.err = r.s.now(), err }
}

func (r *startRun) set(target string, mode int) {
	r.s.Net.Mode[target] = mode
	r.changes = append(r.changes, modeChange{r.s.now(), target, mode})
	if mode != netsim.Up {
		r.s.Net.Count(fmt.Sprintf("%s:%s", []string{"", "refuses", "silent", "starts"}[mode], classOf(target)))
	}
}

func classOf(t string) string {
	for i := range t {
		if t[i] == ':' {
			return t[:i]
		}
	}
	return t
}

func (s *Sim) targets(class string) []string {
	var l []string
	if class == "redis" {
		for _, x := range s.Redis {
			l = append(l, x.Name)
		}
	} else if s.Mongo != nil {
		for _, x := range s.Mongo.Nodes {
			l = append(l, x.Name)
		}
	}
	return l
}

// level says what could be had of a class of servers from t0 to t1: the least
// and the most number of them that were up at once, as 0 none, 1 some, 2 all.
func (r *startRun) level(class string, t0, t1 int64) (least, most int) {
	ts := r.s.targets(class)
	at := func(mode map[string]int) int {
		n := 0
		for _, t := range ts {
			if mode[t] == netsim.Up {
				n++
			}
		}
		if n == len(ts) {
			return 2
		}
		return min(n, 1)
	}
	mode := map[string]int{}
	least, most = 3, -1
	i := 0
	for ; i < len(r.changes) && r.changes[i].at < t0; i++ {
		mode[r.changes[i].target] = r.changes[i].mode
	}
	note := func() { v := at(mode); least, most = min(least, v), max(most, v) }
	note()
	for ; i < len(r.changes) && r.changes[i].at <= t1; i++ {
		mode[r.changes[i].target] = r.changes[i].mode
		note()
	}
	return
}

func attempts(class string) (n int, enabled bool, delay time.Duration) {
	if class == "redis" {
		return config.CacheConnectionRetryAttempts.GetInt(), config.CacheConnectionRetryEnabled.GetBool(), config.CacheConnectionRetryDelay.GetDuration()
	}
	return config.StorageConnectionRetryAttempts.GetInt(), config.StorageConnectionRetryEnabled.GetBool(), config.StorageConnectionRetryDelay.GetDuration()
}

// modes says which modes a class of servers had.
func (r *startRun) modes(class string) map[int]bool {
	m := map[int]bool{}
	for _, c := range r.changes {
		if classOf(c.target) == class {
			m[c.mode] = true
		}
	}
	return m
}

func (r *startRun) attemptMs(class string) int64 {
	m := r.modes(class)
	switch {
	case class == "mongo":
		return 31000 + 25000
	case m[netsim.Silent] && r.s.Env.Engine[0] == 'c':
		return 900000
	case m[netsim.Silent]:
		return 125000
	}
	return 20000
}

// bound is how long booting may take at most.
func (r *startRun) bound(what string) int64 {
	b := int64(5000)
	for _, c := range []string{"redis", "mongo"} {
		if len(r.s.targets(c)) == 0 {
			continue
		}
		n, on, d := attempts(c)
		if n < 1 || !on {
			n = 1
		}
		x := int64(n) * (d.Milliseconds() + r.attemptMs(c))
		if c == "mongo" {
			x *= 2 // two clients
		}
		b += x
	}
	return b
}

// outcome is what came of a boot.
type outcome struct {
	what     string // cache, storage, main
	done     bool
	err      error
	t        int64
	cancel   int64 // when it was cancelled, 0 never
	panicked bool
}

func (r *startRun) fail(kind, msg string, a ...any) {
	r.s.violate(len(r.s.Hist)-1, kind, fmt.Sprintf(msg, a...), "C28")
}

func (r *startRun) judge(o *outcome) {
	s := r.s
	s.checked("startup")
	bound := r.bound(o.what)
	if !o.done {
		if o.cancel > 0 {
			r.fail("start-not-cancelled", "the start-up of the %s did not end within %d s of its cancellation", o.what, (s.now()-o.cancel)/1000)
		} else {
			r.fail("start-hangs", "the start-up of the %s was not over after %d s", o.what, (s.now()-r.began)/1000)
		}
		return
	}
	classes := map[string][]string{"cache": {"redis"}, "storage": {"mongo"}, "main": {"mongo", "redis"}}[o.what]
	if n, _, _ := attempts("redis"); o.what == "main" && len(s.targets("redis")) > 0 && (n < 1 || config.CacheUri.Get() == "") {
		// It cannot start, whatever the storage does.
		if o.err == nil {
			r.fail("start-false", "the process started without reaching its cache")
		}
		return
	}
	// Which class of servers the start-up was at when it ended.
	for i, c := range classes {
		if len(s.targets(c)) == 0 {
			continue
		}
		n, on, d := attempts(c)
		uri := config.StorageUri.Get()
		if c == "redis" {
			uri = config.CacheUri.Get()
		}
		var gs []*tryGroup
		for _, g := range r.groups {
			if classOf(g.label) == c {
				gs = append(gs, g)
			}
		}
		if uri == "" {
			if o.err == nil {
				r.fail("start-without-uri", "the %s started without an address of its %s", o.what, c)
			} else if len(gs) > 0 || o.t-r.began > bound {
				r.fail("start-without-uri", "without an address of its %s the %s contacted something", c, o.what)
			}
			return
		}
		limit := max(n, 1)
		if !on {
			limit = 1
		}
		late := false // whether a later class was reached
		for _, g := range r.groups {
			for _, x := range classes[i+1:] {
				if classOf(g.label) == x {
					late = true
				}
			}
		}
		failed := o.err != nil && !late
		for k, g := range gs {
			last := k == len(gs)-1
			if len(g.l) > limit {
				r.fail("start-attempts", "%d attempts were made to reach %s, although %d are configured (retries enabled: %v)", len(g.l), g.label, n, on)
				return
			}
			for j := 1; j < len(g.l); j++ {
				gap := g.l[j].t0 - g.l[j-1].t1
				slack := int64(100)
				if c == "mongo" && (r.modes(c)[netsim.Silent] || r.modes(c)[netsim.Starts]) {
					slack = 25000
				}
				if gap < d.Milliseconds()-2 || gap > d.Milliseconds()+slack {
					r.fail("start-delay", "%d ms passed between two attempts to reach %s, the configured delay is %d ms", gap, g.label, d.Milliseconds())
					return
				}
			}
			ends := o.t
			if !last {
				ends = gs[k+1].l[0].t0
			}
			for j, x := range g.l {
				final := j == len(g.l)-1
				end := x.t1
				if final || end < 0 {
					end = max(end, x.t0)
					if final && c == "mongo" {
						end = ends
					}
				} else if c == "mongo" {
					end = min(g.l[j+1].t0, x.t1+25000)
				}
				least, most := r.level(c, x.t0-1600, end)
				// An attempt while everything was there must be the last one, and succeed.
				if least == 2 && (!final || last && failed) && !(o.cancel > 0 && o.cancel <= end+100) {
					r.fail("start-missed", "attempt %d to reach %s, %d ms after the start, was not successful although it was there: %v (%v)", j+1, g.label, x.t0-r.began, x.err, o.err)
					return
				}
				_, most = r.level(c, x.t0, end)
				if final && !(last && failed) && most == 0 {
					r.fail("start-false", "the %s took %s for reached after an attempt %d ms after the start, although none was there", o.what, g.label, x.t0-r.began)
					return
				}
			}
			if last && failed && o.cancel == 0 && len(g.l) < limit {
				r.fail("start-gave-up", "the start-up of the %s failed after %d attempts to reach %s, although %d are configured (retries enabled: %v): %v", o.what, len(g.l), g.label, n, on, o.err)
				return
			}
			if x := g.l[len(g.l)-1]; last && !failed && !late && o.t-x.t1 > 1000+map[bool]int64{true: 20000}[c == "mongo" && r.modes(c)[netsim.Silent]] {
				r.fail("start-late", "the %s was ready only %d ms after it reached %s", o.what, o.t-x.t1, g.label)
				return
			}
		}
		if len(gs) == 0 {
			if c == "redis" && n < 1 {
				if o.err == nil {
					r.fail("start-false", "the %s started without reaching %s", o.what, c)
				}
				return
			}
			if o.err == nil {
				r.fail("start-false", "the %s started without reaching %s", o.what, c)
			} else if o.cancel == 0 {
				r.fail("start-gave-up", "the start-up of the %s failed before an attempt to reach %s: %v", o.what, c, o.err)
			}
			return
		}
		if failed {
			break
		}
	}
	if o.cancel > 0 {
		tol := int64(1500)
		for _, c := range classes {
			if r.modes(c)[netsim.Silent] {
				tol = 30000
			}
		}
		if o.t-o.cancel > tol {
			r.fail("start-not-cancelled", "the start-up of the %s went on for %d ms after its cancellation", o.what, o.t-o.cancel)
			return
		}
	}
	if o.what == "main" && o.err != nil && !o.panicked {
		r.fail("start-silent", "the process ended without an error although it did not start")
	}
}

func startTime(r *simrt.Rand, span int64) int64 {
	if r.Bool(0.15) {
		return 0
	}
	return int64(r.Float() * float64(span))
}

// gen makes up a run.
func (s *Sim) startOps() []*Op {
	r := simrt.NewRand(s.Seed ^ 0x57A7)
	var ops []*Op
	span := int64(0)
	var classes []string
	for _, c := range []string{"redis", "mongo"} {
		if len(s.targets(c)) == 0 {
			continue
		}
		classes = append(classes, c)
		n, on, d := attempts(c)
		if n < 1 || !on {
			n = 1
		}
		x := map[string]int64{"redis": 3000, "mongo": 30000}[c]
		span += int64(n) * (d.Milliseconds() + x)
	}
	for _, c := range classes {
		if len(classes) > 1 && r.Bool(0.3) {
			continue
		}
		ts := s.targets(c)
		pick := func(p float64) []string {
			if len(ts) == 1 || r.Bool(p) {
				return ts
			}
			return ts[:1+r.Intn(len(ts)-1)]
		}
		mode := func() int { return []int{netsim.Refuses, netsim.Refuses, netsim.Silent, netsim.Starts}[r.Intn(4)] }
		m := mode()
		down := pick(0.85)
		for _, t := range down {
			ops = append(ops, &Op{A: "env", K: "mode", Q: t, Val: int64(m)})
		}
		if r.Bool(0.25) {
			continue // for good
		}
		at := startTime(r, span*5/4)
		for _, t := range down {
			ops = append(ops, &Op{A: "env", K: "mode", Q: t, Pre: at})
			if r.Bool(0.2) {
				at += int64(r.Intn(3000))
			}
		}
		for r.Bool(0.3) { // it goes and comes again
			at += 1 + int64(r.Float()*float64(span)/3)
			m := mode()
			ts := pick(0.7)
			for _, t := range ts {
				ops = append(ops, &Op{A: "env", K: "mode", Q: t, Pre: at, Val: int64(m)})
			}
			at += 1 + int64(r.Float()*float64(span)/3)
			for _, t := range ts {
				ops = append(ops, &Op{A: "env", K: "mode", Q: t, Pre: at})
			}
		}
	}
	o := &Op{A: "boot", K: "boot", Arg: "main"}
	if r.Bool(0.7) {
		o.Arg = map[string]string{"redis": "cache", "mongo": "storage"}[classes[r.Intn(len(classes))]]
		if r.Bool(0.3) {
			o.Ctx = 1 + startTime(r, span)
		}
	}
	return append(ops, o)
}

// sleep waits until the given time of the run, in steps, so that it ends with the run.
func (r *startRun) sleep(until int64) {
	for w := until - (r.s.now() - r.began); w > 0; w = until - (r.s.now() - r.began) {
		simrt.Sleep(time.Duration(min(w, 50000)) * time.Millisecond)
	}
}

func (s *Sim) startRun(sc *Scenario) {
	if sc.Ops == nil {
		s.made = s.startOps()
	} else {
		s.made = sc.Ops
	}
	s.dump(sc)
	s.mainSetup(nil)
	r := &startRun{s: s, by: map[string]*tryGroup{}, began: s.now()}
	s.Net.OnTry = r.onTry
	var o *Op
	var env []*Op
	for _, x := range s.made {
		if x.K == "boot" {
			o = x
		} else {
			env = append(env, x)
		}
	}
	if o == nil {
		return
	}
	sort.SliceStable(env, func(i, j int) bool { return env[i].Pre < env[j].Pre })
	for len(env) > 0 && env[0].Pre == 0 {
		r.set(env[0].Q, int(env[0].Val))
		env = env[1:]
	}
	s.S.Spawn("weather", nil, true, func(*simrt.Task) {
		for _, x := range env {
			r.sleep(x.Pre)
			r.set(x.Q, int(x.Val))
		}
	})
	s.seq++
	ev := &Ev{Op: o, I: 0, S: s.seq, T0: s.now()}
	s.Hist = append(s.Hist, ev)
	out := &outcome{what: o.Arg}
	all := r.bound(o.Arg) // with the modes known so far
	for _, x := range env {
		r.changes = append(r.changes, modeChange{target: x.Q, mode: int(x.Val)})
	}
	all = max(all, r.bound(o.Arg))
	r.changes = r.changes[:len(r.changes)-len(env)]
	if o.Arg == "main" {
		p := s.startMain()
		out.done = s.serving(p, time.Duration(all)*time.Millisecond)
		out.t = s.now()
		if !out.done && p.exited >= 0 {
			out.done, out.t = true, p.exited
			out.err = p.n.Err
			if out.err == nil {
				out.err = errors.New("the process ended")
			}
			out.panicked = p.panicked
		}
		r.over = true
		r.judge(out)
		ev.Err = out.err
	} else {
		n := s.start(0)
		ctx, cancel := context.WithCancel(context.Background())
		n.abort = cancel
		t := s.S.Spawn("boot", n.Proc, false, func(*simrt.Task) {
			var err error
			if o.Arg == "cache" {
				var c cache.Cache
				if c, err = cache.CreateCache(ctx, cache.Type(config.CacheType.Get())); err == nil && c == nil {
					err = errors.New("nothing returned")
				}
			} else {
				var c storage.Storage
				if c, err = storage.CreateStorage(ctx, storage.Type(config.StorageType.Get())); err == nil && c == nil {
					err = errors.New("nothing returned")
				}
			}
			out.done, out.err, out.t = true, err, s.now()
			r.over = true
		})
		if o.Ctx > 0 {
			s.S.Spawn("cancel", nil, true, func(*simrt.Task) {
				r.sleep(o.Ctx)
				if !out.done {
					s.Net.Count("cancel")
					out.cancel = s.now()
					cancel()
				}
			})
			all = min(all, o.Ctx+60000)
		}
		for end := s.now() + all; !out.done && s.now() < end && !s.S.Done(t); {
			simrt.Sleep(50 * time.Millisecond)
		}
		r.judge(out)
		ev.Err = out.err
		cancel()
	}
	s.seq++
	ev.E, ev.T1, ev.Done = s.seq, s.now(), true
	if s.Keep || verbose {
		s.Trace = append(s.Trace, fmt.Sprintf("%s => after %d ms: %v", o, out.t-r.began, out.err))
		for _, g := range r.groups {
			l := ""
			for _, x := range g.l {
				l += fmt.Sprintf(" %d-%d", x.t0-r.began, x.t1-r.began)
			}
			s.Trace = append(s.Trace, "tries of "+g.label+":"+l)
		}
		if verbose {
			for _, l := range s.Trace {
				fmt.Println(l)
			}
		}
	}
}

func init() {
	for _, e := range []string{"rm", "cm", "xm", "rx"} {
		profiles["start-"+e] = &profile{
			env: func(r *simrt.Rand) *Env {
				v := &Env{Engine: e, Nodes: 1, Kind: r.Intn(3), Cfg: map[string]string{}}
				if e[1] == 'm' && r.Bool(0.4) {
					v.Replicas = 3
				}
				set := func(enabled, n, d config.ConfigKey) {
					if r.Bool(0.2) {
						v.Cfg[enabled.GetKey()] = "false"
					}
					if r.Bool(0.8) {
						v.Cfg[n.GetKey()] = []string{"-1", "0", "1", "2", "3", "4", "7"}[r.Intn(7)]
					}
					if r.Bool(0.8) {
						v.Cfg[d.GetKey()] = []string{"0s", "20ms", "1s", "2500ms", "30s"}[r.Intn(5)]
					}
				}
				set(config.CacheConnectionRetryEnabled, config.CacheConnectionRetryAttempts, config.CacheConnectionRetryDelay)
				set(config.StorageConnectionRetryEnabled, config.StorageConnectionRetryAttempts, config.StorageConnectionRetryDelay)
				if e[1] == 'm' && r.Bool(0.4) {
					v.MgOpts = "connectTimeoutMS=" + []string{"300", "1000", "3000", "60000"}[r.Intn(4)]
					if r.Bool(0.5) {
						v.MgOpts += "&serverSelectionTimeoutMS=" + []string{"200", "2000", "10000"}[r.Intn(3)]
					}
				}
				if r.Bool(0.03) && e[0] != 'x' {
					v.Cfg[config.CacheUri.GetKey()] = ""
				}
				if r.Bool(0.03) && e[1] == 'm' {
					v.Cfg[config.StorageUri.GetKey()] = ""
				}
				return v
			},
			run: func(s *Sim, sc *Scenario) { s.startRun(sc) },
		}
	}
}
