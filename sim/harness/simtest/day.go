package simtest

import (
	"fmt"
	"time"

	"github.com/takenet/deckard/internal/config"

	"verifsim/simrt"
)

// Runs of whole days in the life of a process: one client works, waits, and works
// again, while the maintenance is the process's own, at its own times. The
// sequential model judges the answers of the client and every pass, which take turns.

type day struct {
	mu  simrt.Mutex
	m   *model
	off bool
}

// dayPass is the beginning of a pass, which waits for its turn.
func (d *day) begin() {
	if d != nil && !d.off {
		d.mu.Lock()
	}
}

// end is the end of a pass, which is judged at once.
func (d *day) end(ev *Ev) {
	if d == nil || d.off {
		return
	}
	if ev.Done && !d.m.dead {
		d.m.apply(ev)
	}
	d.mu.Unlock()
}

func dayRun(s *Sim, sc *Scenario, p *seqParams) {
	m := newModel(s)
	s.model = m
	s.mainSetup(nil)
	s.main.day = &day{m: m}
	d := s.main.day
	pr := s.startMain()
	if !s.serving(pr, time.Minute) {
		s.violate(-1, "boot", fmt.Sprintf("the process does not serve although its dependencies are there: %v", pr.n.Err), "C28", "C20", "C01")
		return
	}
	do := func(o *Op) bool {
		if isPass(o.K) {
			// Such a pass comes by itself.
			o = &Op{A: o.A, K: "sleep", Pre: o.Pre + hkDelay(o.K) + 1000}
		}
		if o.Pre > 0 {
			simrt.Sleep(time.Duration(o.Pre) * time.Millisecond)
		}
		if o.K == "sleep" {
			return !m.dead
		}
		if o.K == "reboot" {
			if !s.reboot(m) {
				return false
			}
			pr = s.main.cur
			return true
		}
		c := *o
		c.Pre = 0
		d.mu.Lock()
		ev := s.do(&c)
		m.apply(ev)
		d.mu.Unlock()
		return !m.dead
	}
	if sc.Ops != nil {
		for _, o := range sc.Ops {
			if !do(o) {
				return
			}
		}
	} else {
		g := newGen(s, m, p)
		for len(s.made) < p.ops+g.extra {
			o := g.next()
			s.made = append(s.made, o)
			s.dump(sc)
			if !do(o) {
				return
			}
		}
	}
	// What is due by now happens.
	simrt.Sleep(130 * time.Second)
	if s.Env.memStorage() {
		for _, q := range sortedKeys(m.byq) {
			if q == "" || m.braces(q) {
				continue
			}
			for _, k := range []string{"count", "pull"} {
				o := &Op{A: "fin", K: k, Q: q}
				if k == "pull" {
					o.Amt = 1000
				}
				if !do(o) {
					return
				}
			}
		}
		d.mu.Lock()
		m.checkCounters()
		d.mu.Unlock()
		if m.dead {
			return
		}
	}
	s.signal(pr)
	s.awaitExit(pr)
	d.off = true
	for _, x := range s.main.all {
		if len(s.Viol) == 0 {
			s.judgeMain(x)
		}
	}
	if len(s.Viol) > 0 {
		return
	}
	resetGlobals()
	if s.Env.memStorage() {
		return
	}
	if n := s.bootNode(0); n.Err != nil {
		s.bootFailed(n)
		return
	}
	m.apply(&Ev{Op: &Op{A: "env", K: "reboot"}, I: len(s.Hist) - 1, Done: true})
	seqFinish(s, m)
}

// reboot ends the process in an orderly way and starts another one.
func (s *Sim) reboot(m *model) bool {
	p := s.main.cur
	s.signal(p)
	s.awaitExit(p)
	if len(s.Viol) > 0 {
		return false
	}
	m.apply(&Ev{Op: &Op{A: "env", K: "reboot"}, I: len(s.Hist) - 1, Done: true})
	if s.bootMain(); !s.main.cur.n.Up {
		s.violate(len(s.Hist)-1, "restart-failed", "a restarted process does not come up although everything works", "C28", "C01")
		return false
	}
	return true
}

func init() {
	for _, e := range []string{"mm", "rm", "cm", "xm", "rx"} {
		w := map[string]int{"add": 12, "pull": 14, "ack": 12, "nack": 8, "remove": 3, "count": 4, "get": 6, "editq": 4, "getq": 2, "sleep": 9, "filter": 2, "cycle": 2, "bigadd": 2}
		if e == "rm" || e == "cm" {
			w["wipe"] = 2
		}
		if e != "mm" && e != "rx" {
			w["reboot"] = 2
		}
		p := seqParams{engines: []string{e}, ops: 70, queues: 3, ids: 7, big: 40, audit: 0.2, prefix: 0.2, w: w}
		base := seqProfile(p)
		profiles["day-"+e] = &profile{
			env: func(r *simrt.Rand) *Env {
				v := base.env(r)
				v.Nodes = 1
				v.Cfg = map[string]string{}
				for _, k := range []config.ConfigKey{config.HousekeeperTaskUnlockDelay, config.HousekeeperTaskTimeoutDelay, config.HousekeeperTaskMetricsDelay, config.HousekeeperTaskUpdateDelay, config.HousekeeperTaskMaxElementsDelay, config.HousekeeperTaskTTLDelay} {
					v.Cfg[k.GetKey()] = []string{"3s", "5s", "7s", "20s", "45s", "1m"}[r.Intn(6)]
				}
				return v
			},
			run: func(s *Sim, sc *Scenario) { q := p; dayRun(s, sc, &q) },
		}
	}
}
