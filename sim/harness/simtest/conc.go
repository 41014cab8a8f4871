package simtest

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"go.opentelemetry.io/otel/metric"

	"verifsim/netsim"
	"verifsim/simrt"
)

// concParams shapes a workload of several concurrent clients, the maintenance of
// every process, and whatever goes wrong meanwhile.
type concParams struct {
	engines []string
	nodes   int // at most
	clients int // at most
	ops     int // per client
	hk      int // maintenance passes per process
	queues  int
	ids     int
	faults  float64 // share of operations with faults
	late    bool
	crash   float64 // expected number of crashes
	wipes   float64
	parts   float64
	skew    int64
	audit   float64
	w       map[string]int
	hkw     map[string]int
	ttl     float64
	lag     int64
	few     bool // limits of queues are 1 or 2
	reps    int
	tweak   func(r *simrt.Rand, e *Env)
	tight   bool // few messages, everything at once
	bulk    int
	bound   int // how long a fault lasts at most, in milliseconds
}

type delivery struct{ q, id string }

// resolve replaces references to deliveries by what they stand for now.
func (s *Sim) resolve(o *Op, held map[string][]delivery) *Op {
	id := first(o.IDs)
	if !strings.HasPrefix(id, "@") {
		return o
	}
	c := *o
	l := held[o.A]
	if strings.HasPrefix(id, "@any") {
		l = held[""]
	}
	if len(l) == 0 {
		c.IDs = []string{strings.TrimLeft(id, "@any")}
		c.IDs[0] = "m" + c.IDs[0]
		return &c
	}
	n := 0
	fmt.Sscanf(strings.TrimPrefix(strings.TrimPrefix(id, "@"), "any"), "%d", &n)
	d := l[len(l)-1-n%min(len(l), 3)]
	c.Q, c.IDs = d.q, []string{d.id}
	return &c
}

// runActors performs the operations, each actor its own in order and all at once.
func (s *Sim) runActors(ops []*Op) {
	held := map[string][]delivery{}
	by := map[string][]*Op{}
	var names []string
	for _, o := range ops {
		if by[o.A] == nil {
			names = append(names, o.A)
		}
		by[o.A] = append(by[o.A], o)
	}
	var dones []chan struct{}
	for _, a := range names {
		l := by[a]
		done := make(chan struct{})
		dones = append(dones, done)
		s.S.Spawn("actor."+a, nil, true, func(*simrt.Task) {
			defer close(done)
			defer simrt.Ordered()
			for _, o := range l {
				simrt.Ordered()
				ev := s.do2(o, held)
				if r, ok := ev.Resp.(*deckard.PullResponse); ok && ev.OK() {
					for _, x := range r.Messages {
						held[o.A] = append(held[o.A], delivery{x.Queue, x.Id})
						held[""] = append(held[""], delivery{x.Queue, x.Id})
					}
				}
				if (o.K == "ack" || o.K == "nack") && strings.HasPrefix(first(o.IDs), "@") && ev.OK() {
					for i, d := range held[o.A] {
						if d.q == ev.Op.Q && d.id == first(ev.Op.IDs) && simrt.Hash64(d.id)%3 != 0 {
							held[o.A] = append(held[o.A][:i:i], held[o.A][i+1:]...)
							break
						}
					}
				}
			}
		})
	}
	for _, d := range dones {
		<-d
		simrt.Yield("joined", "")
	}
}

// do2 sleeps first and then resolves the operation.
func (s *Sim) do2(o *Op, held map[string][]delivery) *Ev {
	if o.Pre > 0 {
		simrt.Sleep(time.Duration(o.Pre) * time.Millisecond)
	}
	simrt.Ordered()
	c := *s.resolve(o, held)
	c.Pre = 0
	ev := s.do(&c)
	for _, f := range ev.Fired {
		if strings.HasPrefix(f, netsim.Late) {
			ev.SettleS = 1 << 30
		}
	}
	return ev
}

func (p *concParams) gen(s *Sim) []*Op {
	r := simrt.NewRand(s.Seed ^ 0xC0)
	e := &s.Env
	var ops []*Op
	queues := make([]string, 1+r.Intn(p.queues))
	for i := range queues {
		queues[i] = fmt.Sprintf("q%d", i)
	}
	nid := 2 + r.Intn(p.ids-1)
	n := 0
	q := func() string { return queues[r.Intn(len(queues))] }
	id := func() string { return fmt.Sprintf("m%d", r.Intn(nid)) }
	score := func() F { return F([]float64{0, 0, 1, 2, 3, 5, 1e12}[r.Intn(7)]) }
	msg := func(qq, i string) Msg {
		n++
		m := Msg{ID: i, Q: qq, Score: score(), Str: fmt.Sprintf("s%d", n), Desc: fmt.Sprintf("d%d", n), Pay: map[string][]byte{"k": []byte(fmt.Sprintf("p%d", n))}, Meta: map[string]string{"k": fmt.Sprintf("t%d", n)}, Timeless: true}
		if r.Bool(p.ttl) {
			m.Timeless, m.TTL = false, int64(1+r.Intn(2))
			if r.Bool(0.3) {
				m.TTL = 600
			}
		}
		return m
	}
	w := map[string]int{"add": 18, "pull": 30, "ack": 24, "nack": 10, "remove": 6, "get": 4, "count": 2}
	for k, v := range p.w {
		w[k] = v
	}
	pickW := func(w map[string]int) string {
		t := 0
		for _, v := range w {
			t += v
		}
		x := r.Intn(max(t, 1))
		for _, k := range sortedKeys(w) {
			if x -= w[k]; x < 0 {
				return k
			}
		}
		return "pull"
	}
	pre := func(quick float64) int64 {
		if r.Bool(quick) {
			return 0
		}
		return []int64{0, 1, 2, 50, 500, 1000, 1001, 2500, 5000}[r.Intn(9)]
	}
	nodes := max(e.Nodes, 1)
	// Something to begin with.
	first := &Op{A: "init", K: "add"}
	for _, qq := range queues {
		for i := 0; i < nid; i++ {
			if r.Bool(0.75) {
				first.Msgs = append(first.Msgs, msg(qq, fmt.Sprintf("m%d", i)))
			}
		}
	}
	if len(first.Msgs) > 0 {
		ops = append(ops, first)
	}
	clients := 2 + r.Intn(max(p.clients-1, 1))
	quick := []float64{0.5, 0.8, 0.97}[r.Intn(3)]
	for c := 0; c < clients; c++ {
		a := fmt.Sprintf("c%d", c)
		for k := 0; k < p.ops/2+r.Intn(p.ops); k++ {
			o := &Op{A: a, N: c % nodes, Pre: pre(quick)}
			if r.Bool(0.2) {
				o.N = r.Intn(nodes)
			}
			o.K = pickW(w)
			switch o.K {
			case "add":
				seen := map[string]bool{}
				for i := 1 + r.Intn(3); i > 0; i-- {
					m := msg(q(), id())
					if !seen[m.Q+m.ID] {
						o.Msgs = append(o.Msgs, m)
					}
					seen[m.Q+m.ID] = true
				}
			case "pull":
				o.Q, o.Amt = q(), int32(1+r.Intn(nid+1))
				if r.Bool(0.5) {
					o.Amt = 1
				}
				o.Deadline = []int64{1000, 1, 2000, 5000, 60000, 0}[r.Intn(6)]
				if r.Bool(0.05) {
					o.Max = 4
				}
			case "ack", "nack":
				switch r.Intn(10) {
				case 0:
					o.Q, o.IDs = q(), []string{id()}
				case 1, 2:
					o.Q, o.IDs = q(), []string{fmt.Sprintf("@any%d", r.Intn(3))}
				default:
					o.Q, o.IDs = q(), []string{fmt.Sprintf("@%d", r.Intn(3))}
				}
				if r.Bool(0.3) {
					o.Lock = []int64{1, 1000, 2000, 5000}[r.Intn(4)]
				}
				o.Score = score()
				if o.K == "ack" {
					n++
					o.Bp = fmt.Sprintf("b%d", n)
				}
				if r.Bool(0.06) && w["remove"] > 0 {
					o.Rm = true
				}
			case "remove":
				o.Q = q()
				for i := 1 + r.Intn(2); i > 0; i-- {
					if x := id(); !has(o.IDs, x) {
						o.IDs = append(o.IDs, x)
					}
				}
			case "get":
				o.Q, o.IDs = q(), []string{id()}
			case "count", "getq":
				o.Q = q()
			case "editq":
				o.Q, o.Val = q(), []int64{-1, 1, 2, 3, 1000, 0}[r.Intn(6)]
				if p.few {
					o.Val = int64(1 + r.Intn(2))
				}
			}
			ops = append(ops, o)
		}
	}
	hkw := p.hkw
	if hkw == nil {
		hkw = map[string]int{"timeout": 5, "unlock": 5, "ttl": 2, "max": 1, "recovery": 3, "metrics": 1}
	}
	for i := 0; i < nodes; i++ {
		for h := 0; h < 1+r.Intn(2); h++ {
			for k := 0; k < p.hk/2+r.Intn(p.hk+1); k++ {
				ops = append(ops, &Op{A: fmt.Sprintf("h%d.%d", i, h), N: i, K: pickW(hkw), Pre: pre(0.4)})
			}
		}
	}
	count := func(f float64) int {
		k := 0
		for ; f >= 1; f-- {
			k++
		}
		if r.Bool(f) {
			k++
		}
		return k
	}
	env := func(o *Op) {
		o.A = "env"
		ops = append(ops, o)
	}
	var acts []func()
	for i := count(p.crash); i > 0; i-- {
		acts = append(acts, func() {
			k := r.Intn(nodes)
			env(&Op{K: "crash", N: k, Pre: pre(0.3), Val: int64(r.Intn(60))})
			env(&Op{K: "boot", N: k, Pre: pre(0.5)})
		})
	}
	if !e.memCache() {
		for i := count(p.wipes); i > 0; i-- {
			acts = append(acts, func() { env(&Op{K: "wipe", Pre: pre(0.3), Val: int64(r.Intn(60))}) })
		}
	}
	for i := count(p.parts); i > 0; i-- {
		acts = append(acts, func() {
			t := "redis"
			if e.memCache() || !e.memStorage() && r.Bool(0.5) {
				t = "mongo"
			}
			k := r.Intn(nodes)
			if r.Bool(0.5) {
				env(&Op{K: "part", N: k, Arg: t, Pre: pre(0.3), Val: int64(r.Intn(60))})
				env(&Op{K: "heal", N: k, Arg: t, Pre: pre(0.3), Val: int64(r.Intn(100))})
			} else {
				env(&Op{K: "down", Arg: t, Pre: pre(0.3), Val: int64(r.Intn(60))})
				env(&Op{K: "up", Arg: t, Pre: pre(0.3), Val: int64(r.Intn(100))})
			}
		})
	}
	if e.Engine[0] == 'c' && r.Bool(0.4) {
		for i := 1 + r.Intn(2); i > 0; i-- {
			acts = append(acts, func() { movement(r, e, env, func() int64 { return pre(0.3) }) })
		}
	}
	if p.reps > 1 {
		for i := count(1.2); i > 0; i-- {
			acts = append(acts, func() {
				switch r.Intn(4) {
				case 0:
					env(&Op{K: "stepdown", Pre: pre(0.3), Val: int64(r.Intn(60))})
					env(&Op{K: "elect", N: 0, Pre: pre(0.3), Val: int64(r.Intn(60))})
				case 1:
					env(&Op{K: "freeze", N: 1 + r.Intn(p.reps-1), Val: 1, Pre: pre(0.3)})
				default:
					env(&Op{K: "lag", N: 1 + r.Intn(p.reps-1), Val: int64(r.Intn(int(p.lag) + 1)), Pre: pre(0.3)})
				}
			})
		}
	}
	for len(acts) > 0 {
		i := r.Intn(len(acts))
		acts[i]()
		acts = append(acts[:i], acts[i+1:]...)
	}
	if p.faults > 0 {
		for _, o := range ops {
			if (isClient(o.K) || isPass(o.K)) && o.A != "init" && r.Bool(p.faults) {
				o.Faults = boundedFaults(r, e, p.late, o.K, p.bound)
			}
		}
	}
	return ops
}

func (p *concParams) run(s *Sim, sc *Scenario) {
	for i := 0; i < max(s.Env.Nodes, 1); i++ {
		if n := s.bootNode(i); n.Err != nil {
			s.bootFailed(n)
			return
		}
	}
	if sc.Ops == nil {
		s.made = p.gen(s)
	} else {
		s.made = sc.Ops
	}
	s.dump(sc)
	// The first messages are there before the others begin.
	ops := s.made
	for len(ops) > 0 && ops[0].A == "init" {
		s.do2(ops[0], map[string][]delivery{})
		ops = ops[1:]
	}
	if p.skew > 0 {
		for i, n := range s.Nodes {
			n.Proc.Skew = time.Duration(int64(simrt.Hash64(fmt.Sprint(s.Seed, i))%uint64(2*p.skew+1))-p.skew) * time.Millisecond
		}
	}
	s.runActors(ops)
	s.drain(p)
}

// keys are the messages that ever were.
func (s *Sim) keys() []key {
	m := map[key]bool{}
	for _, ev := range s.Hist {
		if ev.Op.K == "add" {
			for _, x := range ev.Op.messages() {
				m[key{x.Q, x.ID}] = true
			}
		}
		if r, ok := ev.Resp.(*deckard.PullResponse); ok {
			for _, x := range r.Messages {
				m[key{ev.Op.Q, x.Id}] = true
			}
		}
	}
	l := make([]key, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].q+"\x00"+l[i].id < l[j].q+"\x00"+l[j].id })
	return l
}

// drain ends the trouble, judges the history, and then looks at what is left with
// the sequential reference model.
func (s *Sim) drain(p *concParams) {
	s.heal()
	for i, n := range s.Nodes {
		if !n.Up {
			ev := s.do(&Op{A: "fin", K: "restart", N: i})
			if s.Nodes[i].Err != nil {
				s.violate(ev.I, "restart-failed", "a restarted process does not come up although everything works", "C28", "C01")
				return
			}
		}
	}
	// What is still under way arrives.
	simrt.Sleep(60 * time.Second)
	s.settleAll()
	if len(s.Viol) > 0 {
		return
	}
	keys, ok := s.judgeHistory(p)
	if !ok {
		return
	}
	m := newModel(s)
	s.model = m
	if !s.judgeStates(m, keys, p) {
		return
	}
	s.judgeConfig(m)
	s.judgeCounts(keys)
	if len(s.Viol) > 0 {
		return
	}
	m.rec, m.recOn = 'u', true
	m.booted = true
	// The audit and the counters of the concurrent part are judged separately.
	m.audit = map[string]*bounds{}
	s.finish(m)
	if m.dead {
		return
	}
	s.judgeEvents(p)
	for _, ev := range s.Hist {
		r, ok := ev.Resp.(*deckard.GetQueueResponse)
		if !ok || ev.Op.A != "fin" || s.strict[ev.Op.Q] == nil {
			continue
		}
		fine := false
		for _, v := range s.strict[ev.Op.Q] {
			fine = fine || v == r.Configuration.GetMaxElements()
		}
		if !fine {
			s.Found = append(s.Found, Violation{Prop: "C17", Kind: "edit-dropped", Op: ev.I, Msg: fmt.Sprintf("queue %q reports max_elements %d: the last edit was answered with success but did nothing, because the process which got it believed the value to be current while another process had changed it", ev.Op.Q, r.Configuration.GetMaxElements())})
			break
		}
	}
}

// settleAll says that nothing is under way any more.
func (s *Sim) settleAll() {
	for _, ev := range s.Hist {
		if ev.SettleS == 1<<30 {
			ev.SettleS = s.seq + 1
		}
	}
	s.seq += 2
}

// judgeHistory looks at every answer so far.
func (s *Sim) judgeHistory(p *concParams) ([]key, bool) {
	keys := s.keys()
	for _, k := range keys {
		ev := s.do(&Op{A: "fin", K: "get", Q: k.q, IDs: []string{k.id}})
		if ev.Err != nil {
			s.violate(ev.I, "error:get", "get failed although every dependency works again", "C24", "C22")
			return nil, false
		}
	}
	s.judgeResponses(p)
	return keys, len(s.Viol) == 0
}

// judgeStates follows every message through the history and hands its possible
// states over to the sequential model.
func (s *Sim) judgeStates(m *model, keys []key, p *concParams) bool {
	limits := map[string]bool{}
	for _, ev := range s.Hist {
		if ev.Op.K == "editq" && ev.Op.Val > 0 {
			limits[ev.Op.Q] = true
		}
	}
	for _, k := range keys {
		set, ok := s.follow(k.q, k.id, 2*p.skew, limits[k.q])
		if len(s.Viol) > 0 {
			return false
		}
		e := m.get(k.q, k.id)
		if !ok {
			s.anything(e)
			continue
		}
		s.adopt(e, set)
	}
	return true
}

// anything makes the model know nothing about a message.
func (s *Sim) anything(e *smsg) {
	e.stored, e.soft = 1, true
	e.cs = []cst{{pool: 'o'}, {pool: 'r', hi: 9007199254740992}, {pool: 'p', d1: 1 << 60}, {pool: 'a', hi: 9007199254740992, d1: 1 << 60}, {pool: 'n', hi: 9007199254740992, d1: 1 << 60}}
	e.exp0, e.exp1 = 0, 1<<61
	s.contents(e)
}

// adopt hands the states of a message over to the sequential model.
func (s *Sim) adopt(e *smsg, set map[jstate]struct{}) {
	st0, st1 := false, false
	e.exp0, e.exp1 = 1<<61, 0
	e.cs = nil
	for x := range set {
		if x.st {
			st1 = true
		} else {
			st0 = true
		}
		e.exp0, e.exp1 = min(e.exp0, x.exp0), max(e.exp1, x.exp1)
		e.soft = e.soft || x.weak || x.race
		c := cst{pool: x.pool, d0: x.d0, d1: x.d1}
		if x.pool != 'o' && x.pool != 'p' {
			c.hi = 9007199254740992
		}
		e.cs = append(e.cs, c)
	}
	sort.Slice(e.cs, func(i, j int) bool {
		a, b := e.cs[i], e.cs[j]
		if a.pool != b.pool {
			return a.pool < b.pool
		}
		if a.d0 != b.d0 {
			return a.d0 < b.d0
		}
		return a.d1 < b.d1
	})
	e.cs = squash(unionCst(nil, e.cs))
	switch {
	case st1 && st0:
		e.stored = 1
	case st1:
		e.stored = 2
	default:
		e.stored = 0
		e.gone = "remove"
	}
	e.why = "concurrency"
	s.contents(e)
}

// writer is an operation which may have set what is read.
type writer struct {
	s, e int
	sure bool // certainly happened
	mine bool // if not, it certainly came after what the same process did before
	ev   *Ev
	m    *Msg
}

// adds and acks of a message
func (s *Sim) writers(q, id string) (adds, acks []writer) {
	for _, ev := range s.Hist {
		if isClient(ev.Op.K) && ev.Err == errDown {
			continue
		}
		switch ev.Op.K {
		case "add":
			ms := ev.Op.messages()
			for i := range ms {
				if ms[i].Q == q && ms[i].ID == id {
					adds = append(adds, writer{s: ev.S, e: s.settle(ev), sure: ev.OK(), ev: ev, m: &ms[i]})
				}
			}
		case "ack", "nack":
			if ev.Op.Q == q && first(ev.Op.IDs) == id {
				acks = append(acks, writer{s: ev.S, e: s.settle(ev), sure: ev.OK() && !ev.Op.Rm, ev: ev, m: nil})
			}
		}
	}
	// An ack of a message that may not be there yet need not do anything.
	born := 1 << 40
	for _, a := range adds {
		if a.sure {
			born = min(born, a.e)
		}
	}
	for i := range acks {
		acks[i].sure = acks[i].sure && acks[i].s > born
	}
	return
}

// current says which of the writers may have been the last one before or during
// the read.
func current(l []writer, rs, re int) (out []writer, none bool) {
	none = true
	for i, a := range l {
		if a.s > re {
			continue
		}
		over := false
		for j, b := range l {
			if i != j && (b.sure || b.mine && a.ev.Op.N == b.ev.Op.N) && a.e < b.s && b.e < rs {
				over = true
			}
		}
		if a.sure && a.e < rs {
			none = false
		}
		if !over {
			out = append(out, a)
		}
	}
	return
}

// contents are what the model may see of a message after the concurrent part.
func (s *Sim) contents(e *smsg) {
	adds, acks := s.writers(e.q, e.id)
	cur, _ := current(adds, s.seq+1, s.seq+1)
	e.str, e.pay, e.meta, e.desc = nil, nil, nil, nil
	for _, w := range cur {
		e.str = union(e.str, []string{w.m.Str})
		e.desc = union(e.desc, []string{w.m.Desc})
		e.pay = union(e.pay, []string{payString(toPay(w.m.Pay))})
		e.meta = union(e.meta, []string{metaString(w.m.Meta)})
	}
	e.bp = []string{""}
	for _, w := range acks {
		e.bp = union(e.bp, []string{w.ev.Op.Bp})
	}
	e.stLo, e.stHi = -1, 9007199254740992
	d := s.diagAt(e.q, e.id, s.seq+1, s.seq+1)
	e.diag = d
}

// diagAt bounds the diagnostics which a read of the message may show.
func (s *Sim) diagAt(q, id string, rs, re int) (d [4]rng) {
	_, acks := s.writers(q, id)
	reborn := s.mayBeGone(q, id, re)
	for i, k := range []string{"ack", "nack"} {
		var lo, hi, clo, chi int64
		for _, a := range acks {
			if a.ev.Op.K != k || a.s > re {
				continue
			}
			sure := a.sure && a.e < rs
			n := int64(1)
			if a.ev.Faulty() || !a.ev.Done {
				n = 3 // a repeated call may count again
			}
			hi += n
			if sure {
				lo++
			}
			// is there a nack (an ack) after it?
			may, must := false, false
			for _, b := range acks {
				if b.ev.Op.K == k || b.s > re {
					continue
				}
				if b.e > a.s {
					may = true
				}
				if b.sure && a.e < b.s && b.e < rs {
					must = true
				}
			}
			if !must {
				chi += n
			}
			if sure && !may {
				clo++
			}
		}
		if reborn {
			lo, clo = 0, 0
		}
		d[i] = rng{lo, hi}
		d[i+2] = rng{clo, chi}
	}
	return
}

// mayBeGone says whether the message may have been removed or absent before the
// given moment, after its first Add began.
func (s *Sim) mayBeGone(q, id string, before int) bool {
	for _, ev := range s.Hist {
		if ev.S > before {
			continue
		}
		switch ev.Op.K {
		case "add":
			for _, m := range ev.Op.messages() {
				if m.Q == q && m.ID == id {
					if !m.Timeless {
						return true
					}
				}
			}
		case "remove":
			if ev.Op.Q == q && has(ev.Op.ids(), id) {
				return true
			}
		case "ack", "nack":
			if ev.Op.Q == q && first(ev.Op.IDs) == id && ev.Op.Rm {
				return true
			}
		case "flush", "restart", "crash", "exit":
			if s.Env.memStorage() {
				return true
			}
		case "editq":
			if ev.Op.Q == q && ev.Op.Val > 0 {
				return true
			}
		}
	}
	return false
}

// judgeResponses checks what every answer must obey on its own.
func (s *Sim) judgeResponses(p *concParams) {
	for _, ev := range s.Hist {
		if !ev.OK() {
			if isClient(ev.Op.K) && ev.Done && ev.Err != errDown && !ev.Faulty() && !s.troubled(ev) {
				s.violate(ev.I, "conc-error:"+ev.Op.K, fmt.Sprintf("%s failed although no call to a dependency failed: %v", ev.Op.K, ev.Err), "C24", "C01")
				return
			}
			continue
		}
		var l []*deckard.Message
		switch r := ev.Resp.(type) {
		case *deckard.PullResponse:
			s.checked("pull")
			l = r.Messages
			if len(l) > pullAmount(ev.Op.Amt) {
				s.violate(ev.I, "too-many", fmt.Sprintf("pull of %d returned %d messages", ev.Op.Amt, len(l)), "C03")
				return
			}
			seen := map[string]bool{}
			for i, x := range l {
				if seen[x.Id] {
					s.violate(ev.I, "twice-in-response", fmt.Sprintf("message %s appears twice in one response", x.Id), "C02")
					return
				}
				seen[x.Id] = true
				if i > 0 && x.Score < l[i-1].Score {
					s.violate(ev.I, "unsorted", "a response is not in ascending order of score", "C03")
					return
				}
			}
		case *deckard.GetByIdResponse:
			if r.Found {
				l = []*deckard.Message{r.Message}
				if r.Message.Id != first(ev.Op.IDs) {
					s.violate(ev.I, "wrong-message", "GetById returned another message", "C22", "C13", "C18")
					return
				}
			}
		case *deckard.FlushResponse:
			s.checked("flush")
			if r.Success != s.Env.memory() {
				s.violate(ev.I, "flush", fmt.Sprintf("flush answered success=%v", r.Success), "C15")
				return
			}
		default:
			s.checked(ev.Op.K)
		}
		for _, x := range l {
			if x.Queue != ev.Op.Q {
				s.violate(ev.I, "wrong-queue", fmt.Sprintf("%s of %q returned a message of queue %q", ev.Op.K, ev.Op.Q, x.Queue), "C13", "C18")
				return
			}
			if !s.judgeContent(ev, x) {
				return
			}
		}
	}
}

// troubled says whether a dependency was unreachable during the operation or just
// before it: connections are made in the background, also for later operations.
func (s *Sim) troubled(ev *Ev) bool {
	var since int64 = -1
	open := 0
	for _, x := range s.Hist {
		switch x.Op.K {
		case "part", "down", "stepdown", "freeze":
			if open == 0 {
				since = x.T0
			}
			open++
		case "heal", "up", "elect":
			if since >= 0 && ev.T1 >= since && ev.T0 <= x.T1+5000 {
				return true
			}
			if open = max(open-1, 0); open == 0 {
				since = -1
			}
		}
	}
	return since >= 0 && ev.T1 >= since
}

func (s *Sim) judgeContent(ev *Ev, x *deckard.Message) bool {
	s.checked("content")
	adds, acks := s.writers(x.Queue, x.Id)
	rs, re := ev.S, ev.E
	if s.lagging() {
		rs = 0 // a secondary may be behind
	}
	cur, _ := current(adds, rs, re)
	ok := false
	var want []string
	for _, w := range cur {
		a, b, c, d := w.m.Str == x.StringPayload, ev.Op.K == "pull" || w.m.Desc == x.Description, payString(toPay(w.m.Pay)) == payString(x.Payload), metaString(w.m.Meta) == metaString(x.Metadata)
		if a && b && c && d {
			ok = true
		}
		want = append(want, w.m.Str)
	}
	if !ok {
		props := []string{"C18", "C09"}
		if ev.Op.K == "get" {
			props = append(props, "C22")
		}
		if s.Env.memory() {
			props = append(props, "C21")
		}
		s.violate(ev.I, "conc-content", fmt.Sprintf("%s of %s/%s returned the content %q %q %q %q, current could be one of %q as a whole", ev.Op.K, x.Queue, x.Id, x.StringPayload, x.Description, payString(x.Payload), metaString(x.Metadata), want), props...)
		return false
	}
	// breakpoint
	var bps []writer
	for _, a := range acks {
		if a.ev.Op.K == "ack" {
			bps = append(bps, a)
		}
	}
	cb, none := current(bps, rs, re)
	okb := x.Breakpoint == "" && (none || s.mayBeGone(x.Queue, x.Id, re))
	for _, w := range cb {
		if w.ev.Op.Bp == x.Breakpoint {
			okb = true
		}
	}
	if !okb {
		s.violate(ev.I, "conc-breakpoint", fmt.Sprintf("%s of %s/%s returned the breakpoint %q, which is not current", ev.Op.K, x.Queue, x.Id, x.Breakpoint), "C18")
		return false
	}
	if s.lagging() || ev.Op.K != "pull" {
		return true
	}
	d := s.diagAt(x.Queue, x.Id, rs, re)
	have := [4]int64{x.GetDiagnostics().GetAcks(), x.GetDiagnostics().GetNacks(), x.GetDiagnostics().GetConsecutiveAcks(), x.GetDiagnostics().GetConsecutiveNacks()}
	for i, n := range []string{"acks", "nacks", "consecutive acks", "consecutive nacks"} {
		if have[i] < d[i].lo || have[i] > d[i].hi {
			s.violate(ev.I, "conc-diagnostics", fmt.Sprintf("%s of %s/%s returned %d %s, possible is %d..%d", ev.Op.K, x.Queue, x.Id, have[i], n, d[i].lo, d[i].hi), "C16")
			return false
		}
	}
	return true
}

// judgeConfig hands the configurations over which may be current.
func (s *Sim) judgeConfig(m *model) {
	by := map[string][]writer{}
	for _, ev := range s.Hist {
		if ev.Op.K == "editq" && ev.Err != errDown {
			if ev.OK() {
				if r, ok := ev.Resp.(*deckard.EditQueueResponse); !ok || !r.Success || r.Queue != ev.Op.Q {
					s.violate(ev.I, "editq", "an edit answered success=false or for another queue", "C17")
					return
				}
			}
			if ev.Op.Val != 0 {
				by[ev.Op.Q] = append(by[ev.Op.Q], writer{s: ev.S, e: s.settle(ev), sure: ev.OK(), ev: ev, m: nil})
			}
		}
	}
	for _, ev := range s.Hist {
		if r, ok := ev.Resp.(*deckard.GetQueueResponse); ok && ev.OK() {
			okv := r.Configuration.GetMaxElements() == 0
			for _, w := range by[ev.Op.Q] {
				if w.s < ev.E && max(w.ev.Op.Val, 0) == r.Configuration.GetMaxElements() {
					okv = true
				}
			}
			if !okv || r.Queue != ev.Op.Q {
				s.violate(ev.I, "getq", fmt.Sprintf("queue %q reports max_elements %d, which was never set", ev.Op.Q, r.Configuration.GetMaxElements()), "C17", "C13")
				return
			}
		}
	}
	// An edit which sets what the process believes to be current already does nothing,
	// but another process may have set something else meanwhile.
	s.strict = map[string][]int64{}
	for _, q := range sortedKeys(by) {
		l := by[q]
		cur, none := current(l, s.seq+1, s.seq+1)
		for _, w := range cur {
			s.strict[q] = append(s.strict[q], max(w.ev.Op.Val, 0))
		}
		if none {
			s.strict[q] = append(s.strict[q], 0)
		}
		for i, w := range l {
			same, other := false, false
			for _, x := range l {
				same = same || x.s < w.s && max(x.ev.Op.Val, 0) == max(w.ev.Op.Val, 0)
				other = other || x.ev.Op.N != w.ev.Op.N && x.s < w.e && x.ev.Op.Val != w.ev.Op.Val
			}
			if same && other {
				l[i].mine = l[i].sure
				l[i].sure = false
			}
		}
	}
	for q, l := range by {
		cur, none := current(l, s.seq+1, s.seq+1)
		t := s.now() - 3600000
		var v []cfgVal
		if none {
			v = append(v, cfgVal{t, t, 0})
		}
		for _, w := range cur {
			c := cfgVal{t, t, max(w.ev.Op.Val, 0)}
			if len(v) > 0 {
				c.to = 1 << 60
			}
			v = append(v, c)
		}
		m.cfg[q] = v
	}
}

// judgeCounts checks the counts of the concurrent part.
func (s *Sim) judgeCounts(keys []key) {
	for _, ev := range s.Hist {
		r, ok := ev.Resp.(*deckard.CountResponse)
		if !ok || !ev.OK() {
			continue
		}
		hi := int64(0)
		lo := int64(0)
		for _, k := range keys {
			if k.q != ev.Op.Q {
				continue
			}
			adds, _ := s.writers(k.q, k.id)
			may, must := false, false
			for _, w := range adds {
				if w.s < ev.E {
					may = true
				}
				if w.sure && w.e < ev.S {
					must = true
				}
			}
			if may {
				hi++
			}
			if must && !s.mayBeGone(k.q, k.id, ev.E) {
				lo++
			}
		}
		if s.lagging() {
			lo = 0
		}
		if r.Count < lo || r.Count > hi {
			s.violate(ev.I, "conc-count", fmt.Sprintf("count of %q is %d, possible is %d..%d", ev.Op.Q, r.Count, lo, hi), "C22", "C01")
			return
		}
	}
}

// finish empties the system and looks whether everything comes that has to.
func (s *Sim) finish(m *model) {
	step := func(o *Op) bool {
		o.A = "fin"
		o.N = len(s.Hist) % len(s.Nodes)
		m.apply(s.do(o))
		return !m.dead
	}
	s.checked("drain")
	for i := 0; i < len(s.Nodes); i++ {
		// Every process may have to learn that the recovery is over.
		m.apply(s.do(&Op{A: "fin", K: "recovery", N: i, Val: 4}))
		if m.dead {
			return
		}
	}
	s.wipedInPass(m)
	for round := 0; round < 2; round++ {
		if !step(&Op{K: "timeout", Pre: 3700000, Val: 2}) || !step(&Op{K: "unlock", Val: 2}) || !step(&Op{K: "ttl", Val: 2}) || !step(&Op{K: "max"}) {
			return
		}
		for _, q := range sortedKeys(m.byq) {
			if !step(&Op{K: "getq", Q: q}) || !step(&Op{K: "count", Q: q}) || !step(&Op{K: "pull", Q: q, Amt: 1000, Deadline: 10000}) {
				return
			}
			ev := s.Hist[len(s.Hist)-1]
			if r, ok := ev.Resp.(*deckard.PullResponse); ok && round == 0 {
				for i, x := range r.Messages {
					o := &Op{K: []string{"ack", "nack"}[i%2], Q: q, IDs: []string{x.Id}}
					if i%3 == 0 {
						o.Lock = 1000
					}
					if i%4 != 3 && !step(o) {
						return
					}
				}
			}
		}
	}
	for _, e := range m.list {
		if !step(&Op{K: "get", Q: e.q, IDs: []string{e.id}}) {
			return
		}
	}
	if !step(&Op{K: "metrics"}) {
		return
	}
}

// wipedInPass recognises a recorded finding: the cache was lost while a recovery pass
// ran, the pass then noted that the recovery was finished, and so no later pass
// brings back what was lost.
func (s *Sim) wipedInPass(m *model) {
	var w *Ev
	for _, ev := range s.Hist {
		if ev.Op.K == "wipe" {
			w = ev
		}
	}
	if w == nil {
		return
	}
	within := false
	for _, ev := range s.Hist {
		if ev.Op.K != "recovery" {
			continue
		}
		if ev.S > w.S {
			if did, ok := ev.Val.(bool); ok && did {
				return
			}
		} else if ev.E > w.S || !ev.Done {
			within = true
		}
	}
	if !within {
		return
	}
	lost := 0
	for _, e := range m.list {
		if e.stored > 0 {
			e.soft = true
			e.cs = unionCst(e.cs, []cst{{pool: 'o'}})
			lost++
		}
	}
	if lost > 0 {
		s.Found = append(s.Found, Violation{Prop: "C12", Kind: "recovery-wiped", Op: w.I, Msg: fmt.Sprintf("the cache was lost during a recovery pass, which then noted that the recovery was finished: up to %d stored messages are not brought back", lost)})
	}
}

// judgeEvents compares audit events and counters with the answers, for a run in
// which no dependency failed.
func (s *Sim) judgeEvents(p *concParams) {
	type b struct{ lo, hi int64 }
	cnt := map[string]*b{}
	ev1 := map[string]*b{}
	get := func(m map[string]*b, k string) *b {
		if m[k] == nil {
			m[k] = &b{}
		}
		return m[k]
	}
	crashed := false
	for _, ev := range s.Hist {
		o := ev.Op
		if o.K == "crash" || o.K == "restart" {
			crashed = true
		}
		if (o.K != "ack" && o.K != "nack") || ev.Err == errDown {
			continue
		}
		k := "deckard_" + o.K + "{queue=" + prefixOf(o.Q)
		x := get(cnt, k)
		y := get(ev1, strings.ToUpper(o.K)+"\x00"+o.Q+"\x00"+first(o.IDs))
		r, ok := ev.Resp.(*deckard.AckResponse)
		x.hi++
		y.hi++
		if ok && ev.OK() {
			x.lo++
			if r.Success && !o.Rm {
				y.lo++
			}
		}
	}
	have := metric.Default.Snapshot()
	s.checked("counters")
	for _, k := range sortedKeys(cnt) {
		if simrt.RaceBuild {
			break // nothing is counted in that build
		}
		n := int64(0)
		for h, v := range have {
			if strings.HasPrefix(h, k+"}") || strings.HasPrefix(h, k+",") {
				n += v
			}
		}
		if x := cnt[k]; n < x.lo || n > x.hi {
			s.violate(len(s.Hist)-1, "conc-counter", fmt.Sprintf("the counter %s} is %d, %d..%d such events happened", k, n, x.lo, x.hi), "C29")
			return
		}
	}
	if !s.Env.Audit || crashed {
		return
	}
	simrt.Sleep(330 * time.Second)
	s.checked("audit")
	l, bad := s.audited()
	if bad != "" {
		s.violate(len(s.Hist)-1, "audit-format", bad, "C19")
		return
	}
	n := map[string]int64{}
	for _, e := range l {
		n[e.Signal+"\x00"+e.Queue+"\x00"+e.ID]++
	}
	for _, k := range sortedKeys(ev1) {
		if x := ev1[k]; n[k] < x.lo || n[k] > x.hi {
			s.violate(len(s.Hist)-1, "audit-count", fmt.Sprintf("the sink got %d events %q, %d..%d happened", n[k], k, x.lo, x.hi), "C19")
			return
		}
	}
}

// movement moves slots of a cluster to another node, at once or as long as clients
// are told to ask elsewhere.
func movement(r *simrt.Rand, e *Env, env func(o *Op), pre func() int64) {
	o := &Op{K: "move", N: r.Intn(e.Shards), Val: int64(r.Intn(16384)), Pre: pre()}
	if r.Bool(0.4) {
		o.Arg = "now"
	}
	env(o)
	if o.Arg == "" {
		env(&Op{K: "moved", Pre: pre()})
	}
}

// movedDuring says whether keys changed their node within the operation: a scan, node
// by node, may have missed them.
func (s *Sim) movedDuring(ev *Ev) bool {
	for _, x := range s.Hist {
		if x.Op.K == "move" && x.S < ev.E && x.E > ev.S {
			return true
		}
	}
	return false
}

func concProfile(p concParams) *profile {
	return &profile{
		env: func(r *simrt.Rand) *Env {
			e := &Env{Engine: p.engines[r.Intn(len(p.engines))], Nodes: 1 + r.Intn(max(p.nodes, 1)), Kind: r.Intn(3), Sticky: []float64{0.5, 0.8, 0.95}[r.Intn(3)], Change: []int{10, 40, 150}[r.Intn(3)], MapMode: r.Intn(2), Order: r.Intn(3)}
			if e.memCache() || e.memStorage() {
				e.Nodes = 1
			}
			if e.Engine[0] == 'c' {
				e.Shards = 2 + r.Intn(2)
			}
			if e.memory() {
				e.PointGap = r.Intn(3)
			}
			e.Audit = r.Bool(p.audit)
			e.Yield = !e.memStorage() && r.Bool(0.5)
			if p.reps > 1 {
				e.Replicas = p.reps
				e.Lag = p.lag
			}
			if p.tweak != nil {
				p.tweak(r, e)
			}
			return e
		},
		run: func(s *Sim, sc *Scenario) { q := p; q.run(s, sc) },
	}
}

func init() {
	for _, e := range []string{"mm", "rm", "cm", "xm", "rx"} {
		one := []string{e}
		base := concParams{engines: one, nodes: 3, clients: 3, ops: 14, hk: 10, queues: 2, ids: 4, audit: 0.2, ttl: 0.1}
		profiles["conc-"+e] = concProfile(base)
		t := base
		t.queues, t.ids, t.ops, t.clients, t.hk = 1, 2, 8, 4, 8
		profiles["tight-"+e] = concProfile(t)
		c := base
		c.w = map[string]int{"editq": 10, "getq": 6, "add": 22}
		c.hkw = map[string]int{"max": 6, "ttl": 3, "timeout": 2, "unlock": 2, "recovery": 2, "metrics": 1}
		c.ttl = 0.4
		profiles["conccfg-"+e] = concProfile(c)
		c.w = map[string]int{"editq": 30, "getq": 40, "add": 1, "pull": 1, "ack": 0, "nack": 0, "remove": 0, "get": 0, "count": 0}
		c.hkw = map[string]int{"metrics": 1}
		c.few, c.queues, c.hk, c.ops, c.nodes = true, 1, 1, 10, 2
		profiles["cfgtight-"+e] = concProfile(c)
		d := base
		d.w = map[string]int{"remove": 0, "ack": 30, "nack": 20}
		d.ttl, d.audit = 0, 1
		profiles["concdiag-"+e] = concProfile(d)
		if e == "mm" {
			l := base
			l.w = map[string]int{"flush": 4}
			profiles["concflush-mm"] = concProfile(l)
			// The same in the build with the race detector, see check.py.
			for n, q := range map[string]concParams{"conc": base, "concflush": l, "tight": t, "conccfg": c, "concdiag": d} {
				q.audit = 0
				profiles["race-"+n] = concProfile(q)
			}
		}
		if e != "mm" {
			f := base
			f.faults, f.late, f.audit = 0.15, true, 0
			f.parts = 0.5
			profiles["concf-"+e] = concProfile(f)
		}
		if e == "rm" || e == "cm" || e == "xm" {
			x := base
			x.audit, x.crash, x.wipes, x.parts, x.faults = 0, 1.2, 0.3, 0.4, 0.05
			x.hkw = map[string]int{"timeout": 3, "unlock": 3, "ttl": 1, "max": 1, "recovery": 6}
			profiles["chaos-"+e] = concProfile(x)
		}
		if e == "rm" || e == "cm" || e == "xm" {
			g := base
			g.audit, g.ttl, g.reps, g.lag = 0, 0, 3, 4000
			g.w = map[string]int{"add": 26, "pull": 40}
			profiles["lag-"+e] = concProfile(g)
			t := g
			t.ttl = 0.5
			t.hkw = map[string]int{"ttl": 6, "timeout": 3, "unlock": 3, "recovery": 1}
			profiles["lagttl-"+e] = concProfile(t)
			g.wipes, g.crash = 0.4, 0.3
			g.hkw = map[string]int{"timeout": 3, "unlock": 3, "recovery": 6}
			profiles["lagwipe-"+e] = concProfile(g)
		}
		if e == "rm" || e == "cm" {
			k := base
			k.skew, k.nodes = 1500, 3
			profiles["skew-"+e] = concProfile(k)
		}
	}
}
