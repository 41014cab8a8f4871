package simtest

import (
	"fmt"
	"math"
	"strings"

	"verifsim/netsim"
	"verifsim/simrt"
)

// seqParams shapes the workload of one sequential client which the reference model
// follows exactly.
type seqParams struct {
	engines []string
	nodes   int
	ops     int
	queues  int
	ids     int
	names   string // plain, weird, prefix
	scores  string // plain, wild
	w       map[string]int
	faults  float64
	big     int // size of generated batches
	audit   float64
	foreign float64
	prefix  float64
	tweak   func(r *simrt.Rand, e *Env)
	noFin   bool
	small   bool // pulls of a few messages
	lag     bool // reads may see an older state of the storage
	mortal  bool // messages expire nevertheless
}

var baseWeights = map[string]int{
	"add": 22, "pull": 22, "ack": 16, "nack": 9, "remove": 5, "count": 3, "get": 5,
	"timeout": 7, "unlock": 7, "ttl": 3, "max": 2, "recovery": 3, "metrics": 2,
	"editq": 3, "getq": 3, "sleep": 3, "boundary": 14,
}

func weights(over map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range baseWeights {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

var weirdQueues = []string{"a", "a:tmp", "a:lock_ack", "a:lock_nack:score", "a:lock_nack", "a::b", "a::b::c", "a::", "a:", "queue", "q*", "q?", "q[a-z]", "*", " ", "a b", "ünï", "日本", "deckard", "a:queue:b", "A", "lock_ack", "tmp", "a\nb", "\\", "q\\*", "$a", "a.b", "%s", "'", "\"", "a:b", "a:1", "qa", "q"}
var weirdIDs = []string{"1", "1:2", "2", ":1", "b:1", ":", "*", " ", "ünï", "tmp", "a", "lock_ack", "$x", "a.b", "\"", "1\n", "0", "-1", "nil", "b", "::b", "%d", "x\x00y"}

type gen struct {
	s      *Sim
	m      *model
	p      *seqParams
	r      *simrt.Rand
	queues []string
	ids    []string
	todo   []*Op
	batch  int
	n      int
	bigIDs map[string][]string
	kinds  []string
	want   string // the queue of ...
	more   string // ... what is to come next
	extra  int    // operations beyond the usual number
	total  int
}

func (g *gen) pickW() string {
	if g.total == 0 {
		for _, k := range sortedKeys(g.p.w) {
			if g.p.w[k] > 0 {
				g.kinds = append(g.kinds, k)
				g.total += g.p.w[k]
			}
		}
	}
	x := g.r.Intn(g.total)
	for _, k := range g.kinds {
		x -= g.p.w[k]
		if x < 0 {
			return k
		}
	}
	return "add"
}

func (g *gen) queue() string { return g.queues[g.r.Intn(len(g.queues))] }
func (g *gen) id() string    { return g.ids[g.r.Intn(len(g.ids))] }

func (g *gen) score() float64 {
	r := g.r
	if g.p.scores == "wild" {
		switch r.Intn(17) {
		case 16:
			return math.NaN()
		case 0:
			return -1
		case 1:
			return -float64(r.Intn(1000)) - 0.5
		case 2:
			return 9007199254740992
		case 3:
			return 9007199254740993 + float64(r.Intn(5))*2
		case 4:
			return 1e300
		case 5:
			return 0.25
		case 6:
			return 1e-9
		case 7:
			return math.Inf(1)
		case 8:
			return math.Inf(-1)
		case 9:
			return float64(g.s.now())
		case 10:
			return -1e-9
		case 11:
			return math.Copysign(0, -1)
		}
	}
	switch r.Intn(8) {
	case 0, 1, 2:
		return 0
	case 3:
		return float64(g.s.now() - int64(r.Intn(5000)))
	case 4:
		if r.Bool(0.3) {
			return []float64{float64(g.s.now() + 100000), 4e12}[r.Intn(2)] // not yet
		}
		return float64(1+r.Intn(3)) / 2
	default:
		return float64(1 + r.Intn(12))
	}
}

func (g *gen) text(n int) string {
	switch g.r.Intn(6) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("x", 1+g.r.Intn(3000))
	case 2:
		return "日本\n\"\\ü" + fmt.Sprint(n)
	default:
		return fmt.Sprintf("t%d", n)
	}
}

func (g *gen) msg(q, id string) Msg {
	r := g.r
	g.n++
	x := Msg{ID: id, Q: q, Score: F(g.score())}
	switch k := r.Intn(10); {
	case k < 5 && (!g.p.mortal || k == 0) || g.p.lag && !g.p.mortal:
		x.Timeless = true
		if r.Bool(0.1) {
			x.TTL = []int64{1, 5, 100000, math.MaxInt32, math.MaxInt64}[r.Intn(5)]
		}
	case k < 9:
		x.TTL = int64(1 + r.Intn(4))
	default:
		if r.Bool(0.3) {
			x.TTL = -int64(r.Intn(3))
		} else {
			x.TTL = int64(30 + r.Intn(3000))
			if r.Bool(0.3) {
				x.TTL = []int64{1000000, 200000000, math.MaxInt32, 1 << 40, math.MaxInt64, 5e17, -1 << 40, math.MinInt64}[r.Intn(8)]
			}
		}
	}
	x.Str = g.text(g.n)
	if r.Bool(0.5) {
		x.Pay = map[string][]byte{}
		for i := r.Intn(3); i >= 0; i-- {
			b := make([]byte, r.Intn(20))
			for j := range b {
				b[j] = byte(r.Intn(256))
			}
			x.Pay[[]string{"k", "a.b", "ü", "$d", "k2"}[r.Intn(5)]] = b
		}
	}
	if r.Bool(0.4) {
		x.Meta = map[string]string{[]string{"m", "m.n", "$x", "ä"}[r.Intn(4)]: g.text(g.n)}
	}
	if r.Bool(0.5) {
		x.Desc = g.text(g.n)
	}
	return x
}

// held picks a message which may be out for processing.
func (g *gen) held(pool ...byte) *smsg {
	var l []*smsg
	for _, e := range g.m.list {
		for _, p := range pool {
			if e.can(p) {
				l = append(l, e)
				break
			}
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[g.r.Intn(len(l))]
}

func (g *gen) due(o *Op) {
	n := 0
	for _, e := range g.m.list {
		if e.can('p') || e.can('a') || e.can('n') {
			n++
		}
	}
	o.Val = int64((n+999)/1000 + 1)
	if n < 900 && g.r.Bool(0.7) {
		o.Val = 0
	}
}

func (g *gen) pass(k string) *Op {
	o := &Op{A: "c", K: k, N: g.r.Intn(g.p.nodes)}
	switch k {
	case "timeout", "unlock":
		g.due(o)
	case "ttl":
		o.Val = int64(len(g.m.list)/10000 + 1)
	case "recovery":
		o.Val = int64(len(g.m.list)/4000 + 2)
		if g.r.Bool(0.3) {
			o.Val = 0
		}
	}
	return o
}

func (g *gen) pull(q string) *Op {
	r := g.r
	o := &Op{A: "c", K: "pull", N: r.Intn(g.p.nodes), Q: q}
	switch r.Intn(8) {
	case 0:
		o.Amt = 0
	case 1:
		o.Amt = -int32(r.Intn(5))
	case 2, 3:
		o.Amt = 1
	case 4:
		o.Amt = 1000 + int32(r.Intn(3))
	case 5:
		o.Amt = 2
	default:
		o.Amt = int32(1 + r.Intn(len(g.ids)+1))
	}
	if g.p.small && r.Bool(0.9) {
		o.Amt = int32(1 + r.Intn(3))
	}
	switch r.Intn(7) {
	case 0:
		o.Deadline = 0
	case 1:
		o.Deadline = int64(1 + r.Intn(900))
	case 2:
		o.Deadline = 3600000
		if r.Bool(0.15) {
			o.Deadline = []int64{math.MaxInt64, math.MaxInt64 - 5, 1 << 62, 9e15, -1, -5000, math.MinInt64, math.MinInt64 + 7}[r.Intn(8)]
		}
	default:
		o.Deadline = int64(1000 * (1 + r.Intn(60)))
	}
	bound := func() F {
		l := g.m.byq[q]
		if len(l) > 0 && r.Bool(0.7) {
			e := l[r.Intn(len(l))]
			for _, c := range e.cs {
				if c.pool == 'r' {
					v := c.lo
					if r.Bool(0.25) {
						v += []float64{-1, 1, 0.5, -0.5}[r.Intn(4)]
					}
					return F(v)
				}
			}
		}
		if v := F(g.score()); v == v {
			return v
		}
		return 1
	}
	f := 0.35
	if g.p.w["filter"] > 0 {
		f = 0.8
	}
	if r.Bool(f) {
		switch r.Intn(6) {
		case 0, 1:
			o.Min = bound()
		case 2, 3:
			o.Max = bound()
		case 4:
			o.Min, o.Max = bound(), bound()
			if o.Min > o.Max && o.Max != 0 && r.Bool(0.8) {
				o.Min, o.Max = o.Max, o.Min
			}
		case 5:
			o.Filter = int64(r.Intn(6000))
			switch r.Intn(10) {
			case 0, 1:
				o.Max = bound()
			case 2, 3, 4:
				if o.Min = bound(); r.Bool(0.5) {
					o.Min = F(1 + r.Intn(1000)) // below what is left over
				}
			case 5:
				o.Filter = []int64{-1, -5000, 1 << 40, 946684800000, math.MaxInt64, math.MinInt64}[r.Intn(6)]
			}
		}
	}
	return o
}

func (g *gen) ack() *Op {
	r := g.r
	k := "ack"
	if r.Bool(0.4) {
		k = "nack"
	}
	return g.ackOf(k)
}

func (g *gen) ackOf(k string) *Op {
	r := g.r
	o := &Op{A: "c", K: k, N: r.Intn(g.p.nodes)}
	var e *smsg
	if r.Bool(0.82) {
		e = g.held('p')
	} else if r.Bool(0.7) {
		e = g.held('r', 'a', 'n')
	}
	if e != nil {
		o.Q, o.IDs = e.q, []string{e.id}
	} else {
		o.Q, o.IDs = g.queue(), []string{g.id()}
	}
	if r.Bool(0.5) {
		o.Score = F(g.score())
	}
	if r.Bool(0.3) {
		o.Sub = F([]float64{1, 1000, 60000.5, 1e15, -5, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN()}[r.Intn(10)])
		if g.p.scores != "wild" {
			o.Sub = F([]float64{1, 1000, 60000.5}[r.Intn(3)])
		}
	}
	switch r.Intn(6) {
	case 0, 1:
		o.Lock = int64(1000 * (1 + r.Intn(40)))
	case 2:
		o.Lock = int64(1 + r.Intn(900))
	case 3:
		if g.p.scores == "wild" {
			o.Lock = -int64(r.Intn(100))
		} else if r.Bool(0.1) {
			o.Lock = []int64{math.MaxInt64, math.MaxInt64 - 5, 1 << 62, 9e15}[r.Intn(4)]
		}
	}
	if r.Bool(0.4) {
		o.Bp = fmt.Sprintf("bp%d", g.n)
	}
	o.Reason = []string{"", "done", "because of x"}[r.Intn(3)]
	if r.Bool(0.07) {
		o.Rm = true
	}
	return o
}

// boundary makes operations at and around the next moment when something is due.
func (g *gen) boundary() []*Op {
	r := g.r
	now := g.s.now()
	type at struct {
		t    int64
		pass string
		q    string
	}
	var l []at
	for _, e := range g.m.list {
		if len(l) > 300 {
			break
		}
		for _, c := range e.cs {
			if c.d1 > now+1e10 || c.d1 < now-1e10 {
				continue
			}
			switch c.pool {
			case 'p':
				l = append(l, at{c.d1, "timeout", e.q})
			case 'a', 'n':
				l = append(l, at{c.d1, "unlock", e.q})
			}
		}
		if e.stored > 0 && e.exp1 < now+3600000*5 && r.Bool(0.4) {
			l = append(l, at{e.exp1, "ttl", e.q})
		}
	}
	if len(l) == 0 {
		return nil
	}
	a := l[r.Intn(len(l))]
	if r.Bool(0.7) {
		for _, x := range l {
			if x.t < a.t && x.t > now+2 {
				a = x
			}
		}
	}
	d := []int64{-2, -3, 2, 2, 3, 5, 300, 2000, 61000}[r.Intn(9)]
	t := a.t + d
	if t < now {
		t = now
	}
	p := g.pass(a.pass)
	p.Pre = t - now
	out := []*Op{p}
	if r.Bool(0.8) {
		x := g.pull(a.q)
		if r.Bool(0.6) {
			x.Amt, x.Min, x.Max, x.Filter = 1000, 0, 0, 0
		}
		out = append(out, x)
	}
	if d < 0 && r.Bool(0.7) {
		p2 := g.pass(a.pass)
		p2.Pre = -d + 2
		x := g.pull(a.q)
		x.Amt, x.Min, x.Max, x.Filter = 1000, 0, 0, 0
		out = append(out, p2, x)
	}
	if a.pass == "ttl" && r.Bool(0.6) {
		out = append(out, &Op{A: "c", K: "count", Q: a.q, N: r.Intn(g.p.nodes)})
	}
	return out
}

// size is the size of a batch, often one next to where somebody might cut batches.
func (g *gen) size() int {
	r := g.r
	switch x := r.Intn(10); {
	case x < 3:
		return g.p.big - 2 + r.Intn(5)
	case x < 7:
		l := []int{100, 500, 1000, 2000, 4000, 10000}
		k := 0
		for k < len(l) && l[k] <= g.p.big {
			k++
		}
		if k > 0 {
			b := l[k-1-r.Intn(k)*r.Intn(2)]
			return b*(1+r.Intn(g.p.big/b)) - 1 + r.Intn(3)
		}
	}
	return 1 + r.Intn(g.p.big)
}

func (g *gen) ops(k string) []*Op {
	r := g.r
	o := &Op{A: "c", K: k, N: r.Intn(g.p.nodes)}
	switch k {
	case "add":
		q := g.queue()
		n := 1 + r.Intn(4)
		if r.Bool(0.15) {
			n = len(g.ids)
		}
		seen := map[string]Msg{}
		for i := 0; i < n; i++ {
			if r.Bool(0.2) {
				q = g.queue()
			}
			x := g.msg(q, g.id())
			k := x.Q + "\x00" + x.ID
			if y, ok := seen[k]; ok {
				x.Score = y.Score // in-request duplicates keep their score
				if y.Score == 0 {
					continue
				}
			}
			seen[k] = x
			o.Msgs = append(o.Msgs, x)
		}
		if g.p.names == "weird" && r.Bool(0.05) {
			switch r.Intn(3) {
			case 0:
				o.Msgs = []Msg{g.msg("", g.id())}
			case 1:
				o.Msgs = []Msg{g.msg(g.queue(), "")}
			case 2:
				o.Msgs = []Msg{g.msg("{br}", "1")}
			}
		}
	case "sink", "trickle", "flood":
		return g.sink(k)
	case "bigadd":
		g.batch++
		o.K = "add"
		o.Q = g.queue()
		n := g.size()
		if g.p.queues > 1 && r.Bool(0.2) {
			if o.Q2 = g.queue(); o.Q2 == o.Q {
				o.Q2 = ""
			} else if r.Bool(0.5) {
				n = min(2*n, g.p.big*3/2)
			}
		}
		o.Gen = fmt.Sprintf("%c,0,%d,%s", 'b'+g.batch%3, n, []string{"same", "up", "down", "mix"}[r.Intn(4)])
		if !g.p.lag && r.Bool(0.5) {
			o.Val = int64(1 + r.Intn(3))
		}
	case "bigremove":
		o.K = "remove"
		o.Q = g.queue()
		n := g.size()
		if r.Bool(0.4) {
			n = g.p.big
		}
		o.Gen = fmt.Sprintf("%c,%d,%d,same", 'b'+r.Intn(3), r.Intn(3), n)
		if r.Bool(0.5) {
			// what is there
			if l := g.m.byq[o.Q]; len(l) > 0 {
				e := l[r.Intn(len(l))]
				if len(e.id) > 1 && e.id[0] >= 'b' && e.id[0] <= 'd' {
					o.Gen = fmt.Sprintf("%c,%d,%d,same", e.id[0], r.Intn(3), n)
				}
			}
		}
	case "bigpull":
		q := g.queue()
		var l []*Op
		for i := 0; i < 1+r.Intn(4); i++ {
			x := g.pull(q)
			x.Amt = int32(998 + r.Intn(4))
			if r.Bool(0.7) {
				x.Min, x.Max, x.Filter = 0, 0, 0
			}
			x.Deadline = 30000
			l = append(l, x)
		}
		return l
	case "biglock":
		// Many locks which end together, often more than one pass of the script takes.
		q := g.queue()
		if g.want != "" {
			q = g.want
		}
		var l []*Op
		for _, e := range g.m.byq[q] {
			if e.can('p') && len(l) < g.p.big {
				l = append(l, &Op{A: "c", K: []string{"ack", "nack"}[r.Intn(2)], N: o.N, Q: q, IDs: []string{e.id}, Lock: 60000, Score: F(r.Intn(2) * 7)})
			}
		}
		if g.want == "" && g.p.big > 1000 && len(l) < 1050 && r.Bool(0.8) {
			g.want, g.more = q, "biglock"
			pull := func() *Op { return &Op{A: "c", K: "pull", N: o.N, Q: q, Amt: 1000, Deadline: 3600000} }
			return []*Op{{A: "c", K: "add", N: o.N, Q: q, Gen: fmt.Sprintf("e,0,%d,mix", 1020+r.Intn(300))}, pull(), pull()}
		}
		g.want = ""
		g.extra += len(l)
		if len(l) > 0 && r.Bool(0.8) {
			x := g.pass("unlock")
			x.Pre = 61000
			l = append(l, x, &Op{A: "c", K: "count", N: o.N, Q: q}, &Op{A: "c", K: "pull", N: o.N, Q: q, Amt: 1000}, &Op{A: "c", K: "pull", N: o.N, Q: q, Amt: 1000})
		}
		return l
	case "pull":
		return []*Op{g.pull(g.queue())}
	case "ack", "nack":
		return []*Op{g.ackOf(k)}
	case "remove":
		o.Q = g.queue()
		for i := r.Intn(3); i >= 0; i-- {
			o.IDs = append(o.IDs, g.id())
		}
		if r.Bool(0.1) {
			o.IDs = append(o.IDs, o.IDs[0])
		}
		if e := g.held('a', 'n', 'p'); e != nil && r.Bool(0.5) {
			o.Q, o.IDs = e.q, []string{e.id}
		}
		if r.Bool(0.05) {
			o.IDs = nil
		}
	case "count":
		o.Q = g.queue()
	case "get":
		o.Q, o.IDs = g.queue(), []string{g.id()}
		if len(g.m.list) > 0 && r.Bool(0.6) {
			e := g.m.list[r.Intn(len(g.m.list))]
			o.Q, o.IDs = e.q, []string{e.id}
		}
	case "timeout", "unlock", "ttl", "max", "recovery", "metrics":
		return []*Op{g.pass(k)}
	case "editq":
		o.Q = g.queue()
		switch r.Intn(8) {
		case 0:
			o.Val = -1
		case 1:
			o.Val = 0
		case 2:
			o.Arg = "nil"
		default:
			o.Val = int64(1 + r.Intn(max(len(g.ids), g.p.big/2)))
			if r.Bool(0.4) {
				// close to what is stored
				o.Val = max(1, g.m.stored(o.Q).hi+int64(r.Intn(6))-3)
			}
		}
		if r.Bool(0.5) {
			return []*Op{o, g.pass("max"), {A: "c", K: "count", Q: o.Q, N: r.Intn(g.p.nodes)}}
		}
	case "swing":
		// An edit which meets failures is taken back, and what was cached meanwhile ends.
		q, x, y := g.queue(), int64(1+r.Intn(9)), int64(11+r.Intn(9))
		edit := func(v int64) *Op { return &Op{A: "c", K: "editq", N: o.N, Q: q, Val: v} }
		l := []*Op{edit(x), edit(y), edit(x), {A: "c", K: "getq", N: o.N, Q: q}, {A: "c", K: "getq", N: o.N, Q: q, Pre: 601000}}
		l[1].Faults = faultsFor(r, &g.s.Env, false, "editq")
		if r.Bool(0.5) {
			l = append(l[:1], append([]*Op{{A: "c", K: "getq", N: o.N, Q: q}}, l[1:]...)...)
		}
		return l
	case "getq":
		o.Q = g.queue()
		if r.Bool(0.2) {
			o.Pre = int64(r.Intn(700000))
		}
	case "sleep":
		o.Pre = int64([]int{1, 100, 999, 1000, 5000, 60000, 120000, 300000}[r.Intn(8)])
	case "boundary":
		return g.boundary()
	case "renew":
		// A message is given another lifetime just before its end, and its old end passes.
		now := g.s.now()
		var l []*smsg
		for _, e := range g.m.list {
			if e.stored == 2 && e.exp1 > now+500 && e.exp1 < now+300000 {
				l = append(l, e)
			}
		}
		if len(l) == 0 {
			return nil
		}
		e := l[r.Intn(len(l))]
		d := []int64{20, 100, 300, 900, 3000}[r.Intn(5)]
		x := g.msg(e.q, e.id)
		if x.TTL = int64(2 + r.Intn(60)); r.Bool(0.3) {
			x.Timeless = true
		}
		o.K, o.Msgs = "add", []Msg{x}
		o.Pre = max(0, e.exp0-d-now)
		y := g.pass("ttl")
		y.Pre = d + int64(r.Intn(60))
		return []*Op{o, y}
	case "empty":
		// Everything is removed, and the metrics are computed.
		l := []*Op{g.pass("metrics")}
		for _, q := range sortedKeys(g.m.byq) {
			x := &Op{A: "c", K: "remove", N: o.N, Q: q}
			for _, e := range g.m.byq[q] {
				if e.stored > 0 && len(x.IDs) < 90 {
					x.IDs = append(x.IDs, e.id)
				}
			}
			if len(x.IDs) > 0 {
				l = append(l, x)
			}
		}
		return append(l, g.pass("metrics"))
	case "reboot":
		return []*Op{{A: "env", K: "reboot"}}
	case "restart":
		l := []*Op{o}
		if g.s.Env.Engine == "xm" {
			l = append(l, g.pass("recovery"))
		}
		return l
	case "wipe":
		if g.s.Env.memCache() {
			return []*Op{{A: "c", K: "restart", N: 0}}
		}
		if g.p.w["wipe"] >= 4 && r.Bool(0.6) {
			// The first passes after the loss, most of them with failures.
			l := []*Op{o}
			for i := 1 + r.Intn(3); i > 0; i-- {
				x := g.pass("recovery")
				if g.p.faults > 0 && r.Bool(0.7) {
					x.Faults = faultsFor(r, &g.s.Env, false, "recovery")
				}
				l = append(l, x)
			}
			return l
		}
		return []*Op{o}
	case "filter":
		return []*Op{g.pull(g.queue())}
	case "cycle":
		// Take everything, then let it all time out.
		q := g.queue()
		x := g.pull(q)
		x.Amt, x.Min, x.Max, x.Filter, x.Deadline = 1000, 0, 0, 0, 5000
		p := g.pass("timeout")
		p.Pre = 5002
		y := g.pull(q)
		return []*Op{x, p, y}
	case "drill":
		return g.drill()
	case "churn":
		return g.churn()
	case "ghost":
		// Messages which are removed from the storage, and maybe not from the cache.
		o.K, o.Q = "remove", g.queue()
		for _, e := range g.m.byq[o.Q] {
			if e.stored > 0 && e.can('r') && r.Bool(0.4) && len(o.IDs) < 90 {
				o.IDs = append(o.IDs, e.id)
			}
		}
		if len(o.IDs) == 0 {
			o.IDs = []string{g.id()}
		}
		if !g.s.Env.memCache() {
			o.Faults = []netsim.Fault{{On: "redis", Kind: []string{netsim.Drop, netsim.Lost, netsim.Err}[r.Intn(3)], N: 1000}}
			if o.Faults[0].Kind == netsim.Err {
				o.Faults[0].Arg = redisErrs[r.Intn(len(redisErrs))]
			}
		}
		x := g.msg(o.Q, g.id())
		y := g.pull(o.Q)
		if r.Bool(0.7) {
			y.Amt, y.Min, y.Max, y.Filter = 1000, 0, 0, 0
		}
		y.Pre = int64(r.Intn(3)) * int64(r.Intn(5000))
		y.Faults = []netsim.Fault{}
		l := []Msg{x}
		if z := g.msg(o.Q, g.id()); z.ID != x.ID {
			l = append(l, z)
		}
		return []*Op{o, {A: "c", K: "add", N: o.N, Msgs: l}, y}
	case "move":
		var l []*Op
		movement(r, &g.s.Env, func(o *Op) { o.A = "env"; l = append(l, o) }, func() int64 { return 0 })
		if len(l) > 1 && r.Bool(0.7) {
			// The clients are told to ask elsewhere for a while.
			l = l[:1]
		}
		return l
	case "lag", "freeze":
		o.A, o.N = "env", 1+r.Intn(2)
		if k == "lag" {
			o.Val = int64(r.Intn(int(g.s.Env.Lag) + 1))
		} else {
			o.Val = int64(r.Intn(2))
		}
	case "elect":
		return []*Op{{A: "env", K: "stepdown"}, {A: "env", K: "elect", N: r.Intn(3)}}
	case "release":
		// The end of every lock and deadline so far.
		x, y := g.pass("unlock"), g.pass("timeout")
		x.Pre = 41000
		if r.Bool(0.4) {
			return []*Op{x}
		}
		return []*Op{x, y}
	case "same":
		// The same id in every queue.
		id := g.id()
		for _, q := range g.queues {
			o.Msgs = append(o.Msgs, g.msg(q, id))
		}
		o.K = "add"
	}
	return []*Op{o}
}

// churn is a likely next step in the life of a message.
func (g *gen) churn() []*Op {
	r := g.r
	q, id := g.queue(), g.id()
	e := g.m.get(q, id)
	o := &Op{A: "c", N: r.Intn(g.p.nodes)}
	switch {
	case e.stored == 0 || !e.can('r') && !e.can('p') && !e.can('a') && !e.can('n'):
		o.K, o.Msgs = "add", []Msg{g.msg(q, id)}
	case e.can('a') || e.can('n'):
		switch r.Intn(10) {
		case 0, 1, 2:
			o.K, o.Q, o.IDs = "remove", q, []string{id}
		case 3:
			o.K, o.Msgs = "add", []Msg{g.msg(q, id)}
		case 4:
			o = g.pass("unlock")
		default:
			o = g.pass("unlock")
			o.Pre = 41000
		}
	case e.can('p'):
		switch r.Intn(10) {
		case 0:
			o.K, o.Q, o.IDs = "remove", q, []string{id}
		case 1:
			o.K, o.Msgs = "add", []Msg{g.msg(q, id)}
		case 2, 3:
			o = g.pass("timeout")
			o.Pre = 61000
		default:
			o = g.ackOf([]string{"ack", "nack"}[r.Intn(2)])
			o.Q, o.IDs = q, []string{id}
			if r.Bool(0.4) {
				o.Lock = int64(1000 * (1 + r.Intn(40)))
			}
		}
	default:
		switch r.Intn(10) {
		case 0:
			o.K, o.Q, o.IDs = "remove", q, []string{id}
		case 1:
			o.K, o.Msgs = "add", []Msg{g.msg(q, id)}
		default:
			o = g.pull(q)
			if r.Bool(0.4) {
				o.Min, o.Max, o.Filter = 0, 0, 0
			}
		}
	}
	return []*Op{o}
}

// drill brings messages of every queue into every state and then lets one operation
// meet a failure.
func (g *gen) drill() []*Op {
	r := g.r
	var l []*Op
	add := func(o *Op) *Op {
		o.A, o.N = "c", r.Intn(g.p.nodes)
		o.Faults = []netsim.Fault{}
		l = append(l, o)
		return o
	}
	long := []int64{1000, 1000, 1000, 3600000}
	for _, q := range g.queues {
		if r.Bool(0.35) {
			continue
		}
		o := add(&Op{K: "add"})
		some := func() (ids []string) {
			for _, id := range g.ids {
				if r.Bool(0.6) {
					ids = append(ids, id)
				}
			}
			return
		}
		for _, id := range some() {
			o.Msgs = append(o.Msgs, g.msg(q, id))
		}
		if len(o.Msgs) == 0 {
			o.Msgs = []Msg{g.msg(q, g.id())}
		}
		x := add(g.pull(q))
		x.Amt, x.Min, x.Max, x.Filter, x.Deadline = 1000, 0, 0, 0, long[r.Intn(4)]
		for _, id := range some() {
			x := add(&Op{K: []string{"ack", "nack"}[r.Intn(2)], Q: q, IDs: []string{id}})
			if r.Bool(0.6) {
				x.Lock = long[r.Intn(4)]
			}
			if r.Bool(0.4) {
				x.Score = F(g.score())
			}
		}
		if r.Bool(0.5) {
			y := add(&Op{K: "add"})
			for _, id := range some() {
				y.Msgs = append(y.Msgs, g.msg(q, id))
			}
			if len(y.Msgs) == 0 {
				l = l[:len(l)-1]
			}
		}
		if r.Bool(0.3) {
			add(&Op{K: "editq", Q: q, Val: int64(1 + r.Intn(4))})
		}
	}
	ks := []string{"timeout", "timeout", "unlock", "unlock", "unlock", "ttl", "ttl", "max", "max", "recovery", "recovery", "recovery", "recovery", "recovery", "pull", "ack", "nack", "remove", "add", "add"}
	k := ks[r.Intn(len(ks))]
	var v *Op
	switch k {
	case "timeout", "unlock", "ttl", "max", "recovery":
		v = g.pass(k)
		v.Val = max(v.Val, 1)
		v.Pre = 2000
		if k == "ttl" {
			v.Pre = 10000 + 60000*int64(1+r.Intn(4))
		}
		if k == "recovery" && !g.s.Env.memCache() {
			add(&Op{K: "wipe"})
		}
	case "pull":
		v = g.pull(g.queue())
	case "ack", "nack":
		v = g.ackOf(k)
	default:
		v = g.ops(k)[0]
	}
	v.Faults = faultsFor(r, &g.s.Env, false, k)
	f := &v.Faults[0]
	if f.What == "" && r.Bool(0.7) {
		f.On, f.Call, f.N = "", r.Intn(12), 1000
	}
	l = append(l, v)
	for k == "recovery" && !g.s.Env.memCache() && r.Bool(0.5) {
		w := *v
		w.Pre, w.Faults = 0, faultsFor(r, &g.s.Env, false, k)
		l = append(l, g.pass(k), &Op{A: "c", K: "wipe"}, &w)
	}
	if k == "recovery" && r.Bool(0.6) || r.Bool(0.2) && isPass(k) {
		l = append(l, g.pass(k))
	}
	return l
}

var redisErrs = []string{"LOADING", "READONLY", "OOM", "BUSY", "MISCONF"}
var mongoErrs = []string{"", "notprimary", "interrupted", "partial", "wce", "timeout"}

// faultsFor makes the faults of one operation.
func faultsFor(r *simrt.Rand, e *Env, late bool, op string) []netsim.Fault {
	return boundedFaults(r, e, late, op, 0)
}

// boundedFaults makes faults which are over after so many milliseconds, if a
// bound is given: the Mongo driver tries again for as long as its caller waits.
func boundedFaults(r *simrt.Rand, e *Env, late bool, op string, bound int) []netsim.Fault {
	n := 1
	if r.Bool(0.15) {
		n = 2
	}
	var l []netsim.Fault
	for i := 0; i < n; i++ {
		f := netsim.Fault{Call: r.Intn(4)}
		if r.Bool(0.3) {
			f.Call = r.Intn(9)
		}
		switch r.Intn(6) {
		case 0, 1, 2:
			f.N = 8
		case 3:
			f.N = 2
		}
		if r.Bool(0.45) {
			// The calls of one kind, or about one queue.
			var l []string
			redis := func(w ...string) {
				if !e.memCache() {
					l = append(l, w...)
				}
			}
			mongo := func(w ...string) {
				if !e.memStorage() {
					l = append(l, w...)
				}
			}
			redis(":queue:{q0}", ":queue:{q1}", "EVAL", "EVAL")
			switch op {
			case "recovery":
				redis("EVAL", "EVAL", "EVAL", "set deckard", "get deckard", "{recovery_storage", "{recovery}")
				mongo("find ", "find ")
			case "timeout", "unlock":
				redis("scan", ":queue:{q2}")
			case "max", "ttl":
				redis("recovery")
				mongo("{queue:q0", "{queue:q1", "find ", "delete ", "aggregate ")
			case "pull":
				mongo("find ", "find ", "update ")
			case "metrics":
				l = l[:0]
				mongo("queue_prefix:q0", "queue_prefix:q1", "queue_prefix:p0", "queue_prefix:p1", "find ", "aggregate ")
			case "editq", "getq":
				mongo("find ", "update ")
			default:
				mongo("{queue:q0", "{queue:q1", "find ", "update ", "delete ", "aggregate ")
			}
			if len(l) == 0 {
				l = append(l, "find ")
			}
			f.What = l[r.Intn(len(l))]
			f.Call = r.Intn(3)
			if r.Bool(0.7) {
				f.Call = 0
			}
			if f.N == 0 && r.Bool(0.5) || f.N > 2 && r.Bool(0.5) {
				f.N = 1000
			}
			f.On = "redis"
			if strings.HasSuffix(f.What, " ") || f.What[0] == '{' || strings.HasPrefix(f.What, "queue_prefix") {
				f.On = "mongo"
			}
		} else if !e.memCache() && !e.memStorage() && r.Bool(0.6) {
			f.On = []string{"redis", "mongo"}[r.Intn(2)]
			f.Call = r.Intn(3)
			if r.Bool(0.2) {
				f.Call = r.Intn(8)
			}
		}
		kinds := []string{netsim.Drop, netsim.Drop, netsim.Lost, netsim.Lost, netsim.Err, netsim.Err, netsim.Timeout, netsim.LostTimeout, netsim.Slow, netsim.SlowReply}
		if late {
			kinds = append(kinds, netsim.Late, netsim.Late)
		}
		f.Kind = kinds[r.Intn(len(kinds))]
		f.Ms = []int{1, 20, 500, 2900, 3100, 10000}[r.Intn(6)]
		if f.Kind == netsim.Err {
			if f.On == "mongo" || f.On == "" && e.memCache() || (f.On == "" && r.Bool(0.5)) {
				f.Arg = mongoErrs[r.Intn(len(mongoErrs))]
			} else {
				f.Arg = redisErrs[r.Intn(len(redisErrs))]
			}
		}
		if bound > 0 {
			cost := max(f.Ms, 1000)
			if f.Kind == netsim.Timeout || f.Kind == netsim.LostTimeout {
				cost = max(cost, 20000) // the driver tries again until the deadline of the request
			}
			f.N = min(f.N, bound/cost)
		}
		l = append(l, f)
	}
	return l
}

func (g *gen) next() *Op {
	for len(g.todo) == 0 {
		k := g.pickW()
		if g.more != "" {
			k, g.more = g.more, ""
		}
		g.todo = g.ops(k)
	}
	o := g.todo[0]
	g.todo = g.todo[1:]
	if g.p.faults > 0 && (isClient(o.K) || isPass(o.K)) && o.Faults == nil && g.r.Bool(g.p.faults) && o.A != "retry" {
		o.Faults = faultsFor(g.r, &g.s.Env, false, o.K)
	}
	return o
}

func (g *gen) retry(ev *Ev) {
	o := ev.Op
	if !isClient(o.K) || ev.Err == nil || g.m.mayFail(o) || !g.r.Bool(0.7) {
		return
	}
	c := *o
	c.A, c.Faults, c.Pre = "retry", nil, int64(g.r.Intn(3))*5000
	g.todo = append([]*Op{&c}, g.todo...)
}

func newGen(s *Sim, m *model, p *seqParams) *gen {
	g := &gen{s: s, m: m, p: p, r: simrt.NewRand(s.Seed ^ 0x5E9)}
	names := p.names
	if names == "" && p.faults == 0 && p.queues > 1 && g.r.Bool(0.35) {
		names = "prefix"
	}
	for i := 0; i < max(p.queues, 1); i++ {
		switch names {
		case "weird":
			for {
				q := weirdQueues[g.r.Intn(len(weirdQueues))]
				if !has(g.queues, q) {
					g.queues = append(g.queues, q)
					break
				}
			}
		case "prefix":
			q := fmt.Sprintf("p%d::q%d", i%2, i)
			if p.names == "" && i > 0 && g.r.Bool(0.15) {
				q = fmt.Sprintf("p%d", i%2)
			}
			g.queues = append(g.queues, q)
		default:
			g.queues = append(g.queues, fmt.Sprintf("q%d", i))
		}
	}
	for i := 0; i < max(p.ids, 2); i++ {
		switch p.names {
		case "weird":
			for {
				q := weirdIDs[g.r.Intn(len(weirdIDs))]
				if !has(g.ids, q) {
					g.ids = append(g.ids, q)
					break
				}
			}
		default:
			g.ids = append(g.ids, fmt.Sprintf("m%d", i))
		}
	}
	return g
}

// seqRun drives and judges one sequential run.
func seqRun(s *Sim, sc *Scenario, p *seqParams) *model {
	m := newModel(s)
	s.model = m
	for i := 0; i < max(s.Env.Nodes, 1); i++ {
		if n := s.bootNode(i); n.Err != nil {
			s.bootFailed(n)
			m.dead = true
			return m
		}
	}
	if s.Env.Foreign {
		s.plantForeign()
	}
	if sc.Ops != nil {
		for _, o := range sc.Ops {
			ev := s.do(o)
			m.apply(ev)
			m.prompt(ev)
			if m.dead {
				return m
			}
		}
	} else {
		g := newGen(s, m, p)
		for len(s.made) < p.ops+g.extra {
			o := g.next()
			s.made = append(s.made, o)
			s.dump(sc)
			ev := s.do(o)
			m.apply(ev)
			m.prompt(ev)
			if m.dead {
				return m
			}
			g.retry(ev)
		}
	}
	if !p.noFin {
		seqFinish(s, m)
	}
	return m
}

// seqFinish looks at everything there is at the end.
func seqFinish(s *Sim, m *model) {
	s.heal()
	step := func(o *Op) bool {
		o.A = "fin"
		m.apply(s.do(o))
		return !m.dead
	}
	n := int64(len(m.list))
	if s.Env.Lose {
		// What is stored comes back, and nothing else.
		o := &Op{K: "wipe"}
		if s.Env.memCache() {
			o.K = "restart"
		}
		if !step(o) || !step(&Op{K: "recovery", Val: n/4000 + 3}) {
			return
		}
	}
	if !step(&Op{K: "recovery", Val: n/4000 + 3}) || !step(&Op{K: "metrics"}) {
		return
	}
	if !step(&Op{K: "timeout", Pre: 3700000, Val: n/1000 + 2}) || !step(&Op{K: "unlock", Val: n/1000 + 2}) {
		return
	}
	for _, q := range sortedKeys(m.byq) {
		if q == "" || m.braces(q) {
			continue
		}
		if !step(&Op{K: "count", Q: q}) {
			return
		}
		for i := 0; i <= len(m.byq[q])/1000; i++ {
			if !step(&Op{K: "pull", Q: q, Amt: 1000, Deadline: 1000}) {
				return
			}
		}
	}
	for i := 0; i < len(m.list); i += 1 + len(m.list)/60 {
		e := m.list[i]
		if e.q == "" || e.id == "" || m.braces(e.q) {
			continue
		}
		if !step(&Op{K: "get", Q: e.q, IDs: []string{e.id}}) {
			return
		}
	}
	if s.Env.Audit {
		if !m.endAudit(step) {
			return
		}
		m.checkAudit()
	}
	if m.dead {
		return
	}
	m.checkCounters()
	if s.Env.Foreign && !m.dead {
		s.checkForeign()
	}
}

func seqProfile(p seqParams) *profile {
	if p.w == nil {
		p.w = baseWeights
	}
	if p.nodes == 0 {
		p.nodes = 1
	}
	return &profile{
		env: func(r *simrt.Rand) *Env {
			e := &Env{Engine: p.engines[r.Intn(len(p.engines))], Nodes: p.nodes, Kind: r.Intn(3), Sticky: 0.8, Change: 40, MapMode: r.Intn(2), Order: r.Intn(3)}
			if e.memCache() || e.memStorage() {
				e.Nodes = 1
			}
			if e.Engine[0] == 'c' {
				e.Shards = 2 + r.Intn(3)
			}
			if !e.memStorage() && r.Bool(0.3) {
				e.MaxBatch = 2 + r.Intn(5)
			}
			e.Audit = r.Bool(p.audit)
			if e.Audit {
				e.Stop = r.Intn(3)
			}
			e.Foreign = !e.memCache() && r.Bool(p.foreign)
			if !e.memCache() && r.Bool(p.prefix) {
				e.Prefix = []string{"dk", "dk:x", "deckard2", "d*", "d[e]", "a?c"}[r.Intn(6)]
			}
			if p.lag {
				e.Replicas, e.Lag = 3, []int64{200, 1000, 4000, 20000}[r.Intn(4)]
			}
			if p.tweak != nil {
				p.tweak(r, e)
			}
			e.Lose = !e.memStorage() && r.Bool(map[bool]float64{true: 0.6, false: 0.3}[p.big > 400])
			return e
		},
		run: func(s *Sim, sc *Scenario) {
			q := p
			q.nodes = s.Env.Nodes
			if s.Clu != nil && !s.Env.Foreign {
				q.w = map[string]int{"move": 3}
				for k, v := range p.w {
					q.w[k] = v
				}
			}
			seqRun(s, sc, &q)
		},
	}
}

func init() {
	for _, e := range []string{"mm", "rm", "cm", "xm", "rx"} {
		l := []string{e}
		redis := e[0] == 'r' || e[0] == 'c'
		profiles["seq-"+e] = seqProfile(seqParams{engines: l, ops: 60, queues: 3, ids: 7, audit: 0.3, foreign: 0.3, prefix: 0.3})
		profiles["names-"+e] = seqProfile(seqParams{engines: l, ops: 60, queues: 5, ids: 5, names: "weird", foreign: 0.3, prefix: 0.5, audit: 0.2,
			w: weights(map[string]int{"same": 8, "remove": 8, "editq": 5, "getq": 5, "count": 6})})
		profiles["prefix-"+e] = seqProfile(seqParams{engines: l, ops: 50, queues: 4, ids: 4, names: "prefix", audit: 0.4,
			w: weights(map[string]int{"metrics": 8, "same": 4, "remove": 8, "empty": 2})})
		if e != "mm" {
			profiles["prefixf-"+e] = seqProfile(seqParams{engines: l, ops: 50, queues: 4, ids: 4, faults: 0.12,
				w: weights(map[string]int{"metrics": 16, "same": 4, "remove": 6})})
		}
		profiles["life-"+e] = seqProfile(seqParams{engines: l, ops: 70, queues: 1, ids: 3, audit: 0.2, w: map[string]int{"churn": 70, "add": 2, "filter": 10, "ack": 2, "nack": 2, "remove": 2, "release": 2, "sleep": 1, "count": 1, "get": 1, "ttl": 2}})
		profiles["scores-"+e] = seqProfile(seqParams{engines: l, ops: 50, queues: 2, ids: 6, scores: "wild", audit: 0.3, w: weights(map[string]int{"cycle": 3, "filter": 6})})
		profiles["filter-"+e] = seqProfile(seqParams{engines: l, ops: 50, queues: 1, ids: 14, scores: "", w: weights(map[string]int{"filter": 30, "pull": 6, "bigadd": 1}), big: 30})
		profiles["range-"+e] = seqProfile(seqParams{engines: l, ops: 40, queues: 1, ids: 6, small: true, big: 400, w: map[string]int{"filter": 30, "bigadd": 4, "ack": 6, "nack": 2, "add": 3, "timeout": 2, "unlock": 2, "bigremove": 1, "sleep": 1}})
		profiles["expiry-"+e] = seqProfile(seqParams{engines: l, ops: 60, queues: 3, ids: 8,
			w: weights(map[string]int{"ttl": 14, "max": 14, "editq": 10, "sleep": 6, "count": 8, "recovery": 4, "get": 6})})
		profiles["big-"+e] = seqProfile(seqParams{engines: l, ops: 26, queues: 2, ids: 4, big: 2100,
			w: map[string]int{"bigadd": 8, "bigremove": 4, "bigpull": 10, "biglock": 1, "timeout": 4, "unlock": 4, "ttl": 3, "boundary": 8, "count": 4, "editq": 2, "max": 2, "sleep": 2, "ack": 4, "add": 2, "filter": 2, "recovery": 1}})
		profiles["huge-"+e] = seqProfile(seqParams{engines: l, ops: 14, queues: 2, ids: 3, big: 11000,
			w: map[string]int{"bigadd": 8, "bigremove": 1, "bigpull": 4, "ttl": 4, "boundary": 3, "count": 3, "editq": 4, "max": 2, "sleep": 2, "wipe": 1, "recovery": 2}})
		rec := map[string]int{"wipe": 4, "restart": 3, "recovery": 12, "ttl": 4, "max": 3, "remove": 7}
		if e[1] == 'x' || e == "mm" {
			delete(rec, "restart")
		}
		if e != "mm" && e != "rx" {
			profiles["recover-"+e] = seqProfile(seqParams{engines: l, ops: 60, queues: 3, ids: 8, w: weights(rec)})
			profiles["recoverf-"+e] = seqProfile(seqParams{engines: l, ops: 60, queues: 3, ids: 8, faults: 0.2, w: weights(rec)})
			profiles["recoverbig-"+e] = seqProfile(seqParams{engines: l, ops: 16, queues: 2, ids: 4, big: 5000, faults: 0.1,
				w: map[string]int{"bigadd": 8, "bigremove": 1, "bigpull": 5, "wipe": 4, "recovery": 10, "count": 3, "timeout": 2, "ack": 2}})
			profiles["durable-"+e] = seqProfile(seqParams{engines: l, ops: 60, queues: 2, ids: 6, audit: 0.3, foreign: 0.2, w: weights(map[string]int{"restart": 10, "recovery": 8})})
		}
		if e != "mm" && e != "rx" {
			profiles["seqlag-"+e] = seqProfile(seqParams{engines: l, ops: 60, queues: 2, ids: 9, lag: true, faults: 0.1, audit: 0.5,
				w: map[string]int{"add": 20, "ghost": 8, "remove": 4, "pull": 22, "filter": 4, "ack": 16, "nack": 8, "timeout": 5, "unlock": 7, "sleep": 4, "lag": 3, "freeze": 1, "elect": 1}})
			profiles["ttllag-"+e] = seqProfile(seqParams{engines: l, ops: 70, queues: 2, ids: 6, lag: true, mortal: true,
				w: map[string]int{"add": 26, "remove": 2, "pull": 8, "ack": 6, "nack": 4, "timeout": 2, "unlock": 3, "sleep": 14, "lag": 3, "ttl": 12, "renew": 14, "elect": 1, "editq": 5, "max": 6}})
			profiles["biglag-"+e] = seqProfile(seqParams{engines: l, ops: 24, queues: 1, ids: 3, big: 260, lag: true, audit: 0.3,
				w: map[string]int{"bigadd": 10, "bigpull": 5, "bigremove": 2, "ghost": 4, "ack": 6, "timeout": 3, "unlock": 2, "sleep": 3, "lag": 2}})
		}
		if e != "mm" {
			profiles["drill-"+e] = seqProfile(seqParams{engines: l, ops: 60, queues: 3, ids: 5, faults: 0.001, audit: 0.2, w: map[string]int{"drill": 10, "pull": 2, "sleep": 1}})
			profiles["bigf-"+e] = seqProfile(seqParams{engines: l, ops: 18, queues: 2, ids: 3, big: 2300, faults: 0.3,
				w: map[string]int{"bigadd": 8, "bigremove": 6, "bigpull": 6, "timeout": 3, "unlock": 2, "ttl": 3, "count": 3, "editq": 2, "max": 2, "sleep": 2, "ack": 2, "add": 1, "recovery": 1}})
			profiles["seqf-"+e] = seqProfile(seqParams{engines: l, ops: 60, queues: 2, ids: 6, faults: 0.3})
			profiles["cfgf-"+e] = seqProfile(seqParams{engines: l, ops: 50, queues: 2, ids: 5, faults: 0.3, nodes: 1,
				w: map[string]int{"swing": 12, "editq": 16, "getq": 16, "bigadd": 3, "add": 4, "max": 6, "count": 3, "sleep": 8}, big: 30})
			profiles["auditf-"+e] = seqProfile(seqParams{engines: l, ops: 50, queues: 2, ids: 5, faults: 0.15, audit: 1})
			profiles["flush-"+e] = seqProfile(seqParams{engines: l, ops: 40, queues: 3, ids: 5, w: weights(map[string]int{"flush": 8})})
		} else {
			profiles["flush-"+e] = seqProfile(seqParams{engines: l, ops: 50, queues: 3, ids: 5, audit: 0.2, w: weights(map[string]int{"flush": 6, "editq": 6, "getq": 8, "sleep": 1})})
		}
		profiles["audit-"+e] = seqProfile(seqParams{engines: l, ops: 60, queues: 3, ids: 7, audit: 1, names: map[bool]string{true: "prefix"}[e == "mm" || e == "rm"]})
		profiles["sink-"+e] = seqProfile(seqParams{engines: l, ops: 50, queues: 2, ids: 5, audit: 1, big: 420,
			w: map[string]int{"sink": 5, "trickle": 2, "flood": 1, "bigadd": 6, "bigremove": 2, "add": 4, "pull": 4, "ack": 4, "remove": 2, "timeout": 1, "unlock": 1, "sleep": 2}})
		if redis && e[1] == 'm' {
			profiles["two-"+e] = seqProfile(seqParams{engines: l, nodes: 2, ops: 70, queues: 2, ids: 7, audit: 0.3, foreign: 0.3, w: weights(map[string]int{"restart": 2, "wipe": 1, "recovery": 6})})
			profiles["twof-"+e] = seqProfile(seqParams{engines: l, nodes: 3, ops: 70, queues: 2, ids: 7, faults: 0.15, w: weights(map[string]int{"restart": 2, "wipe": 1, "recovery": 6})})
		}
	}
}
