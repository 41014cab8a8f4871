package simtest

import (
	"context"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/verifsim/deckardmain"
	"google.golang.org/grpc"
	"google.golang.org/grpc/backoff"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"

	"verifsim/netsim"
	"verifsim/simrt"
)

// Runs of the whole process: main with its housekeeper, its gRPC server (clients
// call it through the real gRPC stack over an in-memory connection) and its
// shutdown.

// mainProc is one life of a process run by main.
type mainProc struct {
	sim       *Sim
	n         *Node
	task      *simrt.Task
	began     int64
	ready     int64 // when it served (or handled signals, without a server), -1 before
	term      int64 // when it got the signal, -1 before
	started   int64 // when the shutdown began, -1 before
	exited    int64 // -1 before
	exitSpans []*hkSpan
	panicked  bool
	killed    bool // by the harness
	spans     []*hkSpan
	open      map[*hkSpan]bool
	reqs      []*mainReq
	conn      *grpc.ClientConn
}

type hkSpan struct {
	kind       string
	s, e       int
	t0, t1     int64
	began      int64 // of the shutdown, at the start of the span
	cancelled0 bool  // the context was over at the start
	cancelled1 bool  // ... at the end
	done       bool
	ev         *Ev
}

type mainReq struct {
	id    string
	t     int64
	after int64 // when the shutdown began, if before
}

var spanKind = map[string]string{"ProcessLockPool": "unlock", "ProcessTimeoutMessages": "timeout", "ComputeMetrics": "metrics", "RecoveryMessagesPool": "recovery", "RemoveExceedingMessages": "max", "RemoveTTLMessages": "ttl"}

var tickKinds = []string{"unlock", "timeout", "unlock", "timeout", "recovery", "max", "ttl", "metrics"}

func hkDelay(kind string) int64 {
	k := map[string]config.ConfigKey{"unlock": config.HousekeeperTaskUnlockDelay, "timeout": config.HousekeeperTaskTimeoutDelay, "metrics": config.HousekeeperTaskMetricsDelay, "recovery": config.HousekeeperTaskUpdateDelay, "max": config.HousekeeperTaskMaxElementsDelay, "ttl": config.HousekeeperTaskTTLDelay}[kind]
	return k.GetDuration().Milliseconds()
}

var grpcAddr = func() string { return fmt.Sprint(":", config.GrpcPort.GetInt()) }

// mainState is what the harness knows about the process run by main.
type mainState struct {
	mu   sync.Mutex
	cur  *mainProc
	all  []*mainProc
	ops  map[string]*mainOp
	bg   map[string]map[int][]netsim.Fault // faults of the n-th pass of a kind
	pass map[string]int
	day  *day
}

type mainOp struct {
	oc      *netsim.OpCtx
	started bool
}

func (s *Sim) mainSetup(ops []*Op) {
	s.main = &mainState{ops: map[string]*mainOp{}, bg: map[string]map[int][]netsim.Fault{}, pass: map[string]int{}}
	for _, o := range ops {
		if o.A == "bg" {
			if s.main.bg[o.K] == nil {
				s.main.bg[o.K] = map[int][]netsim.Fault{}
			}
			s.main.bg[o.K][int(o.Val)] = o.Faults
		}
	}
	simrt.OnSpan = s.onSpan
	s.W.OnClose(func() { simrt.OnSpan = nil })
	s.W.OnRequest = func(id, method string) any {
		s.main.mu.Lock()
		defer s.main.mu.Unlock()
		if p := s.main.cur; p != nil {
			p.reqs = append(p.reqs, &mainReq{id, s.now(), p.started})
		}
		if o := s.main.ops[id]; o != nil {
			o.started = true
			return o.oc
		}
		return nil
	}
}

func (s *Sim) onSpan(name string, ctx context.Context) func() {
	p, t := s.main.cur, simrt.CurrentTask()
	if p == nil || t.Proc != p.n.Proc {
		return func() {}
	}
	kind := spanKind[name]
	t0, day, cancelled0 := s.now(), s.main.day, ctx.Err() != nil
	if day.begin(); kind != "ttl" { // which has looked at its clock already
		t0 = s.now()
	}
	s.seq++
	sp := &hkSpan{kind: kind, s: s.seq, t0: t0, began: p.started, cancelled0: cancelled0}
	if p.started < 0 && shutdown.Ongoing() {
		sp.began = s.now()
	}
	ev := &Ev{Op: &Op{A: "hk", K: kind}, I: len(s.Hist), S: s.seq, T0: sp.t0, T1: 1 << 50, Node: p.n, SettleS: 1 << 30}
	sp.ev = ev
	s.Hist = append(s.Hist, ev)
	k := s.main.pass[kind]
	s.main.pass[kind]++
	oc := &netsim.OpCtx{Name: kind, Faults: s.main.bg[kind][k]}
	old := t.Op
	t.Op = oc
	s.exclusive(p, sp)
	p.spans = append(p.spans, sp)
	p.open[sp] = true
	return func() {
		t.Op = old
		delete(p.open, sp)
		s.seq++
		sp.e, sp.t1, sp.done = s.seq, s.now(), !simrt.Dead()
		sp.cancelled1 = ctx.Err() != nil
		ev.E, ev.T1, ev.SettleS, ev.Done = s.seq, sp.t1, s.seq, sp.done
		ev.Fired, ev.Hit = oc.Fired, oc.Hit
		if sp.cancelled1 {
			ev.Fired = append(ev.Fired, "cancelled")
		} else if shutdown.Ongoing() && kind != "recovery" {
			ev.Fired = append(ev.Fired, "shutdown") // it may have stopped between two queues
		}
		for _, f := range ev.Fired {
			if strings.HasPrefix(f, netsim.Late) || f == "cancelled" {
				ev.SettleS = 1 << 30
			}
			if f != netsim.Slow+":redis" && f != netsim.SlowReply+":redis" {
				ev.Err = fmt.Errorf("tampered with")
			}
		}
		if s.Keep {
			s.Trace = append(s.Trace, s.describe(ev))
			if verbose {
				fmt.Println(s.describe(ev), ev.Hit)
			}
		}
		day.end(ev)
	}
}

var exclusiveKinds = map[string]bool{"recovery": true, "max": true, "ttl": true}

// exclusive judges the start of a maintenance pass.
func (s *Sim) exclusive(p *mainProc, sp *hkSpan) {
	s.checked("shutdown")
	for o := range p.open {
		if o.kind == sp.kind || exclusiveKinds[o.kind] && exclusiveKinds[sp.kind] {
			s.violate(sp.ev.I, "overlap", fmt.Sprintf("the %s task began while the %s task of the same process was running", sp.kind, o.kind), "C20")
		}
	}
	switch {
	case sp.cancelled0:
		s.violate(sp.ev.I, "pass-after-cancel", fmt.Sprintf("a pass of the %s task began after the shutdown had cancelled everything", sp.kind), "C20")
	case sp.began >= 0 && sp.t0 > sp.began:
		s.violate(sp.ev.I, "pass-after-shutdown", fmt.Sprintf("a pass of the %s task began %d ms after the shutdown", sp.kind, sp.t0-sp.began), "C20")
	}
}

// startMain starts a process by its main function. It does not wait.
func (s *Sim) startMain() *mainProc {
	resetGlobals()
	s.W.Signals = nil
	delete(s.W.Listen, grpcAddr())
	n := s.start(0)
	n.main = true
	p := &mainProc{sim: s, n: n, began: s.now(), ready: -1, term: -1, started: -1, exited: -1, open: map[*hkSpan]bool{}}
	s.main.mu.Lock()
	s.main.cur = p
	s.main.all = append(s.main.all, p)
	s.main.mu.Unlock()
	id := fmt.Sprintf("n0.%d.main", n.Gen)
	began := shutdown.Started
	s.S.Spawn(id+".watch", n.Proc, true, func(t *simrt.Task) {
		simrt.Recv1(began)
		p.started = s.now()
	})
	p.task = s.S.Spawn(id, n.Proc, false, func(t *simrt.Task) {
		returned := false
		defer func() {
			if r := recover(); r != nil {
				p.panicked = true
				n.Err = fmt.Errorf("%v", r)
			} else if !returned {
				return // killed
			}
			s.exit(p)
		}()
		deckardmain.Main()
		returned = true
	})
	return p
}

// exit is the end of the process: what still runs in it is cut off.
func (s *Sim) exit(p *mainProc) {
	if p.exited >= 0 {
		return
	}
	p.exited = s.now()
	for o := range p.open {
		p.exitSpans = append(p.exitSpans, o)
	}
	p.n.Up = false
	s.seq++
	k := "exit"
	if p.killed {
		k = "crash"
	}
	s.Hist = append(s.Hist, &Ev{Op: &Op{A: "env", K: k}, I: len(s.Hist), S: s.seq, E: s.seq, T0: s.now(), T1: s.now(), Done: true, SettleS: s.seq})
	if s.Keep {
		s.Trace = append(s.Trace, s.describe(s.Hist[len(s.Hist)-1]))
	}
	p.n.Proc.Kill()
	l := s.W.Servers
	s.W.Servers = nil
	go func() { // not waited for: it waits for handlers, which end at their next step
		for _, g := range l {
			g.Stop()
		}
	}()
	if x := s.W.Listen[grpcAddr()]; x != nil {
		_ = x.Close()
	}
	delete(s.W.Listen, grpcAddr())
	s.W.Signals = nil
}

// serving waits until the process serves, at most for the given time.
func (s *Sim) serving(p *mainProc, d time.Duration) bool {
	end := time.Now().Add(d)
	for p.exited < 0 && time.Now().Before(end) {
		if len(s.W.Signals) > 0 && (s.W.Listen[grpcAddr()] != nil || !config.GrpcEnabled.GetBool()) {
			if p.ready < 0 {
				p.ready = s.now()
			}
			p.n.Up = true
			return true
		}
		simrt.Sleep(5 * time.Millisecond)
	}
	return false
}

// bootMain starts the process and waits until it serves.
func (s *Sim) bootMain() *mainProc {
	p := s.startMain()
	s.serving(p, time.Minute)
	return p
}

// toTick waits for the moment at which a task is to be run again.
func (s *Sim) toTick(p *mainProc, kind string) {
	if kind == "" || p == nil || p.exited >= 0 {
		return
	}
	at := int64(-1)
	for _, sp := range p.spans {
		if sp.kind == kind {
			if sp.e == 0 {
				return
			}
			at = sp.t1
		}
	}
	if at < 0 {
		at = p.ready
	}
	if d := at + hkDelay(kind) - s.now(); at >= 0 && d > 0 {
		simrt.Sleep(time.Duration(d) * time.Millisecond)
	}
}

// signal delivers a signal to the process.
func (s *Sim) signal(p *mainProc) {
	if p == nil || p.exited >= 0 {
		return
	}
	sig := []os.Signal{syscall.SIGTERM, syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}[simrt.NewRand(s.Seed^uint64(p.n.Gen)^0x516).Intn(4)]
	s.Net.Count("signal:" + sig.String())
	var to []chan<- os.Signal
	for _, h := range s.W.Signals {
		if h.Takes(sig) {
			to = append(to, h.C)
		}
	}
	if len(to) == 0 {
		// Nobody handles it yet: that ends the process.
		p.killed = true
		s.exit(p)
		return
	}
	if p.term < 0 {
		p.term = s.now()
	}
	for _, c := range to {
		select {
		case c <- sig:
		default:
		}
	}
	simrt.Yield("signal", "")
}

// killMain crashes the process.
func (s *Sim) killMain(p *mainProc) {
	if p != nil && p.exited < 0 {
		p.killed = true
		s.exit(p)
		s.Net.Count("crash")
	}
}

type grpcClient struct{ c deckard.DeckardClient }

func (g grpcClient) Add(ctx context.Context, r *deckard.AddRequest) (*deckard.AddResponse, error) {
	return g.c.Add(ctx, r)
}
func (g grpcClient) Pull(ctx context.Context, r *deckard.PullRequest) (*deckard.PullResponse, error) {
	return g.c.Pull(ctx, r)
}
func (g grpcClient) Ack(ctx context.Context, r *deckard.AckRequest) (*deckard.AckResponse, error) {
	return g.c.Ack(ctx, r)
}
func (g grpcClient) Nack(ctx context.Context, r *deckard.AckRequest) (*deckard.AckResponse, error) {
	return g.c.Nack(ctx, r)
}
func (g grpcClient) Remove(ctx context.Context, r *deckard.RemoveRequest) (*deckard.RemoveResponse, error) {
	return g.c.Remove(ctx, r)
}
func (g grpcClient) Count(ctx context.Context, r *deckard.CountRequest) (*deckard.CountResponse, error) {
	return g.c.Count(ctx, r)
}
func (g grpcClient) GetById(ctx context.Context, r *deckard.GetByIdRequest) (*deckard.GetByIdResponse, error) {
	return g.c.GetById(ctx, r)
}
func (g grpcClient) Flush(ctx context.Context, r *deckard.FlushRequest) (*deckard.FlushResponse, error) {
	return g.c.Flush(ctx, r)
}
func (g grpcClient) EditQueue(ctx context.Context, r *deckard.EditQueueRequest) (*deckard.EditQueueResponse, error) {
	return g.c.EditQueue(ctx, r)
}
func (g grpcClient) GetQueue(ctx context.Context, r *deckard.GetQueueRequest) (*deckard.GetQueueResponse, error) {
	return g.c.GetQueue(ctx, r)
}

func (p *mainProc) client() deckard.DeckardClient {
	if p.conn == nil {
		w := p.sim.W
		c, err := grpc.NewClient("passthrough:///n0",
			grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithConnectParams(grpc.ConnectParams{Backoff: backoff.Config{BaseDelay: time.Second, Multiplier: 1, MaxDelay: time.Second}, MinConnectTimeout: time.Second}),
			grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(1<<26)),
			grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) {
				l := w.Listen[grpcAddr()]
				if l == nil {
					return nil, netsim.ErrRefused
				}
				return l.DialContext(ctx)
			}))
		if err != nil {
			panic("harness: " + err.Error())
		}
		p.conn = c
		w.OnClose(func() { _ = c.Close() })
	}
	return deckard.NewDeckardClient(p.conn)
}

// doMain performs a client's request on the process run by main.
func (s *Sim) doMain(o *Op, ev *Ev) {
	p := s.main.cur
	if !ev.Node.Up {
		ev.Done, ev.Err, ev.Code = true, errDown, codes.Unavailable
		return
	}
	s.opn++
	id := fmt.Sprintf("%s.%d.%s", o.A, ev.I, o.K)
	mo := &mainOp{oc: &netsim.OpCtx{Name: o.K, Faults: o.Faults}}
	s.main.mu.Lock()
	s.main.ops[id] = mo
	s.main.mu.Unlock()
	d := 10 * time.Minute
	if o.Ctx > 0 {
		d = time.Duration(o.Ctx) * time.Millisecond
	}
	ctx, cancel := context.WithTimeout(metadata.AppendToOutgoingContext(context.Background(), "sim-task", id), d)
	defer cancel()
	s.perform(ctx, grpcClient{p.client()}, o, ev)
	simrt.Yield("answer", id)
	ev.Fired, ev.Hit = mo.oc.Fired, mo.oc.Hit
	ev.Done = true
	if ev.Err == nil {
		return
	}
	if !mo.started {
		// It never reached the process.
		ev.Err, ev.Code = errDown, codes.Unavailable
		return
	}
	if p.exited >= 0 && p.killed && (ev.Code == codes.Unavailable || ev.Code == codes.Canceled) {
		ev.Done = false
		return
	}
	if ev.Code == codes.Unavailable && p.term >= 0 && len(ev.Fired) == 0 {
		s.violate(ev.I, "request-cut", fmt.Sprintf("the %s request was under way when the shutdown began and was cut off", o.K), "C20")
	}
	if ev.Code == codes.DeadlineExceeded && o.Ctx == 0 {
		s.violate(ev.I, "request-hangs", fmt.Sprintf("the %s request was not answered in 10 minutes", o.K), "C20", "C24", "C01")
	}
}

// judgeMain judges a life of the process when it is over.
func (s *Sim) judgeMain(p *mainProc) {
	s.checked("shutdown")
	last := len(s.Hist) - 1
	if p.panicked {
		if p.ready >= 0 {
			s.violate(last, "panic", fmt.Sprintf("the process panicked: %v", p.n.Err), "C20", "C24")
		}
		return
	}
	if p.exited >= 0 && !p.killed && p.term < 0 && p.ready >= 0 {
		s.violate(last, "exit", "the process ended although nobody asked it to", "C20", "C01")
		return
	}
	for _, sp := range p.spans {
		if sp.kind == "recovery" && !sp.cancelled0 && sp.cancelled1 && sp.done {
			s.violate(sp.ev.I, "recovery-cancelled", "the shutdown cancelled a recovery pass that was running", "C20", "C12")
			return
		}
	}
	if p.exited >= 0 && !p.killed && p.term >= 0 {
		for _, sp := range p.exitSpans {
			s.violate(sp.ev.I, "pass-cut", fmt.Sprintf("the process ended while a pass of the %s task was running", sp.kind), "C20")
			return
		}
		for _, r := range p.reqs {
			if r.after >= 0 && r.t > r.after+1000 {
				s.violate(last, "request-after-shutdown", fmt.Sprintf("a request was taken %d ms after the shutdown began", r.t-r.after), "C20")
				return
			}
		}
	}
	if p.ready >= 0 {
		s.judgeTempo(p)
	}
}

// judgeTempo looks whether the tasks were run as often as configured.
func (s *Sim) judgeTempo(p *mainProc) {
	end := s.now()
	for _, x := range []int64{p.term, p.started, p.exited} {
		if x >= 0 && x < end {
			end = x
		}
	}
	for _, kind := range []string{"unlock", "timeout", "metrics", "recovery", "max", "ttl"} {
		delay := hkDelay(kind)
		from := p.ready
		lastStart := int64(-1)
		check := func(to int64, op int, what string) bool {
			wait := to - from
			if exclusiveKinds[kind] {
				for _, o := range p.spans {
					if exclusiveKinds[o.kind] && o.kind != kind {
						t1 := o.t1
						if o.e == 0 {
							t1 = end
						}
						wait -= max(0, min(t1, to)-max(o.t0, from))
					}
				}
			}
			if wait > delay+1000 {
				s.violate(op, "tempo", fmt.Sprintf("the %s task, to be run every %d ms, was not run for %d ms %s", kind, delay, to-from, what), "C20")
				return false
			}
			return true
		}
		any := false
		for _, sp := range p.spans {
			if sp.kind != kind {
				continue
			}
			any = true
			if !config.HousekeeperEnabled.GetBool() {
				s.violate(sp.ev.I, "tempo", fmt.Sprintf("the %s task was run although the housekeeper is disabled", kind), "C20")
				return
			}
			if sp.t0 > end {
				break
			}
			if !check(sp.t0, sp.ev.I, "between two passes") {
				return
			}
			if lastStart >= 0 && sp.t0-lastStart < delay*9/10 {
				s.violate(sp.ev.I, "tempo", fmt.Sprintf("two passes of the %s task, to be run every %d ms, began within %d ms", kind, delay, sp.t0-lastStart), "C20")
				return
			}
			lastStart, from = sp.t0, sp.t1
			if sp.e == 0 {
				from = end
			}
		}
		_ = any
		if config.HousekeeperEnabled.GetBool() && !check(end, len(s.Hist)-1, "at the end") {
			return
		}
	}
}

type mainParams struct {
	concParams
	fast bool // housekeeping at the default delays
}

func (p *mainParams) gen(s *Sim) []*Op {
	q := p.concParams
	q.hk, q.crash, q.nodes = 0, 0, 1
	ops := q.gen(s)
	var l []*Op
	for _, o := range ops {
		if len(o.A) > 0 && o.A[0] != 'h' {
			l = append(l, o)
		}
	}
	r := simrt.NewRand(s.Seed ^ 0x3A1)
	env := func(o *Op) {
		o.A = "sig"
		l = append(l, o)
	}
	pre := func() int64 { return []int64{0, 1, 30, 200, 800, 1000, 1500, 3000, 7000, 12000}[r.Intn(10)] }
	for i := r.Intn(3); i > 0 && s.Env.Engine != "rx"; i-- { // the memory storage ends with the process, its Redis does not
		k := "term"
		if r.Bool(p.crash) {
			k = "kill"
		}
		o := &Op{K: k, Pre: pre()}
		if k == "term" && r.Bool(0.5) {
			o.Arg = tickKinds[r.Intn(len(tickKinds))]
		}
		env(o)
		if r.Bool(0.15) {
			env(&Op{K: "term", Pre: int64(r.Intn(50))})
		}
		env(&Op{K: "main", Pre: pre()})
	}
	if p.faults > 0 || r.Bool(0.5) {
		for _, k := range []string{"recovery", "timeout", "unlock", "ttl", "max", "metrics"} {
			for i := r.Intn(4); i > 0; i-- {
				o := &Op{A: "bg", K: k, Val: int64(r.Intn(15))}
				if p.faults > 0 && r.Bool(0.5) {
					o.Faults = boundedFaults(r, &s.Env, false, k, p.bound)
				} else if !s.Env.memory() {
					o.Faults = []netsim.Fault{{Call: r.Intn(4), Kind: []string{netsim.Slow, netsim.SlowReply}[r.Intn(2)], Ms: []int{100, 1000, 2500, 2900}[r.Intn(4)], N: 1 + r.Intn(2)}}
				}
				l = append(l, o)
			}
		}
	}
	return l
}

func (p *mainParams) run(s *Sim, sc *Scenario) {
	if sc.Ops == nil {
		s.made = p.gen(s)
	} else {
		s.made = sc.Ops
	}
	s.dump(sc)
	s.mainSetup(s.made)
	m := s.startMain()
	if !s.serving(m, time.Minute) {
		s.violate(-1, "boot", fmt.Sprintf("the process does not serve although its dependencies are there: %v", m.n.Err), "C28", "C20", "C01")
		return
	}
	var ops []*Op
	for _, o := range s.made {
		switch o.A {
		case "bg":
		case "init":
			s.do2(o, map[string][]delivery{})
		default:
			ops = append(ops, o)
		}
	}
	s.runActors(ops)
	s.heal()
	if s.main.cur.term >= 0 && s.main.cur.exited < 0 {
		s.awaitExit(s.main.cur)
	}
	if len(s.Viol) > 0 {
		return
	}
	if s.main.cur.exited >= 0 {
		if s.bootMain(); !s.main.cur.n.Up {
			s.violate(len(s.Hist)-1, "restart-failed", "a restarted process does not come up although everything works", "C28", "C01")
			return
		}
	}
	simrt.Sleep(time.Duration(1000+s.Seed%7*1000) * time.Millisecond)
	if s.Env.memStorage() {
		// It ends with the process, so it is judged before.
		s.settleAll()
		if keys, ok := s.judgeHistory(&p.concParams); ok {
			m := newModel(s)
			s.model = m
			s.judgeStates(m, keys, &p.concParams)
			s.judgeConfig(m)
			s.judgeCounts(keys)
		}
		if len(s.Viol) > 0 {
			return
		}
	}
	s.toTick(s.main.cur, s.Env.Tick)
	s.signal(s.main.cur)
	s.awaitExit(s.main.cur)
	for _, m := range s.main.all {
		if len(s.Viol) == 0 {
			s.judgeMain(m)
		}
	}
	if len(s.Viol) > 0 {
		return
	}
	resetGlobals()
	if s.Env.memStorage() {
		s.judgeEvents(&p.concParams)
		return
	}
	s.drain(&p.concParams)
}

// awaitExit waits for the end of the process after a signal.
func (s *Sim) awaitExit(m *mainProc) {
	for i := 0; i < 6000 && m.exited < 0; i++ {
		simrt.Sleep(100 * time.Millisecond)
		for _, t := range s.S.Panics {
			if t.Proc == m.n.Proc {
				return // that ends the process, see panickedTask
			}
		}
	}
	if m.exited < 0 {
		s.violate(len(s.Hist)-1, "shutdown-hangs", "the process did not end within 10 minutes of the signal; unfinished: "+s.S.Stuck(), "C20")
	}
}

func mainProfile(p mainParams) *profile {
	c := concProfile(p.concParams)
	return &profile{
		env: func(r *simrt.Rand) *Env {
			e := c.env(r)
			e.Nodes = 1
			e.Cfg = map[string]string{}
			for _, k := range []config.ConfigKey{config.HousekeeperTaskUnlockDelay, config.HousekeeperTaskTimeoutDelay, config.HousekeeperTaskMetricsDelay, config.HousekeeperTaskUpdateDelay, config.HousekeeperTaskMaxElementsDelay, config.HousekeeperTaskTTLDelay} {
				if r.Bool(0.6) {
					e.Cfg[k.GetKey()] = []string{"200ms", "500ms", "1s", "2s", "5s", "1m"}[r.Intn(6)]
				}
			}
			if r.Bool(0.05) {
				e.Cfg[config.HousekeeperEnabled.GetKey()] = "false"
			}
			if r.Bool(0.7) {
				e.Tick = tickKinds[r.Intn(len(tickKinds))]
			}
			return e
		},
		run: func(s *Sim, sc *Scenario) { q := p; q.run(s, sc) },
	}
}

func init() {
	for _, e := range []string{"mm", "rm", "cm", "xm", "rx"} {
		base := mainParams{concParams: concParams{engines: []string{e}, clients: 3, ops: 12, queues: 2, ids: 4, audit: 0.3, ttl: 0.1, crash: 0.25, bound: 60000}}
		base.w = map[string]int{"flush": 1, "editq": 2, "getq": 2}
		profiles["main-"+e] = mainProfile(base)
		if e != "mm" {
			f := base
			f.faults, f.late, f.audit, f.parts = 0.15, true, 0, 0.5
			profiles["mainf-"+e] = mainProfile(f)
		}
	}
}
