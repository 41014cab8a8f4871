// Package simtest is the harness of the simulation: it starts deckard nodes in a
// simulated world, drives them with a workload, and judges what they answer.
package simtest

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"
	"github.com/takenet/deckard/internal/shutdown"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"verifsim/hooks"
	"verifsim/netsim"
	"verifsim/simmongo"
	"verifsim/simredis"
	"verifsim/simrt"
)

// F is a float64 which survives JSON whatever its value.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.FormatFloat(float64(f), 'g', -1, 64))
}
func (f *F) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	v, err := strconv.ParseFloat(s, 64)
	*f = F(v)
	return err
}

// Msg is one message of an Add.
type Msg struct {
	ID       string            `json:"id"`
	Q        string            `json:"q"`
	Pay      map[string][]byte `json:"pay,omitempty"`
	Str      string            `json:"str,omitempty"`
	Meta     map[string]string `json:"meta,omitempty"`
	Desc     string            `json:"desc,omitempty"`
	TTL      int64             `json:"ttl,omitempty"`
	Timeless bool              `json:"timeless,omitempty"`
	Score    F                 `json:"score"`
}

// Op is one step of a workload. Everything it does is in the record, so that a
// recorded workload can be replayed and cut down.
type Op struct {
	A        string         `json:"a"` // actor
	N        int            `json:"n"` // node
	K        string         `json:"k"` // kind
	Pre      int64          `json:"pre,omitempty"`
	Q        string         `json:"q,omitempty"`
	IDs      []string       `json:"ids,omitempty"`
	Msgs     []Msg          `json:"msgs,omitempty"`
	Amt      int32          `json:"amt,omitempty"`
	Min      F              `json:"min,omitempty"`
	Max      F              `json:"max,omitempty"`
	Filter   int64          `json:"filter,omitempty"`
	Deadline int64          `json:"deadline,omitempty"`
	Score    F              `json:"score,omitempty"`
	Sub      F              `json:"sub,omitempty"`
	Lock     int64          `json:"lock,omitempty"`
	Bp       string         `json:"bp,omitempty"`
	Reason   string         `json:"reason,omitempty"`
	Rm       bool           `json:"rm,omitempty"`
	Val      int64          `json:"val,omitempty"`
	Arg      string         `json:"arg,omitempty"`
	Ctx      int64          `json:"ctx,omitempty"` // client timeout in ms
	Gen      string         `json:"gen,omitempty"` // compact description of generated messages
	Q2       string         `json:"q2,omitempty"`  // the queue of every other generated message
	Faults   []netsim.Fault `json:"faults,omitempty"`
}

func (o *Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

// Env is the deployment of a run.
type Env struct {
	Engine   string            `json:"engine"` // cache and storage: mm, rm, cm (cluster), xm (memory cache), rx (memory storage)
	Nodes    int               `json:"nodes"`
	Shards   int               `json:"shards,omitempty"`
	Replicas int               `json:"replicas,omitempty"`
	Lag      int64             `json:"lag,omitempty"` // ms
	Prefix   string            `json:"prefix,omitempty"`
	Scan     int               `json:"scan,omitempty"`   // keys a page of a key scan looks at
	MgOpts   string            `json:"mgopts,omitempty"` // options of the MongoDB address
	Cfg      map[string]string `json:"cfg,omitempty"`
	Audit    bool              `json:"audit,omitempty"`
	Stop     int               `json:"stop,omitempty"` // the audit sender is stopped at the end: 1 at rest, 2 after a burst
	Tick     string            `json:"tick,omitempty"` // the task with whose start the last signal coincides
	Lose     bool              `json:"lose,omitempty"` // the cache is lost before the final look
	Kind     int               `json:"kind"`           // scheduling strategy
	Sticky   float64           `json:"sticky,omitempty"`
	Change   int               `json:"change,omitempty"`
	PointGap int               `json:"gap,omitempty"`
	Yield    bool              `json:"yield,omitempty"` // writes of several documents let others in between
	MaxBatch int               `json:"maxbatch,omitempty"`
	Order    int               `json:"order,omitempty"`
	Foreign  bool              `json:"foreign,omitempty"`
	MapMode  int               `json:"mapmode"`
}

func (e *Env) memCache() bool   { return e.Engine[0] == 'm' || e.Engine[0] == 'x' }
func (e *Env) memStorage() bool { return e.Engine[1] == 'x' || e.Engine == "mm" }
func (e *Env) memory() bool     { return e.Engine == "mm" }

// Violation is one broken property.
type Violation struct {
	Prop string `json:"prop"`
	Msg  string `json:"msg"`
	Kind string `json:"kind"` // short stable class of the failure
	Op   int    `json:"op"`
}

func (v Violation) String() string { return v.Prop + " [" + v.Kind + "] " + v.Msg }

// Ev is what happened to one operation.
type Ev struct {
	Op      *Op
	I       int
	S, E    int   // sequence numbers of invocation and response
	T0, T1  int64 // ms
	Done    bool  // answered (as opposed to: its process died)
	Err     error
	Code    codes.Code
	Resp    proto.Message
	Val     any
	Fired   []string
	Hit     []string
	Panic   string
	SettleS int // sequence number after which nothing of it can still happen
	Node    *Node
}

// OK says that the request was answered successfully.
func (e *Ev) OK() bool { return e.Done && e.Err == nil }

// Faulty says that some dependency call of the operation was tampered with.
func (e *Ev) Faulty() bool { return len(e.Fired) > 0 || !e.Done }

// Node is one deckard process.
type Node struct {
	I     int
	Gen   int
	Proc  *simrt.Proc
	Q     *queue.Queue
	Svc   *service.Deckard
	Aud   *audit.AuditorImpl
	Up    bool
	Err   error
	C     cache.Cache
	S     storage.Storage
	abort context.CancelFunc
	main  bool // run by main

	stopAudit  context.CancelFunc
	auditEnded int64 // when the audit sender ended, 0 if it runs
}

// Sim is one run.
type Sim struct {
	Env    Env
	Seed   uint64
	healed bool // everything works from here on
	S      *simrt.Sched
	W      *hooks.World
	Net    *netsim.Net
	Nodes  []*Node
	passes [8][6]simrt.Mutex
	Redis  []*simredis.Server
	Clu    *simredis.Cluster
	Mongo  *simmongo.Deployment

	Hist   []*Ev
	seq    int
	Viol   []Violation
	strict map[string][]int64 // what the queues may be configured to if no edit was dropped
	Found  []Violation        // recorded findings, they do not end the judgement
	Trace  []string
	Keep   bool // keep a trace
	bad    map[string]bool
	T00    int64
	opn    int

	made    []*Op
	oracle  map[string]int
	opPanic map[*simrt.Task]bool
	model   *model
	foreign map[*simredis.Server]map[string]string
	main    *mainState
}

// resetGlobals gives the run its own copies of deckard's package level state, as
// channels must be made inside the bubble which uses them.
func resetGlobals() {
	shutdown.Reset()
	shutdown.CancelChan = make(chan os.Signal, 1)
	shutdown.WaitGroup = &simrt.WaitGroup{}
	shutdown.CriticalWaitGroup = &simrt.WaitGroup{}
}

// checked counts one judgement of an oracle.
func (s *Sim) checked(what string) { s.oracle[what]++ }

func (s *Sim) now() int64 { return time.Now().UnixMilli() }

// violate records a violation.
func (s *Sim) violate(op int, kind, msg string, props ...string) {
	for _, p := range props {
		s.Viol = append(s.Viol, Violation{Prop: p, Msg: msg, Kind: kind, Op: op})
	}
}

const (
	redisPort = ":6379"
	mongoPort = ":27017"
)

// setup makes the world of the run: servers, network and configuration.
func (s *Sim) setup() {
	e := &s.Env
	simrt.SeedGlobal(s.Seed)
	hooks.W = hooks.NewWorld()
	s.W = hooks.W
	s.Net = netsim.New()
	s.Net.Seed = s.Seed
	netsim.Cur = s.Net
	config.Configure(true)
	config.CacheType.Set("MEMORY")
	config.StorageType.Set("MEMORY")
	if !e.memCache() {
		config.CacheType.Set("REDIS")
		if e.Engine[0] == 'c' {
			n := e.Shards
			if n == 0 {
				n = 3
			}
			addrs := make([]string, n)
			for i := range addrs {
				addrs[i] = fmt.Sprintf("10.0.0.%d%s", i+1, redisPort)
			}
			s.Clu = simredis.NewCluster(addrs...)
			s.Redis = s.Clu.Nodes
			uri := "redis://" + addrs[0]
			for i, a := range addrs[1:] {
				if i == 0 {
					uri += "?addr=" + a
				} else {
					uri += "&addr=" + a
				}
			}
			config.CacheUri.Set(uri)
			config.RedisClusterMode.Set(true)
		} else {
			s.Redis = []*simredis.Server{simredis.NewServer("10.0.0.1" + redisPort)}
			config.CacheUri.Set("redis://10.0.0.1" + redisPort + "/0")
		}
		for _, r := range s.Redis {
			s.W.Redis[r.Addr] = r
			r.ScanPage, r.ScanDup = e.Scan, e.Scan > 0
			if verbose {
				name := r.Name
				r.Log = func(l string) { fmt.Println("      ", name, s.now(), l) }
			}
		}
		if e.Prefix != "" {
			config.CachePrefix.Set(e.Prefix)
		}
	}
	if !e.memStorage() {
		config.StorageType.Set("MONGODB")
		n := e.Replicas
		if n == 0 {
			n = 1
		}
		addrs := make([]string, n)
		for i := range addrs {
			addrs[i] = fmt.Sprintf("mongo%d%s", i, mongoPort)
		}
		s.Mongo = simmongo.New(addrs...)
		if e.MaxBatch > 0 {
			s.Mongo.MaxBatch = e.MaxBatch
		}
		s.Mongo.Order, s.Mongo.DocYield = e.Order, e.Yield
		for _, a := range addrs {
			s.W.Mongo[a] = s.Mongo
		}
		for i, nd := range s.Mongo.Nodes {
			if i > 0 {
				nd.Lag = time.Duration(e.Lag) * time.Millisecond
			}
		}
		uri := "mongodb://" + strings.Join(addrs, ",") + "/"
		sep := "?"
		if n > 1 {
			uri, sep = uri+"?replicaSet=rs0", "&"
		}
		if e.MgOpts != "" {
			uri += sep + e.MgOpts
		}
		config.StorageUri.Set(uri)
	}
	s.W.Elastic = &hooks.Elastic{}
	config.AuditEnabled.Set(e.Audit)
	keys := make([]string, 0, len(e.Cfg))
	for k := range e.Cfg {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		setConfig(k, e.Cfg[k])
	}
	s.T00 = s.now()
	resetMetrics()
}

// boot starts a deckard process. It runs in a task of that process.
func (s *Sim) boot(n *Node) {
	ctx, cancel := context.WithCancel(context.Background())
	n.abort = cancel
	st, err := storage.CreateStorage(ctx, storage.Type(config.StorageType.Get()))
	if err != nil {
		n.Err = err
		return
	}
	n.S = st
	ca, err := cache.CreateCache(ctx, cache.Type(config.CacheType.Get()))
	if err != nil {
		n.Err = err
		return
	}
	n.C = ca
	aud, err := audit.NewAuditor(shutdown.WaitGroup)
	if err != nil {
		n.Err = err
		return
	}
	n.Aud = aud
	if s.Env.Audit {
		sctx, stop := context.WithCancel(ctx)
		n.stopAudit = stop
		simrt.Go("sender", func() {
			aud.StartSender(sctx)
			n.auditEnded = s.now()
		})
	}
	cs := queue.NewQueueConfigurationService(ctx, st)
	n.Q = queue.NewQueue(aud, st, cs, ca)
	n.Svc = service.NewDeckardInstance(n.Q, cs, config.CacheType.Get() == string(cache.MEMORY) && config.StorageType.Get() == string(storage.MEMORY))
	n.Up = true
}

// start makes node i (again).
func (s *Sim) start(i int) *Node {
	gen := 0
	for len(s.Nodes) <= i {
		s.Nodes = append(s.Nodes, nil)
	}
	if s.Nodes[i] != nil {
		gen = s.Nodes[i].Gen + 1
	}
	n := &Node{I: i, Gen: gen}
	n.Proc = s.S.NewProc(fmt.Sprintf("n%d", i))
	s.Nodes[i] = n
	return n
}

// runTask runs f as a task of process p and waits for its end.
func (s *Sim) runTask(id string, p *simrt.Proc, op *netsim.OpCtx, f func()) (t *simrt.Task, finished bool) {
	t = s.S.Spawn(id, p, false, func(t *simrt.Task) {
		if op != nil {
			t.Op = op
		}
		f()
		finished = true
	})
	simrt.Ordered()
	<-t.Ended
	simrt.Yield("resp", id)
	simrt.Ordered()
	return t, finished
}

func (s *Sim) bootNode(i int) *Node {
	n := s.start(i)
	s.runTask(fmt.Sprintf("n%d.%d.boot", i, n.Gen), n.Proc, &netsim.OpCtx{Mutes: true}, func() { s.boot(n) })
	return n
}

func (s *Sim) crash(i int) {
	n := s.Nodes[i]
	n.Up = false
	n.Proc.Kill()
	if n.abort != nil {
		n.abort()
	}
}

// toPay makes payloads.
func toPay(m map[string][]byte) map[string]*anypb.Any {
	if m == nil {
		return nil
	}
	r := map[string]*anypb.Any{}
	for k, v := range m {
		r[k] = &anypb.Any{TypeUrl: "type.sim/" + k, Value: v}
	}
	return r
}

func trip[T proto.Message](in T, out T) T {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(in)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := proto.Unmarshal(b, out); err != nil {
		panic("harness: " + err.Error())
	}
	return out
}

func (o *Op) messages() []Msg {
	if o.Gen == "" {
		return o.Msgs
	}
	// "<prefix>,<from>,<count>,<scoremode>"
	p := strings.Split(o.Gen, ",")
	from, _ := strconv.Atoi(p[1])
	n, _ := strconv.Atoi(p[2])
	ms := make([]Msg, n)
	for i := range ms {
		ms[i] = Msg{ID: fmt.Sprintf("%s%d", p[0], from+i), Q: o.Q, TTL: o.Val, Timeless: o.Val == 0, Str: fmt.Sprintf("s%d", from+i)}
		if o.Q2 != "" && i%2 == 1 {
			ms[i].Q = o.Q2
		}
		switch p[3] {
		case "same":
			ms[i].Score = 1000
		case "up":
			ms[i].Score = F(1000 + i)
		case "down":
			ms[i].Score = F(100000 - i)
		case "mix":
			ms[i].Score = F(1 + simrt.Hash64(ms[i].ID)%5000)
		}
	}
	return ms
}

func (o *Op) ids() []string {
	if o.Gen == "" {
		return o.IDs
	}
	p := strings.Split(o.Gen, ",")
	from, _ := strconv.Atoi(p[1])
	n, _ := strconv.Atoi(p[2])
	l := make([]string, n)
	for i := range l {
		l[i] = fmt.Sprintf("%s%d", p[0], from+i)
	}
	return l
}

// call performs the operation on a node. It runs in a task of the node.
func (s *Sim) call(n *Node, o *Op, ev *Ev) {
	ctx := context.Background()
	if o.Ctx > 0 {
		c, cancel := context.WithTimeout(ctx, time.Duration(o.Ctx)*time.Millisecond)
		defer cancel()
		ctx = c
	}
	if isPass(o.K) {
		for i := 0; i < passes(o); i++ {
			if i > 0 {
				simrt.Yield("pass", o.K)
			}
			s.pass(ctx, n, o, ev)
		}
		return
	}
	s.perform(ctx, n.Svc, o, ev)
}

// api is what deckard offers to clients.
type api interface {
	Add(context.Context, *deckard.AddRequest) (*deckard.AddResponse, error)
	Pull(context.Context, *deckard.PullRequest) (*deckard.PullResponse, error)
	Ack(context.Context, *deckard.AckRequest) (*deckard.AckResponse, error)
	Nack(context.Context, *deckard.AckRequest) (*deckard.AckResponse, error)
	Remove(context.Context, *deckard.RemoveRequest) (*deckard.RemoveResponse, error)
	Count(context.Context, *deckard.CountRequest) (*deckard.CountResponse, error)
	GetById(context.Context, *deckard.GetByIdRequest) (*deckard.GetByIdResponse, error)
	Flush(context.Context, *deckard.FlushRequest) (*deckard.FlushResponse, error)
	EditQueue(context.Context, *deckard.EditQueueRequest) (*deckard.EditQueueResponse, error)
	GetQueue(context.Context, *deckard.GetQueueRequest) (*deckard.GetQueueResponse, error)
}

// perform sends a client's request.
func (s *Sim) perform(ctx context.Context, d api, o *Op, ev *Ev) {
	rpc := func(r proto.Message, err error, empty proto.Message) {
		ev.Err = err
		if err != nil {
			ev.Code = status.Code(err)
			return
		}
		simrt.Yield("reply", "")
		ev.Resp = trip(r, empty)
	}
	switch o.K {
	case "add":
		req := &deckard.AddRequest{}
		for _, m := range o.messages() {
			req.Messages = append(req.Messages, &deckard.AddMessage{Id: m.ID, Queue: m.Q, Payload: toPay(m.Pay), StringPayload: m.Str, Metadata: m.Meta, Description: m.Desc, TtlMinutes: m.TTL, Timeless: m.Timeless, Score: float64(m.Score)})
		}
		r, err := d.Add(ctx, trip(req, &deckard.AddRequest{}))
		rpc(r, err, &deckard.AddResponse{})
	case "pull":
		r, err := d.Pull(ctx, &deckard.PullRequest{Queue: o.Q, Amount: o.Amt, MinScore: float64(o.Min), MaxScore: float64(o.Max), ScoreFilter: o.Filter, AckDeadlineMs: o.Deadline})
		rpc(r, err, &deckard.PullResponse{})
	case "ack", "nack":
		req := &deckard.AckRequest{Id: first(o.IDs), Queue: o.Q, Score: float64(o.Score), ScoreSubtract: float64(o.Sub), LockMs: o.Lock, Breakpoint: o.Bp, Reason: o.Reason, RemoveMessage: o.Rm}
		if o.K == "ack" {
			r, err := d.Ack(ctx, req)
			rpc(r, err, &deckard.AckResponse{})
		} else {
			r, err := d.Nack(ctx, req)
			rpc(r, err, &deckard.AckResponse{})
		}
	case "remove":
		r, err := d.Remove(ctx, trip(&deckard.RemoveRequest{Queue: o.Q, Ids: o.ids()}, &deckard.RemoveRequest{}))
		rpc(r, err, &deckard.RemoveResponse{})
	case "count":
		r, err := d.Count(ctx, &deckard.CountRequest{Queue: o.Q})
		rpc(r, err, &deckard.CountResponse{})
	case "get":
		r, err := d.GetById(ctx, &deckard.GetByIdRequest{Queue: o.Q, Id: first(o.IDs)})
		rpc(r, err, &deckard.GetByIdResponse{})
	case "flush":
		r, err := d.Flush(ctx, &deckard.FlushRequest{})
		rpc(r, err, &deckard.FlushResponse{})
	case "editq":
		req := &deckard.EditQueueRequest{Queue: o.Q}
		if o.Arg != "nil" {
			req.Configuration = &deckard.QueueConfiguration{MaxElements: o.Val}
		}
		r, err := d.EditQueue(ctx, req)
		rpc(r, err, &deckard.EditQueueResponse{})
	case "getq":
		r, err := d.GetQueue(ctx, &deckard.GetQueueRequest{Queue: o.Q})
		rpc(r, err, &deckard.GetQueueResponse{})
	default:
		panic("harness: unknown operation " + o.K)
	}
}

// pass performs one pass of a maintenance task.
func (s *Sim) pass(ctx context.Context, n *Node, o *Op, ev *Ev) {
	switch o.K {
	case "timeout":
		ev.Err = queue.ProcessTimeoutMessages(ctx, n.Q)
	case "unlock":
		queue.ProcessLockPool(ctx, n.Q)
	case "recovery":
		ev.Val = queue.RecoveryMessagesPool(ctx, n.Q)
	case "ttl":
		now := dtime.Now()
		ev.Val, ev.Err = queue.RemoveTTLMessages(ctx, n.Q, &now)
	case "max":
		ev.Val, ev.Err = queue.RemoveExceedingMessages(ctx, n.Q)
	case "metrics":
		queue.ComputeMetrics(ctx, n.Q)
	}
}

func first(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return l[0]
}

// isClient says that the operation is a request of a client.
func isClient(k string) bool {
	switch k {
	case "add", "pull", "ack", "nack", "remove", "count", "get", "flush", "editq", "getq":
		return true
	}
	return false
}

// isPass says that the operation is a pass of the housekeeper.
func isPass(k string) bool {
	switch k {
	case "timeout", "unlock", "recovery", "ttl", "max", "metrics":
		return true
	}
	return false
}

// passLock is held during a pass: a process runs every maintenance task on its own,
// so two passes of the same task are never under way in one process. The map of the
// metrics belongs to the real process, so all nodes take turns there.
func (s *Sim) passLock(o *Op) *simrt.Mutex {
	n := o.N % len(s.Nodes)
	switch o.K {
	case "timeout":
		return &s.passes[n][0]
	case "unlock":
		return &s.passes[n][1]
	case "recovery":
		return &s.passes[n][2]
	case "ttl":
		return &s.passes[n][3]
	case "max":
		return &s.passes[n][4]
	}
	return &s.passes[0][5]
}

// do performs one operation for an actor and records what happened. Operations on
// the environment are performed directly.
func (s *Sim) do(o *Op) *Ev {
	if o.Pre > 0 {
		simrt.Sleep(time.Duration(o.Pre) * time.Millisecond)
	}
	simrt.Ordered()
	if isPass(o.K) && !s.Nodes[o.N%len(s.Nodes)].main {
		l := s.passLock(o)
		l.Lock()
		defer l.Unlock()
		simrt.Ordered()
	}
	ev := &Ev{Op: o, I: len(s.Hist)}
	s.seq++
	ev.S, ev.T0 = s.seq, s.now()
	s.Hist = append(s.Hist, ev)
	if isClient(o.K) || isPass(o.K) {
		n := s.Nodes[o.N%len(s.Nodes)]
		ev.Node = n
		if n.main {
			s.doMain(o, ev)
		} else if !n.Up {
			ev.Done, ev.Err, ev.Code = true, errDown, codes.Unavailable
		} else {
			s.opn++
			oc := &netsim.OpCtx{Name: o.K, Faults: o.Faults}
			t, fin := s.runTask(fmt.Sprintf("%s.%d.%s", o.A, ev.I, o.K), n.Proc, oc, func() { s.call(n, o, ev) })
			ev.Fired = oc.Fired
			ev.Hit = oc.Hit
			ev.Done = fin
			if t.Panic != nil {
				ev.Panic = fmt.Sprint(t.Panic)
				s.markPanic(t)
				s.panicked(ev, t)
			}
			if ev.Err != nil && !isClient(o.K) {
				ev.Code = codes.Unknown
			}
		}
	} else {
		s.chaos(o, ev)
		ev.Done = true
	}
	s.seq++
	ev.E, ev.T1 = s.seq, s.now()
	ev.SettleS = ev.E
	if s.Keep || verbose {
		s.Trace = append(s.Trace, s.describe(ev))
		if verbose {
			fmt.Println(s.describe(ev), ev.Hit)
		}
	}
	simrt.Ordered()
	return ev
}

// opProps are the properties which say what an operation has to do.
func opProps(k string) []string {
	switch k {
	case "add":
		return []string{"C09", "C01"}
	case "pull":
		return []string{"C03", "C04", "C01"}
	case "ack", "nack":
		return []string{"C07", "C16"}
	case "remove":
		return []string{"C08"}
	case "count", "get":
		return []string{"C22"}
	case "flush":
		return []string{"C15"}
	case "editq", "getq":
		return []string{"C17"}
	case "timeout":
		return []string{"C05", "C25"}
	case "unlock":
		return []string{"C06", "C25"}
	case "ttl":
		return []string{"C10", "C25"}
	case "max":
		return []string{"C11", "C25"}
	case "recovery":
		return []string{"C12"}
	case "metrics":
		return []string{"C29"}
	}
	return nil
}

func (s *Sim) markPanic(t *simrt.Task) {
	if s.opPanic == nil {
		s.opPanic = map[*simrt.Task]bool{}
	}
	s.opPanic[t] = true
}

func (s *Sim) panicked(ev *Ev, t *simrt.Task) {
	if strings.HasPrefix(fmt.Sprint(t.Panic), "harness:") {
		panic(t.Panic)
	}
	where := ""
	for _, l := range strings.Split(t.PanicStk, "\n") {
		if strings.Contains(l, "/internal/") && !strings.Contains(l, "verifsim") && !strings.HasPrefix(l, "\t") {
			where = l
			if i := strings.IndexByte(where, '('); i > 0 && strings.Contains(where[i:], "...") {
				where = where[:i]
			}
			break
		}
	}
	props := []string{"C24", "C21"}
	if !s.Env.memory() {
		props = []string{"C24"}
	}
	props = append(props, opProps(ev.Op.K)...)
	if isPass(ev.Op.K) {
		props = append(props, "C25")
	}
	s.violate(ev.I, "panic", fmt.Sprintf("%s panicked: %v at %s", ev.Op.K, t.Panic, where), props...)
}

var verbose = os.Getenv("VERIFSIM_LOG") != ""

var errDown = status.Error(codes.Unavailable, "node is down")

// movedSlots is how many slots of a cluster move at once: so few that each node keeps
// some, since clients forget a node which has none.
const movedSlots = 2500

func (s *Sim) chaos(o *Op, ev *Ev) {
	switch o.K {
	case "sleep":
	case "crash":
		if n := s.Nodes[o.N%len(s.Nodes)]; n.Up {
			s.crash(n.I)
			s.Net.Count("crash")
		}
	case "term":
		s.toTick(s.main.cur, o.Arg)
		s.signal(s.main.cur)
	case "kill":
		s.killMain(s.main.cur)
	case "main":
		if s.main.cur.exited >= 0 {
			s.bootMain()
		}
	case "exit", "bg":
	case "restart":
		if n := s.Nodes[o.N%len(s.Nodes)]; n.Up {
			s.crash(n.I)
			s.Net.Count("crash")
		}
		s.bootNode(o.N % len(s.Nodes))
	case "boot":
		if n := s.Nodes[o.N%len(s.Nodes)]; !n.Up {
			s.bootNode(n.I)
		}
	case "sink":
		s.W.Elastic.SetMode(o.Arg, o.Val)
		s.Net.Count("sink-" + o.Arg)
	case "wipe":
		for _, r := range s.Redis {
			r.Wipe()
		}
		if s.foreign != nil {
			s.plantForeign()
		}
		s.Net.Count("wipe")
	case "move":
		if s.Clu != nil {
			s.Clu.Move(int(o.Val)%16384, movedSlots, o.N%len(s.Redis), o.Arg != "")
			s.Net.Count("slots-moved")
		}
	case "moved":
		if s.Clu != nil {
			s.Clu.Announce()
		}
	case "down":
		s.Net.Down.Put(o.Arg)
		s.Net.Count("down:" + o.Arg)
	case "up":
		s.Net.Down.Del(o.Arg)
	case "part":
		s.Net.Blocked.Put(fmt.Sprintf("n%d>%s", o.N, o.Arg))
		s.Net.Count("partition:" + o.Arg)
	case "heal":
		s.Net.Blocked.Del(fmt.Sprintf("n%d>%s", o.N, o.Arg))
	case "healall":
		s.heal()
	case "skew":
		s.Nodes[o.N%len(s.Nodes)].Proc.Skew = time.Duration(o.Val) * time.Millisecond
		s.Net.Count("skew")
	case "lag":
		for i, n := range s.Mongo.Nodes {
			if i == o.N && s.Mongo.Primary != i {
				n.Lag = time.Duration(o.Val) * time.Millisecond
			}
		}
		s.Net.Count("lag")
	case "freeze":
		if o.N < len(s.Mongo.Nodes) && s.Mongo.Primary != o.N {
			s.Mongo.Nodes[o.N].Frozen = o.Val != 0
		}
	case "stepdown":
		s.Mongo.StepDown()
		s.Net.Count("stepdown")
	case "elect":
		s.Mongo.Elect(o.N % len(s.Mongo.Nodes))
	default:
		panic("harness: unknown operation " + o.K)
	}
}

func (s *Sim) heal() {
	s.healed = true
	s.Net.Down.Clear()
	s.Net.Blocked.Clear()
	if s.Clu != nil {
		s.Clu.Announce()
	}
	if s.Mongo != nil {
		for _, n := range s.Mongo.Nodes {
			n.Frozen = false
			n.Lag = 0
		}
		if s.Mongo.Primary < 0 {
			s.Mongo.Elect(0)
		}
	}
	for _, n := range s.Nodes {
		n.Proc.Skew = 0
	}
}

func (s *Sim) describe(ev *Ev) string {
	b := &strings.Builder{}
	fmt.Fprintf(b, "#%d [%d..%d] t=%d..%dms ", ev.I, ev.S, ev.E, ev.T0-s.T00, ev.T1-s.T00)
	b.WriteString(ev.Op.String())
	switch {
	case !ev.Done:
		b.WriteString(" => process died")
	case ev.Err != nil:
		fmt.Fprintf(b, " => error %s", ev.Code)
	case ev.Resp != nil:
		b.WriteString(" => " + showResp(ev.Resp))
	case ev.Val != nil:
		fmt.Fprintf(b, " => %v", ev.Val)
	}
	if len(ev.Fired) > 0 {
		fmt.Fprintf(b, " faults=%v", ev.Fired)
	}
	return b.String()
}

func showResp(m proto.Message) string {
	switch r := m.(type) {
	case *deckard.PullResponse:
		var l []string
		for _, x := range r.Messages {
			l = append(l, fmt.Sprintf("%s(%s)", x.Id, strconv.FormatFloat(x.Score, 'f', -1, 64)))
			if len(l) > 30 {
				l = append(l, fmt.Sprintf("… %d in all", len(r.Messages)))
				break
			}
		}
		return "[" + strings.Join(l, " ") + "]"
	case *deckard.AckResponse:
		if r.RemovalResponse != nil {
			return fmt.Sprintf("success=%v removed cache=%d storage=%d", r.Success, r.RemovalResponse.CacheRemoved, r.RemovalResponse.StorageRemoved)
		}
		return fmt.Sprintf("success=%v", r.Success)
	case *deckard.RemoveResponse:
		return fmt.Sprintf("cache=%d storage=%d", r.CacheRemoved, r.StorageRemoved)
	case *deckard.CountResponse:
		return fmt.Sprintf("count=%d", r.Count)
	case *deckard.AddResponse:
		return fmt.Sprintf("created=%d updated=%d", r.CreatedCount, r.UpdatedCount)
	case *deckard.GetByIdResponse:
		return fmt.Sprintf("found=%v", r.Found)
	case *deckard.EditQueueResponse:
		return fmt.Sprintf("success=%v", r.Success)
	case *deckard.GetQueueResponse:
		return fmt.Sprintf("max=%d", r.Configuration.GetMaxElements())
	case *deckard.FlushResponse:
		return fmt.Sprintf("success=%v", r.Success)
	}
	return "?"
}

func fl(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func capScore(f float64) float64 {
	if math.IsNaN(f) || f < 0 {
		return 0
	}
	if f > 9007199254740992 {
		return 9007199254740992
	}
	return f
}

func setConfig(key, val string) {
	for _, k := range allConfig {
		if k.GetKey() == key {
			k.Set(val)
			return
		}
	}
	panic("harness: unknown configuration " + key)
}

var allConfig = []config.ConfigKey{
	config.CacheConnectionRetryEnabled, config.CacheConnectionRetryAttempts, config.CacheConnectionRetryDelay,
	config.StorageConnectionRetryEnabled, config.StorageConnectionRetryAttempts, config.StorageConnectionRetryDelay,
	config.HousekeeperEnabled, config.HousekeeperTaskTimeoutDelay, config.HousekeeperTaskUnlockDelay, config.HousekeeperTaskUpdateDelay,
	config.HousekeeperTaskTTLDelay, config.HousekeeperTaskMaxElementsDelay, config.HousekeeperTaskMetricsDelay, config.GrpcEnabled,
	config.CacheUri, config.StorageUri, config.MetricsEnabled,
	config.TlsServerCertFilePaths, config.TlsServerKeyFilePaths, config.TlsClientCertFilePaths, config.TlsClientAuthType,
	config.GrpcServerMaxRecvMsgSize, config.GrpcServerMaxSendMsgSize, config.GrpcServerMaxConnectionIdle, config.GrpcServerMaxConnectionAge,
	config.GrpcServerMaxConnectionAgeGrace, config.GrpcServerKeepaliveTime, config.GrpcServerKeepaliveTimeout,
}
