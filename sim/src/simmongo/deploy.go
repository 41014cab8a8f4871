package simmongo

import (
	"context"
	"errors"
	"fmt"
	"time"

	"go.mongodb.org/mongo-driver/v2/bson"
	"go.mongodb.org/mongo-driver/v2/mongo/address"
	"go.mongodb.org/mongo-driver/v2/x/mongo/driver"
	"go.mongodb.org/mongo-driver/v2/x/mongo/driver/description"
	"go.mongodb.org/mongo-driver/v2/x/mongo/driver/mnet"
	"go.mongodb.org/mongo-driver/v2/x/mongo/driver/wiremessage"
	"verifsim/netsim"
	"verifsim/simrt"
)

// Client is one client's view of the deployment, what the driver calls a topology.
type Client struct {
	D       *Deployment
	Timeout time.Duration
	Label   string // which client of the process it is
	closed  bool
}

var _ driver.Deployment = &Client{}
var _ driver.Connector = &Client{}
var _ driver.Disconnector = &Client{}
var _ driver.Subscriber = &Client{}

// NewClient makes the topology of one client. A nil deployment never answers.
func NewClient(d *Deployment, selection time.Duration) *Client {
	return &Client{D: d, Timeout: selection}
}

func (c *Client) Connect() error                           { return nil }
func (c *Client) Disconnect(context.Context) error         { c.closed = true; return nil }
func (c *Client) GetServerSelectionTimeout() time.Duration { return c.Timeout }
func (c *Client) Unsubscribe(*driver.Subscription) error   { return nil }
func (c *Client) Subscribe() (*driver.Subscription, error) {
	ch := make(chan description.Topology, 1)
	m := int64(30)
	ch <- description.Topology{Kind: c.Kind(), SessionTimeoutMinutes: &m}
	return &driver.Subscription{Updates: ch, ID: 1}, nil
}

func (c *Client) Kind() description.TopologyKind {
	switch {
	case c.D == nil:
		return 0
	case c.D.Standalone:
		return description.TopologyKindSingle
	case c.D.Primary < 0:
		return description.TopologyKindReplicaSetNoPrimary
	}
	return description.TopologyKindReplicaSetWithPrimary
}

func (c *Client) describe(i int) description.Server {
	n := c.D.Nodes[i]
	m := int64(30)
	s := description.Server{
		Addr: address.Address(n.Addr), CanonicalAddr: address.Address(n.Addr), AverageRTT: time.Millisecond, AverageRTTSet: true,
		MaxBatchCount: 100000, MaxDocumentSize: 16777216, MaxMessageSize: 48000000, SessionTimeoutMinutes: &m, SetName: "rs0",
		WireVersion: &description.VersionRange{Min: 0, Max: 25}, Kind: description.ServerKindRSSecondary,
		LastUpdateTime: time.Now(), LastWriteTime: time.Now(), HeartbeatInterval: 10 * time.Second,
	}
	if c.D.Standalone {
		s.Kind = description.ServerKindStandalone
		s.SetName = ""
	} else if c.D.Primary == i {
		s.Kind = description.ServerKindRSPrimary
	}
	return s
}

var errSelection = errors.New("server selection error: server selection timeout")

func (c *Client) SelectServer(ctx context.Context, sel description.ServerSelector) (driver.Server, error) {
	done := netsim.Tries("mongo:" + c.Label)
	s, err := c.selectServer(ctx, sel)
	done(err)
	return s, err
}

func (c *Client) selectServer(ctx context.Context, sel description.ServerSelector) (driver.Server, error) {
	if c.closed {
		return nil, errors.New("Topology is closed")
	}
	start := time.Now()
	for first := true; ; first = false {
		if c.D != nil {
			top := description.Topology{Kind: c.Kind(), SetName: "rs0"}
			for i, n := range c.D.Nodes {
				if netsim.Cur != nil && (netsim.Cur.Unreachable(n.Name) || netsim.Cur.ModeOf(n.Name) == netsim.Silent) {
					continue
				}
				top.Servers = append(top.Servers, c.describe(i))
			}
			l, err := sel.SelectServer(top, top.Servers)
			if err != nil {
				return nil, err
			}
			if len(l) > 0 {
				k := 0
				if len(l) > 1 {
					if s := simrt.Active(); s != nil {
						k = s.Rand().Intn(len(l))
					}
				}
				for i, n := range c.D.Nodes {
					if address.Address(n.Addr) == l[k].Addr {
						return &server{c: c, i: i}, nil
					}
				}
			}
		}
		if err := ctx.Err(); err != nil {
			return nil, fmt.Errorf("server selection error: %w, current topology: { }", err)
		}
		if c.Timeout > 0 && time.Since(start) >= c.Timeout {
			return nil, errSelection
		}
		wait := 500 * time.Millisecond
		if dl, ok := ctx.Deadline(); ok {
			if r := time.Until(dl); r < wait {
				wait = max(r, time.Millisecond)
			}
		}
		if netsim.Cur != nil && first {
			netsim.Cur.Count("noserver:mongo")
		}
		sleepCtx(ctx, wait)
	}
}

// sleepCtx sleeps, less if the context ends.
func sleepCtx(ctx context.Context, d time.Duration) {
	t := time.NewTimer(d)
	select {
	case <-ctx.Done():
	case <-t.C:
	}
	t.Stop()
	simrt.Yield("woke", "")
}

type server struct {
	c *Client
	i int
}

type rtt struct{}

func (rtt) EWMA() time.Duration { return 0 }
func (rtt) Min() time.Duration  { return 0 }
func (rtt) Stats() string       { return "" }

func (s *server) RTTMonitor() driver.RTTMonitor { return rtt{} }
func (s *server) Connection(context.Context) (*mnet.Connection, error) {
	connID++
	return mnet.NewConnection(&conn{s: s, id: connID, desc: s.c.describe(s.i)}), nil
}

var connID int64

type conn struct {
	s      *server
	id     int64
	desc   description.Server
	req    bson.D
	reqID  int32
	broken bool
	tok    uint64
}

func (c *conn) Description() description.Server { return c.desc }
func (c *conn) ID() string                      { return fmt.Sprintf("%s[-%d]", c.desc.Addr, c.id) }
func (c *conn) ServerConnectionID() *int64      { return nil }
func (c *conn) DriverConnectionID() int64       { return c.id }
func (c *conn) Address() address.Address        { return c.desc.Addr }
func (c *conn) Stale() bool                     { return false }
func (c *conn) OIDCTokenGenID() uint64          { return c.tok }
func (c *conn) SetOIDCTokenGenID(t uint64)      { c.tok = t }
func (c *conn) Close() error                    { return nil }

func (c *conn) Write(ctx context.Context, wm []byte) error {
	if c.broken {
		return netsim.ErrReset
	}
	_, id, _, op, rem, ok := wiremessage.ReadHeader(wm)
	if !ok || op != wiremessage.OpMsg {
		panic(fmt.Sprintf("simmongo: opcode %v", op))
	}
	c.reqID = id
	_, rem, _ = wiremessage.ReadMsgFlags(rem)
	var body bson.D
	seqs := bson.D{}
	for len(rem) > 0 {
		var st wiremessage.SectionType
		st, rem, ok = wiremessage.ReadMsgSectionType(rem)
		if !ok {
			break
		}
		if st == wiremessage.SingleDocument {
			d, r, _ := wiremessage.ReadMsgSectionSingleDocument(rem)
			rem = r
			if err := bson.Unmarshal(d, &body); err != nil {
				panic(err)
			}
			continue
		}
		name, docs, r, ok := wiremessage.ReadMsgSectionDocumentSequence(rem)
		if !ok {
			panic("simmongo: document sequence")
		}
		rem = r
		a := bson.A{}
		for _, d := range docs {
			var x bson.D
			if err := bson.Unmarshal(d, &x); err != nil {
				panic(err)
			}
			a = append(a, x)
		}
		seqs = append(seqs, bson.E{Key: name, Value: a})
	}
	c.req = append(body, seqs...)
	return nil
}

func (c *conn) fail(ctx context.Context) error {
	c.broken = true
	if err := ctx.Err(); err != nil {
		return fmt.Errorf("connection(%s) incomplete read of message header: %w", c.ID(), err)
	}
	return fmt.Errorf("connection(%s) incomplete read of message header: %w", c.ID(), netsim.ErrReset)
}

// hang is a reply which never comes: the client waits for its deadline, or until
// the kernel gives the connection up.
func (c *conn) hang(ctx context.Context) error {
	sleepCtx(ctx, 20*time.Second)
	return c.fail(ctx)
}

func (c *conn) Read(ctx context.Context) ([]byte, error) {
	if c.broken {
		return nil, netsim.ErrReset
	}
	d, n := c.s.c.D, c.s.c.D.Nodes[c.s.i]
	req := c.req
	cmd := req[0].Key
	if cmd == "endSessions" || cmd == "killCursors" {
		if netsim.Cur != nil && netsim.Cur.Unreachable(n.Name) {
			return nil, c.fail(ctx)
		}
		return c.msg(d.exec(n, req, false)), nil
	}
	f := netsim.Call(n.Name, Describe(req))
	run := func(partial bool) bson.D {
		r := d.exec(n, req, partial)
		if d.Log != nil {
			d.Log(n.Name + " " + Describe(req) + " -> " + Describe(append(bson.D{{Key: "reply", Value: ""}}, r...)))
		}
		return r
	}
	_, txn := get(req, "txnNumber")
	switch f.Kind {
	case netsim.Drop:
		return nil, c.fail(ctx)
	case netsim.Timeout:
		return nil, c.hang(ctx)
	case netsim.Lost:
		run(false)
		return nil, c.fail(ctx)
	case netsim.LostTimeout:
		run(false)
		return nil, c.hang(ctx)
	case netsim.Late:
		ms := time.Duration(f.Ms) * time.Millisecond
		simrt.GoEnv("late", func() {
			simrt.Sleep(ms)
			run(false)
		})
		return nil, c.fail(ctx)
	case netsim.Err:
		switch f.Arg {
		case "partial":
			if isWrite(cmd) {
				return c.msg(run(true)), nil
			}
		case "wce":
			if isWrite(cmd) {
				r := run(false)
				r = append(r, bson.E{Key: "writeConcernError", Value: bson.D{{Key: "code", Value: int32(64)}, {Key: "codeName", Value: "WriteConcernTimeout"}, {Key: "errmsg", Value: "waiting for replication timed out"}}})
				return c.msg(r), nil
			}
		}
		return c.msg(faultError(f.Arg, txn)), nil
	case netsim.Slow:
		if ctx.Err() != nil {
			run(false) // it arrives all the same
			return nil, c.fail(ctx)
		}
	case netsim.SlowReply:
		r := run(false)
		sleepCtx(ctx, time.Duration(f.Ms)*time.Millisecond)
		if ctx.Err() != nil {
			return nil, c.fail(ctx)
		}
		return c.msg(r), nil
	}
	return c.msg(run(false)), nil
}

func (c *conn) msg(d bson.D) []byte {
	b, err := bson.Marshal(d)
	if err != nil {
		panic(err)
	}
	i, wm := wiremessage.AppendHeaderStart(nil, wiremessage.NextRequestID(), c.reqID, wiremessage.OpMsg)
	wm = wiremessage.AppendMsgFlags(wm, 0)
	wm = wiremessage.AppendMsgSectionType(wm, wiremessage.SingleDocument)
	wm = append(wm, b...)
	l := len(wm) - int(i)
	wm[i], wm[i+1], wm[i+2], wm[i+3] = byte(l), byte(l>>8), byte(l>>16), byte(l>>24)
	return wm
}

// Handle executes one OP_MSG of a client outside any simulation.
func (d *Deployment) Handle(node int, wm []byte) []byte {
	c := &Client{D: d}
	x := &conn{s: &server{c: c, i: node}, desc: c.describe(node)}
	if err := x.Write(context.Background(), wm); err != nil {
		panic(err)
	}
	b, err := x.Read(context.Background())
	if err != nil {
		panic(err)
	}
	return b
}
