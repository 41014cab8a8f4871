// Package hooks stands between deckard and the outside world: the constructors
// of clients and listeners, which the rewriter redirects here.
package hooks

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"time"

	elasticsearch "github.com/elastic/go-elasticsearch/v7"
	gocache "github.com/patrickmn/go-cache"
	"github.com/redis/go-redis/v9"
	"github.com/redis/go-redis/v9/maintnotifications"
	"go.mongodb.org/mongo-driver/v2/mongo"
	"go.mongodb.org/mongo-driver/v2/mongo/options"
	"go.mongodb.org/mongo-driver/v2/x/mongo/driver/xoptions"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/test/bufconn"

	"verifsim/netsim"
	"verifsim/simmongo"
	"verifsim/simredis"
	"verifsim/simrt"
)

// Use is referenced by every rewritten file which imports this package.
const Use = true

// World is the outside of the simulated processes.
type World struct {
	Redis    map[string]*simredis.Server
	Mongo    map[string]*simmongo.Deployment
	Elastic  *Elastic
	Listen   map[string]*bufconn.Listener
	Signals  []Handler
	closers  []func()
	Dials    []string // every address a client was told to use
	Servers  []*grpc.Server
	MongoURI []string
	HTTP     []string
	// OnRequest is told of every request that reaches a server. It returns the
	// operation the request belongs to.
	OnRequest func(id, method string) any
}

// W is the world of the current run.
var W = NewWorld()

func NewWorld() *World {
	return &World{Redis: map[string]*simredis.Server{}, Mongo: map[string]*simmongo.Deployment{}, Listen: map[string]*bufconn.Listener{}}
}

// OnClose registers what has to be closed at the end of the run.
func (w *World) OnClose(f func()) { w.closers = append(w.closers, f) }

// Close closes every client made during the run.
func (w *World) Close() {
	for _, f := range w.closers {
		f()
	}
	w.closers = nil
}

func dialRedis(ctx context.Context, network, addr string) (net.Conn, error) {
	s := W.Redis[addr]
	if s == nil {
		return nil, netsim.ErrRefused
	}
	if netsim.Cur.ModeOf(s.Name) == netsim.Silent {
		// Half of the silent servers do not even accept connections.
		if h := simrt.Hash64(s.Name + time.Now().String()); h%2 == 0 {
			t := time.NewTimer(5 * time.Second)
			defer t.Stop()
			select {
			case <-ctx.Done():
			case <-t.C:
			}
			return nil, &net.OpError{Op: "dial", Net: "sim", Err: os.ErrDeadlineExceeded}
		}
	}
	return simredis.Dial(s)
}

// tryHook tells of every command of a Redis client as its user sees it.
type tryHook struct{}

func (tryHook) DialHook(next redis.DialHook) redis.DialHook { return next }
func (tryHook) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		switch cmd.Name() {
		case "hello", "client", "auth", "select", "readonly", "command", "cluster": // part of connecting
			return next(ctx, cmd)
		}
		done := netsim.Tries("redis:")
		err := next(ctx, cmd)
		done(err)
		return err
	}
}
func (tryHook) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return next
}

func RedisNewClient(o *redis.Options) *redis.Client {
	o.Dialer = dialRedis
	if o.PoolSize == 0 {
		o.PoolSize = 20 // as on two processors: the default depends on the machine
	}
	o.MaintNotificationsConfig = &maintnotifications.Config{Mode: maintnotifications.ModeDisabled}
	W.Dials = append(W.Dials, o.Addr)
	c := redis.NewClient(o)
	c.AddHook(tryHook{})
	W.OnClose(func() { _ = c.Close() })
	return c
}

func RedisNewClusterClient(o *redis.ClusterOptions) *redis.ClusterClient {
	o.Dialer = dialRedis
	if o.PoolSize == 0 {
		o.PoolSize = 20 // as on two processors: the default depends on the machine
	}
	o.MaintNotificationsConfig = &maintnotifications.Config{Mode: maintnotifications.ModeDisabled}
	W.Dials = append(W.Dials, o.Addrs...)
	c := redis.NewClusterClient(o)
	c.AddHook(tryHook{})
	W.OnClose(func() { _ = c.Close() })
	return c
}

func RedisNewUniversalClient(o *redis.UniversalOptions) redis.UniversalClient {
	o.Dialer = dialRedis
	if o.PoolSize == 0 {
		o.PoolSize = 20 // as on two processors: the default depends on the machine
	}
	c := redis.NewUniversalClient(o)
	W.OnClose(func() { _ = c.Close() })
	return c
}

func MongoConnect(opts ...*options.ClientOptions) (*mongo.Client, error) {
	o := options.MergeClientOptions(opts...)
	var d *simmongo.Deployment
	for _, h := range o.Hosts {
		if x := W.Mongo[h]; x != nil {
			d = x
		}
	}
	if u := o.GetURI(); u != "" {
		W.MongoURI = append(W.MongoURI, u)
	}
	sel := 30 * time.Second
	if o.ServerSelectionTimeout != nil {
		sel = *o.ServerSelectionTimeout
	}
	c := simmongo.NewClient(d, sel)
	if o.ReadPreference != nil {
		c.Label = o.ReadPreference.Mode().String()
	}
	if err := xoptions.SetInternalClientOptions(o, "deployment", c); err != nil {
		return nil, err
	}
	return mongo.Connect(o)
}

// NewGoCache makes a go-cache without its janitor goroutine: expiry is checked on
// reading anyway.
func NewGoCache(def, cleanup time.Duration) *gocache.Cache { return gocache.New(def, 0) }

// NetListen makes an in-memory listener.
func NetListen(network, addr string) (net.Listener, error) {
	l := bufconn.Listen(1 << 20)
	W.Listen[addr] = l
	W.OnClose(func() { _ = l.Close() })
	return l, nil
}

// GrpcNewServer makes every handler its own task of the simulation, named by the
// client that called.
func GrpcNewServer(opts ...grpc.ServerOption) *grpc.Server {
	proc := (*simrt.Proc)(nil)
	if t := simrt.CurrentTask(); t != nil {
		proc = t.Proc
	}
	ic := func(ctx context.Context, req any, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (resp any, err error) {
		id := "rpc"
		if md, ok := metadata.FromIncomingContext(ctx); ok && len(md.Get("sim-task")) > 0 {
			id = md.Get("sim-task")[0]
		}
		var op any
		if W.OnRequest != nil {
			op = W.OnRequest(id, info.FullMethod)
		}
		simrt.Adopt("handler:"+id, proc, op, func() { resp, err = h(ctx, req) })
		return
	}
	s := grpc.NewServer(append([]grpc.ServerOption{grpc.ChainUnaryInterceptor(ic)}, opts...)...)
	W.Servers = append(W.Servers, s)
	W.OnClose(s.Stop)
	return s
}

// SignalNotify registers a channel for the signals of the simulation.
func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {
	W.Signals = append(W.Signals, Handler{c, sig})
}

// SignalStop is signal.Stop.
func SignalStop(c chan<- os.Signal) {
	var l []Handler
	for _, h := range W.Signals {
		if h.C != c {
			l = append(l, h)
		}
	}
	W.Signals = l
}

// SignalNotifyContext is signal.NotifyContext.
func SignalNotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	SignalNotify(c, sig...)
	simrt.Go("signal", func() {
		switch simrt.Select(false, simrt.R((<-chan os.Signal)(c)), simrt.R(ctx.Done())) {
		case 0:
			cancel()
		}
	})
	return ctx, func() {
		SignalStop(c)
		cancel()
	}
}

// Handler is a channel which gets signals.
type Handler struct {
	C   chan<- os.Signal
	Sig []os.Signal // all, if empty
}

// Takes says whether it gets this one.
func (h Handler) Takes(x os.Signal) bool {
	for _, y := range h.Sig {
		if x == y {
			return true
		}
	}
	return len(h.Sig) == 0
}

// HTTPListenAndServe never gets a request.
func HTTPListenAndServe(addr string, h http.Handler) error {
	W.HTTP = append(W.HTTP, addr)
	simrt.Block()
	return nil
}

// HTTPServerListenAndServe is the method of an http.Server.
func HTTPServerListenAndServe(s *http.Server) func() error {
	return func() error { return HTTPListenAndServe(s.Addr, s.Handler) }
}

// HTTPServerListenAndServeTLS is the method of an http.Server.
func HTTPServerListenAndServeTLS(s *http.Server) func(cert, key string) error {
	return func(_, _ string) error { return HTTPListenAndServe(s.Addr, s.Handler) }
}

// ListenConfigListen is the method of a net.ListenConfig.
func ListenConfigListen(*net.ListenConfig) func(ctx context.Context, network, addr string) (net.Listener, error) {
	return func(_ context.Context, network, addr string) (net.Listener, error) { return NetListen(network, addr) }
}

// Elastic is the simulated Elasticsearch.
type Elastic struct {
	Bodies []string // bulk requests it indexed
	Times  []int64  // when, in ms
	Modes  []SinkMode
}

// SinkMode is how the sink behaves from some time on.
type SinkMode struct {
	At   int64  // ms
	Mode string // up, slow, hang, down or busy
	Ms   int64  // how slow
}

// Mode is the present one.
func (e *Elastic) Mode() SinkMode {
	if e == nil || len(e.Modes) == 0 {
		return SinkMode{Mode: "up"}
	}
	return e.Modes[len(e.Modes)-1]
}

// SetMode changes how the sink behaves.
func (e *Elastic) SetMode(mode string, ms int64) {
	e.Modes = append(e.Modes, SinkMode{time.Now().UnixMilli(), mode, ms})
}

type esTransport struct{}

func (esTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
	}
	f := netsim.Call("elastic", r.Method+" "+r.URL.Path)
	e := W.Elastic
	answer := func(code int, s string) (*http.Response, error) {
		h := http.Header{"X-Elastic-Product": {"Elasticsearch"}, "Content-Type": {"application/json"}}
		return &http.Response{StatusCode: code, Status: fmt.Sprintf("%d", code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: io.NopCloser(strings.NewReader(s)), Request: r}, nil
	}
	act := func() {
		if strings.Contains(r.URL.Path, "_bulk") {
			e.Bodies = append(e.Bodies, string(body))
			e.Times = append(e.Times, time.Now().UnixMilli())
		}
	}
	switch f.Kind {
	case netsim.Drop, netsim.Timeout, netsim.Late:
		return nil, &url.Error{Op: r.Method, URL: r.URL.String(), Err: netsim.ErrReset}
	case netsim.Lost, netsim.LostTimeout:
		act()
		return nil, &url.Error{Op: r.Method, URL: r.URL.String(), Err: netsim.ErrReset}
	case netsim.Err:
		code := 503
		if f.Arg == "429" {
			code = 429
		}
		return answer(code, `{"error":"unavailable"}`)
	case netsim.SlowReply:
		simrt.Sleep(time.Duration(f.Ms) * time.Millisecond)
	}
	if e == nil {
		return nil, netsim.ErrRefused
	}
	switch m := e.Mode(); m.Mode {
	case "down":
		return nil, netsim.ErrRefused
	case "busy":
		return answer(503, `{"error":"unavailable"}`)
	case "hang":
		for r.Context().Err() == nil {
			simrt.Sleep(time.Second)
		}
		return nil, r.Context().Err()
	case "slow":
		for i := m.Ms; i > 0 && r.Context().Err() == nil; i -= 1000 {
			simrt.Sleep(time.Duration(min(i, 1000)) * time.Millisecond)
		}
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
	}
	act()
	if strings.Contains(r.URL.Path, "_bulk") {
		return answer(200, `{"took":1,"errors":false,"items":[]}`)
	}
	return answer(200, `{"version":{"number":"7.17.0","build_flavor":"default"},"tagline":"You Know, for Search"}`)
}

func ElasticNewClient(c elasticsearch.Config) (*elasticsearch.Client, error) {
	c.Transport = esTransport{}
	return elasticsearch.NewClient(c)
}

func ElasticNewDefaultClient() (*elasticsearch.Client, error) {
	return ElasticNewClient(elasticsearch.Config{})
}

var _ = bytes.MinRead
