package simtest

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/backoff"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/health/grpc_health_v1"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"

	"verifsim/netsim"
	"verifsim/simrt"
)

// Runs of the endpoint: a process boots with its transport configured in some
// way, from files which may be damaged, and clients of every kind call it, stay
// connected or go silent.

// wireConn is a client's side of a connection, which can go silent.
type wireConn struct {
	net.Conn
	mu      sync.Mutex
	stalled bool
	opened  time.Time
	closed  time.Time
}

func (c *wireConn) end() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed.IsZero() {
		c.closed = time.Now()
	}
}

func (c *wireConn) isStalled() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.stalled
}

func (c *wireConn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	if !c.isStalled() {
		if err != nil {
			c.end()
		}
		return n, err
	}
	for err == nil { // nobody looks at what arrives
		_, err = c.Conn.Read(make([]byte, 1<<12))
	}
	c.end()
	return 0, err
}

func (c *wireConn) Write(b []byte) (int, error) {
	if c.isStalled() {
		return len(b), nil
	}
	return c.Conn.Write(b)
}

func (c *wireConn) Close() error {
	if c.isStalled() {
		return nil // it is silent about that, too
	}
	c.end()
	return c.Conn.Close()
}

// stall makes the client silent: it neither reads, writes nor closes.
func (c *wireConn) stall() {
	c.mu.Lock()
	c.stalled = true
	c.mu.Unlock()
}

func (c *wireConn) closedAt() (time.Time, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed, !c.closed.IsZero()
}

type wireRun struct {
	s     *Sim
	dir   string
	files map[string]string // what each file holds: the name of an entry of pki, or nothing usable
	mu    sync.Mutex
	seen  map[string]bool // requests that reached a handler
	conns []*wireConn
}

func (r *wireRun) fail(ev *Ev, kind, msg string, a ...any) {
	r.s.violate(ev.I, kind, fmt.Sprintf(msg, a...), "C30")
}

// list is a configured list of files.
func list(k config.ConfigKey) []string {
	if k.Get() == "" {
		return nil
	}
	return strings.Split(k.Get(), ",")
}

func (r *wireRun) holds(path string) string { return r.files[filepath.Base(path)] }

// defect says why the process must not serve, if it must not.
func (r *wireRun) defect() string {
	certs, keys := list(config.TlsServerCertFilePaths), list(config.TlsServerKeyFilePaths)
	if len(certs) == 0 {
		return ""
	}
	if len(certs) != len(keys) {
		return fmt.Sprintf("%d certificates and %d keys are configured", len(certs), len(keys))
	}
	for i := range certs {
		c, k := r.holds(certs[i]), r.holds(keys[i])
		if c == "" || k == "" || !strings.HasSuffix(c, ".pem") || strings.TrimSuffix(c, ".pem") != strings.TrimSuffix(k, ".key") {
			return fmt.Sprintf("certificate %s holds %q and key %s holds %q", filepath.Base(certs[i]), c, filepath.Base(keys[i]), k)
		}
	}
	if authTypes[config.TlsClientAuthType.Get()] == 0 {
		return "the client authentication type is unknown"
	}
	for _, c := range list(config.TlsClientCertFilePaths) {
		if !strings.HasSuffix(r.holds(c), ".pem") {
			return fmt.Sprintf("the authority %s holds %q", filepath.Base(c), r.holds(c))
		}
	}
	return ""
}

var authTypes = map[string]int{"NoClientCert": 1, "RequestClientCert": 2, "RequireAnyClientCert": 3, "VerifyClientCertIfGiven": 4, "RequireAndVerifyClientCert": 5}

// admits says whether a client is to be served.
func (r *wireRun) admits(o *Op) bool {
	certs := list(config.TlsServerCertFilePaths)
	if o.Arg == "plain" || len(certs) == 0 {
		return o.Arg == "plain" && len(certs) == 0
	}
	served := false
	for _, c := range certs {
		served = served || r.holds(c) == strings.TrimSuffix(o.Q, ".test")+".pem"
	}
	valid := false
	for _, c := range list(config.TlsClientCertFilePaths) {
		valid = valid || o.Arg == "by1" && r.holds(c) == "ca1.pem" || o.Arg == "by2" && r.holds(c) == "ca2.pem"
	}
	switch authTypes[config.TlsClientAuthType.Get()] {
	case 3:
		return served && o.Arg != "none"
	case 4:
		return served && (o.Arg == "none" || valid)
	case 5:
		return served && valid
	}
	return served
}

func (r *wireRun) client(o *Op) (*grpc.ClientConn, func() *wireConn) {
	creds := insecure.NewCredentials()
	if o.Arg != "plain" {
		roots := x509.NewCertPool()
		roots.AppendCertsFromPEM([]byte(pki["sca.pem"]))
		c := &tls.Config{RootCAs: roots, ServerName: o.Q}
		if o.Arg != "none" {
			pair, err := tls.X509KeyPair([]byte(pki[o.Arg+".pem"]), []byte(pki[o.Arg+".key"]))
			if err != nil {
				panic("harness: " + err.Error())
			}
			// Sent whatever the server says it would accept.
			c.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &pair, nil }
		}
		creds = credentials.NewTLS(c)
	}
	var first *wireConn
	var mu sync.Mutex
	w := r.s.W
	cc, err := grpc.NewClient("passthrough:///n0",
		grpc.WithTransportCredentials(creds), grpc.WithIdleTimeout(0),
		grpc.WithConnectParams(grpc.ConnectParams{Backoff: backoff.Config{BaseDelay: time.Second, Multiplier: 1, MaxDelay: time.Second}, MinConnectTimeout: time.Second}),
		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(1<<26), grpc.MaxCallSendMsgSize(1<<26)),
		grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) {
			l := w.Listen[grpcAddr()]
			if l == nil {
				return nil, netsim.ErrRefused
			}
			c, err := l.DialContext(ctx)
			if err != nil {
				return nil, err
			}
			x := &wireConn{Conn: c, opened: time.Now()}
			mu.Lock()
			if first == nil {
				first = x
			}
			mu.Unlock()
			r.mu.Lock()
			r.conns = append(r.conns, x)
			r.mu.Unlock()
			return x, nil
		}))
	if err != nil {
		panic("harness: " + err.Error())
	}
	w.OnClose(func() { _ = cc.Close() })
	return cc, func() *wireConn {
		mu.Lock()
		defer mu.Unlock()
		return first
	}
}

// ctx is that of one request of an operation.
func (r *wireRun) ctx(ev *Ev, part string) (context.Context, string, context.CancelFunc) {
	id := fmt.Sprintf("%s.%d.%s", ev.Op.A, ev.I, part)
	ctx, cancel := context.WithTimeout(metadata.AppendToOutgoingContext(context.Background(), "sim-task", id), time.Minute)
	return ctx, id, cancel
}

func (r *wireRun) reached(id string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.seen[id]
}

// after judges one request: whether it was to be served, given its size and that of its answer.
func (r *wireRun) after(ev *Ev, part, id string, err error, admitted bool, size, limit, answer, most int) bool {
	s := r.s
	s.checked("endpoint")
	code := status.Code(err)
	o := ev.Op
	switch {
	case !admitted:
		if err == nil || r.reached(id) {
			r.fail(ev, "wire-admitted", "a client (%s, asking for %s) was served, which client authentication %s and the configured certificates do not allow", o.Arg, o.Q, config.TlsClientAuthType.Get())
		} else if code == codes.DeadlineExceeded {
			r.fail(ev, "wire-hangs", "a client (%s, asking for %s) that is not to be served was not told so within a minute", o.Arg, o.Q)
		}
		return false
	case size > limit:
		if err == nil || r.reached(id) {
			r.fail(ev, "wire-size", "a request of %d bytes was served, the configured limit is %d", size, limit)
		} else if code != codes.ResourceExhausted {
			r.fail(ev, "wire-size", "a request of %d bytes, more than the configured %d, was refused as %v", size, limit, err)
		}
		return false
	case answer > most:
		if err == nil {
			r.fail(ev, "wire-size", "an answer of %d bytes was sent, the configured limit is %d", answer, most)
		} else if code != codes.ResourceExhausted {
			r.fail(ev, "wire-size", "an answer of %d bytes, more than the configured %d, was refused as %v", answer, most, err)
		}
		return false
	}
	if err != nil {
		r.fail(ev, "wire-refused", "the %s request of a client (%s, asking for %s) was refused, although client authentication is %s: %v", part, o.Arg, o.Q, config.TlsClientAuthType.Get(), err)
		return false
	}
	return true
}

func (r *wireRun) call(ev *Ev) {
	o := ev.Op
	cc, _ := r.client(o)
	defer cc.Close()
	d := deckard.NewDeckardClient(cc)
	ok := r.admits(o)
	limit, most := config.GrpcServerMaxRecvMsgSize.GetInt(), config.GrpcServerMaxSendMsgSize.GetInt()
	if o.K == "health" {
		ctx, id, cancel := r.ctx(ev, "health")
		defer cancel()
		a, err := grpc_health_v1.NewHealthClient(cc).Check(ctx, &grpc_health_v1.HealthCheckRequest{Service: []string{"", deckard.Deckard_ServiceDesc.ServiceName}[o.Val]})
		ev.Err, ev.Code = err, status.Code(err)
		if r.after(ev, "health check", id, err, ok, 0, limit, 0, most) && a.GetStatus() != grpc_health_v1.HealthCheckResponse_SERVING {
			r.fail(ev, "wire-health", "the health check of %q answers %v while the process serves", []string{"", deckard.Deckard_ServiceDesc.ServiceName}[o.Val], a.GetStatus())
		}
		return
	}
	// One message is added and looked up.
	text := strings.Repeat("x", int(o.Amt))
	req := &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: fmt.Sprint("m", ev.I), Queue: "q", StringPayload: text, Timeless: true, Score: 5}}}
	ctx, id, cancel := r.ctx(ev, "add")
	_, err := d.Add(ctx, req)
	cancel()
	ev.Err, ev.Code = err, status.Code(err)
	added := r.after(ev, "add", id, err, ok, proto.Size(req), limit, 0, most)
	if len(r.s.Viol) > 0 || !ok {
		return
	}
	ctx, id, cancel = r.ctx(ev, "getbyid")
	defer cancel()
	get := &deckard.GetByIdRequest{Id: fmt.Sprint("m", ev.I), Queue: "q"}
	want := &deckard.GetByIdResponse{}
	if added {
		want = &deckard.GetByIdResponse{Found: true, Message: &deckard.Message{Id: get.Id, Queue: "q", StringPayload: text, Score: 5}}
	}
	g, err := d.GetById(ctx, get)
	ev.Err, ev.Code = err, status.Code(err)
	if !r.after(ev, "look-up", id, err, ok, proto.Size(get), limit, proto.Size(want), most) {
		return
	}
	if g.GetFound() != added || added && g.GetMessage().GetStringPayload() != text {
		r.fail(ev, "wire-size", "the message of a request of %d bytes (limit %d) is stored: %v, with %d bytes of text instead of %d", proto.Size(req), limit, g.GetFound(), len(g.GetMessage().GetStringPayload()), len(text))
	}
}

// hold keeps a connection: it calls once, maybe a second time after o.Pre ms, may
// go silent after o.Lock ms and looks whether it is cut when it is to be.
func (r *wireRun) hold(ev *Ev) {
	s, o := r.s, ev.Op
	cc, first := r.client(o)
	defer cc.Close()
	d := deckard.NewDeckardClient(cc)
	ok := r.admits(o)
	ping := func(part string) bool {
		ctx, id, cancel := r.ctx(ev, part)
		defer cancel()
		req := &deckard.CountRequest{Queue: "q"}
		_, err := d.Count(ctx, req)
		ev.Err, ev.Code = err, status.Code(err)
		return r.after(ev, "count", id, err, ok, proto.Size(req), 1<<30, 0, 1<<30)
	}
	if !ping("first") {
		return
	}
	c := first()
	t0 := c.opened
	last := time.Now()
	dur := func(k config.ConfigKey) time.Duration {
		x, _ := time.ParseDuration(k.Get())
		return x
	}
	idle, age := dur(config.GrpcServerMaxConnectionIdle), dur(config.GrpcServerMaxConnectionAge)
	kt, ka := max(dur(config.GrpcServerKeepaliveTime), time.Second), dur(config.GrpcServerKeepaliveTimeout)
	if config.GrpcServerKeepaliveTime.Get() == "" {
		kt = 2 * time.Hour
	}
	if config.GrpcServerKeepaliveTimeout.Get() == "" {
		ka = 20 * time.Second
	}
	end := last.Add(time.Duration(o.Deadline) * time.Millisecond)
	// Never cut short by the end of the connection, whose age has some chance in it.
	wait := func(until time.Time) {
		if d := time.Until(until); d > 0 {
			simrt.Sleep(d)
		}
	}
	// window is when the connection is to end: not before the first, at the latest at the second.
	far := t0.Add(1000 * time.Hour)
	window := func() (lo, hi time.Time) {
		lo, hi = far, far
		note := func(a, b time.Time) {
			if a.Before(lo) {
				lo = a
			}
			if b.Before(hi) {
				hi = b
			}
		}
		const slack = 2 * time.Second
		if idle > 0 {
			note(last.Add(idle-20*time.Millisecond), last.Add(idle+slack))
		}
		if age > 0 {
			note(t0.Add(age*9/10-20*time.Millisecond), t0.Add(age*11/10+slack))
		}
		return
	}
	judge := func(silent time.Time) bool {
		lo, hi := window()
		if !silent.IsZero() {
			// Told to leave, a client which does not answer has another minute.
			if hi.Before(far) {
				hi = hi.Add(time.Minute)
			}
			x := silent.Add(2*kt + ka + 5*time.Second)
			if idle == 0 && age == 0 {
				x = silent.Add(kt + ka + 2*time.Second)
			}
			if x.Before(hi) {
				hi = x
			}
			// Neither may it be cut before the server can know: what it asked before was answered.
			if x := silent.Add(ka - 100*time.Millisecond); x.Before(lo) {
				lo = x
			}
		}
		at, over := c.closedAt()
		s.checked("connection")
		set := fmt.Sprintf("(idle limit %v, age limit %v, keepalive %v and %v, silent: %v)", idle, age, kt, ka, !silent.IsZero())
		if age == 0 {
			set = fmt.Sprintf("after %d ms %s", min(at.Sub(t0), time.Since(t0)).Abs().Milliseconds(), set)
		}
		switch {
		case over && at.Before(lo):
			r.fail(ev, "wire-cut", "a connection was cut too early %s", set)
			return false
		case over && at.After(hi), !over && time.Now().After(hi):
			r.fail(ev, "wire-stays", "a connection was not cut in time %s", set)
			return false
		}
		return !over
	}
	if o.Pre > 0 {
		again := last.Add(time.Duration(o.Pre) * time.Millisecond)
		if lo, hi := window(); again.After(lo.Add(-3*time.Second)) && again.Before(hi.Add(3*time.Second)) {
			again = lo.Add(-3 * time.Second) // not just when it ends
		}
		if again.After(last) {
			wait(again)
			if !judge(time.Time{}) || !ping("second") {
				return
			}
			last = time.Now()
		}
	}
	silent := time.Time{}
	if o.Lock > 0 {
		if x := last.Add(time.Duration(o.Lock) * time.Millisecond); x.Before(end) {
			wait(x)
			c.stall()
			silent = time.Now()
			s.Net.Count("silent-client")
		}
	}
	wait(end)
	judge(silent)
}

func (s *Sim) wireOps() []*Op {
	r := simrt.NewRand(s.Seed ^ 0x717E)
	var ops []*Op
	tlsOn := s.Env.Cfg[config.TlsServerCertFilePaths.GetKey()] != ""
	if tlsOn {
		for r.Bool(0.3) {
			ops = append(ops, &Op{A: "env", K: "file", Q: []string{"a.pem", "a.key", "b.pem", "b.key", "ca1.pem", "ca2.pem"}[r.Intn(6)], Arg: []string{"missing", "folder", "empty", "torn", "garbled", "other", "swapped"}[r.Intn(7)]})
		}
	}
	n := 2 + r.Intn(8)
	for i := 0; i < n; i++ {
		o := &Op{A: fmt.Sprint("c", i%3), K: "call", Q: "a.test", Arg: []string{"plain", "none", "by1", "by1", "by2", "by3", "old"}[r.Intn(7)]}
		if !tlsOn && r.Bool(0.8) {
			o.Arg = "plain"
		}
		if r.Bool(0.3) {
			o.Q = "b.test"
		}
		switch {
		case r.Bool(0.35):
			o.K = "hold"
			o.Deadline = []int64{1000, 8000, 30000, 90000, 200000, 600000}[r.Intn(6)]
			if r.Bool(0.4) {
				o.Pre = int64(1 + r.Intn(60000))
			}
			if r.Bool(0.4) {
				o.Lock = int64(1 + r.Intn(20000))
			}
		case r.Bool(0.15):
			o.K, o.Val = "health", int64(r.Intn(2))
		default:
			o.Amt = []int32{0, 10, 900, 1000, 3000, 5000}[r.Intn(6)]
			for _, k := range []config.ConfigKey{config.GrpcServerMaxRecvMsgSize, config.GrpcServerMaxSendMsgSize} {
				if v := s.Env.Cfg[k.GetKey()]; v != "" && r.Bool(0.4) { // around the limit
					var x int32
					_, _ = fmt.Sscan(v, &x)
					o.Amt = max(0, x-60+int32(r.Intn(80)))
				}
			}
		}
		ops = append(ops, o)
	}
	return ops
}

func (s *Sim) wireRun(sc *Scenario) {
	if sc.Ops == nil {
		s.made = s.wireOps()
	} else {
		s.made = sc.Ops
	}
	s.dump(sc)
	dir, err := os.MkdirTemp("", "simwire")
	if err != nil {
		panic("harness: " + err.Error())
	}
	s.W.OnClose(func() { _ = os.RemoveAll(dir) })
	r := &wireRun{s: s, dir: dir, files: map[string]string{}, seen: map[string]bool{}}
	put := func(name, text string) {
		p := filepath.Join(dir, name)
		_ = os.RemoveAll(p)
		if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
			panic("harness: " + err.Error())
		}
	}
	for _, f := range []string{"a.pem", "a.key", "b.pem", "b.key", "ca1.pem", "ca2.pem"} {
		put(f, pki[f])
		r.files[f] = f
	}
	for _, o := range s.made {
		if o.K != "file" {
			continue
		}
		s.Net.Count("file-" + o.Arg)
		r.files[o.Q] = ""
		switch text := pki[o.Q]; o.Arg {
		case "missing":
			_ = os.Remove(filepath.Join(dir, o.Q))
		case "folder":
			_ = os.Remove(filepath.Join(dir, o.Q))
			_ = os.Mkdir(filepath.Join(dir, o.Q), 0o700)
		case "empty":
			put(o.Q, "")
		case "torn":
			put(o.Q, text[:len(text)/2])
		case "garbled":
			put(o.Q, strings.Map(func(c rune) rune {
				if c >= 'a' && c <= 'z' {
					return '#'
				}
				return c
			}, text))
		case "other", "swapped":
			x := map[string]string{"a.pem": "b.pem", "a.key": "b.key", "b.pem": "a.pem", "b.key": "a.key", "ca1.pem": "sca.pem", "ca2.pem": "ca1.pem"}[o.Q]
			put(o.Q, pki[x])
			r.files[o.Q] = x
		}
	}
	for _, k := range []config.ConfigKey{config.TlsServerCertFilePaths, config.TlsServerKeyFilePaths, config.TlsClientCertFilePaths} {
		if v := s.Env.Cfg[k.GetKey()]; v != "" {
			k.Set(strings.ReplaceAll(v, "$DIR", dir))
		}
	}
	s.mainSetup(nil)
	on := s.W.OnRequest
	s.W.OnRequest = func(id, method string) any {
		r.mu.Lock()
		r.seen[id] = true
		r.mu.Unlock()
		return on(id, method)
	}
	s.seq++
	ev := &Ev{Op: &Op{A: "env", K: "boot"}, S: s.seq, T0: s.now()}
	s.Hist = append(s.Hist, ev)
	p := s.startMain()
	up := s.serving(p, 30*time.Second)
	s.seq++
	ev.E, ev.T1, ev.Done = s.seq, s.now(), true
	s.checked("endpoint")
	note := func(ev *Ev) {
		if s.Keep || verbose {
			s.Trace = append(s.Trace, fmt.Sprintf("%d-%d ms %s => %v", ev.T0, ev.T1, ev.Op, ev.Code))
			if verbose {
				fmt.Println(s.Trace[len(s.Trace)-1])
			}
		}
	}
	note(ev)
	why := r.defect()
	switch {
	case up && why != "":
		r.fail(ev, "wire-open", "the process serves although its transport security cannot be set up: %s", why)
		return
	case !up && why == "":
		r.fail(ev, "wire-boot", "the process does not serve although its configuration is in order: %v", p.n.Err)
		return
	case !up:
		if p.exited < 0 {
			r.fail(ev, "wire-boot", "the process neither serves nor ends with a transport security that cannot be set up: %s", why)
		}
		return
	}
	s.Net.Count("auth:" + config.TlsClientAuthType.Get())
	for _, o := range s.made {
		if o.K == "file" || len(s.Viol) > 0 {
			continue
		}
		s.seq++
		ev := &Ev{Op: o, I: len(s.Hist), S: s.seq, T0: s.now(), Node: p.n}
		s.Hist = append(s.Hist, ev)
		s.Net.Count("client:" + o.Arg)
		if o.K == "hold" {
			r.hold(ev)
		} else {
			r.call(ev)
		}
		// A client which is turned away may have tried a second time and one which ends
		// its connection may have waited for the server, as chance has it in grpc.
		if d := 7000 + o.Deadline + o.Pre - (s.now() - ev.T0); d > 0 {
			simrt.Sleep(time.Duration(d) * time.Millisecond)
		}
		s.seq++
		ev.E, ev.Done = s.seq, true
		ev.T1 = s.now()
		note(ev)
	}
}

func init() {
	profiles["wire-mm"] = &profile{
		env: func(r *simrt.Rand) *Env {
			v := &Env{Engine: "mm", Nodes: 1, Kind: r.Intn(3), Cfg: map[string]string{}}
			set := func(k config.ConfigKey, p float64, l ...string) {
				if r.Bool(p) {
					v.Cfg[k.GetKey()] = l[r.Intn(len(l))]
				}
			}
			if r.Bool(0.8) {
				x := []string{"$DIR/a", "$DIR/a", "$DIR/b", "$DIR/a,$DIR/b", "$DIR/b,$DIR/a"}[r.Intn(5)]
				with := func(x, suffix string) string { return strings.ReplaceAll(x, ",", suffix+",") + suffix }
				v.Cfg[config.TlsServerCertFilePaths.GetKey()] = with(x, ".pem")
				if r.Bool(0.05) {
					x = []string{"$DIR/a", "$DIR/b,$DIR/a", "$DIR/b"}[r.Intn(3)]
				}
				v.Cfg[config.TlsServerKeyFilePaths.GetKey()] = with(x, ".key")
				set(config.TlsClientAuthType, 0.9, "NoClientCert", "RequestClientCert", "RequireAnyClientCert", "VerifyClientCertIfGiven", "RequireAndVerifyClientCert", "RequireAndVerifyClientCert")
				set(config.TlsClientCertFilePaths, 0.75, "$DIR/ca1.pem", "$DIR/ca1.pem", "$DIR/ca2.pem", "$DIR/ca1.pem,$DIR/ca2.pem", "$DIR/ca2.pem,$DIR/ca1.pem")
				set(config.TlsClientAuthType, 0.03, "requireandverifyclientcert", "Everyone", "none")
			}
			set(config.HousekeeperEnabled, 0.8, "false")
			set(config.GrpcServerMaxRecvMsgSize, 0.4, "500", "1000", "3000", "100000")
			set(config.GrpcServerMaxSendMsgSize, 0.4, "500", "1000", "3000", "100000")
			set(config.GrpcServerMaxConnectionIdle, 0.4, "5s", "20s", "1m", "1500ms")
			set(config.GrpcServerMaxConnectionAge, 0.4, "10s", "50s", "3m")
			set(config.GrpcServerMaxConnectionAgeGrace, 0.3, "1s", "10s")
			set(config.GrpcServerKeepaliveTime, 0.4, "2s", "10s", "1m")
			set(config.GrpcServerKeepaliveTimeout, 0.4, "1s", "5s", "30s")
			return v
		},
		run: func(s *Sim, sc *Scenario) { s.wireRun(sc) },
	}
}
