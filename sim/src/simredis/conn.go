package simredis

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"strconv"
	"strings"
	"time"

	"verifsim/netsim"
	"verifsim/simrt"
)

// Conn is a client connection to a Server. Everything happens in the goroutine of
// the caller, who waits, when the scheduler lets somebody else go first.
type Conn struct {
	srv      *Server
	in       bytes.Buffer
	out      bytes.Buffer
	reqs     [][]string
	deadline time.Time
	closed   bool
	broken   error
	resp3    bool
	multi    [][]string // commands since MULTI
	inMulti  bool
	asking   bool
	watched  map[string]string
}

var _ net.Conn = &Conn{}

// Dial connects to a server.
func Dial(s *Server) (net.Conn, error) {
	if netsim.Cur != nil && netsim.Cur.Unreachable(s.Name) {
		netsim.Cur.Count("refused:redis")
		return nil, netsim.ErrRefused
	}
	return &Conn{srv: s}, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.broken != nil {
		return 0, c.broken
	}
	c.in.Write(b)
	for {
		r, ok := c.parse()
		if !ok {
			return len(b), nil
		}
		c.reqs = append(c.reqs, r)
	}
}

func (c *Conn) parse() ([]string, bool) {
	d := c.in.Bytes()
	line := func(p int) (string, int) {
		i := bytes.Index(d[p:], []byte("\r\n"))
		if i < 0 {
			return "", -1
		}
		return string(d[p : p+i]), p + i + 2
	}
	l, p := line(0)
	if p < 0 {
		return nil, false
	}
	if l == "" || l[0] != '*' {
		panic("simredis: inline command " + l)
	}
	n, _ := strconv.Atoi(l[1:])
	var out []string
	for i := 0; i < n; i++ {
		l, q := line(p)
		if q < 0 {
			return nil, false
		}
		k, _ := strconv.Atoi(l[1:])
		if q+k+2 > len(d) {
			return nil, false
		}
		out = append(out, string(d[q:q+k]))
		p = q + k + 2
	}
	c.in.Next(p)
	return out, true
}

func (c *Conn) fail(err error) error {
	c.broken = err
	c.reqs = nil
	c.out.Reset()
	return err
}

// waitDeadline lets the client wait for a reply that does not come.
func (c *Conn) waitDeadline() error {
	d := time.Hour
	if !c.deadline.IsZero() {
		d = time.Until(c.deadline)
	}
	if d > 0 {
		simrt.SleepKey(d, c.srv.Name)
	}
	if c.deadline.IsZero() {
		return c.fail(netsim.ErrReset)
	}
	return c.fail(netsim.ErrTimeout)
}

// handshake commands are answered at once.
func quiet(cmd string) bool {
	switch cmd {
	case "HELLO", "CLIENT", "COMMAND", "CLUSTER", "SELECT", "AUTH", "READONLY", "ASKING":
		return true
	}
	return false
}

func describe(r []string) string {
	cmd := strings.ToUpper(r[0])
	if len(r) < 2 {
		return cmd
	}
	switch cmd {
	case "EVAL", "EVALSHA":
		s := cmd
		if len(r) > 3 {
			s += " " + strings.Join(r[3:min(len(r), 12)], " ")
		}
		if len(s) > 200 {
			s = s[:200]
		}
		return s
	}
	s := strings.Join(r[:min(len(r), 8)], " ")
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func (c *Conn) Read(b []byte) (int, error) {
	for c.out.Len() == 0 {
		if c.closed {
			return 0, net.ErrClosed
		}
		if c.broken != nil {
			return 0, c.broken
		}
		if len(c.reqs) == 0 {
			// Nothing asked: the client polls an idle connection.
			return 0, c.waitDeadline()
		}
		if err := c.serve(); err != nil {
			return 0, err
		}
	}
	return c.out.Read(b)
}

func (c *Conn) serve() error {
	r := c.reqs[0]
	cmd := strings.ToUpper(r[0])
	if quiet(cmd) {
		c.reqs = c.reqs[1:]
		if netsim.Cur != nil && netsim.Cur.Unreachable(c.srv.Name) {
			return c.fail(netsim.ErrReset)
		}
		if netsim.Cur.ModeOf(c.srv.Name) == netsim.Silent {
			return c.waitDeadline()
		}
		if cmd == "HELLO" {
			c.resp3 = len(r) > 1 && r[1] == "3"
			c.reply(mapReply{"server", "redis", "version", "7.2.0", "proto", int64(3), "id", int64(1), "mode", "standalone", "role", "master", "modules", []any{}})
			return nil
		}
		if cmd == "ASKING" {
			c.asking = true
			c.reply(status("OK"))
			return nil
		}
		c.reply(c.srv.Exec(r))
		return nil
	}
	switch {
	case cmd == "MULTI":
		c.reqs = c.reqs[1:]
		c.inMulti, c.multi = true, nil
		c.reply(status("OK"))
		return nil
	case c.inMulti && cmd != "EXEC" && cmd != "DISCARD":
		c.reqs = c.reqs[1:]
		c.multi = append(c.multi, r)
		c.reply(status("QUEUED"))
		return nil
	}
	asking := c.asking
	c.asking = false
	exec, desc := func() any { return c.srv.exec(r, asking) }, describe(r)
	switch cmd {
	case "WATCH":
		exec = func() any {
			if c.watched == nil {
				c.watched = map[string]string{}
			}
			for _, k := range r[1:] {
				c.watched[k] = c.srv.print(k)
			}
			return status("OK")
		}
	case "UNWATCH":
		exec = func() any { c.watched = nil; return status("OK") }
	case "DISCARD":
		exec = func() any { c.inMulti, c.multi, c.watched = false, nil, nil; return status("OK") }
	case "EXEC":
		if !c.inMulti {
			exec = func() any { return errors.New("ERR EXEC without MULTI") }
			break
		}
		l, w := c.multi, c.watched
		c.inMulti, c.multi, c.watched = false, nil, nil
		for _, x := range l {
			desc += " " + describe(x)
		}
		exec = func() any {
			for k, v := range w {
				if c.srv.print(k) != v {
					return nil
				}
			}
			out := []any{}
			for _, x := range l {
				out = append(out, c.srv.exec(x, asking))
			}
			return out
		}
	}
	f := netsim.Call(c.srv.Name, desc)
	if c.closed {
		return net.ErrClosed
	}
	if len(c.reqs) == 0 {
		return c.broken
	}
	c.reqs = c.reqs[1:]
	if f.Kind == netsim.Slow && !c.deadline.IsZero() && !time.Now().Before(c.deadline) {
		// It arrives after the client stopped waiting, and is executed all the same.
		exec()
		return c.fail(netsim.ErrTimeout)
	}
	switch f.Kind {
	case netsim.Drop:
		return c.fail(netsim.ErrReset)
	case netsim.Timeout:
		return c.waitDeadline()
	case netsim.Lost:
		exec()
		return c.fail(netsim.ErrReset)
	case netsim.LostTimeout:
		exec()
		return c.waitDeadline()
	case netsim.Late:
		d := time.Duration(f.Ms) * time.Millisecond
		lateCount++
		simrt.GoEnv("late", func() {
			simrt.SleepKey(d, c.srv.Name)
			exec()
		})
		return c.fail(netsim.ErrReset)
	case netsim.Err:
		c.reply(errReply(f.Arg))
		return nil
	case netsim.SlowReply:
		v := exec()
		d := time.Duration(f.Ms) * time.Millisecond
		if !c.deadline.IsZero() && time.Now().Add(d).After(c.deadline) {
			return c.waitDeadline()
		}
		simrt.SleepKey(d, c.srv.Name)
		c.reply(v)
		return nil
	}
	c.reply(exec())
	return nil
}

var lateCount int

func (s *Server) exec(r []string, asking bool) any {
	if s.Loading {
		return errReply("LOADING")
	}
	v := s.ask(r, asking)
	if s.Log != nil {
		s.Log(describe(r) + " -> " + fmt.Sprint(v))
	}
	return v
}

func errReply(code string) error {
	switch code {
	case "LOADING":
		return errors.New("LOADING Redis is loading the dataset in memory")
	case "READONLY":
		return errors.New("READONLY You can't write against a read only replica.")
	case "TRYAGAIN":
		return errors.New("TRYAGAIN Multiple keys request during rehashing of slot")
	case "CLUSTERDOWN":
		return errors.New("CLUSTERDOWN The cluster is down")
	case "BUSY":
		return errors.New("BUSY Redis is busy running a script. You can only call SCRIPT KILL or SHUTDOWN NOSAVE.")
	case "MISCONF":
		return errors.New("MISCONF Redis is configured to save RDB snapshots, but it's currently unable to persist to disk.")
	}
	return errors.New("OOM command not allowed when used memory > 'maxmemory'.")
}

func (c *Conn) reply(v any) { c.enc(v) }

func (c *Conn) enc(v any) {
	w := &c.out
	switch x := v.(type) {
	case nil:
		if c.resp3 {
			w.WriteString("_\r\n")
		} else {
			w.WriteString("$-1\r\n")
		}
	case error:
		w.WriteString("-" + strings.ReplaceAll(x.Error(), "\n", " ") + "\r\n")
	case status:
		w.WriteString("+" + string(x) + "\r\n")
	case int64:
		fmt.Fprintf(w, ":%d\r\n", x)
	case string:
		fmt.Fprintf(w, "$%d\r\n%s\r\n", len(x), x)
	case double:
		if c.resp3 {
			s := fmtScore(float64(x))
			if math.IsInf(float64(x), 0) {
				s = strings.TrimPrefix(s, "+")
			}
			w.WriteString("," + s + "\r\n")
		} else {
			c.enc(fmtScore(float64(x)))
		}
	case []any:
		fmt.Fprintf(w, "*%d\r\n", len(x))
		for _, e := range x {
			c.enc(e)
		}
	case mapReply:
		if c.resp3 {
			fmt.Fprintf(w, "%%%d\r\n", len(x)/2)
		} else {
			fmt.Fprintf(w, "*%d\r\n", len(x))
		}
		for _, e := range x {
			c.enc(e)
		}
	default:
		panic(fmt.Sprintf("simredis: reply %T", v))
	}
}

func (c *Conn) Close() error {
	c.closed = true
	return nil
}
func (c *Conn) LocalAddr() net.Addr                { return netsim.Addr("client") }
func (c *Conn) RemoteAddr() net.Addr               { return netsim.Addr(c.srv.Addr) }
func (c *Conn) SetDeadline(t time.Time) error      { c.deadline = t; return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.deadline = t; return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

var _ io.Reader = &Conn{}
