// Package simredis is a simulated Redis: a server which executes the commands
// and Lua scripts the code under test sends, atomically and in one piece each,
// and a connection which delivers them when the scheduler says so.
package simredis

import (
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type status string
type double float64
type mapReply []any

type zset struct {
	m      map[string]float64
	sorted []zmember // nil when stale
}
type zmember struct {
	s float64
	m string
}

func (z *zset) list() []zmember {
	if z.sorted == nil {
		z.sorted = make([]zmember, 0, len(z.m))
		for k, v := range z.m {
			z.sorted = append(z.sorted, zmember{v, k})
		}
		sort.Slice(z.sorted, func(i, j int) bool {
			a, b := z.sorted[i], z.sorted[j]
			if a.s != b.s {
				return a.s < b.s
			}
			return a.m < b.m
		})
	}
	return z.sorted
}

func (z *zset) at(x zmember) int {
	return sort.Search(len(z.sorted), func(i int) bool {
		y := z.sorted[i]
		if x.s != y.s {
			return y.s > x.s
		}
		return y.m >= x.m
	})
}

// del and set keep the order when one is there.
func (z *zset) del(m string) {
	old, ok := z.m[m]
	if !ok {
		return
	}
	delete(z.m, m)
	if z.sorted != nil {
		i := z.at(zmember{old, m})
		if i == 0 {
			z.sorted = z.sorted[1:]
		} else {
			z.sorted = append(z.sorted[:i], z.sorted[i+1:]...)
		}
	}
}

func (z *zset) set(m string, f float64) {
	if old, ok := z.m[m]; ok {
		if old == f {
			return
		}
		z.del(m)
	}
	z.m[m] = f
	if z.sorted != nil {
		x := zmember{f, m}
		i := z.at(x)
		z.sorted = append(z.sorted, x)
		copy(z.sorted[i+1:], z.sorted[i:])
		z.sorted[i] = x
	}
}

// Server is one Redis node.
type Server struct {
	Name    string // "redis:host:port"
	Addr    string
	db      map[string]any // string or *zset
	expire  map[string]time.Time
	scripts map[string]string
	cluster *Cluster
	// Now is the server's clock, for expiry.
	Cmds map[string]int
	// OnWrite is called before each mutating command outside and inside scripts.
	Touched map[string]bool
	// ScanPage limits SCAN replies, so that cursors are exercised.
	ScanPage int
	ScanDup  bool // a page repeats the last key of the page before, as SCAN may
	// Foreign keys were put there by the harness.
	Log func(s string)
	// Loading makes the server answer LOADING.
	Loading bool
	mu      sync.Mutex
}

// Cluster is a set of nodes with slots.
type Cluster struct {
	Nodes []*Server
	Owner [16384]int
	// Moving slots have their keys on another node already, while the nodes still
	// tell the owner of before.
	Moving map[int]int
}

// Move moves n slots, from slot on, with their keys to a node.
func (c *Cluster) Move(slot, n, to int, announce bool) {
	dst := c.Nodes[to]
	in := func(i int) bool { return (i-slot+len(c.Owner))%len(c.Owner) < n }
	for _, s := range c.Nodes {
		if s == dst {
			continue
		}
		for _, k := range s.Keys() {
			if !in(Slot(k)) {
				continue
			}
			dst.db[k] = s.db[k]
			delete(s.db, k)
			if t, ok := s.expire[k]; ok {
				dst.expire[k] = t
				delete(s.expire, k)
			}
		}
	}
	for i := range c.Owner {
		if !in(i) {
			continue
		}
		delete(c.Moving, i)
		if c.Owner[i] == to {
			continue
		}
		if announce {
			c.Owner[i] = to
			continue
		}
		if c.Moving == nil {
			c.Moving = map[int]int{}
		}
		c.Moving[i] = to
	}
}

// Announce ends the moves under way.
func (c *Cluster) Announce() {
	for i, to := range c.Moving {
		c.Owner[i] = to
	}
	c.Moving = nil
}

// at is the node which has the keys of a slot.
func (c *Cluster) at(slot int) *Server {
	if to, ok := c.Moving[slot]; ok {
		return c.Nodes[to]
	}
	return c.Nodes[c.Owner[slot]]
}

func NewServer(addr string) *Server {
	return &Server{Name: "redis:" + addr, Addr: addr, db: map[string]any{}, expire: map[string]time.Time{}, scripts: map[string]string{}, Cmds: map[string]int{}, Touched: map[string]bool{}}
}

func NewCluster(addrs ...string) *Cluster {
	c := &Cluster{}
	for _, a := range addrs {
		s := NewServer(a)
		s.cluster = c
		c.Nodes = append(c.Nodes, s)
	}
	for i := range c.Owner {
		c.Owner[i] = i * len(addrs) / len(c.Owner)
	}
	return c
}

// Wipe empties the server, as a restart without persistence does. Scripts go too.
func (s *Server) Wipe() {
	s.db = map[string]any{}
	s.expire = map[string]time.Time{}
	s.scripts = map[string]string{}
}

// Keys lists the keys.
func (s *Server) Keys() []string {
	l := make([]string, 0, len(s.db))
	for k := range s.db {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Dump shows a key's value.
func (s *Server) Dump(key string) string {
	switch v := s.db[key].(type) {
	case string:
		return v
	case *zset:
		var b []string
		for _, e := range v.list() {
			b = append(b, e.m+"="+fmtScore(e.s))
		}
		return strings.Join(b, " ")
	}
	return ""
}

// Put stores a string under a key, behind the back of the code under test.
func (s *Server) Put(key, val string) { s.db[key] = val }

// PutZ stores a sorted set element.
func (s *Server) PutZ(key, member string, score float64) {
	z, _ := s.db[key].(*zset)
	if z == nil {
		z = &zset{m: map[string]float64{}}
		s.db[key] = z
	}
	z.m[member] = score
	z.sorted = nil
}

func fmtScore(f float64) string {
	if math.IsInf(f, 1) {
		return "inf"
	}
	if math.IsInf(f, -1) {
		return "-inf"
	}
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return strconv.FormatInt(int64(f), 10)
	}
	return fmtG(f, 17)
}

var errWrongType = errors.New("WRONGTYPE Operation against a key holding the wrong kind of value")
var errSyntax = errors.New("ERR syntax error")
var errFloat = errors.New("ERR value is not a valid float")
var errInt = errors.New("ERR value is not an integer or out of range")

func parseFloat(s string) (float64, error) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(f, 0) || math.IsNaN(f) || strings.ContainsAny(s, "_ \t") {
		return 0, errFloat
	}
	return f, nil
}

func crc16(s string) uint16 {
	var crc uint16
	for i := 0; i < len(s); i++ {
		crc ^= uint16(s[i]) << 8
		for j := 0; j < 8; j++ {
			if crc&0x8000 != 0 {
				crc = crc<<1 ^ 0x1021
			} else {
				crc <<= 1
			}
		}
	}
	return crc
}

// Slot is the cluster slot of a key.
func Slot(key string) int {
	if i := strings.IndexByte(key, '{'); i >= 0 {
		if j := strings.IndexByte(key[i+1:], '}'); j > 0 {
			key = key[i+1 : i+1+j]
		}
	}
	return int(crc16(key) % 16384)
}

// keysOf returns the keys of a command; ok is false for a keyless one.
func keysOf(a []string) []string {
	switch strings.ToUpper(a[0]) {
	case "GET", "SET", "SETNX", "SETEX", "PSETEX", "GETSET", "GETDEL", "INCR", "INCRBY", "DECR", "EXPIRE", "PEXPIRE", "TTL", "PTTL", "TYPE", "PERSIST", "STRLEN", "APPEND",
		"HSET", "HSETNX", "HGET", "HMGET", "HDEL", "HGETALL", "HKEYS", "HVALS", "HLEN", "HEXISTS", "HINCRBY", "SADD", "SREM", "SMEMBERS", "SISMEMBER", "SCARD",
		"ZADD", "ZREM", "ZSCORE", "ZMSCORE", "ZCARD", "ZCOUNT", "ZRANGE", "ZREVRANGE", "ZRANGEBYSCORE", "ZREVRANGEBYSCORE", "ZRANK", "ZREVRANK", "ZINCRBY", "ZPOPMIN", "ZPOPMAX", "ZREMRANGEBYSCORE", "ZREMRANGEBYRANK":
		if len(a) > 1 {
			return a[1:2]
		}
	case "DEL", "UNLINK", "EXISTS", "MGET", "TOUCH":
		return a[1:]
	case "RENAME":
		if len(a) > 2 {
			return a[1:3]
		}
	case "MSET":
		var k []string
		for i := 1; i < len(a); i += 2 {
			k = append(k, a[i])
		}
		return k
	case "EVAL", "EVALSHA", "EVAL_RO", "EVALSHA_RO":
		if len(a) > 2 {
			n, err := strconv.Atoi(a[2])
			if err == nil && n >= 0 && 3+n <= len(a) {
				return a[3 : 3+n]
			}
		}
	}
	return nil
}

// Exec performs one request.
func (s *Server) Exec(a []string) any { return s.ask(a, false) }

func (s *Server) ask(a []string, asking bool) any {
	s.mu.Lock() // handshakes are served without the scheduler
	s.Cmds[strings.ToUpper(a[0])]++
	s.mu.Unlock()
	ks := keysOf(a)
	if s.cluster != nil && len(ks) > 0 {
		slot := Slot(ks[0])
		for _, k := range ks[1:] {
			if Slot(k) != slot {
				return errors.New("CROSSSLOT Keys in request don't hash to the same slot")
			}
		}
		o, at := s.cluster.Nodes[s.cluster.Owner[slot]], s.cluster.at(slot)
		switch {
		case at == s && (o == s || asking):
		case o == s:
			return fmt.Errorf("ASK %d %s", slot, at.Addr)
		default:
			return fmt.Errorf("MOVED %d %s", slot, o.Addr)
		}
	}
	return s.do(a, nil)
}

func (s *Server) now() time.Time { return time.Now() }

func (s *Server) reap(k string) {
	if t, ok := s.expire[k]; ok && !s.now().Before(t) {
		delete(s.db, k)
		delete(s.expire, k)
	}
}

func (s *Server) do(a []string, declared map[string]bool) any {
	cmd := strings.ToUpper(a[0])
	for _, k := range keysOf(a) {
		s.reap(k)
		s.Touched[k] = true
		if declared != nil && s.cluster != nil && !declared[k] {
			// Redis answers this when the slot is not served; scripts of a cluster must declare their keys.
			if s.cluster.at(Slot(k)) != s {
				return errors.New("ERR Script attempted to access a non local key in a cluster node")
			}
			for d := range declared {
				if Slot(d) != Slot(k) {
					return errors.New("ERR Script attempted to access keys that do not hash to the same slot")
				}
				break
			}
		}
	}
	need := func(n int) bool { return len(a) >= n }
	arity := fmt.Errorf("ERR wrong number of arguments for '%s' command", strings.ToLower(cmd))
	str := func(k string) (string, bool, error) {
		v, ok := s.db[k]
		if !ok {
			return "", false, nil
		}
		x, ok := v.(string)
		if !ok {
			return "", false, errWrongType
		}
		return x, true, nil
	}
	zs := func(k string, make_ bool) (*zset, error) {
		v, ok := s.db[k]
		if !ok {
			z := &zset{m: map[string]float64{}}
			if make_ {
				s.db[k] = z
			}
			return z, nil
		}
		z, ok := v.(*zset)
		if !ok {
			return nil, errWrongType
		}
		return z, nil
	}
	drop := func(k string, z *zset) {
		z.sorted = nil
		if len(z.m) == 0 {
			delete(s.db, k)
			delete(s.expire, k)
		}
	}
	switch cmd {
	case "PING":
		if need(2) {
			return a[1]
		}
		return status("PONG")
	case "ECHO":
		return a[1]
	case "SELECT", "AUTH", "READONLY", "READWRITE", "QUIT":
		return status("OK")
	case "WAIT":
		return int64(0)
	case "DBSIZE":
		return int64(len(s.db))
	case "TIME":
		n := s.now()
		return []any{strconv.FormatInt(n.Unix(), 10), strconv.Itoa(n.Nanosecond() / 1000)}
	case "FLUSHDB", "FLUSHALL":
		s.db = map[string]any{}
		s.expire = map[string]time.Time{}
		return status("OK")
	case "GET":
		if !need(2) {
			return arity
		}
		v, ok, err := str(a[1])
		if err != nil {
			return err
		}
		if !ok {
			return nil
		}
		return v
	case "MGET":
		out := []any{}
		for _, k := range a[1:] {
			if v, ok, _ := str(k); ok {
				out = append(out, v)
			} else {
				out = append(out, nil)
			}
		}
		return out
	case "SET":
		if !need(3) {
			return arity
		}
		nx, xx, get, keep := false, false, false, false
		var exp time.Duration
		for i := 3; i < len(a); i++ {
			switch strings.ToUpper(a[i]) {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "GET":
				get = true
			case "KEEPTTL":
				keep = true
			case "EX", "PX":
				if i+1 >= len(a) {
					return errSyntax
				}
				n, err := strconv.ParseInt(a[i+1], 10, 64)
				if err != nil || n <= 0 {
					return errors.New("ERR invalid expire time in 'set' command")
				}
				exp = time.Duration(n) * time.Millisecond
				if strings.ToUpper(a[i]) == "EX" {
					exp = time.Duration(n) * time.Second
				}
				i++
			default:
				return errSyntax
			}
		}
		_, exists := s.db[a[1]]
		old, had, err := str(a[1])
		if get && err != nil {
			return err
		}
		if nx && exists || xx && !exists {
			if get && had {
				return old
			}
			return nil
		}
		s.db[a[1]] = a[2]
		if !keep {
			delete(s.expire, a[1])
		}
		if exp > 0 {
			s.expire[a[1]] = s.now().Add(exp)
		}
		if get {
			if had {
				return old
			}
			return nil
		}
		return status("OK")
	case "SETNX":
		if _, ok := s.db[a[1]]; ok {
			return int64(0)
		}
		s.db[a[1]] = a[2]
		return int64(1)
	case "SETEX", "PSETEX":
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return errInt
		}
		d := time.Second
		if cmd == "PSETEX" {
			d = time.Millisecond
		}
		s.db[a[1]] = a[3]
		s.expire[a[1]] = s.now().Add(time.Duration(n) * d)
		return status("OK")
	case "MSET":
		for i := 1; i+1 < len(a); i += 2 {
			s.db[a[i]] = a[i+1]
			delete(s.expire, a[i])
		}
		return status("OK")
	case "INCR", "INCRBY", "DECR":
		v, ok, err := str(a[1])
		if err != nil {
			return err
		}
		n := int64(0)
		if ok {
			if n, err = strconv.ParseInt(v, 10, 64); err != nil {
				return errInt
			}
		}
		switch cmd {
		case "INCR":
			n++
		case "DECR":
			n--
		default:
			d, err := strconv.ParseInt(a[2], 10, 64)
			if err != nil {
				return errInt
			}
			n += d
		}
		s.db[a[1]] = strconv.FormatInt(n, 10)
		return n
	case "DEL", "UNLINK":
		n := int64(0)
		for _, k := range a[1:] {
			if _, ok := s.db[k]; ok {
				delete(s.db, k)
				delete(s.expire, k)
				n++
			}
		}
		return n
	case "EXISTS", "TOUCH":
		n := int64(0)
		for _, k := range a[1:] {
			if _, ok := s.db[k]; ok {
				n++
			}
		}
		return n
	case "TYPE":
		switch s.db[a[1]].(type) {
		case string:
			return status("string")
		case *zset:
			return status("zset")
		case *hash:
			if s.db[a[1]].(*hash).set {
				return status("set")
			}
			return status("hash")
		}
		return status("none")
	case "EXPIRE", "PEXPIRE":
		if _, ok := s.db[a[1]]; !ok {
			return int64(0)
		}
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return errInt
		}
		d := time.Second
		if cmd == "PEXPIRE" {
			d = time.Millisecond
		}
		s.expire[a[1]] = s.now().Add(time.Duration(n) * d)
		s.reap(a[1])
		return int64(1)
	case "PERSIST":
		if _, ok := s.expire[a[1]]; ok {
			delete(s.expire, a[1])
			return int64(1)
		}
		return int64(0)
	case "TTL", "PTTL":
		if _, ok := s.db[a[1]]; !ok {
			return int64(-2)
		}
		t, ok := s.expire[a[1]]
		if !ok {
			return int64(-1)
		}
		if cmd == "PTTL" {
			return t.Sub(s.now()).Milliseconds()
		}
		return int64(math.Ceil(t.Sub(s.now()).Seconds()))
	case "RENAME":
		v, ok := s.db[a[1]]
		if !ok {
			return errors.New("ERR no such key")
		}
		delete(s.db, a[1])
		s.db[a[2]] = v
		return status("OK")
	case "KEYS":
		var out []any
		for _, k := range s.Keys() {
			s.reap(k)
			if _, ok := s.db[k]; ok && globMatch(a[1], k) {
				out = append(out, k)
			}
		}
		return out
	case "SCAN":
		return s.scan(a)
	case "ZADD":
		return s.zadd(a, zs)
	case "ZINCRBY":
		z, err := zs(a[1], true)
		if err != nil {
			return err
		}
		d, err := parseFloat(a[2])
		if err != nil {
			return err
		}
		z.m[a[3]] += d
		z.sorted = nil
		return double(z.m[a[3]])
	case "ZREM":
		if !need(3) {
			return arity
		}
		z, err := zs(a[1], false)
		if err != nil {
			return err
		}
		n := int64(0)
		for _, m := range a[2:] {
			if _, ok := z.m[m]; ok {
				z.del(m)
				n++
			}
		}
		if n > 0 && len(z.m) == 0 {
			drop(a[1], z)
		}
		return n
	case "ZSCORE":
		if len(a) != 3 {
			return arity
		}
		z, err := zs(a[1], false)
		if err != nil {
			return err
		}
		if v, ok := z.m[a[2]]; ok {
			return double(v)
		}
		return nil
	case "ZMSCORE":
		z, err := zs(a[1], false)
		if err != nil {
			return err
		}
		out := []any{}
		for _, m := range a[2:] {
			if v, ok := z.m[m]; ok {
				out = append(out, double(v))
			} else {
				out = append(out, nil)
			}
		}
		return out
	case "HSET", "HSETNX", "HGET", "HMGET", "HDEL", "HGETALL", "HKEYS", "HVALS", "HLEN", "HEXISTS", "HINCRBY", "SADD", "SREM", "SMEMBERS", "SISMEMBER", "SCARD":
		if !need(2) {
			return arity
		}
		return s.hash(cmd, a)
	case "ZCARD":
		z, err := zs(a[1], false)
		if err != nil {
			return err
		}
		return int64(len(z.m))
	case "ZRANK", "ZREVRANK":
		z, err := zs(a[1], false)
		if err != nil {
			return err
		}
		for i, e := range z.list() {
			if e.m == a[2] {
				if cmd == "ZREVRANK" {
					return int64(len(z.m) - 1 - i)
				}
				return int64(i)
			}
		}
		return nil
	case "ZCOUNT":
		z, err := zs(a[1], false)
		if err != nil {
			return err
		}
		r, err := byScore(z, a[2], a[3])
		if err != nil {
			return err
		}
		return int64(len(r))
	case "ZPOPMIN", "ZPOPMAX":
		z, err := zs(a[1], false)
		if err != nil {
			return err
		}
		n := 1
		if len(a) > 2 {
			if n, err = strconv.Atoi(a[2]); err != nil {
				return errInt
			}
		}
		out := []any{}
		l := append([]zmember{}, z.list()...)
		for i := 0; i < n && i < len(l); i++ {
			e := l[i]
			if cmd == "ZPOPMAX" {
				e = l[len(l)-1-i]
			}
			delete(z.m, e.m)
			out = append(out, e.m, double(e.s))
		}
		drop(a[1], z)
		return out
	case "ZREMRANGEBYSCORE":
		z, err := zs(a[1], false)
		if err != nil {
			return err
		}
		r, err := byScore(z, a[2], a[3])
		if err != nil {
			return err
		}
		for _, e := range r {
			delete(z.m, e.m)
		}
		drop(a[1], z)
		return int64(len(r))
	case "ZREMRANGEBYRANK":
		z, err := zs(a[1], false)
		if err != nil {
			return err
		}
		r, err := byRank(z.list(), a[2], a[3])
		if err != nil {
			return err
		}
		r = append([]zmember{}, r...)
		for _, e := range r {
			delete(z.m, e.m)
		}
		drop(a[1], z)
		return int64(len(r))
	case "ZRANGE", "ZREVRANGE", "ZRANGEBYSCORE", "ZREVRANGEBYSCORE":
		return s.zrange(cmd, a, zs)
	case "SCRIPT":
		switch strings.ToUpper(a[1]) {
		case "LOAD":
			return s.load(a[2])
		case "EXISTS":
			out := []any{}
			for _, h := range a[2:] {
				if _, ok := s.scripts[strings.ToLower(h)]; ok {
					out = append(out, int64(1))
				} else {
					out = append(out, int64(0))
				}
			}
			return out
		case "FLUSH":
			s.scripts = map[string]string{}
			return status("OK")
		}
		return errSyntax
	case "EVAL", "EVALSHA", "EVAL_RO", "EVALSHA_RO":
		if declared != nil {
			return errors.New("ERR This Redis command is not allowed from script")
		}
		if !need(3) {
			return arity
		}
		n, err := strconv.Atoi(a[2])
		if err != nil {
			return errInt
		}
		if n < 0 || 3+n > len(a) {
			return errors.New("ERR Number of keys can't be greater than number of args")
		}
		body := a[1]
		if strings.HasPrefix(cmd, "EVALSHA") {
			b, ok := s.scripts[strings.ToLower(a[1])]
			if !ok {
				return errors.New("NOSCRIPT No matching script. Please use EVAL.")
			}
			body = b
		} else {
			s.load(body)
		}
		keys := a[3 : 3+n]
		decl := map[string]bool{}
		for _, k := range keys {
			decl[k] = true
			s.Touched[k] = true
		}
		r, err := luaRun(body, keys, a[3+n:], func(args []string) any { return s.do(args, decl) })
		if err != nil {
			return err
		}
		return r
	case "CLUSTER":
		return s.clusterCmd(a)
	case "INFO":
		return "# Server\r\nredis_version:7.2.0\r\n# Persistence\r\nloading:0\r\n"
	case "COMMAND":
		return []any{}
	case "CLIENT":
		switch strings.ToUpper(a[1]) {
		case "SETNAME", "SETINFO":
			return status("OK")
		case "ID":
			return int64(1)
		}
		return fmt.Errorf("ERR unknown subcommand '%s'", a[1])
	}
	return fmt.Errorf("ERR unknown command '%s'", a[0])
}

func (s *Server) load(body string) string {
	h := sha1.Sum([]byte(body))
	x := hex.EncodeToString(h[:])
	s.scripts[x] = body
	return x
}

func (s *Server) zadd(a []string, zs func(string, bool) (*zset, error)) any {
	i := 2
	nx, xx, gt, lt, ch, incr := false, false, false, false, false, false
loop:
	for ; i < len(a); i++ {
		switch strings.ToUpper(a[i]) {
		case "NX":
			nx = true
		case "XX":
			xx = true
		case "GT":
			gt = true
		case "LT":
			lt = true
		case "CH":
			ch = true
		case "INCR":
			incr = true
		default:
			break loop
		}
	}
	if len(a)-i < 2 || (len(a)-i)%2 != 0 {
		if len(a) < 4 {
			return errors.New("ERR wrong number of arguments for 'zadd' command")
		}
		return errSyntax
	}
	scores := make([]float64, 0, (len(a)-i)/2)
	for j := i; j < len(a); j += 2 {
		f, err := parseFloat(a[j])
		if err != nil {
			return err
		}
		scores = append(scores, f)
	}
	z, err := zs(a[1], true)
	if err != nil {
		return err
	}
	added, changed := int64(0), int64(0)
	var last any
	for k, f := range scores {
		m := a[i+2*k+1]
		old, ok := z.m[m]
		if incr && ok {
			f += old
		}
		if ok && nx || !ok && xx || ok && gt && f <= old || ok && lt && f >= old {
			last = nil
			continue
		}
		if !ok {
			added++
		} else if old != f {
			changed++
		}
		z.set(m, f)
		last = double(f)
	}
	if len(z.m) == 0 {
		delete(s.db, a[1])
	}
	if incr {
		return last
	}
	if ch {
		return added + changed
	}
	return added
}

func bound(s string, lo bool) (float64, bool, error) {
	ex := false
	if strings.HasPrefix(s, "(") {
		ex = true
		s = s[1:]
	}
	f, err := parseFloat(s)
	if err != nil {
		return 0, false, errors.New("ERR min or max is not a float")
	}
	return f, ex, nil
}

func byScore(z *zset, min, max string) ([]zmember, error) {
	lo, lx, err := bound(min, true)
	if err != nil {
		return nil, err
	}
	hi, hx, err := bound(max, false)
	if err != nil {
		return nil, err
	}
	var out []zmember
	for _, e := range z.list() {
		if e.s < lo || lx && e.s == lo || e.s > hi || hx && e.s == hi {
			continue
		}
		out = append(out, e)
	}
	return out, nil
}

func byRank(l []zmember, a, b string) ([]zmember, error) {
	i, err := strconv.ParseInt(a, 10, 64)
	if err != nil {
		return nil, errInt
	}
	j, err := strconv.ParseInt(b, 10, 64)
	if err != nil {
		return nil, errInt
	}
	n := int64(len(l))
	if i < 0 {
		i = max(i+n, 0)
	}
	if j < 0 {
		j += n
	}
	if i > j || i >= n {
		return nil, nil
	}
	if j >= n {
		j = n - 1
	}
	return l[i : j+1], nil
}

func (s *Server) zrange(cmd string, a []string, zs func(string, bool) (*zset, error)) any {
	if len(a) < 4 {
		return fmt.Errorf("ERR wrong number of arguments for '%s' command", strings.ToLower(cmd))
	}
	byS := strings.HasSuffix(cmd, "BYSCORE")
	rev := strings.HasPrefix(cmd, "ZREV")
	with := false
	off, cnt := int64(0), int64(-1)
	limit := false
	for i := 4; i < len(a); i++ {
		switch strings.ToUpper(a[i]) {
		case "WITHSCORES":
			with = true
		case "BYSCORE":
			byS = true
		case "REV":
			rev = true
		case "LIMIT":
			if i+2 >= len(a) {
				return errSyntax
			}
			var e1, e2 error
			off, e1 = strconv.ParseInt(a[i+1], 10, 64)
			cnt, e2 = strconv.ParseInt(a[i+2], 10, 64)
			if e1 != nil || e2 != nil {
				return errInt
			}
			limit = true
			i += 2
		default:
			return errSyntax
		}
	}
	if limit && !byS {
		return errors.New("ERR syntax error, LIMIT is only supported in combination with either BYSCORE or BYLEX")
	}
	z, err := zs(a[1], false)
	if err != nil {
		return err
	}
	var l []zmember
	if byS {
		min, max := a[2], a[3]
		if rev {
			min, max = max, min
		}
		if l, err = byScore(z, min, max); err != nil {
			return err
		}
		if rev {
			l = reversed(l)
		}
		if limit {
			if off < 0 || off >= int64(len(l)) {
				l = nil
			} else {
				l = l[off:]
				if cnt >= 0 && cnt < int64(len(l)) {
					l = l[:cnt]
				}
			}
		}
	} else {
		all := z.list()
		if rev {
			all = reversed(all)
		}
		if l, err = byRank(all, a[2], a[3]); err != nil {
			return err
		}
	}
	out := make([]any, 0, len(l))
	for _, e := range l {
		out = append(out, e.m)
		if with {
			out = append(out, double(e.s))
		}
	}
	return out
}

func reversed(l []zmember) []zmember {
	r := make([]zmember, len(l))
	for i, e := range l {
		r[len(l)-1-i] = e
	}
	return r
}

// scan walks the keys in the order of a hash, so that cursors stay meaningful
// while keys come and go, as Redis guarantees: a key present during the whole
// scan is returned.
func (s *Server) scan(a []string) any {
	cur, err := strconv.ParseUint(a[1], 10, 64)
	if err != nil {
		return errors.New("ERR invalid cursor")
	}
	pat := "*"
	cnt := 10
	typ := ""
	for i := 2; i+1 < len(a); i += 2 {
		switch strings.ToUpper(a[i]) {
		case "MATCH":
			pat = a[i+1]
		case "COUNT":
			if cnt, err = strconv.Atoi(a[i+1]); err != nil || cnt < 1 {
				return errSyntax
			}
		case "TYPE":
			typ = strings.ToLower(a[i+1])
		default:
			return errSyntax
		}
	}
	if s.ScanPage > 0 && s.ScanPage < cnt {
		cnt = s.ScanPage
	}
	type hk struct {
		h uint64
		k string
	}
	var all []hk
	for k := range s.db {
		s.reap(k)
		if _, ok := s.db[k]; ok {
			sum := sha1.Sum([]byte(k))
			h := uint64(sum[0])<<24 | uint64(sum[1])<<16 | uint64(sum[2])<<8 | uint64(sum[3])
			all = append(all, hk{h + 1, k})
		}
	}
	sort.Slice(all, func(i, j int) bool {
		if all[i].h != all[j].h {
			return all[i].h < all[j].h
		}
		return all[i].k < all[j].k
	})
	out := []any{}
	seen := 0
	next := uint64(0)
	for i, e := range all {
		if e.h < cur || e.h == cur && !s.ScanDup {
			continue
		}
		if seen >= cnt && all[i-1].h != e.h {
			next = all[i-1].h
			break
		}
		if e.h > cur {
			seen++
		}
		if globMatch(pat, e.k) {
			if typ != "" {
				t := "string"
				if _, ok := s.db[e.k].(*zset); ok {
					t = "zset"
				}
				if t != typ {
					continue
				}
			}
			out = append(out, e.k)
		}
	}
	return []any{strconv.FormatUint(next, 10), out}
}

// hash is a hash, or with empty values a set.
type hash struct {
	set bool
	m   map[string]string
}

func (s *Server) hash(cmd string, a []string) any {
	set := cmd[0] == 'S'
	h := &hash{set: set, m: map[string]string{}}
	if v, ok := s.db[a[1]]; ok {
		x, ok := v.(*hash)
		if !ok || x.set != set {
			return errWrongType
		}
		h = x
	}
	keys := make([]string, 0, len(h.m))
	for k := range h.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	arity := fmt.Errorf("ERR wrong number of arguments for '%s' command", strings.ToLower(cmd))
	keep := func() {
		delete(s.db, a[1])
		if len(h.m) > 0 {
			s.db[a[1]] = h
		} else {
			delete(s.expire, a[1])
		}
	}
	has := func(k string) int64 {
		if _, ok := h.m[k]; ok {
			return 1
		}
		return 0
	}
	get := func(k string) any {
		if v, ok := h.m[k]; ok {
			return v
		}
		return nil
	}
	n := int64(0)
	switch cmd {
	case "HSET":
		if len(a) < 4 || len(a)%2 != 0 {
			return arity
		}
		for i := 2; i < len(a); i += 2 {
			n += 1 - has(a[i])
			h.m[a[i]] = a[i+1]
		}
		keep()
		return n
	case "HSETNX":
		if len(a) != 4 {
			return arity
		}
		if has(a[2]) == 1 {
			return int64(0)
		}
		h.m[a[2]] = a[3]
		keep()
		return int64(1)
	case "HINCRBY":
		if len(a) != 4 {
			return arity
		}
		old, err1 := strconv.ParseInt(h.m[a[2]], 10, 64)
		d, err2 := strconv.ParseInt(a[3], 10, 64)
		if err1 != nil && has(a[2]) == 1 || err2 != nil {
			return errors.New("ERR value is not an integer or out of range")
		}
		h.m[a[2]] = strconv.FormatInt(old+d, 10)
		keep()
		return old + d
	case "SADD":
		for _, k := range a[2:] {
			n += 1 - has(k)
			h.m[k] = ""
		}
		keep()
		return n
	case "HDEL", "SREM":
		for _, k := range a[2:] {
			n += has(k)
			delete(h.m, k)
		}
		keep()
		return n
	case "HLEN", "SCARD":
		return int64(len(h.m))
	}
	l := []any{}
	switch cmd {
	case "HMGET":
		for _, k := range a[2:] {
			l = append(l, get(k))
		}
		return l
	case "HKEYS", "SMEMBERS":
		for _, k := range keys {
			l = append(l, k)
		}
		return l
	case "HVALS":
		for _, k := range keys {
			l = append(l, h.m[k])
		}
		return l
	case "HGETALL":
		m := mapReply{}
		for _, k := range keys {
			m = append(m, k, h.m[k])
		}
		return m
	}
	if len(a) != 3 {
		return arity
	}
	if cmd == "HGET" {
		return get(a[2])
	}
	return has(a[2]) // HEXISTS, SISMEMBER
}

// print is a text which changes when the value of a key does.
func (s *Server) print(k string) string {
	s.reap(k)
	switch x := s.db[k].(type) {
	case nil:
		return "-"
	case *zset:
		return "z" + fmt.Sprint(x.m)
	case *hash:
		return "h" + fmt.Sprint(x.m)
	default:
		return fmt.Sprint(x)
	}
}

// globMatch is Redis' stringmatchlen.
func globMatch(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if globMatch(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
			p = p[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			m := false
			for len(p) > 0 && p[0] != ']' {
				if p[0] == '\\' && len(p) > 1 {
					p = p[1:]
					if p[0] == s[0] {
						m = true
					}
					p = p[1:]
				} else if len(p) > 2 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					if s[0] >= lo && s[0] <= hi {
						m = true
					}
					p = p[3:]
				} else {
					if p[0] == s[0] {
						m = true
					}
					p = p[1:]
				}
			}
			if len(p) > 0 {
				p = p[1:]
			}
			if m == not {
				return false
			}
			s = s[1:]
		case '\\':
			if len(p) > 1 {
				p = p[1:]
			}
			fallthrough
		default:
			if len(s) == 0 || s[0] != p[0] {
				return false
			}
			s = s[1:]
			p = p[1:]
		}
	}
	return len(s) == 0
}

func (s *Server) clusterCmd(a []string) any {
	if s.cluster == nil {
		return errors.New("ERR This instance has cluster support disabled")
	}
	if len(a) < 2 {
		return errSyntax
	}
	switch strings.ToUpper(a[1]) {
	case "SLOTS":
		out := []any{}
		for i := 0; i < 16384; {
			j := i
			for j+1 < 16384 && s.cluster.Owner[j+1] == s.cluster.Owner[i] {
				j++
			}
			n := s.cluster.Nodes[s.cluster.Owner[i]]
			h, p, _ := strings.Cut(n.Addr, ":")
			port, _ := strconv.ParseInt(p, 10, 64)
			out = append(out, []any{int64(i), int64(j), []any{h, port, fmt.Sprintf("%040d", s.cluster.Owner[i])}})
			i = j + 1
		}
		return out
	case "KEYSLOT":
		return int64(Slot(a[2]))
	case "INFO":
		return "cluster_state:ok\r\n"
	case "MYID":
		return "0"
	}
	return fmt.Errorf("ERR unknown subcommand '%s'", a[1])
}
