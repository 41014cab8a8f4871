// Package netsim decides what happens to each external call of a simulated
// process: when it is delivered, and which fault, if any, befalls it.
package netsim

import (
	"errors"
	"fmt"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/simrt"
)

// Fault kinds of one call.
const (
	None        = ""
	Drop        = "drop"        // connection reset, the server saw nothing
	Lost        = "lost"        // the server acted, the reply was lost (reset)
	Timeout     = "timeout"     // the server saw nothing, the client waits for its deadline
	LostTimeout = "losttimeout" // the server acted, the client waits for its deadline
	Late        = "late"        // the client gives up; the server acts afterwards
	Slow        = "slow"        // delivered after a delay
	SlowReply   = "slowreply"   // the reply takes a while
	Err         = "err"         // error reply, nothing done (Arg says which)
	Dup         = "dup"         // delivered twice (a retransmitted request)
)

// Fault is one injected fault.
type Fault struct {
	Call int    `json:"call"`           // index of the external call within the operation
	N    int    `json:"n,omitempty"`    // consecutive calls affected (0 means 1)
	Kind string `json:"kind"`           // see above
	Ms   int    `json:"ms,omitempty"`   // delay
	Arg  string `json:"arg,omitempty"`  // error code
	On   string `json:"on,omitempty"`   // only calls to this target ("redis"/"mongo"), which then are the ones counted
	What string `json:"what,omitempty"` // only calls whose description has this in it, which then are the ones counted
}

// OpCtx is attached to the task which performs an operation.
type OpCtx struct {
	Name   string
	Faults []Fault
	calls  map[string]int
	Log    []string
	Fired  []string
	Hit    []string // descriptions of the calls that were tampered with
	Mutes  bool     // no faults any more
}

// Net is the network of one run.
type Net struct {
	Down    Set            // target names
	Blocked Set            // process>target
	Mode    map[string]int // target name: what it does to everybody, see below
	OnTry   func(target string) func(error)
	Stats   map[string]int
	Calls   map[string]int
	// Rates, for tasks without explicit faults (background tasks of a real main):
	// probability per call, decided by a hash of the seed, the task and the call.
	Seed    uint64
	Rate    float64
	Kinds   []string
	OnCall  func(target, desc string)
	bgCalls map[string]int
	mu      sync.Mutex
	// Extra is added to every Slow/SlowReply delay.
	MaxDelay time.Duration
}

// Modes of a target.
const (
	Up      = 0
	Refuses = 1 // nothing listens
	Silent  = 2 // it accepts connections, or not even that, and never answers
	Starts  = 3 // it answers every request with an error
)

var Cur *Net

// ModeOf is the mode of a target.
func (n *Net) ModeOf(target string) int {
	if n == nil {
		return Up
	}
	if m, ok := n.Mode[target]; ok {
		return m
	}
	return n.Mode[class(target)]
}

// Tries tells that a client tries to get something from a target, and then how it went.
func Tries(target string) func(error) {
	if n := Cur; n != nil && n.OnTry != nil {
		return n.OnTry(target)
	}
	return func(error) {}
}

// Set is a set of names. It is no map since the race detector watches all maps, and
// tasks of the simulator share it without telling the detector.
type Set struct{ l []string }

func (s *Set) Has(k string) bool {
	for _, x := range s.l {
		if x == k {
			return true
		}
	}
	return false
}

func (s *Set) Put(k string) {
	if !s.Has(k) {
		s.l = append(s.l, k)
	}
}

func (s *Set) Del(k string) {
	var l []string
	for _, x := range s.l {
		if x != k {
			l = append(l, x)
		}
	}
	s.l = l
}

func (s *Set) Clear()   { s.l = nil }
func (s *Set) Len() int { return len(s.l) }

func New() *Net {
	return &Net{Mode: map[string]int{}, Stats: map[string]int{}, Calls: map[string]int{}, bgCalls: map[string]int{}}
}

func (n *Net) Count(what string) {
	n.mu.Lock()
	n.Stats[what]++
	n.mu.Unlock()
}

// Unreachable reports whether the calling process cannot reach the target.
func (n *Net) Unreachable(target string) bool {
	if n == nil {
		return false
	}
	if n.Down.Has(target) || n.Down.Has(class(target)) || n.ModeOf(target) == Refuses {
		return true
	}
	if n.Blocked.Len() > 0 {
		if t := simrt.CurrentTask(); t != nil && t.Proc != nil {
			return n.Blocked.Has(t.Proc.Name+">"+target) || n.Blocked.Has(t.Proc.Name+">"+class(target))
		}
	}
	return false
}

func class(target string) string {
	if i := strings.IndexByte(target, ':'); i >= 0 {
		return target[:i]
	}
	return target
}

// Call is made for every request at the moment the client has sent it. It yields,
// then says what becomes of the request.
func Call(target, desc string) Fault {
	n := Cur
	if n == nil {
		return Fault{}
	}
	t := simrt.CurrentTask()
	simrt.YieldKey(class(target), desc, target)
	n.Calls[class(target)]++
	if n.OnCall != nil {
		n.OnCall(target, desc)
	}
	if n.Unreachable(target) {
		n.Count("unreachable:" + class(target))
		if t != nil {
			if op, _ := t.Op.(*OpCtx); op != nil {
				op.Fired = append(op.Fired, "unreachable:"+class(target))
				op.Hit = append(op.Hit, desc)
			}
		}
		return Fault{Kind: Drop}
	}
	switch n.ModeOf(target) {
	case Silent:
		n.Count("silent:" + class(target))
		return Fault{Kind: Timeout}
	case Starts:
		n.Count("starting:" + class(target))
		return Fault{Kind: Err, Arg: map[bool]string{true: "LOADING", false: "shutdown"}[class(target) == "redis"]}
	}
	if t == nil {
		return Fault{}
	}
	op, _ := t.Op.(*OpCtx)
	var f Fault
	if op != nil {
		if op.calls == nil {
			op.calls = map[string]int{}
		}
		c := class(target)
		all, own := op.calls[""], op.calls[c]
		op.calls[""]++
		op.calls[c]++
		if op.Mutes {
			return Fault{}
		}
		var now map[string]int
		for _, x := range op.Faults {
			i := all
			if x.What != "" {
				if !strings.Contains(desc, x.What) {
					continue
				}
				k := "~" + x.What
				if _, ok := now[k]; !ok {
					if now == nil {
						now = map[string]int{}
					}
					now[k] = op.calls[k]
					op.calls[k]++
				}
				i = now[k]
			} else if x.On != "" {
				if x.On != c {
					continue
				}
				i = own
			}
			k := x.N
			if k == 0 {
				k = 1
			}
			if f.Kind == None && i >= x.Call && i < x.Call+k {
				f = x
			}
		}
	} else if n.Rate > 0 && len(n.Kinds) > 0 {
		i := n.bgCalls[t.ID]
		n.bgCalls[t.ID]++
		h := simrt.NewRand(n.Seed ^ simrt.Hash64(fmt.Sprintf("%s#%d", t.ID, i)))
		if h.Float() < n.Rate {
			f = Fault{Kind: n.Kinds[h.Intn(len(n.Kinds))], Ms: 50 + h.Intn(4000)}
		}
	}
	if f.Kind != None {
		n.Count(f.Kind + ":" + class(target))
		if op != nil {
			op.Fired = append(op.Fired, f.Kind+":"+class(target))
			op.Hit = append(op.Hit, desc)
		}
	}
	if f.Kind == Slow {
		simrt.SleepKey(time.Duration(f.Ms)*time.Millisecond, target)
		if n.Unreachable(target) {
			return Fault{Kind: Drop}
		}
	}
	return f
}

// Summary lists the fault counters.
func (n *Net) Summary() []string {
	var l []string
	for k, v := range n.Stats {
		l = append(l, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(l)
	return l
}

// ErrReset is the error of a connection which was reset.
var ErrReset error = &net.OpError{Op: "read", Net: "sim", Err: errors.New("connection reset by peer")}

// ErrRefused is the error of a dial to an unreachable server.
var ErrRefused error = &net.OpError{Op: "dial", Net: "sim", Err: errors.New("connection refused")}

// ErrTimeout is the error of a read whose deadline passed.
var ErrTimeout error = &net.OpError{Op: "read", Net: "sim", Err: os.ErrDeadlineExceeded}

// Addr is a simulated address.
type Addr string

func (a Addr) Network() string { return "sim" }
func (a Addr) String() string  { return string(a) }
