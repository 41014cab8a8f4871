package simtest

import (
	"fmt"
	"sort"
	"strings"

	"github.com/takenet/deckard"
)

// The judgement of concurrent histories. For every message on its own, all states in
// which it can be are followed through the history: an operation takes effect in
// steps at any moments between its start and its end. What an operation answered
// must be possible, in at least one state, when it ends.

// jstate is one possible state of a message.
type jstate struct {
	st         bool // stored
	weak       bool // it may be stored without being in the cache: a failure came between
	lost       bool // the cache lost it, the recovery brings it back
	race       bool // it may be so because an Add came between the two halves of a removal
	pool       byte // 'o' absent, 'r' deliverable, 'p' processing, 'a'/'n' locked
	d0, d1     int64
	exp0, exp1 int64
	prog       [jmax]uint8 // how far the open operations are
}

const jmax = 14

// what an operation means for one message
type jop struct {
	ev      *Ev
	kind    string
	s, e    int   // first and last moment
	t0, t1  int64 // ms
	certain bool  // answered and not tampered with
	died    bool
	ok      bool // success (ack), found (get), delivered (pull)
	rm      bool // an ack which removes
	short   bool // a pull that returned less than asked for, without filter
	dl      int64
	out     jstate // where an ack moves the message
	exp0    int64
	exp1    int64
	slot    int
	was     int8 // whether it was stored before, according to the answer: 1 no, 2 yes
	cached  int8 // whether it was in the cache before
}

// counted reads a count of n things: none of them, all of them, or unknown.
func counted(have int64, n int) int8 {
	switch {
	case n == 0:
	case have == 0:
		return 1
	case have == int64(n):
		return 2
	}
	return 0
}

// progress bits
const (
	pA, pB, pC, pD = 1, 2, 4, 8
	pMust          = 64 // a maintenance pass has to act on the message
	pSawR          = 128
)

// jit follows one message.
type jit struct {
	s      *Sim
	q, id  string
	ops    []*jop
	open   [jmax]*jop
	set    map[jstate]struct{}
	skew   int64
	limit  bool
	raced  bool
	recent []string
}

// settle is the moment after which nothing of the operation can happen any more.
func (s *Sim) settle(ev *Ev) int { return max(ev.E, ev.SettleS) }

// jops are the operations which concern the message.
func (s *Sim) jops(q, id string) []*jop {
	var l []*jop
	for _, ev := range s.Hist {
		o := ev.Op
		if (isClient(o.K) || isPass(o.K)) && ev.Err == errDown {
			continue
		}
		j := &jop{ev: ev, kind: o.K, s: ev.S, e: s.settle(ev), t0: ev.T0, t1: ev.T1, certain: ev.Done && ev.Err == nil && !ev.Faulty(), died: !ev.Done}
		switch o.K {
		case "add":
			var m *Msg
			ms := o.messages()
			for i := range ms {
				if ms[i].Q == q && ms[i].ID == id {
					m = &ms[i]
				}
			}
			if m == nil {
				continue
			}
			ttl := m.TTL * 60000
			j.exp0, j.exp1 = ev.T0+ttl, ev.T1+ttl
			if m.Timeless {
				j.exp0, j.exp1 = 1<<61, 1<<61
			}
			j.ok = ev.OK()
			if r, ok := ev.Resp.(*deckard.AddResponse); ok && j.ok && j.certain && !s.troubled(ev) {
				j.was = counted(int64(len(ms))-r.CreatedCount, len(ms))
			}
		case "pull":
			if o.Q != q {
				continue
			}
			j.dl = o.Deadline
			if j.dl == 0 {
				j.dl = 300000
			}
			if r, ok := ev.Resp.(*deckard.PullResponse); ok && ev.OK() {
				for _, x := range r.Messages {
					if x.Id == id {
						j.ok = true
					}
				}
				j.short = len(r.Messages)+s.stale(q, id, j.e) < pullAmount(o.Amt) && o.Min == 0 && o.Max == 0 && o.Filter == 0
			}
		case "ack", "nack":
			if o.Q != q || first(o.IDs) != id {
				continue
			}
			j.out = jstate{pool: 'r'}
			if o.Lock > 0 {
				j.out = jstate{pool: 'a', d0: ev.T0 + o.Lock, d1: ev.T1 + o.Lock}
				if o.K == "nack" {
					j.out.pool = 'n'
				}
			}
			if r, ok := ev.Resp.(*deckard.AckResponse); ok && ev.OK() {
				j.ok = r.Success
			}
			if o.Rm {
				j.kind, j.rm = "remove", true
				j.ok = ev.OK()
			}
		case "remove":
			if o.Q != q || !has(o.ids(), id) {
				continue
			}
			j.ok = ev.OK()
			if r, ok := ev.Resp.(*deckard.RemoveResponse); ok && j.ok && j.certain && !s.troubled(ev) {
				j.was = counted(r.StorageRemoved, len(o.ids()))
				j.cached = counted(r.CacheRemoved, len(o.ids()))
			}
		case "get":
			if o.Q != q || first(o.IDs) != id || s.lagging() && o.A != "fin" {
				continue
			}
			if r, ok := ev.Resp.(*deckard.GetByIdResponse); ok && ev.OK() {
				j.ok = r.Found
			} else {
				continue
			}
		case "timeout", "unlock", "recovery", "ttl", "max":
			j.certain = j.certain && !s.troubled(ev) && !s.movedDuring(ev)
		case "wipe":
		case "flush":
			if !s.Env.memory() {
				continue
			}
			j.ok = ev.OK()
		case "restart", "crash", "exit":
			if !s.Env.memCache() {
				continue
			}
			j.kind = "wipe"
			if s.Env.Engine == "mm" {
				j.kind = "lostall"
			}
		default:
			continue
		}
		l = append(l, j)
	}
	return l
}

// steps calls f with the states which operation k can make of x.
func (j *jit) steps(x jstate, k int, f func(jstate)) {
	o := j.open[k]
	p := x.prog[k]
	with := func(n jstate, bits uint8) {
		n.prog[k] |= bits
		f(n)
	}
	// move changes where the message is; a state that a pass had to change is left.
	move := func(n jstate) jstate {
		for i := range n.prog {
			n.prog[i] &^= pMust
		}
		if n.pool != 'p' && n.pool != 'a' && n.pool != 'n' {
			n.d0, n.d1 = 0, 0
		}
		if n.pool != 'o' || !n.st {
			n.weak, n.race, n.lost = false, false, false
		}
		return n
	}
	// drop takes the message out of the cache because it was gone from the storage.
	drop := func(n jstate) jstate {
		if n.pool != 'o' {
			n.pool = 'o'
			n = move(n)
			n.race = n.st
		}
		return n
	}
	sw := j.skew
	switch o.kind {
	case "add":
		if p&pA == 0 && !(o.was == 1 && x.st) && !(o.was == 2 && !x.st) {
			n := x
			n.st = true
			n.exp0, n.exp1 = o.exp0, o.exp1
			with(n, pA)
		}
		if p&pB == 0 {
			n := x
			if n.pool == 'o' {
				n.pool = 'r'
				n = move(n)
			}
			with(n, pB)
		}
	case "pull":
		switch {
		case o.ok:
			if p&pA == 0 && x.pool == 'r' {
				n := x
				n.pool, n.d0, n.d1 = 'p', o.t0+o.dl-sw, o.t1+o.dl+sw
				with(move(n), pA)
			}
			if p&pA != 0 && p&pB == 0 && (x.st || j.s.lagging()) {
				with(x, pB)
			}
			if !o.certain && x.pool == 'r' {
				// taken again by a repeated call
				n := x
				n.pool, n.d0, n.d1 = 'p', o.t0+o.dl-sw, o.t1+o.dl+sw
				f(move(n))
			}
		case o.certain:
			if p&(pA|pD) == 0 && x.pool != 'r' {
				with(x, pD) // not there to take
			}
			if p&(pA|pD) == 0 && x.pool == 'r' {
				n := x
				n.pool, n.d0, n.d1 = 'p', o.t0+o.dl-sw, o.t1+o.dl+sw
				with(move(n), pA)
			}
			if p&pA != 0 && p&pB == 0 && (!x.st || x.exp0 <= o.t1+1+sw) {
				with(x, pB) // not stored, it is to be dropped
			}
			if p&pA != 0 && p&pB != 0 && p&pC == 0 {
				with(drop(x), pC)
				if x.st {
					with(x, pC) // added again meanwhile: it stays
				}
			}
		default:
			if x.pool == 'r' {
				n := x
				n.pool, n.d0, n.d1 = 'p', o.t0+o.dl-sw, o.t1+o.dl+sw
				f(move(n))
			}
			if p&pB == 0 && (!x.st || x.exp0 <= o.t1+1+sw) {
				with(x, pB)
			}
			if p&pB != 0 {
				f(drop(x))
			}
		}
	case "ack", "nack":
		if x.pool == 'p' && (o.ok && p&pA == 0 || !o.certain) {
			n := x
			n.pool, n.d0, n.d1 = o.out.pool, o.out.d0-sw, o.out.d1+sw
			with(move(n), pA)
		}
		if !o.ok && x.pool != 'p' && p&pA == 0 {
			with(x, pA)
		}
	case "remove", "flush":
		if o.rm && (p&(pA|pC) == 0 || !o.certain) && x.pool == 'p' {
			// the ack itself, which a client sends again when the answer is lost
			n := x
			n.pool, n.d0, n.d1 = o.out.pool, o.out.d0-sw, o.out.d1+sw
			with(move(n), pC)
		}
		if (p&pA == 0 || !o.certain) && !(o.cached == 1 && x.pool != 'o') && !(o.cached == 2 && x.pool == 'o') {
			n := x
			n.pool = 'o'
			n = move(n)
			if p&pB != 0 && n.st && x.pool != 'o' {
				n.race = true
			}
			with(n, pA)
		}
		if (p&pB == 0 || !o.certain) && !(o.was == 1 && x.st) && !(o.was == 2 && !x.st) {
			n := x
			n.st, n.weak, n.race, n.lost = false, false, false, false
			with(n, pB)
		}
	case "ttl", "max":
		if o.kind == "max" && !j.limit {
			return
		}
		if x.st && (o.kind == "max" || x.exp0 <= o.t1+1+sw) || p&pC != 0 {
			if p&pC == 0 {
				with(x, pC) // found
			}
			if p&pA == 0 {
				n := x
				n.pool = 'o'
				n = move(n)
				if p&pB != 0 && n.st && x.pool != 'o' {
					n.race = true
				}
				if !x.st || p&pB != 0 || o.kind == "max" || x.exp0 <= o.t1+1+sw {
					with(n, pA|pC)
				}
			}
			// An extension before it is really removed counts.
			if o.kind == "max" || !x.st || x.exp0 <= o.t1+1+sw {
				if p&pB == 0 {
					n := x
					n.st, n.weak, n.race, n.lost = false, false, false, false
					with(n, pB|pC)
				}
			}
		}
	case "timeout":
		if x.pool == 'p' && x.d0 <= o.t1+1+sw {
			n := x
			n.pool = 'r'
			f(move(n))
		}
	case "unlock":
		if (x.pool == 'a' || x.pool == 'n') && x.d0 <= o.t1+1+sw {
			n := x
			n.pool = 'r'
			f(move(n))
		}
	case "recovery":
		if x.st && p&pA == 0 {
			with(x, pA)
		}
		if p&pA != 0 && x.pool == 'o' {
			n := x
			n.pool = 'r'
			f(move(n))
		}
	case "get":
		if p&pA == 0 && (x.st == o.ok || x.exp0 <= o.t1+1+sw) {
			with(x, pA)
		}
	case "wipe":
		if p&pA == 0 {
			n := x
			n.pool = 'o'
			n = move(n)
			n.lost = n.st
			with(n, pA)
		}
	case "lostall":
		if p&pA == 0 {
			n := x
			n.pool, n.st = 'o', false
			with(move(n), pA)
		}
	}
}

// begin lets an operation start in state x.
func (j *jit) begin(x jstate, k int) jstate {
	o := j.open[k]
	x.prog[k] = 0
	switch {
	case o.kind == "timeout" && o.certain && x.pool == 'p' && x.d1+1+j.skew < o.t0,
		o.kind == "unlock" && o.certain && (x.pool == 'a' || x.pool == 'n') && x.d1+1+j.skew < o.t0:
		x.prog[k] |= pMust
	}
	return x
}

// ends says whether operation k may end in state x.
func (j *jit) ends(x jstate, k int) bool {
	o := j.open[k]
	p := x.prog[k]
	switch o.kind {
	case "add":
		return !o.ok || p&(pA|pB) == pA|pB
	case "pull":
		if o.ok {
			return p&(pA|pB) == pA|pB
		}
		if !o.certain {
			return true
		}
		if p&pA != 0 {
			return p&pC != 0
		}
		return !o.short || p&pD != 0
	case "ack", "nack":
		return !o.ok && !o.certain || p&pA != 0
	case "remove", "flush":
		return !o.ok || p&(pA|pB) == pA|pB
	case "ttl", "max":
		return !o.certain || p&pA == 0 && p&pB == 0 || p&(pA|pB) == pA|pB
	case "timeout", "unlock":
		return p&pMust == 0
	case "get":
		return p&pA != 0
	case "wipe", "lostall":
		return p&pA != 0
	}
	return true
}

func (j *jit) close() {
	todo := make([]jstate, 0, len(j.set))
	for x := range j.set {
		todo = append(todo, x)
	}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for k := range j.open {
			if j.open[k] != nil {
				j.steps(x, k, func(n jstate) {
					if _, ok := j.set[n]; !ok {
						j.set[n] = struct{}{}
						todo = append(todo, n)
					}
				})
			}
		}
	}
}

func (j *jit) idle() bool {
	for _, o := range j.open {
		if o != nil {
			return false
		}
	}
	return true
}

// quiet removes the states which no correct system rests in: a message that was
// accepted and not removed is in the cache.
func (j *jit) quiet() bool {
	any1 := false
	for x := range j.set {
		if !(x.st && x.pool == 'o' && !x.weak && !x.race && !x.lost) {
			any1 = true
		}
	}
	if !any1 {
		return false
	}
	raced := true
	for x := range j.set {
		if x.st && x.pool == 'o' && !x.weak && !x.race && !x.lost {
			delete(j.set, x)
			continue
		}
		raced = raced && x.race
	}
	if raced && !j.raced {
		j.raced = true
		j.s.Found = append(j.s.Found, Violation{Prop: "C01", Kind: "readd-lost", Op: len(j.s.Hist) - 1, Msg: fmt.Sprintf("message %s/%s was added between the two halves of its removal: it is stored but will not be delivered (its recent history: %s)", j.q, j.id, strings.Join(j.recent[max(0, len(j.recent)-8):], "; "))})
	}
	return true
}

func (j *jit) pools() string {
	m := map[string]bool{}
	for x := range j.set {
		n := map[byte]string{'o': "absent from the cache", 'r': "deliverable", 'p': "out for processing", 'a': "locked", 'n': "locked"}[x.pool]
		if x.st {
			n += " and stored"
		} else {
			n += " and not stored"
		}
		m[n] = true
	}
	return strings.Join(sortedKeys(m), " or ")
}

func (j *jit) can(f func(jstate) bool) bool {
	for x := range j.set {
		if f(x) {
			return true
		}
	}
	return false
}

// fail reports that no state explains the end of an operation.
func (j *jit) fail(o *jop, before string, pool func(byte) bool, stored bool) {
	s := j.s
	var props []string
	kind, what := "", ""
	add := func(p ...string) { props = append(props, p...) }
	if s.Env.Engine[0] == 'c' {
		defer func() {}()
		add("C14")
	}
	switch o.kind {
	case "pull":
		switch {
		case o.ok && !pool('r'):
			kind, what = "conc-exclusive", "was delivered although it can not have been deliverable"
			switch {
			case pool('p') && (pool('a') || pool('n')):
				add("C02", "C06", "C05")
			case pool('p'):
				add("C02", "C05")
			case pool('a') || pool('n'):
				add("C06", "C02")
			default:
				add("C02", "C08", "C12")
			}
		case o.ok:
			kind, what = "conc-gone", "was delivered although it can not have been stored"
			add("C08", "C10", "C11")
		default:
			kind, what = "conc-missing", "was not delivered although it was deliverable all the time and fewer messages than asked for came"
			add("C01", "C03")
			if j.s.lagging() {
				add("C26")
			}
			last := ""
			for _, r := range j.recent {
				k := strings.Fields(r)[0]
				if k == "timeout" || k == "unlock" || k == "recovery" || k == "nack" || k == "ack" || k == "add" || k == "ttl" || k == "max" || k == "remove" {
					last = k
				}
			}
			switch last {
			case "timeout":
				add("C05")
			case "unlock":
				add("C06")
			case "recovery":
				add("C12")
			case "ack", "nack":
				add("C07")
			case "ttl":
				add("C10")
			case "max":
				add("C11")
			case "add":
				add("C09")
			}
		}
	case "ack", "nack":
		if o.ok {
			kind, what = "conc-ack-success", "was acked with success although it can not have been out for processing"
			add("C07", "C02")
		} else {
			kind, what = "conc-ack-refused", "was refused by an "+o.kind+" although it was out for processing all the time"
			add("C07", "C01")
		}
	case "get":
		if o.ok {
			kind, what = "conc-found", "was found although it can not have been stored"
			add("C22", "C08", "C10", "C11")
		} else {
			kind, what = "conc-notfound", "was not found although it was stored all the time"
			add("C22", "C01", "C10", "C11")
		}
	case "add":
		kind, what = "conc-created", "was counted by an add as "+map[int8]string{1: "created although it was stored", 2: "updated although it was not stored"}[o.was]+" all the time"
		add("C09")
		if s.Env.memory() {
			add("C21")
		}
	case "remove":
		kind, what = "conc-removed", "was counted wrongly by a removal"
		add("C08")
		if s.Env.memory() {
			add("C21")
		}
	case "timeout":
		kind, what = "conc-timeout", "was left out for processing by a timeout pass which began after its deadline"
		add("C05", "C25")
	case "unlock":
		kind, what = "conc-unlock", "was left locked by an unlock pass which began after the end of its lock"
		add("C06", "C25")
	default:
		kind, what = "conc-lost", "is stored, was accepted and not removed, but is not in the cache"
		add("C01", "C24")
	}
	if weird(j.q) || weird(j.id) {
		add("C13")
	}
	for _, r := range j.recent {
		if strings.HasPrefix(r, "flush") {
			add("C15")
			break
		}
	}
	n := len(j.recent)
	msg := fmt.Sprintf("message %s/%s %s (operation #%d %s; before: %s; its recent history: %s)", j.q, j.id, what, o.ev.I, o.ev.Op.K, before, strings.Join(j.recent[max(0, n-8):], "; "))
	s.violate(o.ev.I, kind, msg, props...)
}

// stale is how many other messages of the queue a pull may take without delivering
// them, because they are not stored any more.
func (s *Sim) stale(q, id string, before int) (n int) {
	for _, k := range s.keys() {
		if k.q == q && k.id != id && s.mayBeGone(q, k.id, before) {
			n++
		}
	}
	return
}

// lagging says that some replica does not have the newest data.
// oldReads says that a read may see an older state of the storage.
func (s *Sim) oldReads() bool { return s.Env.Lag > 0 && !s.healed }

func (s *Sim) lagging() bool { return s.Env.Lag > 0 }

// follow judges the history of one message. It returns the states it can be in now.
func (s *Sim) follow(q, id string, skew int64, limit bool) (map[jstate]struct{}, bool) {
	j := &jit{s: s, q: q, id: id, ops: s.jops(q, id), skew: skew, limit: limit, set: map[jstate]struct{}{{pool: 'o', exp0: 1 << 61, exp1: 1 << 61}: {}}}
	type point struct {
		at  int
		end bool
		o   *jop
	}
	var l []point
	for _, o := range j.ops {
		l = append(l, point{o.s, false, o}, point{o.e, true, o})
	}
	sort.SliceStable(l, func(a, b int) bool { return l[a].at < l[b].at })
	s.checked("history")
	for _, p := range l {
		o := p.o
		if !p.end {
			o.slot = -1
			for k := range j.open {
				if j.open[k] == nil {
					o.slot = k
					break
				}
			}
			if o.slot < 0 {
				s.checked("history-too-wide")
				return nil, false
			}
			j.open[o.slot] = o
			n := make(map[jstate]struct{}, len(j.set))
			for x := range j.set {
				n[j.begin(x, o.slot)] = struct{}{}
			}
			j.set = n
			j.close()
			if len(j.set) > 60000 {
				s.checked("history-too-wide")
				return nil, false
			}
			continue
		}
		before := j.pools()
		seen := map[byte]bool{}
		st := false
		for x := range j.set {
			seen[x.pool] = true
			st = st || x.st
		}
		n := make(map[jstate]struct{}, len(j.set))
		for x := range j.set {
			if !j.ends(x, o.slot) {
				continue
			}
			x.prog[o.slot] = 0
			if !o.certain && (o.kind == "add" || o.kind == "remove" || o.kind == "recovery" || o.kind == "pull" || o.kind == "ttl" || o.kind == "max" || o.kind == "flush") && !(o.ok && o.kind == "add") {
				if x.st && x.pool == 'o' {
					x.weak = true
				}
			}
			n[x] = struct{}{}
		}
		j.note(o)
		if len(n) == 0 {
			j.fail(o, before, func(b byte) bool { return seen[b] }, st)
			return nil, false
		}
		j.set = n
		j.open[o.slot] = nil
		if j.idle() && !j.quiet() {
			c := *o
			c.kind = "quiet"
			j.fail(&c, before, func(b byte) bool { return seen[b] }, st)
			return nil, false
		}
	}
	return j.set, true
}

func (j *jit) note(o *jop) {
	r := ""
	switch {
	case o.died:
		r = "died"
	case o.kind == "pull" && o.ok:
		r = "delivered"
	case o.kind == "pull" && o.short:
		r = "not delivered"
	case o.kind == "pull":
		return
	case o.kind == "timeout" || o.kind == "unlock" || o.kind == "recovery" || o.kind == "ttl" || o.kind == "max":
		act := false
		for x := range j.set {
			_ = x
			act = true
		}
		if !act {
			return
		}
	case o.ok:
		r = "success"
	case o.certain:
		r = "success=false"
	default:
		r = "uncertain"
	}
	j.recent = append(j.recent, strings.TrimSpace(fmt.Sprintf("%s #%d %s", o.kind, o.ev.I, r)))
}
