package simtest

import (
	"fmt"
	"math"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/takenet/deckard"
	"go.opentelemetry.io/otel/metric"
	"google.golang.org/protobuf/types/known/anypb"
)

// cst is one possible state of a message in the cache.
type cst struct {
	pool   byte    // 'o' absent, 'r' deliverable, 'p' processing, 'a'/'n' locked by an ack/nack
	lo, hi float64 // r: its priority; a, n: the priority it gets when unlocked
	und    bool    // a, n: no priority was asked for
	d0, d1 int64   // p: the deadline; a, n: the end of the lock
}

type rng struct{ lo, hi int64 }

// smsg is what the reference model knows about one message.
type smsg struct {
	q, id      string
	birth      int
	stored     int8 // 0 no, 1 maybe, 2 yes
	stLo, stHi float64
	cs         []cst
	exp0, exp1 int64 // when it expires
	str        []string
	pay        []string
	meta       []string
	desc       []string
	bp         []string
	soft       bool   // the recovery need not bring it back
	diag       [4]rng // acks, nacks, consecutive acks, consecutive nacks
	why        string
	gone       string // why it is not stored
	touched    int
	goneFaulty bool // the removal which succeeded met faults
	half       int  // the last add which failed
	mortal     bool // had an end of life at some time
	spared     bool // ... and was seen by an expiry pass which was not to remove it
}

func (e *smsg) clone() *smsg {
	c := *e
	c.cs = append([]cst{}, e.cs...)
	c.str = append([]string{}, e.str...)
	c.pay = append([]string{}, e.pay...)
	c.meta = append([]string{}, e.meta...)
	c.desc = append([]string{}, e.desc...)
	c.bp = append([]string{}, e.bp...)
	return &c
}

func union(a, b []string) []string {
	r := append([]string{}, a...)
	for _, x := range b {
		if !has(r, x) {
			r = append(r, x)
		}
	}
	return r
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func unionCst(a, b []cst) []cst {
	r := append([]cst{}, a...)
	for _, x := range b {
		dup := false
		for _, y := range r {
			if x == y {
				dup = true
			}
		}
		if !dup {
			r = append(r, x)
		}
	}
	if len(r) > 24 {
		r = squash(r)
	}
	return r
}

// squash merges states of the same pool.
func squash(l []cst) []cst {
	var r []cst
next:
	for _, x := range l {
		for i := range r {
			y := &r[i]
			if y.pool == x.pool && y.und == x.und {
				y.lo, y.hi = math.Min(y.lo, x.lo), math.Max(y.hi, x.hi)
				y.d0, y.d1 = min(y.d0, x.d0), max(y.d1, x.d1)
				continue next
			}
		}
		r = append(r, x)
	}
	return r
}

// merge makes e cover both its own and o's possibilities.
func (e *smsg) merge(o *smsg) {
	switch {
	case e.stored == o.stored:
	default:
		e.stored = 1
	}
	e.stLo, e.stHi = math.Min(e.stLo, o.stLo), math.Max(e.stHi, o.stHi)
	e.cs = unionCst(e.cs, o.cs)
	if o.exp0 < e.exp0 {
		e.exp0 = o.exp0
	}
	if o.exp1 > e.exp1 {
		e.exp1 = o.exp1
	}
	e.str, e.pay, e.meta, e.desc, e.bp = union(e.str, o.str), union(e.pay, o.pay), union(e.meta, o.meta), union(e.desc, o.desc), union(e.bp, o.bp)
	for i := range e.diag {
		e.diag[i].lo, e.diag[i].hi = min(e.diag[i].lo, o.diag[i].lo), max(e.diag[i].hi, o.diag[i].hi)
	}
	e.why = o.why
	e.gone = o.gone
}

func (e *smsg) can(pool byte) bool {
	for _, c := range e.cs {
		if c.pool == pool {
			return true
		}
	}
	return false
}

func (e *smsg) must(pool byte) bool {
	for _, c := range e.cs {
		if c.pool != pool {
			return false
		}
	}
	return true
}

// cached says whether it is (0 no, 1 maybe, 2 yes) in the cache.
func (e *smsg) cached() int {
	if e.must('o') {
		return 0
	}
	if e.can('o') {
		return 1
	}
	return 2
}

// canLock and so on are used by the generator.
func (e *smsg) locked() bool {
	return e.must('a') || e.must('n') || (!e.can('o') && !e.can('r') && !e.can('p'))
}

func (e *smsg) state() string {
	var l []string
	for _, c := range e.cs {
		switch c.pool {
		case 'o':
			l = append(l, "absent")
		case 'r':
			l = append(l, fmt.Sprintf("deliverable(%s..%s)", fl(c.lo), fl(c.hi)))
		case 'p':
			l = append(l, "processing")
		case 'a', 'n':
			l = append(l, "locked")
		}
	}
	st := []string{"not stored", "maybe stored", "stored"}[e.stored]
	return fmt.Sprintf("%s/%s: %s, %s", e.q, e.id, st, strings.Join(l, " or "))
}

type cfgVal struct {
	from, to int64 // when it may have become current
	val      int64
}

type key struct{ q, id string }

type bounds struct {
	lo, hi int64
	at     [][2]int64 // when audited events happened
}

func (b *bounds) add(lo, hi int64) { b.lo += lo; b.hi += hi }

// during tells whether an event of the time t may have happened.
func (b *bounds) during(t int64) bool {
	for _, w := range b.at {
		if t >= w[0]-1 && t <= w[1]+1 {
			return true
		}
	}
	return false
}

// model is the executable reference for one sequential client.
type model struct {
	cur            *Ev // the operation being judged
	s              *Sim
	msgs           map[key]*smsg
	list           []*smsg
	byq            map[string][]*smsg
	cfg            map[string][]cfgVal
	recFirst       int
	rec            byte // recovery: 'f' finished, 'n' not started, 'u' unknown
	recOn          bool // RUNNING may be set
	exact          map[string]int64
	swept, trimmed bool // whether a TTL or an eviction pass ran
	sweptFaulty    bool // and a call of one failed
	birth          int
	dead           bool

	audit  map[string]*bounds
	auds   int64 // audit events so far, at most
	count  map[string]*bounds
	totals map[string]bool
	booted bool
	cfgq   map[string]int // queues for which an edit may not be stored
}

func newModel(s *Sim) *model {
	return &model{s: s, msgs: map[key]*smsg{}, byq: map[string][]*smsg{}, cfg: map[string][]cfgVal{}, rec: 'n', exact: map[string]int64{}, audit: map[string]*bounds{}, count: map[string]*bounds{}, totals: map[string]bool{}, cfgq: map[string]int{}}
}

func (m *model) get(q, id string) *smsg {
	k := key{q, id}
	if e := m.msgs[k]; e != nil {
		return e
	}
	e := &smsg{q: q, id: id, cs: []cst{{pool: 'o'}}, birth: m.birth}
	m.birth++
	m.msgs[k] = e
	m.list = append(m.list, e)
	m.byq[q] = append(m.byq[q], e)
	return e
}

// aud notes that the sink gets lo to hi more events of a message in the current
// operation; what says what the event tells besides, see told.
func (m *model) aud(sig, q, id string, lo, hi int64, what ...string) {
	if !m.s.Env.Audit {
		return
	}
	k := sig + "\x00" + q + "\x00" + id + "\x00"
	if len(what) > 0 {
		k += what[0]
	} else {
		k += told("", "", 0)
	}
	b := m.audit[k]
	if b == nil {
		b = &bounds{}
		m.audit[k] = b
	}
	m.auds += hi
	if m.cur != nil {
		b.at = append(b.at, [2]int64{m.cur.T0, m.cur.T1})
	}
	if m.sinkLoose() {
		lo = min(lo, 0)
	}
	b.add(lo, hi)
}

func (m *model) cnt(name string, lo, hi int64) {
	b := m.count[name]
	if b == nil {
		b = &bounds{}
		m.count[name] = b
	}
	b.add(lo, hi)
}

func prefixOf(q string) string {
	if i := strings.Index(q, "::"); i >= 0 {
		return q[:i]
	}
	return q
}

// expired: 0 no, 1 maybe (or expired and not swept yet), for the interval.
func (e *smsg) maybeExpired(t1 int64) bool { return e.exp0 <= t1+1 }

// whyProps are the properties which promise the present state of the message.
func (m *model) whyProps(e *smsg) []string {
	var l []string
	switch e.why {
	case "add":
		l = append(l, "C09")
	case "update":
		l = append(l, "C09")
	case "timeout":
		l = append(l, "C05", "C25")
	case "unlock":
		l = append(l, "C06", "C25")
	case "recovery":
		l = append(l, "C12")
	case "ack", "nack":
		l = append(l, "C23", "C07")
	case "badack":
		l = append(l, "C07")
	case "retry":
		l = append(l, "C24")
	case "filter":
		l = append(l, "C04")
	}
	if m.s.Env.Engine[0] == 'c' {
		l = append(l, "C14")
	}
	if e.spared {
		l = append(l, "C10")
	}
	if weird(e.q) || weird(e.id) {
		l = append(l, "C13")
	}
	if len(m.byq[e.q]) > 400 {
		l = append(l, "C27")
	}
	return l
}

func weird(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= '0' && r <= '9') {
			return true
		}
	}
	return len(s) > 8 || s == "queue" || s == "tmp" || s == "score"
}

func (m *model) fail(ev *Ev, kind, msg string, props ...string) {
	m.dead = true
	seen := map[string]bool{}
	var l []string
	for _, p := range props {
		if !seen[p] {
			seen[p] = true
			l = append(l, p)
		}
	}
	m.s.violate(ev.I, kind, msg, l...)
}

func payString(p map[string]*anypb.Any) string {
	if len(p) == 0 {
		return ""
	}
	b := &strings.Builder{}
	for _, k := range sortedKeys(p) {
		fmt.Fprintf(b, "%q=%q:%q;", k, p[k].GetTypeUrl(), p[k].GetValue())
	}
	return b.String()
}

func metaString(p map[string]string) string {
	if len(p) == 0 {
		return ""
	}
	b := &strings.Builder{}
	for _, k := range sortedKeys(p) {
		fmt.Fprintf(b, "%q=%q;", k, p[k])
	}
	return b.String()
}

// braces says that the queue name is one a Redis cache refuses.
func (m *model) braces(q string) bool {
	return !m.s.Env.memCache() && strings.ContainsAny(q, "{}")
}

// mayFail says that the request may be refused as invalid.
func (m *model) mayFail(o *Op) bool {
	switch o.K {
	case "add":
		for i := range o.Msgs {
			if o.Msgs[i].ID == "" || o.Msgs[i].Q == "" || m.braces(o.Msgs[i].Q) {
				return true
			}
		}
		if o.Gen == "" && len(o.Msgs) == 0 {
			return true
		}
	case "ack", "nack", "get":
		if first(o.IDs) == "" || o.Q == "" || m.braces(o.Q) {
			return true
		}
	default:
		if isClient(o.K) && (o.Q == "" && o.K != "flush" || m.braces(o.Q)) {
			return true
		}
	}
	return false
}

// apply judges what an operation answered and moves the model on.
func (m *model) apply(ev *Ev) {
	o := ev.Op
	m.cur = ev
	if len(m.s.Viol) > 0 {
		m.dead = true
		return
	}
	if isClient(o.K) || isPass(o.K) {
		if !ev.Node.Up {
			return
		}
		if !ev.Done {
			m.fail(ev, "died", "the process died in "+o.K, "C24")
			return
		}
	}
	faulty := ev.Faulty()
	if isClient(o.K) && ev.Err != nil && !faulty && !m.mayFail(o) {
		props := []string{"C24"}
		switch o.K {
		case "pull":
			props = append(props, "C03", "C01")
		case "add":
			props = append(props, "C09")
		case "remove":
			props = append(props, "C08")
		case "ack", "nack":
			props = append(props, "C07")
		case "count", "get":
			props = append(props, "C22")
		case "editq", "getq":
			props = append(props, "C17")
		case "flush":
			props = append(props, "C15")
		}
		if m.s.Env.Engine[0] == 'c' {
			props = append(props, "C14")
		}
		if weird(o.Q) {
			props = append(props, "C13")
		}
		m.fail(ev, "error:"+o.K, fmt.Sprintf("%s failed although every dependency works: %v", o.K, ev.Err), props...)
		return
	}
	m.s.checked(o.K)
	if o.K != "count" && o.K != "get" && o.K != "getq" && o.K != "sleep" && o.K != "pull" {
		for q := range m.exact {
			delete(m.exact, q)
		}
	}
	switch o.K {
	case "add":
		m.add(ev, faulty)
	case "pull":
		m.pull(ev, faulty)
	case "ack", "nack":
		m.ack(ev, faulty)
	case "remove":
		m.remove(ev, faulty)
	case "count":
		m.counted(ev)
	case "get":
		m.got(ev)
	case "flush":
		m.flush(ev)
	case "editq":
		m.editq(ev)
	case "getq":
		m.getq(ev)
	case "timeout":
		m.timeout(ev)
	case "unlock":
		m.unlock(ev)
	case "ttl":
		m.ttl(ev)
	case "max":
		m.maxPass(ev)
	case "recovery":
		m.recovery(ev, faulty)
	case "metrics":
		m.metrics(ev, faulty)
	case "sink":
		m.sink()
	case "wipe":
		m.lostCache()
	case "restart", "crash", "reboot":
		// what the sender had not sent yet dies with the process
		for _, b := range m.audit {
			if o.K != "reboot" {
				b.lo = 0
			}
		}
		switch m.s.Env.Engine {
		case "mm":
			m.lostAll("the process was restarted")
		case "xm":
			m.lostCache()
		case "rx":
			m.lostAll("the storage was restarted")
		}
		m.booted = true
	}
}

func (m *model) lostCache() {
	for _, e := range m.list {
		e.cs = []cst{{pool: 'o'}}
	}
	m.rec, m.recOn = 'n', false
}

func (m *model) lostAll(why string) {
	for _, e := range m.list {
		if e.stored > 0 {
			e.gone = why
		}
		e.stored = 0
		e.cs = []cst{{pool: 'o'}}
	}
	m.rec, m.recOn = 'n', false
	for q := range m.cfg {
		m.cfg[q] = append(m.cfg[q], cfgVal{m.s.now(), m.s.now(), 0})
	}
}

func addScore(f, t0, t1 float64) (float64, float64) {
	if f == 0 {
		return t0, t1
	}
	f = capScore(f)
	return f, f
}

func (m *model) addOne(e *smsg, g *Msg, t0, t1 int64) (created int8, changed bool) {
	lo, hi := addScore(float64(g.Score), float64(t0), float64(t1))
	was := e.stored
	const long = 50000000 // the time to live of more minutes may be limited
	var ttl int64
	if g.TTL < long && g.TTL > -long {
		ttl = g.TTL * 60000
	}
	x0, x1 := t0+ttl, t1+ttl
	if g.Timeless {
		x0, x1 = t0+ttl+36500*86400000, t1+ttl+36530*86400000
	}
	if g.TTL >= long {
		x0, x1 = x0+long*60000, 1<<60
	} else if g.TTL <= -long {
		x0, x1 = -1<<60, t1-long*60000
	}
	pay := payString(toPay(g.Pay))
	meta := metaString(g.Meta)
	fresh := func() {
		e.stored = 2
		e.stLo, e.stHi = lo, hi
		e.str, e.pay, e.meta, e.desc, e.bp = []string{g.Str}, []string{pay}, []string{meta}, []string{g.Desc}, []string{""}
		e.diag = [4]rng{}
		e.exp0, e.exp1 = x0, x1
		e.goneFaulty = false
	}
	upd := func() {
		e.stored = 2
		f := func(old []string, n string) []string {
			if n == "" {
				return union(old, []string{""})
			}
			return []string{n}
		}
		e.str, e.pay, e.meta, e.desc = f(e.str, g.Str), f(e.pay, pay), f(e.meta, meta), f(e.desc, g.Desc)
		changed = x0 > e.exp1 || x1 < e.exp0
		e.exp0, e.exp1 = x0, x1
	}
	e.mortal = e.mortal || min(x0, e.exp0) < 1<<60
	e.why = "add"
	clo, chi := lo, hi
	switch was {
	case 0:
		fresh()
	case 2:
		upd()
		e.why = "update"
		clo, chi = math.Min(capScore(e.stLo), lo), math.Max(capScore(e.stHi), hi)
	default:
		c := e.clone()
		upd()
		up := e.clone()
		*e = *c
		fresh()
		slo, shi := math.Min(capScore(up.stLo), lo), math.Max(capScore(up.stHi), hi)
		e.merge(up)
		e.stored = 2
		clo, chi = slo, shi
		e.exp0, e.exp1 = x0, x1
	}
	var cs []cst
	for _, c := range e.cs {
		if c.pool == 'o' {
			c = cst{pool: 'r', lo: clo, hi: chi}
		}
		cs = unionCst(cs, []cst{c})
	}
	e.cs = cs
	return 2 - was, changed
}

func (m *model) add(ev *Ev, faulty bool) {
	o := ev.Op
	ms := o.messages()
	if ev.Err != nil {
		for i := range ms {
			if ms[i].ID == "" || ms[i].Q == "" {
				continue
			}
			e := m.get(ms[i].Q, ms[i].ID)
			old := e.clone()
			m.addOne(e, &ms[i], ev.T0, ev.T1)
			if old.stored == 0 && !anyPool(old.cs) {
				// contents of an old life do not come back
				old.str, old.pay, old.meta, old.desc, old.bp = nil, nil, nil, nil, nil
				old.stLo, old.stHi, old.exp0, old.exp1, old.diag = e.stLo, e.stHi, e.exp0, e.exp1, e.diag
			}
			e.merge(old)
			e.why = "retry"
			e.half = ev.I + 1
			m.aud("INSERT_CACHE", e.q, e.id, 0, 1)
		}
		return
	}
	if m.mayFail(o) && len(ms) > 0 {
		for i := range ms {
			if ms[i].ID == "" || ms[i].Q == "" {
				m.fail(ev, "invalid-accepted", "a message without id or queue was accepted", "C24", "C01")
				return
			}
		}
	}
	r := ev.Resp.(*deckard.AddResponse)
	var created, updated bounds
	seen := map[*smsg]bool{}
	for i := range ms {
		e := m.get(ms[i].Q, ms[i].ID)
		e.touched = ev.I
		was := e.cached()
		c, ch := m.addOne(e, &ms[i], ev.T0, ev.T1)
		switch c {
		case 2:
			created.add(1, 1)
		case 0:
			updated.hi++
			if ch {
				updated.lo++
			}
		default:
			created.hi++
			updated.hi++
		}
		if faulty {
			e.why = "retry"
		}
		switch {
		case seen[e]: // a duplicate within the request
			m.aud("INSERT_CACHE", e.q, e.id, 0, 1)
		case was == 0 && !faulty:
			m.aud("INSERT_CACHE", e.q, e.id, 1, 1)
		case was < 2:
			m.aud("INSERT_CACHE", e.q, e.id, 0, 1)
		}
		seen[e] = true
	}
	if faulty {
		return
	}
	if r.CreatedCount < created.lo || r.CreatedCount > created.hi {
		m.fail(ev, "created-count", fmt.Sprintf("Add reported %d created, the reference model says %d..%d", r.CreatedCount, created.lo, created.hi), append(append(m.addProps(ms), "C09"), m.sweepProps()...)...)
	} else if r.UpdatedCount < updated.lo || r.UpdatedCount > updated.hi {
		m.fail(ev, "updated-count", fmt.Sprintf("Add reported %d updated, the reference model says %d..%d", r.UpdatedCount, updated.lo, updated.hi), append(append(m.addProps(ms), "C09"), m.sweepProps()...)...)
	}
}

// sweepProps are the properties of the passes which may have removed a message
// which should still be there.
func (m *model) sweepProps() (l []string) {
	if m.swept {
		l = append(l, "C10")
	}
	if m.trimmed {
		l = append(l, "C11")
	}
	if m.sweptFaulty {
		l = append(l, "C25")
	}
	return l
}

func (m *model) addProps(ms []Msg) []string {
	var l []string
	for i := range ms {
		if weird(ms[i].Q) || weird(ms[i].ID) {
			l = append(l, "C13")
			break
		}
	}
	if len(ms) > 400 {
		l = append(l, "C27")
	}
	return l
}

func anyPool(l []cst) bool {
	for _, c := range l {
		if c.pool != 'o' {
			return true
		}
	}
	return false
}

// after is a moment in so many milliseconds, within reason.
func after(t, ms int64) int64 {
	const far = 1 << 61
	return t + max(-t, min(ms, far))
}

func pullAmount(n int32) int {
	if n <= 0 {
		return 1
	}
	if n > 1000 {
		return 1000
	}
	return int(n)
}

// pullRange is the score range a pull asks for; the upper end may be uncertain.
func pullRange(o *Op, t0, t1 int64) (lo, hi0, hi1 float64, filtered bool) {
	lo, hi0, hi1 = math.Inf(-1), math.Inf(1), math.Inf(1)
	if o.Min != 0 {
		lo = capScore(float64(o.Min))
		filtered = true
	}
	mx0, mx1 := float64(o.Max), float64(o.Max)
	if o.Max == 0 && o.Filter > 0 {
		mx0, mx1 = float64(t0-o.Filter), float64(t1-o.Filter)
	}
	if mx0 != 0 || mx1 != 0 {
		filtered = true
		hi0, hi1 = capScore(mx0), capScore(mx1)
		if mx0 == 0 {
			hi0 = 0
			hi1 = math.Inf(1)
		}
		if mx1 == 0 {
			hi1 = math.Inf(1)
		}
	}
	return
}

func (m *model) pull(ev *Ev, faulty bool) {
	o := ev.Op
	n := pullAmount(o.Amt)
	lo, hi0, hi1, filtered := pullRange(o, ev.T0, ev.T1)
	dl := o.Deadline
	if dl == 0 {
		dl = 300000
	}
	taken := cst{pool: 'p', d0: after(ev.T0, dl), d1: after(ev.T1, dl)}
	inRange := func(c cst) (may, must bool) {
		return c.pool == 'r' && c.hi >= lo && c.lo <= hi1, c.pool == 'r' && c.lo >= lo && c.hi <= hi0
	}
	q := m.byq[o.Q]
	if ev.Err != nil {
		for _, e := range q {
			for _, c := range e.cs {
				if may, _ := inRange(c); may {
					e.cs = unionCst(e.cs, []cst{taken})
					if e.stored < 2 || e.maybeExpired(ev.T1) {
						e.cs = unionCst(e.cs, []cst{{pool: 'o'}})
					}
				}
			}
		}
		return
	}
	r := ev.Resp.(*deckard.PullResponse)
	got := map[string]*deckard.Message{}
	base := []string{}
	if m.s.Env.Engine[0] == 'c' {
		base = append(base, "C14")
	}
	if len(q) > 400 {
		base = append(base, "C27")
	}
	if len(r.Messages) > n {
		m.fail(ev, "too-many", fmt.Sprintf("pull of %d returned %d messages", n, len(r.Messages)), append(base, "C03")...)
		return
	}
	last := math.Inf(-1)
	for _, x := range r.Messages {
		if got[x.Id] != nil {
			m.fail(ev, "twice-in-response", fmt.Sprintf("message %s appears twice in one response", x.Id), append(base, "C02")...)
			return
		}
		got[x.Id] = x
		if x.Score < last {
			m.fail(ev, "unsorted", fmt.Sprintf("the response is not in ascending order of score: %s after %s", fl(x.Score), fl(last)), append(base, "C03")...)
			return
		}
		last = x.Score
		if x.Queue != o.Q {
			m.fail(ev, "wrong-queue", fmt.Sprintf("pull of %q returned a message of queue %q", o.Q, x.Queue), append(base, "C13", "C18")...)
			return
		}
	}
	type slot struct{ lo float64 }
	var slots []slot
	for _, e := range q {
		e := e
		if got[e.id] == nil {
			continue
		}
		x := got[e.id]
		delete(got, e.id)
		if e.stored == 0 && !m.s.oldReads() {
			props := append(base, "C08")
			switch e.gone {
			case "ttl":
				props = append(base, "C10")
			case "max":
				props = append(base, "C11")
			case "flush":
				props = append(base, "C15")
			}
			if e.goneFaulty {
				props = append(props, "C24")
			}
			m.fail(ev, "gone-delivered", fmt.Sprintf("a message which was removed (%s) was delivered: %s", e.gone, e.state()), props...)
			return
		}
		best := math.Inf(1)
		var ok bool
		for _, c := range e.cs {
			if may, _ := inRange(c); may {
				ok = true
				best = math.Min(best, c.lo)
			}
		}
		if !ok {
			switch {
			case e.can('r'):
				m.fail(ev, "out-of-range", fmt.Sprintf("a message outside the asked score range was delivered: %s", e.state()), append(base, append(m.whyProps(e), "C04", "C23")...)...)
			case e.can('p'):
				m.fail(ev, "not-exclusive", fmt.Sprintf("a message that is out for processing was delivered again: %s", e.state()), append(base, append(m.whyProps(e), "C02", "C05")...)...)
			case e.can('o'):
				m.fail(ev, "phantom", fmt.Sprintf("a message which is not in the cache was delivered: %s", e.state()), append(base, append(m.whyProps(e), "C02", "C12")...)...)
			default:
				m.fail(ev, "lock-broken", fmt.Sprintf("a locked message was delivered: %s", e.state()), append(base, append(m.whyProps(e), "C06", "C02")...)...)
			}
			return
		}
		if !m.content(ev, e, x, true) {
			return
		}
		slots = append(slots, slot{best})
		e.cs = []cst{taken}
		if !m.s.oldReads() {
			e.stored = 2
		}
		e.touched = ev.I
	}
	for id := range got {
		where := ""
		for _, e := range m.list {
			if e.id == id && e.stored > 0 {
				where = e.q
			}
		}
		m.fail(ev, "unknown-delivered", fmt.Sprintf("pull of %q returned %q, which was never added there (it exists in queue %q)", o.Q, id, where), append(base, "C13", "C09", "C18")...)
		return
	}
	// What was not returned.
	var fuzzy []slot
	for _, e := range q {
		if e.touched == ev.I {
			continue
		}
		best, ok := math.Inf(1), false
		for _, c := range e.cs {
			if may, _ := inRange(c); may {
				best, ok = math.Min(best, c.lo), true
			}
		}
		if ok && (e.stored < 2 || e.maybeExpired(ev.T1)) {
			fuzzy = append(fuzzy, slot{best})
		}
	}
	room := n - len(r.Messages)
	for _, e := range q {
		if e.touched == ev.I {
			continue
		}
		all, some := true, false
		top := math.Inf(-1)
		for _, c := range e.cs {
			may, must := inRange(c)
			if !must {
				all = false
			}
			if may {
				some = true
				top = math.Max(top, c.hi)
			}
		}
		if !some {
			continue
		}
		soft := e.soft || e.stored < 2 || e.maybeExpired(ev.T1)
		if faulty {
			e.cs = unionCst(e.cs, []cst{taken})
			if soft {
				e.cs = unionCst(e.cs, []cst{{pool: 'o'}})
				m.aud("MISSING_STORAGE", e.q, e.id, 0, 1)
			}
			continue
		}
		if all && !soft {
			ahead := 0
			for _, s := range slots {
				if s.lo <= top {
					ahead++
				}
			}
			for _, s := range fuzzy {
				if s.lo <= top {
					ahead++
				}
			}
			if ahead < n {
				props := append([]string{"C03"}, base...)
				kind := "order"
				msg := fmt.Sprintf("pull of %d returned %s, but %s has a better priority", n, showResp(r), e.state())
				if room > 0 {
					kind = "missing"
					msg = fmt.Sprintf("pull of %d returned only %s, although %s", n, showResp(r), e.state())
					props = append(props, "C01")
					if m.s.lagging() {
						props = append(props, "C26")
					}
				}
				props = append(props, m.whyProps(e)...)
				if filtered {
					props = append(props, "C04")
				}
				m.fail(ev, kind, msg, props...)
				return
			}
		}
		if room > len(fuzzy) {
			// It was certainly looked for: the states in which it would have been
			// found are out.
			var cs []cst
			for _, c := range e.cs {
				if _, must := inRange(c); must && e.stored == 2 && !soft {
					continue
				}
				cs = append(cs, c)
			}
			if len(cs) == 0 {
				cs = e.cs
			}
			e.cs = cs
		}
		if soft {
			e.cs = unionCst(e.cs, []cst{{pool: 'o'}})
			m.aud("MISSING_STORAGE", e.q, e.id, 0, 1)
		}
		if filtered && e.why != "filter" && !all {
			e.why = "filter"
		}
	}
}

// content compares what was returned for a message with what was stored.
func (m *model) content(ev *Ev, e *smsg, x *deckard.Message, pulled bool) bool {
	if m.s.oldReads() {
		return true // an older state of the message, or one which is gone
	}
	m.s.checked("content")
	bad := func(field string, have string, want []string) {
		if len(have) > 200 {
			have = have[:200] + "…"
		}
		w := fmt.Sprintf("%q", want)
		if len(w) > 300 {
			w = w[:300] + "…"
		}
		props := []string{"C18"}
		if field == "description" || e.why == "update" {
			props = append(props, "C09")
		}
		if !pulled {
			props = append(props, "C22")
		}
		if weird(e.q) || weird(e.id) {
			props = append(props, "C13")
		}
		m.fail(ev, "content:"+field, fmt.Sprintf("%s of %s/%s is %q, stored was %s", field, e.q, e.id, have, w), props...)
	}
	if x.Score != x.Score || x.Score < e.stLo || x.Score > e.stHi {
		props := []string{"C23", "C03"}
		if e.why == "update" {
			props = append(props, "C09")
		}
		if e.why == "recovery" {
			props = append(props, "C12")
		}
		if !pulled {
			props = append(props, "C22")
		}
		m.fail(ev, "score", fmt.Sprintf("the score of %s/%s is %s, expected %s..%s", e.q, e.id, fl(x.Score), fl(e.stLo), fl(e.stHi)), props...)
		return false
	}
	e.stLo, e.stHi = x.Score, x.Score
	pay, meta := payString(x.Payload), metaString(x.Metadata)
	if !has(e.str, x.StringPayload) {
		bad("string payload", x.StringPayload, e.str)
		return false
	}
	if !has(e.pay, pay) {
		bad("payload", pay, e.pay)
		return false
	}
	if !has(e.meta, meta) {
		bad("metadata", meta, e.meta)
		return false
	}
	if !has(e.bp, x.Breakpoint) {
		bad("breakpoint", x.Breakpoint, e.bp)
		return false
	}
	e.str, e.pay, e.meta, e.bp = []string{x.StringPayload}, []string{pay}, []string{meta}, []string{x.Breakpoint}
	if !pulled {
		if !has(e.desc, x.Description) {
			bad("description", x.Description, e.desc)
			return false
		}
		e.desc = []string{x.Description}
		return true
	}
	d := x.Diagnostics
	have := [4]int64{d.GetAcks(), d.GetNacks(), d.GetConsecutiveAcks(), d.GetConsecutiveNacks()}
	for i, h := range have {
		if h < e.diag[i].lo || h > e.diag[i].hi {
			props := []string{"C16"}
			if e.why == "update" {
				props = append(props, "C09")
			}
			m.fail(ev, "diagnostics", fmt.Sprintf("diagnostics of %s/%s are %v (acks, nacks, consecutive acks, consecutive nacks), expected %v", e.q, e.id, have, e.diag), props...)
			return false
		}
		e.diag[i] = rng{h, h}
	}
	return true
}

func (m *model) ack(ev *Ev, faulty bool) {
	o := ev.Op
	if m.mayFail(o) && ev.Err != nil {
		if m.braces(o.Q) {
			// Refused by the cache after the storage has noted it.
			m.cnt("deckard_"+o.K+"{queue="+prefixOf(o.Q)+",reason="+o.Reason+"}", 0, 1)
			if e := m.msgs[key{o.Q, first(o.IDs)}]; e != nil {
				m.fuzz(e)
			}
		}
		return
	}
	e := m.get(o.Q, first(o.IDs))
	var lo, hi float64
	und := false
	switch {
	case o.Score != 0:
		lo = capScore(float64(o.Score))
		hi = lo
	case o.Lock > 0:
		und = true
	case o.K == "ack":
		lo, hi = capScore(float64(ev.T0)-float64(o.Sub)), capScore(float64(ev.T1)-float64(o.Sub))
	}
	out := cst{pool: 'r', lo: lo, hi: hi}
	if o.Lock > 0 {
		out = cst{pool: 'a', lo: lo, hi: hi, und: und, d0: after(ev.T0, o.Lock), d1: after(ev.T1, o.Lock)}
		if o.K == "nack" {
			out.pool = 'n'
		}
	}
	stored := func(e *smsg) {
		if und {
			e.stLo, e.stHi = -1, 0
		} else {
			e.stLo, e.stHi = lo, hi
		}
		i, j := 0, 1
		if o.K == "nack" {
			i, j = 1, 0
		}
		e.diag[i].lo++
		e.diag[i].hi++
		e.diag[2+i].lo++
		e.diag[2+i].hi++
		e.diag[2+j] = rng{}
		if o.K == "ack" {
			if o.Bp == "" {
				e.bp = union(e.bp, []string{""})
			} else {
				e.bp = []string{o.Bp}
			}
		}
	}
	store := func() {
		switch e.stored {
		case 2:
			stored(e)
		case 1:
			old := e.clone()
			stored(e)
			e.merge(old)
		}
	}
	moved := func() []cst {
		var cs []cst
		for _, c := range e.cs {
			if c.pool == 'p' {
				c = out
			}
			cs = unionCst(cs, []cst{c})
		}
		return cs
	}
	ctr := "deckard_" + o.K
	lab := ctr + "{queue=" + prefixOf(o.Q) + ",reason=" + o.Reason + "}"
	sig := map[string]string{"ack": "ACK", "nack": "NACK"}[o.K]
	if ev.Err != nil {
		old := e.clone()
		store()
		e.cs = unionCst(e.cs, moved())
		e.merge(old)
		if o.Rm {
			e.stored = min(e.stored, 1)
			e.cs = unionCst(e.cs, []cst{{pool: 'o'}})
			m.aud("REMOVE", e.q, e.id, 0, 1, told("REQUEST", "", 0))
		}
		e.why = "retry"
		m.cnt(lab, 0, 1)
		m.aud(sig, e.q, e.id, 0, 1, told(o.Reason, o.Bp, o.Lock))
		return
	}
	r := ev.Resp.(*deckard.AckResponse)
	canP, mustP := e.can('p'), e.must('p')
	m.cnt(lab, 0, 1)
	if !o.Rm && r.Success {
		m.count[lab].lo++
	}
	base := append([]string{}, m.whyProps(e)...)
	if o.Rm {
		m.aud(sig, e.q, e.id, 0, 1, told(o.Reason, o.Bp, o.Lock))
		if mustP {
			m.aud(sig, e.q, e.id, 1, 0, told(o.Reason, o.Bp, o.Lock))
		}
		rm := r.GetRemovalResponse()
		if !r.Success || rm == nil {
			m.fail(ev, "ack-remove", fmt.Sprintf("%s asking for removal answered success=%v", o.K, r.Success), "C08", "C24")
			return
		}
		m.removed(ev, []*smsg{e}, rm, faulty)
		return
	}
	old := e.clone()
	store()
	if r.Success {
		if !canP {
			m.fail(ev, "ack-success", fmt.Sprintf("%s succeeded for a message that was not out for processing: %s", o.K, old.state()), append(base, "C07", "C02")...)
			return
		}
		e.cs = []cst{out}
		e.why = o.K
		m.aud(sig, e.q, e.id, 1, 1, told(o.Reason, o.Bp, o.Lock))
		return
	}
	m.aud(sig, e.q, e.id, 0, 1, told(o.Reason, o.Bp, o.Lock))
	if faulty {
		e.cs = moved()
		return
	}
	if mustP {
		m.fail(ev, "ack-refused", fmt.Sprintf("%s answered success=false for a message that was out for processing: %s", o.K, old.state()), append(base, "C07", "C01")...)
		return
	}
	var cs []cst
	for _, c := range e.cs {
		if c.pool != 'p' {
			cs = append(cs, c)
		}
	}
	e.cs = cs
	if old.stored > 0 && !e.must('o') {
		e.why = "badack"
	}
}

// fuzz forgets everything about a message.
func (m *model) fuzz(e *smsg) {
	e.stored = min(e.stored, 1)
	e.stLo, e.stHi = -1, math.Inf(1)
	e.cs = unionCst(e.cs, []cst{{pool: 'o'}, {pool: 'r', lo: 0, hi: 9007199254740992}})
	for i := range e.diag {
		e.diag[i].hi += 1
		e.diag[i].lo = 0
	}
}

// removed judges the counts of a removal and takes the messages away.
func (m *model) removed(ev *Ev, es []*smsg, r *deckard.RemoveResponse, faulty bool) {
	var c, s bounds
	for _, e := range es {
		switch e.stored {
		case 2:
			s.add(1, 1)
		case 1:
			s.add(0, 1)
		}
		switch e.cached() {
		case 2:
			c.add(1, 1)
		case 1:
			c.add(0, 1)
		}
		if e.maybeExpired(ev.T1) {
			c.lo = max(0, c.lo-1)
		}
		m.aud("REMOVE", e.q, e.id, 0, 1, told("REQUEST", "", 0))
		if e.stored == 2 {
			m.aud("REMOVE", e.q, e.id, 1, 0, told("REQUEST", "", 0))
		}
		e.stored = 0
		e.gone = "remove"
		e.goneFaulty = faulty
		e.cs = []cst{{pool: 'o'}}
		e.why = ""
		e.touched = ev.I
	}
	if faulty {
		return
	}
	props := []string{"C08"}
	if len(es) > 400 {
		props = append(props, "C27")
	}
	if len(es) > 0 && weird(es[0].q) {
		props = append(props, "C13")
	}
	if m.s.Env.Engine[0] == 'c' {
		props = append(props, "C14")
	}
	if r.StorageRemoved < s.lo || r.StorageRemoved > s.hi {
		props = append(props, m.sweepProps()...)
		m.fail(ev, "storage-removed", fmt.Sprintf("the removal counted %d stored messages, the reference model says %d..%d", r.StorageRemoved, s.lo, s.hi), props...)
	} else if r.CacheRemoved < c.lo || r.CacheRemoved > c.hi {
		m.fail(ev, "cache-removed", fmt.Sprintf("the removal counted %d cached messages, the reference model says %d..%d", r.CacheRemoved, c.lo, c.hi), props...)
	}
}

func (m *model) remove(ev *Ev, faulty bool) {
	o := ev.Op
	seen := map[string]bool{}
	var es []*smsg
	for _, id := range o.ids() {
		if !seen[id] {
			seen[id] = true
			es = append(es, m.get(o.Q, id))
		} else {
			m.aud("REMOVE", o.Q, id, 0, 1, told("REQUEST", "", 0))
		}
	}
	if ev.Err != nil {
		for _, e := range es {
			e.stored = min(e.stored, 1)
			e.cs = unionCst(e.cs, []cst{{pool: 'o'}})
			e.gone = "remove"
			m.aud("REMOVE", e.q, e.id, 0, 1, told("REQUEST", "", 0))
		}
		return
	}
	m.removed(ev, es, ev.Resp.(*deckard.RemoveResponse), faulty)
}

func (m *model) stored(q string) (b bounds) {
	for _, e := range m.byq[q] {
		switch e.stored {
		case 2:
			b.add(1, 1)
		case 1:
			b.add(0, 1)
		}
	}
	return
}

func (m *model) counted(ev *Ev) {
	if ev.Err != nil || ev.Op.Q == "" || m.s.oldReads() {
		return
	}
	r := ev.Resp.(*deckard.CountResponse)
	b := m.stored(ev.Op.Q)
	if x, ok := m.exact[ev.Op.Q]; ok && x >= b.lo && x <= b.hi {
		b = bounds{lo: x, hi: x}
	}
	if r.Count < b.lo || r.Count > b.hi {
		props := []string{"C22"}
		if r.Count > b.hi {
			props = append(props, "C08", "C10", "C11", "C15", "C09")
			for _, e := range m.byq[ev.Op.Q] {
				if e.stored == 0 && e.goneFaulty {
					props = append(props, "C24")
					break
				}
			}
		} else {
			props = append(props, "C01", "C10", "C11", "C13")
		}
		if b.hi > 400 {
			props = append(props, "C27")
		}
		m.fail(ev, "count", fmt.Sprintf("count of %q is %d, the reference model says %d..%d", ev.Op.Q, r.Count, b.lo, b.hi), props...)
	}
}

func (m *model) got(ev *Ev) {
	if ev.Err != nil {
		return
	}
	o := ev.Op
	r := ev.Resp.(*deckard.GetByIdResponse)
	e := m.get(o.Q, first(o.IDs))
	if !r.Found {
		if e.stored == 2 && !e.maybeExpired(ev.T1) {
			props := append(m.whyProps(e), "C22", "C01", "C10", "C11", "C13")
			m.fail(ev, "lost", fmt.Sprintf("GetById does not find %s", e.state()), props...)
			return
		}
		if e.stored == 1 && !e.maybeExpired(ev.T1) {
			e.stored = 0
			e.gone = "unseen"
		}
		return
	}
	if e.stored == 0 {
		props := []string{"C22"}
		switch e.gone {
		case "ttl":
			props = append(props, "C10")
		case "max":
			props = append(props, "C11")
		case "flush":
			props = append(props, "C15")
		case "":
			props = append(props, "C13", "C09")
		default:
			props = append(props, "C08")
		}
		if e.goneFaulty {
			props = append(props, "C24")
		}
		m.fail(ev, "gone-found", fmt.Sprintf("GetById finds %s, which is gone (%s)", e.state(), e.gone), props...)
		return
	}
	if r.Message.Id != e.id || r.Message.Queue != e.q {
		m.fail(ev, "wrong-message", fmt.Sprintf("GetById of %q/%q returned %q/%q", e.q, e.id, r.Message.Queue, r.Message.Id), "C22", "C13", "C18")
		return
	}
	e.stored = 2
	m.content(ev, e, r.Message, false)
}

func (m *model) flush(ev *Ev) {
	r, ok := ev.Resp.(*deckard.FlushResponse)
	if !ok {
		return
	}
	if m.s.Env.memory() {
		if !r.Success {
			m.fail(ev, "flush", "flush of a memory deployment answered success=false", "C15")
			return
		}
		for _, e := range m.list {
			e.stored = 0
			e.gone = "flush"
			e.cs = []cst{{pool: 'o'}}
		}
		m.rec, m.recOn = 'n', false
		for q := range m.cfg {
			m.cfg[q] = []cfgVal{{ev.T0 - 1e9, ev.T0 - 1e9, 0}}
		}
	} else if r.Success {
		m.fail(ev, "flush", "flush of a persistent deployment answered success", "C15")
	}
}

func (m *model) cfgVals(q string) []cfgVal {
	if len(m.cfg[q]) == 0 {
		m.cfg[q] = []cfgVal{{-1 << 60, -1 << 60, 0}}
	}
	return m.cfg[q]
}

// limits are the values max_elements of a queue may have.
func (m *model) limits(q string) []int64 {
	l := m.cfgVals(q)
	r := []int64{}
	for i := len(l) - 1; i >= 0; i-- {
		r = append(r, l[i].val)
		if l[i].from == l[i].to {
			break
		}
	}
	return r
}

func (m *model) editq(ev *Ev) {
	o := ev.Op
	if o.Arg == "nil" {
		if r, ok := ev.Resp.(*deckard.EditQueueResponse); ok && r.Success {
			m.fail(ev, "editq-nil", "an edit without configuration answered success", "C17")
		}
		return
	}
	if ev.Err == nil {
		if r := ev.Resp.(*deckard.EditQueueResponse); !r.Success || r.Queue != o.Q {
			m.fail(ev, "editq", "an edit answered success=false or for another queue", "C17")
			return
		}
	}
	if o.Val == 0 {
		return
	}
	v := max(o.Val, 0)
	m.cfgVals(o.Q)
	c := cfgVal{ev.T0, ev.T1, v}
	if ev.Err != nil {
		c.to = 1 << 60 // may not have happened
	} else {
		c.to = c.from
	}
	m.cfg[o.Q] = append(m.cfg[o.Q], c)
}

func (m *model) getq(ev *Ev) {
	if ev.Err != nil {
		return
	}
	r := ev.Resp.(*deckard.GetQueueResponse)
	l := m.cfgVals(ev.Op.Q)
	ok := false
	var want []int64
	since := ev.T0 - 600000
	for i := len(l) - 1; i >= 0; i-- {
		want = append(want, l[i].val)
		if r.Configuration.GetMaxElements() == l[i].val {
			ok = true
		}
		if l[i].from == l[i].to && l[i].from < since {
			break
		}
	}
	if r.Queue != ev.Op.Q {
		ok = false
	}
	if !ok {
		props := []string{"C17"}
		if m.s.Env.memory() {
			props = append(props, "C15")
		}
		if ev.Faulty() {
			props = append(props, "C24")
		}
		m.fail(ev, "getq", fmt.Sprintf("queue %q reports max_elements %d for queue %q; current within the last ten minutes was %v", ev.Op.Q, r.Configuration.GetMaxElements(), r.Queue, want), props...)
	}
}

var projection = regexp.MustCompile(` projection=\{[^}]*\}`)

// culprit says whether faults may have hit the maintenance of the queue.
func culprit(ev *Ev, q string) bool {
	for _, h := range ev.Hit {
		h = projection.ReplaceAllString(h, "")
		switch {
		case strings.HasPrefix(strings.ToUpper(h), "SCAN"):
			return true
		case strings.Contains(h, ":queue:{"):
			if strings.Contains(h, ":queue:{"+q+"}") {
				return true
			}
		case strings.Contains(h, "{queue:"):
			if strings.Contains(h, "{queue:"+q+",") || strings.Contains(h, "{queue:"+q+"}") {
				return true
			}
		default:
			return true // a call which is not about one queue
		}
	}
	return false
}

func passes(o *Op) int {
	if o.Val < 1 {
		return 1
	}
	return int(o.Val)
}

func (m *model) timeout(ev *Ev) {
	for _, q := range sortedKeys(m.byq) {
		due, sure := 0, 0
		for _, e := range m.byq[q] {
			if e.can('p') {
				for _, c := range e.cs {
					if c.pool == 'p' && c.d0 <= ev.T1+1 {
						due++
						break
					}
				}
			}
		}
		partial := (due > 1000*passes(ev.Op) && !m.s.Env.memCache()) || culprit(ev, q)
		var lo, hi int64
		for _, e := range m.byq[q] {
			if !e.can('p') {
				continue
			}
			var cs []cst
			may, must := false, true
			for _, c := range e.cs {
				if c.pool != 'p' || c.d0 > ev.T1+1 {
					cs = unionCst(cs, []cst{c})
					must = false
					continue
				}
				may = true
				if partial || c.d1+1 > ev.T0 {
					cs = unionCst(cs, []cst{c})
					must = false
				}
				cs = unionCst(cs, []cst{{pool: 'r'}})
			}
			e.cs = cs
			if may {
				e.why = "timeout"
				hi++
				m.aud("TIMEOUT", e.q, e.id, 0, 1)
			}
			if must {
				sure++
				lo++
				m.aud("TIMEOUT", e.q, e.id, 1, 0)
			}
		}
		if hi > 0 {
			m.cnt("deckard_message_timeout{queue="+prefixOf(q)+"}", lo, hi)
		}
	}
}

func (m *model) unlock(ev *Ev) {
	for _, q := range sortedKeys(m.byq) {
		var due [2]int
		for _, e := range m.byq[q] {
			for i, p := range []byte{'a', 'n'} {
				for _, c := range e.cs {
					if c.pool == p && c.d0 <= ev.T1+1 {
						due[i]++
						break
					}
				}
			}
		}
		lim := 1000 * passes(ev.Op)
		bad := culprit(ev, q)
		var lo, hi [2]int64
		for _, e := range m.byq[q] {
			if !e.can('a') && !e.can('n') {
				continue
			}
			var cs []cst
			var may, must [2]bool
			one := len(e.cs) == 1
			for _, c := range e.cs {
				if c.pool != 'a' && c.pool != 'n' || c.d0 > ev.T1+1 {
					cs = unionCst(cs, []cst{c})
					continue
				}
				i := 0
				if c.pool == 'n' {
					i = 1
				}
				may[i] = true
				must[i] = one
				partial := (due[i] > lim && !m.s.Env.memCache()) || bad
				if partial || c.d1+1 > ev.T0 {
					cs = unionCst(cs, []cst{c})
					must[i] = false
				}
				n := cst{pool: 'r', lo: c.lo, hi: c.hi}
				if c.und {
					n.lo, n.hi = 0, 0
					if c.pool == 'a' {
						n.lo, n.hi = float64(ev.T0), float64(ev.T1)
					}
				}
				cs = unionCst(cs, []cst{n})
			}
			e.cs = cs
			for i := range may {
				if may[i] {
					e.why = "unlock"
					hi[i]++
					m.aud("UNLOCK", e.q, e.id, 0, 1, told(locks[i], "", 0))
				}
				if must[i] {
					lo[i]++
					m.aud("UNLOCK", e.q, e.id, 1, 0, told(locks[i], "", 0))
				}
			}
		}
		for i, t := range locks {
			if hi[i] > 0 {
				m.cnt("deckard_message_unlock{lock_type="+t+",queue="+prefixOf(q)+"}", lo[i], hi[i])
			}
		}
	}
}

var locks = []string{"lock_ack", "lock_nack"}

func (m *model) ttl(ev *Ev) {
	m.swept = true
	m.sweptFaulty = m.sweptFaulty || ev.Faulty()
	total := 0
	for _, e := range m.list {
		if e.stored > 0 && e.exp0 <= ev.T1+1 {
			total++
		} else if e.mortal {
			e.spared = true
		}
	}
	if total == 0 {
		return
	}
	cnt := map[string]*bounds{}
	for _, e := range m.list {
		if e.stored == 0 || e.exp0 > ev.T1+1 {
			continue
		}
		partial := m.recOn || total > 10000*passes(ev.Op) || culprit(ev, e.q) || e.exp1+1 > ev.T0
		p := prefixOf(e.q)
		if cnt[p] == nil {
			cnt[p] = &bounds{}
		}
		m.aud("REMOVE", e.q, e.id, 0, 1, told("TTL", "", 0))
		if partial {
			e.stored = min(e.stored, 1)
			e.cs = unionCst(e.cs, []cst{{pool: 'o'}})
			e.gone = "ttl"
			cnt[p].hi++
			continue
		}
		cnt[p].hi++
		if e.stored == 2 {
			cnt[p].lo++
			m.aud("REMOVE", e.q, e.id, 1, 0, told("TTL", "", 0))
		}
		if e.stored == 2 {
			e.cs = []cst{{pool: 'o'}}
		} else {
			// an earlier removal may have reached the storage only
			e.cs = unionCst(e.cs, []cst{{pool: 'o'}})
		}
		e.stored = 0
		e.gone = "ttl"
	}
	for p, b := range cnt {
		m.cnt("deckard_ttl_messages_removed{queue="+p+"}", b.lo, b.hi)
	}
}

func (m *model) maxPass(ev *Ev) {
	for _, q := range sortedKeys(m.cfg) {
		lims := m.limits(q)
		on := false
		for _, l := range lims {
			if l > 0 {
				on = true
			}
		}
		if !on {
			continue
		}
		m.trimmed = true
		m.sweptFaulty = m.sweptFaulty || ev.Faulty()
		b := m.stored(q)
		var es []*smsg
		for _, e := range m.byq[q] {
			if e.stored > 0 {
				es = append(es, e)
			}
		}
		lim := lims[0]
		for _, l := range lims {
			if l > 0 && (lim == 0 || l < lim) {
				lim = l
			}
		}
		if b.hi <= lim {
			continue
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].exp0 < es[j].exp0 })
		sure := len(lims) == 1 && !m.recOn && b.lo == b.hi && !culprit(ev, q)
		k := int(b.hi - lim) // at most so many go
		overlap := false
		for i := 1; i < len(es); i++ {
			if es[i].exp0 <= es[i-1].exp1 && es[i].exp0 != es[i].exp1 {
				overlap = true
			}
		}
		ends := make([]int64, len(es))
		for i, e := range es {
			ends[i] = e.exp1
		}
		slices.Sort(ends)
		cut := ends[k-1]
		var lo, hi int64
		for i, e := range es {
			tie := e.exp0 <= cut && e.exp1 >= cut
			certain := sure && !overlap && i < k && (e.exp1 < cut || (tie && (k == len(es) || es[k].exp0 > cut)))
			if certain {
				e.stored = 0
				e.gone = "max"
				e.cs = []cst{{pool: 'o'}}
				lo++
				hi++
				m.aud("REMOVE", e.q, e.id, 1, 1, told("MAX_ELEMENTS", "", 0))
				continue
			}
			if e.exp0 <= cut {
				e.stored = min(e.stored, 1)
				e.gone = "max"
				e.cs = unionCst(e.cs, []cst{{pool: 'o'}})
				hi++
				m.aud("REMOVE", e.q, e.id, 0, 1, told("MAX_ELEMENTS", "", 0))
			}
		}
		if sure {
			m.exact[q] = lim
			lo = int64(k)
			hi = int64(k)
		}
		m.cnt("deckard_exceeding_messages_removed{queue="+prefixOf(q)+"}", lo, hi)
	}
}

func (m *model) recovery(ev *Ev, faulty bool) {
	if m.rec == 'f' {
		return
	}
	if m.rec == 'n' {
		m.recFirst = ev.I
	}
	n := 0
	for _, e := range m.list {
		if e.stored > 0 {
			n++
		}
	}
	full := !faulty && passes(ev.Op) >= n/4000+2
	for _, e := range m.list {
		if e.stored == 0 || !e.can('o') {
			continue
		}
		r := cst{pool: 'r', lo: capScore(e.stLo), hi: capScore(e.stHi)}
		// A message which a failed add left out of the cache while the recovery
		// may have been over already stays there.
		soft := e.soft || e.stored < 2 || e.maybeExpired(ev.T1) || m.rec == 'u' && e.half > m.recFirst
		var cs []cst
		for _, c := range e.cs {
			if c.pool != 'o' {
				cs = unionCst(cs, []cst{c})
				continue
			}
			cs = unionCst(cs, []cst{r})
			if !full || soft {
				cs = unionCst(cs, []cst{c})
			}
		}
		m.aud("INSERT_CACHE", e.q, e.id, 0, 1, told("recovery", "", 0))
		if full && !soft && e.must('o') {
			m.aud("INSERT_CACHE", e.q, e.id, 1, 0, told("recovery", "", 0))
		}
		e.cs = cs
		e.why = "recovery"
	}
	if full {
		m.rec, m.recOn = 'f', false
	} else {
		m.rec, m.recOn = 'u', true
	}
}

func (m *model) metrics(ev *Ev, faulty bool) {
	if len(m.s.Nodes) != 1 {
		return
	}
	failed := func(p string) bool {
		for _, h := range ev.Hit {
			i := strings.Index(h, "queue_prefix:")
			if i < 0 || strings.HasPrefix(h[i+13:], p+",") || strings.HasPrefix(h[i+13:], p+"}") {
				return true // also a call which is not about one prefix
			}
		}
		return faulty && len(ev.Hit) == 0
	}
	g := gauge("deckard_total_messages")
	want := map[string]*bounds{}
	for _, q := range sortedKeys(m.byq) {
		p := prefixOf(q)
		if want[p] == nil {
			want[p] = &bounds{}
		}
		b := m.stored(q)
		want[p].add(b.lo, b.hi)
	}
	for _, p := range sortedKeys(want) {
		if p == "" {
			continue
		}
		if failed(p) {
			if _, ok := g["{queue="+p+"}"]; ok {
				m.totals[p] = true
			}
			continue
		}
		b := want[p]
		props := []string{"C29"}
		if faulty {
			props = append(props, "C25")
		}
		have, ok := g["{queue="+p+"}"]
		if !ok && b.lo > 0 || ok && (have < b.lo || have > b.hi) {
			m.fail(ev, "gauge", fmt.Sprintf("the total of prefix %q is %d (exported: %v), the reference model says %d..%d", p, have, ok, b.lo, b.hi), append(props, m.sweepProps()...)...)
			return
		}
		if !ok && m.totals[p] {
			m.fail(ev, "gauge-vanished", fmt.Sprintf("the total of prefix %q, once exported, is not exported as 0", p), "C29")
			return
		}
		if ok {
			m.totals[p] = true
		}
	}
	for k := range g {
		p := strings.TrimSuffix(strings.TrimPrefix(k, "{queue="), "}")
		if want[p] == nil && g[k] != 0 && !failed(p) {
			m.fail(ev, "gauge-unknown", "a total is exported for the unknown prefix "+strconv.Quote(p), "C29", "C13")
			return
		}
	}
}

func gauge(name string) map[string]int64 { return metric.Default.Gauges()[name] }
