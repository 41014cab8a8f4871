// Package simmongo is a simulated MongoDB deployment: a standalone server or a
// replica set, reached through the real driver, whose server selection,
// connections and wire messages end here.
package simmongo

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/v2/bson"
	"verifsim/netsim"
	"verifsim/simrt"
)

type rec struct {
	seq int64
	doc bson.D
}

type coll struct {
	m     map[string]*rec // by marshalled _id
	order []string        // insertion order, with holes
	pos   map[string]int  // where in order
	holes int
	byID  map[string]map[string]bool // keys by the value of the field "id"
	odd   int                        // documents whose "id" is not a string
}

func newColl() *coll {
	return &coll{m: map[string]*rec{}, pos: map[string]int{}, byID: map[string]map[string]bool{}}
}

func (c *coll) put(k string, r *rec) {
	if old, ok := c.m[k]; !ok {
		c.pos[k] = len(c.order)
		c.order = append(c.order, k)
	} else {
		c.unindex(k, old)
	}
	c.m[k] = r
	v, _ := get(r.doc, "id")
	if id, ok := v.(string); ok {
		if c.byID[id] == nil {
			c.byID[id] = map[string]bool{}
		}
		c.byID[id][k] = true
	} else {
		c.odd++
	}
}

func (c *coll) unindex(k string, r *rec) {
	v, _ := get(r.doc, "id")
	if id, ok := v.(string); ok {
		delete(c.byID[id], k)
		if len(c.byID[id]) == 0 {
			delete(c.byID, id)
		}
	} else {
		c.odd--
	}
}

func (c *coll) del(k string) {
	r, ok := c.m[k]
	if !ok {
		return
	}
	c.unindex(k, r)
	delete(c.m, k)
	c.order[c.pos[k]] = ""
	delete(c.pos, k)
	c.holes++
	if c.holes > 32 && c.holes > len(c.order)/2 {
		l := c.order[:0]
		for _, x := range c.order {
			if x != "" {
				c.pos[x] = len(l)
				l = append(l, x)
			}
		}
		c.order, c.holes = l, 0
	}
}

func (c *coll) list() []*rec {
	l := make([]*rec, 0, len(c.order))
	for _, k := range c.order {
		if k != "" {
			l = append(l, c.m[k])
		}
	}
	return l
}

// candidates uses the index on "id", if the filter asks for certain ids. What is left
// of the filter must be matched.
func (c *coll) candidates(f bson.D) ([]*rec, bson.D) {
	if c.odd == 0 {
		for i, e := range f {
			if e.Key != "id" {
				continue
			}
			var ids []string
			v := e.Value
			if o, ok := isOps(v); ok && len(o) == 1 && (o[0].Key == "$in" || o[0].Key == "$eq") {
				v = o[0].Value
			} else if ok {
				break
			}
			switch x := v.(type) {
			case string:
				ids = []string{x}
			case bson.A:
				for _, y := range x {
					id, ok := y.(string)
					if !ok {
						return c.list(), f
					}
					ids = append(ids, id)
				}
			default:
				return c.list(), f
			}
			seen := map[string]bool{}
			var keys []string
			for _, id := range ids {
				for k := range c.byID[id] {
					if !seen[k] {
						seen[k] = true
						keys = append(keys, k)
					}
				}
			}
			sort.Slice(keys, func(i, j int) bool { return c.pos[keys[i]] < c.pos[keys[j]] })
			l := make([]*rec, len(keys))
			for i, k := range keys {
				l[i] = c.m[k]
			}
			return l, append(append(bson.D{}, f[:i]...), f[i+1:]...)
		}
	}
	return c.list(), f
}

type logEntry struct {
	at   time.Time
	ns   string
	key  string
	doc  *rec // nil: deleted
	drop bool
}

// Node is one member.
type Node struct {
	Name    string // "mongo:host:port"
	Addr    string
	Lag     time.Duration // how far a secondary is behind
	Frozen  bool          // a secondary which applies nothing
	data    map[string]*coll
	applied int
	machine [5]byte
	ctr     uint32
	cursors map[int64]*cursor
}

type cursor struct {
	ns   string
	docs []bson.D
	at   time.Time
}

// Deployment is a set of members.
type Deployment struct {
	Nodes      []*Node
	Primary    int // -1: none
	Standalone bool
	log        []logEntry
	seq        int64
	nextCursor int64
	txns       map[string]*txn
	// MaxBatch caps the documents of one reply, as the size limit of a reply does.
	MaxBatch int
	// Order is the natural order of unsorted results: 0 insertion, 1 reverse, 2 by hash.
	Order int
	// DocYield makes multi-document writes interleave with others.
	DocYield bool
	Cmds     map[string]int
	Log      func(s string)
	// Reads counts reads by role.
	Reads map[string]int
}

type txn struct {
	num   int64
	stmts map[int]stmtResult
	reply bson.D
}

type stmtResult struct {
	n, mod   int
	upserted any
}

// New makes a deployment. One address makes a standalone server.
func New(addrs ...string) *Deployment {
	d := &Deployment{Standalone: len(addrs) == 1, txns: map[string]*txn{}, Cmds: map[string]int{}, Reads: map[string]int{}}
	for _, a := range addrs {
		n := &Node{Name: "mongo:" + a, Addr: a, data: map[string]*coll{}, cursors: map[int64]*cursor{}}
		h := sha256.Sum256([]byte(a))
		copy(n.machine[:], h[:])
		n.ctr = binary.BigEndian.Uint32(h[8:]) % 1000
		d.Nodes = append(d.Nodes, n)
	}
	return d
}

func (d *Deployment) primary() *Node {
	if d.Primary < 0 {
		return nil
	}
	return d.Nodes[d.Primary]
}

// sync lets a node apply what it should have by now.
func (d *Deployment) sync(n *Node) {
	isPrimary := d.primary() == n
	for n.applied < len(d.log) {
		e := d.log[n.applied]
		if !isPrimary && (n.Frozen || time.Since(e.at) < n.Lag) {
			return
		}
		c := n.data[e.ns]
		if c == nil {
			c = newColl()
			n.data[e.ns] = c
		}
		if e.doc == nil {
			c.del(e.key)
		} else {
			c.put(e.key, e.doc)
		}
		n.applied++
	}
}

func (d *Deployment) write(n *Node, ns, key string, r *rec) {
	d.log = append(d.log, logEntry{at: time.Now(), ns: ns, key: key, doc: r})
	d.sync(n)
}

// StepDown leaves the set without primary; Elect ends that.
func (d *Deployment) StepDown() {
	if d.Primary >= 0 {
		d.sync(d.primary())
	}
	d.Primary = -1
}

// Elect makes a member primary, which first catches up with the log.
func (d *Deployment) Elect(i int) {
	if d.Primary >= 0 && d.Primary != i {
		d.StepDown()
	}
	d.Primary = i
	n := d.Nodes[i]
	n.Frozen = false
	d.sync(n)
}

// Docs lists a collection of the authoritative state.
func (d *Deployment) Docs(db, name string) []bson.D {
	best := d.primary()
	if best == nil {
		for _, n := range d.Nodes {
			if best == nil || n.applied > best.applied {
				best = n
			}
		}
	}
	d.sync(best)
	c := best.data[db+"."+name]
	if c == nil {
		return nil
	}
	var out []bson.D
	for _, r := range c.list() {
		out = append(out, r.doc)
	}
	return out
}

// Namespaces lists the collections which ever had a document.
func (d *Deployment) Namespaces() []string {
	m := map[string]bool{}
	for _, e := range d.log {
		m[e.ns] = true
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// PutDoc inserts a document behind the back of the code under test.
func (d *Deployment) PutDoc(db, name string, doc bson.D) {
	n := d.primary()
	if _, ok := get(doc, "_id"); !ok {
		doc = append(bson.D{{Key: "_id", Value: n.newID()}}, doc...)
	}
	id, _ := get(doc, "_id")
	d.seq++
	d.write(n, db+"."+name, keyOf(id), &rec{seq: d.seq, doc: doc})
}

// Lookup is a field of a document, by dotted path.
func Lookup(doc bson.D, path string) (any, bool) { return lookup(doc, path) }

func (n *Node) newID() bson.ObjectID {
	var o bson.ObjectID
	binary.BigEndian.PutUint32(o[:4], uint32(time.Now().Unix()))
	copy(o[4:9], n.machine[:])
	n.ctr++
	o[9], o[10], o[11] = byte(n.ctr>>16), byte(n.ctr>>8), byte(n.ctr)
	return o
}

func keyOf(id any) string {
	_, b, err := bson.MarshalValue(id)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%T", id) + string(b)
}

func get(d bson.D, k string) (any, bool) {
	for _, e := range d {
		if e.Key == k {
			return e.Value, true
		}
	}
	return nil, false
}

func lookup(v any, path string) (any, bool) {
	p, rest, more := strings.Cut(path, ".")
	switch x := v.(type) {
	case bson.D:
		c, ok := get(x, p)
		if !ok || !more {
			return c, ok
		}
		return lookup(c, rest)
	case bson.A:
		if i, err := strconv.Atoi(p); err == nil && i >= 0 && i < len(x) {
			if !more {
				return x[i], true
			}
			return lookup(x[i], rest)
		}
	}
	return nil, false
}

func setPath(d bson.D, path string, v any) (bson.D, error) {
	p, rest, more := strings.Cut(path, ".")
	if p == "" {
		return nil, cmdError{56, "The update path '" + path + "' contains an empty field name, which is not allowed."}
	}
	out := append(bson.D(nil), d...)
	for i, e := range out {
		if e.Key == p {
			if !more {
				out[i].Value = v
				return out, nil
			}
			sub, ok := e.Value.(bson.D)
			if !ok {
				return nil, cmdError{28, "Cannot create field '" + rest + "' in element {" + p + "}"}
			}
			s, err := setPath(sub, rest, v)
			if err != nil {
				return nil, err
			}
			out[i].Value = s
			return out, nil
		}
	}
	if !more {
		return append(out, bson.E{Key: p, Value: v}), nil
	}
	s, err := setPath(bson.D{}, rest, v)
	if err != nil {
		return nil, err
	}
	return append(out, bson.E{Key: p, Value: s}), nil
}

func unsetPath(d bson.D, path string) bson.D {
	p, rest, more := strings.Cut(path, ".")
	out := bson.D{}
	for _, e := range d {
		if e.Key == p {
			if !more {
				continue
			}
			if sub, ok := e.Value.(bson.D); ok {
				e.Value = unsetPath(sub, rest)
			}
		}
		out = append(out, e)
	}
	return out
}

// class is the type bracket of a value.
func class(v any) int {
	switch v.(type) {
	case nil:
		return 1
	case int32, int64, float64, int:
		return 2
	case string:
		return 3
	case bson.D:
		return 4
	case bson.A:
		return 5
	case bson.Binary:
		return 6
	case bson.ObjectID:
		return 7
	case bool:
		return 8
	case bson.DateTime:
		return 9
	case bson.Timestamp:
		return 10
	case bson.Regex:
		return 11
	}
	return 12
}

func num(v any) float64 {
	switch x := v.(type) {
	case int32:
		return float64(x)
	case int64:
		return float64(x)
	case float64:
		return x
	case int:
		return float64(x)
	}
	return 0
}

func compare(a, b any) int {
	ca, cb := class(a), class(b)
	if ca != cb {
		if ca < cb {
			return -1
		}
		return 1
	}
	switch x := a.(type) {
	case int32, int64, float64, int:
		fa, fb := num(a), num(b)
		if ia, ok := a.(int64); ok {
			if ib, ok := b.(int64); ok {
				switch {
				case ia < ib:
					return -1
				case ia > ib:
					return 1
				}
				return 0
			}
		}
		switch {
		case fa < fb || math.IsNaN(fa) && !math.IsNaN(fb):
			return -1
		case fa > fb || math.IsNaN(fb) && !math.IsNaN(fa):
			return 1
		}
		return 0
	case string:
		return strings.Compare(x, b.(string))
	case bson.ObjectID:
		y := b.(bson.ObjectID)
		return bytes.Compare(x[:], y[:])
	case bool:
		y := b.(bool)
		switch {
		case x == y:
			return 0
		case !x:
			return -1
		}
		return 1
	case bson.DateTime:
		y := b.(bson.DateTime)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case nil:
		return 0
	}
	_, ba, _ := bson.MarshalValue(a)
	_, bb, _ := bson.MarshalValue(b)
	return bytes.Compare(ba, bb)
}

func isOps(v any) (bson.D, bool) {
	d, ok := v.(bson.D)
	if !ok || len(d) == 0 || !strings.HasPrefix(d[0].Key, "$") {
		return nil, false
	}
	return d, true
}

// Match evaluates a filter.
func Match(doc bson.D, f bson.D) (bool, error) {
	for _, e := range f {
		switch e.Key {
		case "$and", "$or", "$nor":
			a, ok := e.Value.(bson.A)
			if !ok || len(a) == 0 {
				return false, cmdError{2, e.Key + " must be a nonempty array"}
			}
			any1, all := false, true
			for _, x := range a {
				sub, ok := x.(bson.D)
				if !ok {
					return false, cmdError{2, e.Key + " entries need to be full objects"}
				}
				m, err := Match(doc, sub)
				if err != nil {
					return false, err
				}
				any1 = any1 || m
				all = all && m
			}
			if e.Key == "$and" && !all || e.Key == "$or" && !any1 || e.Key == "$nor" && any1 {
				return false, nil
			}
			continue
		case "$comment":
			continue
		case "$expr":
			return false, cmdError{2, "simulated server: $expr"}
		}
		if strings.HasPrefix(e.Key, "$") {
			return false, cmdError{2, "unknown top level operator: " + e.Key}
		}
		v, ok := lookup(doc, e.Key)
		m, err := matchField(v, ok, e.Value)
		if err != nil || !m {
			return false, err
		}
	}
	return true, nil
}

func eq(v any, ok bool, w any) bool {
	if !ok {
		return w == nil
	}
	if a, isA := v.(bson.A); isA {
		if _, wA := w.(bson.A); !wA {
			for _, x := range a {
				if compare(x, w) == 0 {
					return true
				}
			}
			return false
		}
	}
	return compare(v, w) == 0
}

func matchField(v any, ok bool, cond any) (bool, error) {
	ops, isOp := isOps(cond)
	if !isOp {
		if _, re := cond.(bson.Regex); re {
			return false, cmdError{2, "simulated server: regex"}
		}
		return eq(v, ok, cond), nil
	}
	for _, o := range ops {
		m := false
		switch o.Key {
		case "$eq":
			m = eq(v, ok, o.Value)
		case "$ne":
			m = !eq(v, ok, o.Value)
		case "$in", "$nin":
			a, isA := o.Value.(bson.A)
			if !isA {
				return false, cmdError{2, o.Key + " needs an array"}
			}
			for _, x := range a {
				if eq(v, ok, x) {
					m = true
					break
				}
			}
			if o.Key == "$nin" {
				m = !m
			}
		case "$gt", "$gte", "$lt", "$lte":
			if ok && class(v) == class(o.Value) || !ok && o.Value == nil && strings.HasSuffix(o.Key, "e") {
				c := compare(v, o.Value)
				switch o.Key {
				case "$gt":
					m = c > 0
				case "$gte":
					m = c >= 0
				case "$lt":
					m = c < 0
				default:
					m = c <= 0
				}
			}
		case "$exists":
			w := true
			switch x := o.Value.(type) {
			case bool:
				w = x
			case int32, int64, float64:
				w = num(x) != 0
			}
			m = ok == w
		case "$not":
			r, err := matchField(v, ok, o.Value)
			if err != nil {
				return false, err
			}
			m = !r
		default:
			return false, cmdError{2, "unknown operator: " + o.Key}
		}
		if !m {
			return false, nil
		}
	}
	return true, nil
}

func add(a, b any, mul bool) (any, error) {
	if class(b) != 2 {
		return nil, cmdError{14, "Cannot increment with non-numeric argument"}
	}
	if a != nil && class(a) != 2 {
		return nil, cmdError{14, "Cannot apply $inc to a value of non-numeric type"}
	}
	_, fa := a.(float64)
	_, fb := b.(float64)
	if fa || fb {
		if mul {
			return num(a) * num(b), nil
		}
		return num(a) + num(b), nil
	}
	ia, ib := int64(num(a)), int64(num(b))
	if x, ok := a.(int64); ok {
		ia = x
	}
	if x, ok := b.(int64); ok {
		ib = x
	}
	r := ia + ib
	if mul {
		r = ia * ib
	}
	_, la := a.(int64)
	_, lb := b.(int64)
	if la || lb || r > math.MaxInt32 || r < math.MinInt32 {
		return r, nil
	}
	return int32(r), nil
}

func applyUpdate(doc bson.D, u bson.D, inserting bool) (bson.D, error) {
	if len(u) == 0 || !strings.HasPrefix(u[0].Key, "$") {
		// Replacement.
		out := bson.D{}
		if id, ok := get(doc, "_id"); ok {
			out = append(out, bson.E{Key: "_id", Value: id})
		}
		for _, e := range u {
			if e.Key == "_id" && len(out) > 0 {
				continue
			}
			out = append(out, e)
		}
		return out, nil
	}
	seen := map[string]bool{}
	for _, op := range u {
		fields, ok := op.Value.(bson.D)
		if !ok {
			return nil, cmdError{9, "Modifiers operate on fields but we found another type"}
		}
		// Fields are applied in lexicographic order.
		fields = append(bson.D(nil), fields...)
		sort.SliceStable(fields, func(i, j int) bool { return fields[i].Key < fields[j].Key })
		if op.Key == "$setOnInsert" && !inserting {
			for _, f := range fields {
				if seen[f.Key] {
					return nil, cmdError{40, "Updating the path '" + f.Key + "' would create a conflict at '" + f.Key + "'"}
				}
				seen[f.Key] = true
			}
			continue
		}
		for _, f := range fields {
			for k := range seen {
				if k == f.Key || strings.HasPrefix(k, f.Key+".") || strings.HasPrefix(f.Key, k+".") {
					return nil, cmdError{40, "Updating the path '" + f.Key + "' would create a conflict at '" + k + "'"}
				}
			}
			seen[f.Key] = true
			old, has := lookup(doc, f.Key)
			var v any
			var err error
			switch op.Key {
			case "$set", "$setOnInsert":
				v = f.Value
			case "$unset":
				doc = unsetPath(doc, f.Key)
				continue
			case "$inc":
				if has && old == nil {
					return nil, cmdError{14, "Cannot apply $inc to a value of non-numeric type"}
				}
				v, err = add(old, f.Value, false)
			case "$mul":
				v, err = add(old, f.Value, true)
			case "$min":
				if has && compare(old, f.Value) <= 0 {
					continue
				}
				v = f.Value
			case "$max":
				if has && compare(old, f.Value) >= 0 {
					continue
				}
				v = f.Value
			case "$currentDate":
				v = bson.NewDateTimeFromTime(time.Now())
			default:
				return nil, cmdError{9, "Unknown modifier: " + op.Key}
			}
			if err != nil {
				return nil, err
			}
			if f.Key == "_id" && has && compare(old, v) != 0 {
				return nil, cmdError{66, "Performing an update on the path '_id' would modify the immutable field '_id'"}
			}
			if doc, err = setPath(doc, f.Key, v); err != nil {
				return nil, err
			}
		}
	}
	return doc, nil
}

type cmdError struct {
	code int
	msg  string
}

func (e cmdError) Error() string { return e.msg }

var codeNames = map[int]string{2: "BadValue", 9: "FailedToParse", 13: "Unauthorized", 14: "TypeMismatch", 40: "ConflictingUpdateOperators", 43: "CursorNotFound", 50: "MaxTimeMSExpired",
	59: "CommandNotFound", 66: "ImmutableField", 91: "ShutdownInProgress", 112: "WriteConflict", 225: "TransactionTooOld", 10107: "NotWritablePrimary", 11600: "InterruptedAtShutdown", 11602: "InterruptedDueToReplStateChange", 13435: "NotPrimaryNoSecondaryOk", 14031: "OutOfDiskSpace", 189: "PrimarySteppedDown"}

func errDoc(e cmdError, labels ...string) bson.D {
	d := bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: e.msg}, {Key: "code", Value: int32(e.code)}, {Key: "codeName", Value: codeNames[e.code]}}
	if len(labels) > 0 {
		a := bson.A{}
		for _, l := range labels {
			a = append(a, l)
		}
		d = append(d, bson.E{Key: "errorLabels", Value: a})
	}
	return d
}

// faultError is the reply of a server in trouble.
func faultError(arg string, retryableWrite bool) bson.D {
	var labels []string
	if retryableWrite {
		labels = append(labels, "RetryableWriteError")
	}
	switch arg {
	case "notprimary":
		return errDoc(cmdError{10107, "not primary"}, labels...)
	case "shutdown":
		return errDoc(cmdError{91, "The server is in quiesce mode and will shut down"}, labels...)
	case "interrupted":
		return errDoc(cmdError{11602, "operation was interrupted"}, labels...)
	case "disk":
		return errDoc(cmdError{14031, "available disk space is less than required minimum"})
	case "auth":
		return errDoc(cmdError{13, "command requires authentication"})
	}
	return errDoc(cmdError{50, "operation exceeded time limit"})
}

func asInt(v any) int64 {
	switch x := v.(type) {
	case int32:
		return int64(x)
	case int64:
		return x
	case float64:
		return int64(x)
	case bool:
		if x {
			return 1
		}
	}
	return 0
}

func asBool(v any, def bool) bool {
	switch x := v.(type) {
	case nil:
		return def
	case bool:
		return x
	}
	return asInt(v) != 0
}

func sub(d bson.D, k string) bson.D {
	v, _ := get(d, k)
	x, _ := v.(bson.D)
	return x
}

func list(d bson.D, k string) []bson.D {
	v, _ := get(d, k)
	switch x := v.(type) {
	case bson.A:
		var l []bson.D
		for _, e := range x {
			if dd, ok := e.(bson.D); ok {
				l = append(l, dd)
			}
		}
		return l
	case []bson.D:
		return x
	}
	return nil
}

func isWrite(cmd string) bool {
	switch cmd {
	case "insert", "update", "delete", "findAndModify", "createIndexes", "drop", "dropDatabase", "bulkWrite":
		return true
	}
	return false
}

// Describe shows a command in a stable form.
func Describe(c bson.D) string {
	if len(c) == 0 {
		return ""
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s %v", c[0].Key, c[0].Value)
	for _, e := range c[1:] {
		switch e.Key {
		case "lsid", "$db", "$readPreference", "txnNumber", "$clusterTime", "comment", "ordered", "writeConcern":
			continue
		}
		b.WriteString(" " + e.Key + "=")
		show(&b, e.Value)
		if b.Len() > 300 {
			return b.String()[:300]
		}
	}
	return b.String()
}

func show(b *strings.Builder, v any) {
	switch x := v.(type) {
	case bson.D:
		l := append(bson.D(nil), x...)
		rank := func(k string) string {
			if k == "queue" {
				return "" // first, so that it is never cut off
			}
			return k
		}
		sort.SliceStable(l, func(i, j int) bool { return rank(l[i].Key) < rank(l[j].Key) })
		b.WriteString("{")
		for i, e := range l {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(e.Key + ":")
			show(b, e.Value)
		}
		b.WriteString("}")
	case bson.A:
		b.WriteString("[")
		for i, e := range x {
			if i > 0 {
				b.WriteString(",")
			}
			show(b, e)
		}
		b.WriteString("]")
	case []bson.D:
		a := bson.A{}
		for _, e := range x {
			a = append(a, e)
		}
		show(b, a)
	case bson.ObjectID:
		b.WriteString(x.Hex())
	case bson.DateTime:
		b.WriteString(x.Time().UTC().Format("15:04:05.000"))
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

// exec runs one command on a node.
func (d *Deployment) exec(n *Node, c bson.D, partial bool) bson.D {
	if len(c) == 0 {
		return errDoc(cmdError{59, "no command"})
	}
	cmd := c[0].Key
	d.Cmds[cmd]++
	d.sync(n)
	db, _ := get(c, "$db")
	name, _ := c[0].Value.(string)
	ns := fmt.Sprint(db) + "." + name
	if isWrite(cmd) && d.primary() != n {
		return errDoc(cmdError{10107, "not primary"}, "RetryableWriteError")
	}
	if !isWrite(cmd) && d.primary() != n {
		rp := sub(c, "$readPreference")
		mode, _ := get(rp, "mode")
		if (mode == nil || mode == "primary") && (cmd == "find" || cmd == "aggregate" || cmd == "distinct" || cmd == "count") {
			return errDoc(cmdError{13435, "not primary and secondaryOk=false"})
		}
	}
	if !isWrite(cmd) {
		role := "secondary"
		if d.primary() == n {
			role = "primary"
		}
		d.Reads[role]++
	}
	ok := bson.E{Key: "ok", Value: 1.0}
	switch cmd {
	case "hello", "ismaster", "isMaster":
		return bson.D{{Key: "isWritablePrimary", Value: d.primary() == n}, {Key: "maxWireVersion", Value: int32(25)}, ok}
	case "ping", "endSessions":
		return bson.D{ok}
	case "buildInfo":
		return bson.D{{Key: "version", Value: "8.0.0"}, ok}
	case "find":
		return d.find(n, ns, c)
	case "getMore":
		cn, _ := get(c, "collection")
		return d.getMore(n, fmt.Sprint(db)+"."+fmt.Sprint(cn), c)
	case "killCursors":
		ids, _ := get(c, "cursors")
		if a, isA := ids.(bson.A); isA {
			for _, x := range a {
				delete(n.cursors, asInt(x))
			}
		}
		return bson.D{{Key: "cursorsKilled", Value: ids}, ok}
	case "aggregate":
		return d.aggregate(n, ns, c)
	case "count":
		l, err := d.query(n, ns, sub(c, "query"))
		if err != nil {
			return replyErr(err)
		}
		return bson.D{{Key: "n", Value: int32(len(l))}, ok}
	case "distinct":
		l, err := d.query(n, ns, sub(c, "query"))
		if err != nil {
			return replyErr(err)
		}
		key, _ := get(c, "key")
		vals := bson.A{}
		for _, r := range l {
			v, has := lookup(r.doc, fmt.Sprint(key))
			if !has {
				continue
			}
			vs := bson.A{v}
			if a, isA := v.(bson.A); isA {
				vs = a
			}
		next:
			for _, v := range vs {
				for _, w := range vals {
					if compare(v, w) == 0 {
						continue next
					}
				}
				vals = append(vals, v)
			}
		}
		return bson.D{{Key: "values", Value: vals}, ok}
	case "insert":
		return d.batch(n, ns, c, list(c, "documents"), partial, func(s bson.D) (stmtResult, error) {
			if _, has := get(s, "_id"); !has {
				s = append(bson.D{{Key: "_id", Value: n.newID()}}, s...)
			}
			return d.insert(n, ns, s)
		})
	case "update":
		return d.batch(n, ns, c, list(c, "updates"), partial, func(s bson.D) (stmtResult, error) { return d.update(n, ns, s) })
	case "delete":
		return d.batch(n, ns, c, list(c, "deletes"), partial, func(s bson.D) (stmtResult, error) { return d.delete(n, ns, s) })
	case "findAndModify", "findandmodify":
		return d.findAndModify(n, ns, c)
	case "createIndexes":
		return bson.D{{Key: "numIndexesBefore", Value: int32(1)}, {Key: "numIndexesAfter", Value: int32(1)}, ok}
	case "drop":
		col := n.data[ns]
		if col != nil {
			for _, k := range append([]string(nil), col.order...) {
				d.write(n, ns, k, nil)
			}
		}
		return bson.D{ok}
	}
	return errDoc(cmdError{59, "no such command: '" + cmd + "'"})
}

func replyErr(err error) bson.D {
	if e, ok := err.(cmdError); ok {
		return errDoc(e)
	}
	return errDoc(cmdError{8, err.Error()})
}

func (d *Deployment) query(n *Node, ns string, f bson.D) ([]*rec, error) {
	c := n.data[ns]
	if c == nil {
		if _, err := Match(bson.D{}, f); err != nil {
			return nil, err
		}
		return nil, nil
	}
	var out []*rec
	l, rest := c.candidates(f)
	if len(l) == 0 {
		if _, err := Match(bson.D{}, f); err != nil {
			return nil, err
		}
	}
	for _, r := range l {
		m, err := Match(r.doc, rest)
		if err != nil {
			return nil, err
		}
		if m {
			out = append(out, r)
		}
	}
	switch d.Order {
	case 1:
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	case 2:
		sort.SliceStable(out, func(i, j int) bool {
			return simrt.Hash64(strconv.FormatInt(out[i].seq, 10)) < simrt.Hash64(strconv.FormatInt(out[j].seq, 10))
		})
	}
	return out, nil
}

func sortRecs(l []*rec, s bson.D) {
	if len(s) == 0 {
		return
	}
	sort.SliceStable(l, func(i, j int) bool {
		for _, e := range s {
			a, _ := lookup(l[i].doc, e.Key)
			b, _ := lookup(l[j].doc, e.Key)
			c := compare(a, b)
			if c != 0 {
				if num(e.Value) < 0 {
					return c > 0
				}
				return c < 0
			}
		}
		return false
	})
}

func project(doc bson.D, p bson.D) (bson.D, error) {
	if len(p) == 0 {
		return doc, nil
	}
	incl, excl, idOff := false, false, false
	for _, e := range p {
		if _, isD := e.Value.(bson.D); isD {
			return nil, cmdError{2, "simulated server: projection expression"}
		}
		on := asBool(e.Value, false)
		if e.Key == "_id" {
			idOff = !on
			if on {
				incl = incl || len(p) == 1
			}
			continue
		}
		if on {
			incl = true
		} else {
			excl = true
		}
	}
	if incl && excl {
		return nil, cmdError{31254, "Cannot do exclusion in inclusion projection"}
	}
	if !incl {
		out := doc
		for _, e := range p {
			if !asBool(e.Value, false) {
				out = unsetPath(out, e.Key)
			}
		}
		return out, nil
	}
	out := bson.D{}
	if id, ok := get(doc, "_id"); ok && !idOff {
		out = append(out, bson.E{Key: "_id", Value: id})
	}
	for _, f := range doc { // field order of the document
		if f.Key == "_id" {
			continue
		}
		for _, e := range p {
			if e.Key == f.Key {
				out = append(out, f)
			} else if strings.HasPrefix(e.Key, f.Key+".") {
				if v, ok := lookup(doc, e.Key); ok {
					var err error
					if out, err = setPath(out, e.Key, v); err != nil {
						return nil, err
					}
				}
			}
		}
	}
	return out, nil
}

func (d *Deployment) find(n *Node, ns string, c bson.D) bson.D {
	l, err := d.query(n, ns, sub(c, "filter"))
	if err != nil {
		return replyErr(err)
	}
	sortRecs(l, sub(c, "sort"))
	if v, ok := get(c, "skip"); ok {
		l = l[min(int(asInt(v)), len(l)):]
	}
	lim, _ := get(c, "limit")
	single, _ := get(c, "singleBatch")
	limit := int(asInt(lim))
	if limit < 0 {
		return errDoc(cmdError{51024, "BSON field 'limit' value must be >= 0, actual value '" + strconv.Itoa(limit) + "'"})
	}
	if limit > 0 && len(l) > limit {
		l = l[:limit]
	}
	docs := make([]bson.D, 0, len(l))
	for _, r := range l {
		p, err := project(r.doc, sub(c, "projection"))
		if err != nil {
			return replyErr(err)
		}
		docs = append(docs, p)
	}
	batch := 101
	if v, ok := get(c, "batchSize"); ok {
		batch = int(asInt(v))
	}
	if d.MaxBatch > 0 && batch > d.MaxBatch {
		batch = d.MaxBatch
	}
	if asBool(single, false) {
		batch = len(docs)
	}
	return d.cursorReply(n, ns, docs, batch, "firstBatch")
}

func (d *Deployment) cursorReply(n *Node, ns string, docs []bson.D, batch int, field string) bson.D {
	var id int64
	if len(docs) > batch {
		d.nextCursor++
		id = d.nextCursor
		n.cursors[id] = &cursor{ns: ns, docs: docs[batch:], at: time.Now()}
		docs = docs[:batch]
	}
	a := bson.A{}
	for _, x := range docs {
		a = append(a, x)
	}
	return bson.D{{Key: "cursor", Value: bson.D{{Key: field, Value: a}, {Key: "id", Value: id}, {Key: "ns", Value: ns}}}, {Key: "ok", Value: 1.0}}
}

func (d *Deployment) getMore(n *Node, ns string, c bson.D) bson.D {
	id := asInt(c[0].Value)
	cu := n.cursors[id]
	if cu == nil || time.Since(cu.at) > 10*time.Minute {
		return errDoc(cmdError{43, fmt.Sprintf("cursor id %d not found", id)})
	}
	delete(n.cursors, id)
	batch := 10000
	if v, ok := get(c, "batchSize"); ok && asInt(v) > 0 {
		batch = int(asInt(v))
	}
	if d.MaxBatch > 0 && batch > d.MaxBatch {
		batch = d.MaxBatch
	}
	docs := cu.docs
	var rest []bson.D
	if len(docs) > batch {
		rest = docs[batch:]
		docs = docs[:batch]
		n.cursors[id] = &cursor{ns: ns, docs: rest, at: time.Now()}
	} else {
		id = 0
	}
	a := bson.A{}
	for _, x := range docs {
		a = append(a, x)
	}
	return bson.D{{Key: "cursor", Value: bson.D{{Key: "nextBatch", Value: a}, {Key: "id", Value: id}, {Key: "ns", Value: ns}}}, {Key: "ok", Value: 1.0}}
}

func (d *Deployment) aggregate(n *Node, ns string, c bson.D) bson.D {
	pv, _ := get(c, "pipeline")
	stages, _ := pv.(bson.A)
	l, err := d.query(n, ns, bson.D{})
	if err != nil {
		return replyErr(err)
	}
	docs := make([]bson.D, 0, len(l))
	for _, r := range l {
		docs = append(docs, r.doc)
	}
	for _, st := range stages {
		s, _ := st.(bson.D)
		if len(s) != 1 {
			return errDoc(cmdError{40323, "A pipeline stage specification object must contain exactly one field."})
		}
		switch s[0].Key {
		case "$match":
			f, _ := s[0].Value.(bson.D)
			var out []bson.D
			for _, x := range docs {
				m, err := Match(x, f)
				if err != nil {
					return replyErr(err)
				}
				if m {
					out = append(out, x)
				}
			}
			docs = out
		case "$skip":
			docs = docs[min(int(asInt(s[0].Value)), len(docs)):]
		case "$limit":
			docs = docs[:min(int(asInt(s[0].Value)), len(docs))]
		case "$sort":
			var rs []*rec
			for _, x := range docs {
				rs = append(rs, &rec{doc: x})
			}
			f, _ := s[0].Value.(bson.D)
			sortRecs(rs, f)
			docs = docs[:0]
			for _, r := range rs {
				docs = append(docs, r.doc)
			}
		case "$group":
			f, _ := s[0].Value.(bson.D)
			idx, _ := get(f, "_id")
			groups := map[string]int{}
			var out []bson.D
			for _, x := range docs {
				id := idx
				if p, ok := idx.(string); ok && strings.HasPrefix(p, "$") {
					id, _ = lookup(x, p[1:])
				}
				k := keyOf(id)
				gi, ok := groups[k]
				if !ok {
					gi = len(out)
					groups[k] = gi
					g := bson.D{{Key: "_id", Value: id}}
					for _, e := range f {
						if e.Key != "_id" {
							g = append(g, bson.E{Key: e.Key, Value: int32(0)})
						}
					}
					out = append(out, g)
				}
				for i, e := range out[gi] {
					if e.Key == "_id" {
						continue
					}
					acc := sub(f, e.Key)
					if len(acc) != 1 || acc[0].Key != "$sum" {
						return errDoc(cmdError{15952, "simulated server: accumulator"})
					}
					v := acc[0].Value
					if p, ok := v.(string); ok {
						v, _ = lookup(x, strings.TrimPrefix(p, "$"))
					}
					if class(v) != 2 {
						v = int32(0)
					}
					out[gi][i].Value, _ = add(e.Value, v, false)
				}
			}
			docs = out
		case "$count":
			if len(docs) == 0 {
				docs = nil
			} else {
				docs = []bson.D{{{Key: fmt.Sprint(s[0].Value), Value: int32(len(docs))}}}
			}
		default:
			return errDoc(cmdError{40324, "Unrecognized pipeline stage name: '" + s[0].Key + "'"})
		}
	}
	batch := 101
	if v, ok := get(sub(c, "cursor"), "batchSize"); ok {
		batch = int(asInt(v))
	}
	return d.cursorReply(n, ns, docs, batch, "firstBatch")
}

// batch runs the statements of a write command.
func (d *Deployment) batch(n *Node, ns string, c bson.D, stmts []bson.D, partial bool, f func(bson.D) (stmtResult, error)) bson.D {
	ordered := true
	if v, ok := get(c, "ordered"); ok {
		ordered = asBool(v, true)
	}
	var t *txn
	if tv, ok := get(c, "txnNumber"); ok && !d.Standalone {
		k := hex.EncodeToString([]byte(keyOf(sub(c, "lsid"))))
		t = d.txns[k]
		num := asInt(tv)
		if t != nil && num < t.num {
			return errDoc(cmdError{225, "Cannot start transaction because a newer one has already started on this session"})
		}
		if t == nil || num > t.num {
			t = &txn{num: num, stmts: map[int]stmtResult{}}
			d.txns[k] = t
		}
	}
	total, mod := 0, 0
	upserted, werrs := bson.A{}, bson.A{}
	// A multi-document command lets others in between its documents.
	for i, s := range stmts {
		if i > 0 && d.DocYield {
			simrt.Yield("mongodoc", "")
			if d.primary() != n {
				return errDoc(cmdError{11602, "operation was interrupted"}, "RetryableWriteError")
			}
		}
		var r stmtResult
		var err error
		done := false
		if t != nil {
			r, done = t.stmts[i]
		}
		if !done {
			if partial && (i*7+len(stmts))%2 == 0 {
				err = cmdError{112, "WriteConflict error: this operation conflicted with another operation"}
			} else {
				r, err = f(s)
			}
			if err == nil && t != nil {
				t.stmts[i] = r
			}
		}
		if err != nil {
			e, ok := err.(cmdError)
			if !ok {
				e = cmdError{8, err.Error()}
			}
			werrs = append(werrs, bson.D{{Key: "index", Value: int32(i)}, {Key: "code", Value: int32(e.code)}, {Key: "errmsg", Value: e.msg}})
			if ordered {
				break
			}
			continue
		}
		total += r.n
		mod += r.mod
		if r.upserted != nil {
			upserted = append(upserted, bson.D{{Key: "index", Value: int32(i)}, {Key: "_id", Value: r.upserted}})
		}
	}
	out := bson.D{{Key: "n", Value: int32(total)}}
	if c[0].Key == "update" {
		out = append(out, bson.E{Key: "nModified", Value: int32(mod)})
		if len(upserted) > 0 {
			out = append(out, bson.E{Key: "upserted", Value: upserted})
		}
	}
	if len(werrs) > 0 {
		out = append(out, bson.E{Key: "writeErrors", Value: werrs})
	}
	return append(out, bson.E{Key: "ok", Value: 1.0})
}

func (d *Deployment) insert(n *Node, ns string, doc bson.D) (stmtResult, error) {
	id, _ := get(doc, "_id")
	k := keyOf(id)
	if c := n.data[ns]; c != nil && c.m[k] != nil {
		return stmtResult{}, cmdError{11000, "E11000 duplicate key error collection: " + ns}
	}
	d.seq++
	d.write(n, ns, k, &rec{seq: d.seq, doc: doc})
	return stmtResult{n: 1}, nil
}

func (d *Deployment) update(n *Node, ns string, s bson.D) (stmtResult, error) {
	q := sub(s, "q")
	uv, _ := get(s, "u")
	u, ok := uv.(bson.D)
	if !ok {
		return stmtResult{}, cmdError{9, "simulated server: update pipeline"}
	}
	multi, _ := get(s, "multi")
	l, err := d.query(n, ns, q)
	if err != nil {
		return stmtResult{}, err
	}
	if len(l) == 0 {
		if _, err := applyUpdate(bson.D{}, u, false); err != nil {
			return stmtResult{}, err
		}
		up, _ := get(s, "upsert")
		if !asBool(up, false) {
			return stmtResult{}, nil
		}
		doc := bson.D{}
		for _, e := range q {
			if strings.HasPrefix(e.Key, "$") {
				continue
			}
			v := e.Value
			if ops, isOp := isOps(v); isOp {
				w, has := get(ops, "$eq")
				if !has {
					continue
				}
				v = w
			}
			if doc, err = setPath(doc, e.Key, v); err != nil {
				return stmtResult{}, err
			}
		}
		if doc, err = applyUpdate(doc, u, true); err != nil {
			return stmtResult{}, err
		}
		id, has := get(doc, "_id")
		if !has {
			id = n.newID()
			doc = append(bson.D{{Key: "_id", Value: id}}, doc...)
		}
		if _, err := d.insert(n, ns, doc); err != nil {
			return stmtResult{}, err
		}
		return stmtResult{n: 1, upserted: id}, nil
	}
	if !asBool(multi, false) {
		l = l[:1]
	}
	r := stmtResult{}
	for i, x := range l {
		if i > 0 && d.DocYield {
			simrt.Yield("mongodoc", "")
			cur := n.data[ns].m[keyOfDoc(x.doc)]
			if cur == nil {
				continue
			}
			if m, _ := Match(cur.doc, q); !m {
				continue
			}
			x = cur
		}
		nd, err := applyUpdate(x.doc, u, false)
		if err != nil {
			return stmtResult{}, err
		}
		r.n++
		if !same(x.doc, nd) {
			r.mod++
			d.write(n, ns, keyOfDoc(nd), &rec{seq: x.seq, doc: nd})
		}
	}
	return r, nil
}

func keyOfDoc(doc bson.D) string {
	id, _ := get(doc, "_id")
	return keyOf(id)
}

// same compares documents whatever the order of their fields: a Go map reaches the
// server in another order each time, which must not decide what a run sees.
func same(a, b bson.D) bool {
	x, err1 := bson.Marshal(sorted(a))
	y, err2 := bson.Marshal(sorted(b))
	return err1 == nil && err2 == nil && bytes.Equal(x, y)
}

func sorted(v any) any {
	switch v := v.(type) {
	case bson.D:
		r := make(bson.D, len(v))
		for i, e := range v {
			r[i] = bson.E{Key: e.Key, Value: sorted(e.Value)}
		}
		sort.SliceStable(r, func(i, j int) bool { return r[i].Key < r[j].Key })
		return r
	case bson.A:
		r := make(bson.A, len(v))
		for i, e := range v {
			r[i] = sorted(e)
		}
		return r
	}
	return v
}

func (d *Deployment) delete(n *Node, ns string, s bson.D) (stmtResult, error) {
	q := sub(s, "q")
	lim, _ := get(s, "limit")
	l, err := d.query(n, ns, q)
	if err != nil {
		return stmtResult{}, err
	}
	if asInt(lim) == 1 && len(l) > 1 {
		l = l[:1]
	}
	r := stmtResult{}
	for i, x := range l {
		if i > 0 && d.DocYield {
			simrt.Yield("mongodoc", "")
			if d.primary() != n {
				return stmtResult{}, cmdError{11602, "operation was interrupted"}
			}
			cur := n.data[ns].m[keyOfDoc(x.doc)]
			if cur == nil {
				continue
			}
			if m, _ := Match(cur.doc, q); !m {
				continue
			}
		}
		d.write(n, ns, keyOfDoc(x.doc), nil)
		r.n++
	}
	return r, nil
}

func (d *Deployment) findAndModify(n *Node, ns string, c bson.D) bson.D {
	q := sub(c, "query")
	rm, _ := get(c, "remove")
	newV, _ := get(c, "new")
	up, _ := get(c, "upsert")
	l, err := d.query(n, ns, q)
	if err != nil {
		return replyErr(err)
	}
	sortRecs(l, sub(c, "sort"))
	var val any
	le := bson.D{{Key: "n", Value: int32(0)}, {Key: "updatedExisting", Value: false}}
	if len(l) > 0 {
		x := l[0]
		le[0].Value = int32(1)
		val = x.doc
		if asBool(rm, false) {
			d.write(n, ns, keyOfDoc(x.doc), nil)
		} else {
			nd, err := applyUpdate(x.doc, sub(c, "update"), false)
			if err != nil {
				return replyErr(err)
			}
			d.write(n, ns, keyOfDoc(nd), &rec{seq: x.seq, doc: nd})
			le[1].Value = true
			if asBool(newV, false) {
				val = nd
			}
		}
	} else if asBool(up, false) {
		r, err := d.update(n, ns, bson.D{{Key: "q", Value: q}, {Key: "u", Value: sub(c, "update")}, {Key: "upsert", Value: true}})
		if err != nil {
			return replyErr(err)
		}
		le[0].Value = int32(1)
		if asBool(newV, false) && r.upserted != nil {
			val = n.data[ns].m[keyOf(r.upserted)].doc
		}
	}
	if d, ok := val.(bson.D); ok {
		p, err := project(d, sub(c, "fields"))
		if err != nil {
			return replyErr(err)
		}
		val = p
	}
	return bson.D{{Key: "lastErrorObject", Value: le}, {Key: "value", Value: val}, {Key: "ok", Value: 1.0}}
}

var _ = netsim.None
