package simredis

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// A Lua 5.1 interpreter, of the size Redis scripts need. It executes the real
// scripts of the code under test; nothing about them is built in.

type luaErr struct{ v any }

func (e *luaErr) Error() string { return fmt.Sprint(luaTostr(e.v)) }

func luaPanic(format string, a ...any) { panic(&luaErr{fmt.Sprintf(format, a...)}) }

type luaTable struct {
	arr  []any // 1..n
	hash map[any]any
	keys []any // insertion order of hash keys
}

type luaFn func(args []any) []any

func (t *luaTable) get(k any) any {
	if f, ok := k.(float64); ok {
		if i := int(f); float64(i) == f && i >= 1 && i <= len(t.arr) {
			return t.arr[i-1]
		}
	}
	if t.hash == nil {
		return nil
	}
	return t.hash[k]
}

func (t *luaTable) set(k, v any) {
	if k == nil {
		luaPanic("table index is nil")
	}
	if f, ok := k.(float64); ok {
		if math.IsNaN(f) {
			luaPanic("table index is NaN")
		}
		if i := int(f); float64(i) == f && i >= 1 {
			if i <= len(t.arr) {
				if v == nil && i == len(t.arr) {
					t.arr = t.arr[:i-1]
					for len(t.arr) > 0 && t.arr[len(t.arr)-1] == nil {
						t.arr = t.arr[:len(t.arr)-1]
					}
					return
				}
				t.arr[i-1] = v
				return
			}
			if i == len(t.arr)+1 && v != nil {
				t.arr = append(t.arr, v)
				for {
					n := float64(len(t.arr) + 1)
					x, ok := t.hash[n]
					if !ok || x == nil {
						break
					}
					t.delHash(n)
					t.arr = append(t.arr, x)
				}
				return
			}
		}
	}
	if v == nil {
		t.delHash(k)
		return
	}
	if t.hash == nil {
		t.hash = map[any]any{}
	}
	if _, ok := t.hash[k]; !ok {
		t.keys = append(t.keys, k)
	}
	t.hash[k] = v
}

func (t *luaTable) delHash(k any) {
	if _, ok := t.hash[k]; !ok {
		return
	}
	delete(t.hash, k)
	for i, x := range t.keys {
		if x == k {
			t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
			break
		}
	}
}

func (t *luaTable) next(k any) (any, any) {
	i := 0
	if k != nil {
		if f, ok := k.(float64); ok && f == math.Trunc(f) && f >= 1 && int(f) <= len(t.arr) {
			i = int(f)
		} else {
			for j, x := range t.keys {
				if x == k {
					if j+1 < len(t.keys) {
						return t.keys[j+1], t.hash[t.keys[j+1]]
					}
					return nil, nil
				}
			}
			return nil, nil
		}
	}
	for ; i < len(t.arr); i++ {
		if t.arr[i] != nil {
			return float64(i + 1), t.arr[i]
		}
	}
	if len(t.keys) > 0 {
		return t.keys[0], t.hash[t.keys[0]]
	}
	return nil, nil
}

// ---- lexer

type tok struct {
	k    string // "name" "num" "str" "eof" or the operator/keyword itself
	s    string
	n    float64
	line int
}

var luaKw = map[string]bool{"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true, "false": true, "for": true, "function": true, "if": true, "in": true, "local": true, "nil": true, "not": true, "or": true, "repeat": true, "return": true, "then": true, "true": true, "until": true, "while": true}

func luaLex(src string) []tok {
	var out []tok
	line := 1
	i := 0
	long := func(at int) (string, int, bool) {
		j := at + 1
		eq := 0
		for j < len(src) && src[j] == '=' {
			eq++
			j++
		}
		if j >= len(src) || src[j] != '[' {
			return "", 0, false
		}
		j++
		end := "]" + strings.Repeat("=", eq) + "]"
		e := strings.Index(src[j:], end)
		if e < 0 {
			luaPanic("unfinished long string")
		}
		s := src[j : j+e]
		line += strings.Count(s, "\n")
		s = strings.TrimPrefix(s, "\n")
		return s, j + e + len(end), true
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			i += 2
			if i < len(src) && src[i] == '[' {
				if _, e, ok := long(i); ok {
					i = e
					continue
				}
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '[' && i+1 < len(src) && (src[i+1] == '[' || src[i+1] == '='):
			if s, e, ok := long(i); ok {
				out = append(out, tok{"str", s, 0, line})
				i = e
				continue
			}
			out = append(out, tok{"[", "", 0, line})
			i++
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(src) || src[j] == '\n' {
					luaPanic("unfinished string")
				}
				if src[j] == c {
					break
				}
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
						n := 0
						k := 0
						for k < 3 && j < len(src) && src[j] >= '0' && src[j] <= '9' {
							n = n*10 + int(src[j]-'0')
							j++
							k++
						}
						b.WriteByte(byte(n))
						j--
					default:
						b.WriteByte(src[j])
					}
					j++
					continue
				}
				b.WriteByte(src[j])
				j++
			}
			out = append(out, tok{"str", b.String(), 0, line})
			i = j + 1
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.' || src[j] == 'x' || src[j] == 'X' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F' || (src[j] == '-' || src[j] == '+') && (src[j-1] == 'e' || src[j-1] == 'E')) {
				j++
			}
			n, ok := luaStr2num(src[i:j])
			if !ok {
				luaPanic("malformed number near '%s'", src[i:j])
			}
			out = append(out, tok{"num", "", n, line})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			w := src[i:j]
			if luaKw[w] {
				out = append(out, tok{w, w, 0, line})
			} else {
				out = append(out, tok{"name", w, 0, line})
			}
			i = j
		default:
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">="} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				op = string(c)
				if !strings.Contains("+-*/%^#<>=(){}[];:,.", op) {
					luaPanic("unexpected symbol near '%s'", op)
				}
			}
			out = append(out, tok{op, op, 0, line})
			i += len(op)
		}
	}
	return append(out, tok{"eof", "", 0, line})
}

// ---- compiler: the syntax tree is compiled to closures

type luaEnv struct {
	vars   map[string]*any
	parent *luaEnv
	fn     *luaFrame
}

type luaFrame struct{ varargs []any }

func (e *luaEnv) find(n string) *any {
	for x := e; x != nil; x = x.parent {
		if x.vars != nil {
			if v, ok := x.vars[n]; ok {
				return v
			}
		}
	}
	return nil
}
func (e *luaEnv) local(n string, v any) {
	if e.vars == nil {
		e.vars = map[string]*any{}
	}
	e.vars[n] = &v
}

type expr func(*luaEnv) any
type mexpr struct {
	one   expr
	multi func(*luaEnv) []any
	isVar bool
	name  string
	obj   expr
	key   expr
}
type ctl int

const (
	ctlNone ctl = iota
	ctlBreak
	ctlReturn
)

type stmt func(*luaEnv) (ctl, []any)

type luaParser struct {
	t     []tok
	p     int
	vm    *luaVM
	depth int
}

type luaVM struct {
	globals map[string]any
	steps   int
}

func (p *luaParser) peek() string { return p.t[p.p].k }
func (p *luaParser) next() tok    { t := p.t[p.p]; p.p++; return t }
func (p *luaParser) accept(k string) bool {
	if p.peek() == k {
		p.p++
		return true
	}
	return false
}
func (p *luaParser) expect(k string) tok {
	if p.peek() != k {
		luaPanic("'%s' expected near '%s' (line %d)", k, p.t[p.p].s+p.t[p.p].k, p.t[p.p].line)
	}
	return p.next()
}

func (vm *luaVM) tick() {
	vm.steps++
	if vm.steps > 20000000 {
		luaPanic("script ran for too long")
	}
}

func (p *luaParser) block(ends ...string) stmt {
	var ss []stmt
	for {
		k := p.peek()
		for _, e := range ends {
			if k == e {
				return func(e *luaEnv) (ctl, []any) { return runBlock(ss, e) }
			}
		}
		if k == "eof" {
			luaPanic("unexpected end of script")
		}
		s := p.statement()
		if s != nil {
			ss = append(ss, s)
		}
		p.accept(";")
	}
}

func runBlock(ss []stmt, e *luaEnv) (ctl, []any) {
	ne := &luaEnv{parent: e, fn: e.fn}
	for _, s := range ss {
		if c, v := s(ne); c != ctlNone {
			return c, v
		}
	}
	return ctlNone, nil
}

func luaTruth(v any) bool { return v != nil && v != false }

func (p *luaParser) statement() stmt {
	vm := p.vm
	switch p.peek() {
	case ";":
		p.next()
		return nil
	case "local":
		p.next()
		if p.accept("function") {
			n := p.expect("name").s
			f := p.funcBody(false)
			return func(e *luaEnv) (ctl, []any) {
				e.local(n, nil)
				*e.vars[n] = f(e)
				return ctlNone, nil
			}
		}
		var names []string
		for {
			names = append(names, p.expect("name").s)
			if !p.accept(",") {
				break
			}
		}
		var ex []mexpr
		if p.accept("=") {
			ex = p.exprList()
		}
		return func(e *luaEnv) (ctl, []any) {
			vm.tick()
			vs := evalList(ex, e)
			for i, n := range names {
				var v any
				if i < len(vs) {
					v = vs[i]
				}
				e.local(n, v)
			}
			return ctlNone, nil
		}
	case "if":
		p.next()
		var conds []expr
		var blocks []stmt
		conds = append(conds, p.expr().one)
		p.expect("then")
		blocks = append(blocks, p.block("elseif", "else", "end"))
		var els stmt
		for {
			if p.accept("elseif") {
				conds = append(conds, p.expr().one)
				p.expect("then")
				blocks = append(blocks, p.block("elseif", "else", "end"))
				continue
			}
			if p.accept("else") {
				els = p.block("end")
			}
			p.expect("end")
			break
		}
		return func(e *luaEnv) (ctl, []any) {
			vm.tick()
			for i, c := range conds {
				if luaTruth(c(e)) {
					return blocks[i](e)
				}
			}
			if els != nil {
				return els(e)
			}
			return ctlNone, nil
		}
	case "while":
		p.next()
		c := p.expr().one
		p.expect("do")
		b := p.block("end")
		p.expect("end")
		return func(e *luaEnv) (ctl, []any) {
			for luaTruth(c(e)) {
				vm.tick()
				if r, v := b(e); r == ctlBreak {
					break
				} else if r == ctlReturn {
					return r, v
				}
			}
			return ctlNone, nil
		}
	case "repeat":
		p.next()
		var ss []stmt
		for p.peek() != "until" {
			if s := p.statement(); s != nil {
				ss = append(ss, s)
			}
			p.accept(";")
		}
		p.next()
		c := p.expr().one
		return func(e *luaEnv) (ctl, []any) {
			for {
				vm.tick()
				ne := &luaEnv{parent: e, fn: e.fn}
				for _, s := range ss {
					if r, v := s(ne); r == ctlBreak {
						return ctlNone, nil
					} else if r == ctlReturn {
						return r, v
					}
				}
				if luaTruth(c(ne)) {
					return ctlNone, nil
				}
			}
		}
	case "do":
		p.next()
		b := p.block("end")
		p.expect("end")
		return b
	case "for":
		p.next()
		n1 := p.expect("name").s
		if p.accept("=") {
			from := p.expr().one
			p.expect(",")
			to := p.expr().one
			var step expr
			if p.accept(",") {
				step = p.expr().one
			}
			p.expect("do")
			b := p.block("end")
			p.expect("end")
			return func(e *luaEnv) (ctl, []any) {
				a, z, s := luaForNum(from(e)), luaForNum(to(e)), 1.0
				if step != nil {
					s = luaForNum(step(e))
				}
				for i := a; (s > 0 && i <= z) || (s <= 0 && i >= z); i += s {
					vm.tick()
					ne := &luaEnv{parent: e, fn: e.fn}
					ne.local(n1, i)
					if r, v := b(ne); r == ctlBreak {
						break
					} else if r == ctlReturn {
						return r, v
					}
				}
				return ctlNone, nil
			}
		}
		names := []string{n1}
		for p.accept(",") {
			names = append(names, p.expect("name").s)
		}
		p.expect("in")
		ex := p.exprList()
		p.expect("do")
		b := p.block("end")
		p.expect("end")
		return func(e *luaEnv) (ctl, []any) {
			vs := evalList(ex, e)
			for len(vs) < 3 {
				vs = append(vs, nil)
			}
			f, st, c := vs[0], vs[1], vs[2]
			for {
				vm.tick()
				r := vm.call(f, []any{st, c})
				for len(r) < len(names) {
					r = append(r, nil)
				}
				if r[0] == nil {
					return ctlNone, nil
				}
				c = r[0]
				ne := &luaEnv{parent: e, fn: e.fn}
				for i, n := range names {
					ne.local(n, r[i])
				}
				if q, v := b(ne); q == ctlBreak {
					return ctlNone, nil
				} else if q == ctlReturn {
					return q, v
				}
			}
		}
	case "function":
		p.next()
		n := p.expect("name").s
		path := []string{n}
		method := false
		for p.peek() == "." || p.peek() == ":" {
			if p.next().k == ":" {
				method = true
			}
			path = append(path, p.expect("name").s)
		}
		f := p.funcBody(method)
		return func(e *luaEnv) (ctl, []any) {
			v := f(e)
			if len(path) == 1 {
				vm.assignName(e, n, v)
				return ctlNone, nil
			}
			o := vm.lookup(e, n)
			for _, k := range path[1 : len(path)-1] {
				o = vm.index(o, k)
			}
			vm.setIndex(o, path[len(path)-1], v)
			return ctlNone, nil
		}
	case "return":
		p.next()
		var ex []mexpr
		switch p.peek() {
		case "end", "eof", "else", "elseif", "until", ";":
		default:
			ex = p.exprList()
		}
		return func(e *luaEnv) (ctl, []any) {
			vm.tick()
			return ctlReturn, evalList(ex, e)
		}
	case "break":
		p.next()
		return func(*luaEnv) (ctl, []any) { return ctlBreak, nil }
	}
	first := p.suffixed()
	if p.peek() == "=" || p.peek() == "," {
		targets := []mexpr{first}
		for p.accept(",") {
			targets = append(targets, p.suffixed())
		}
		p.expect("=")
		ex := p.exprList()
		return func(e *luaEnv) (ctl, []any) {
			vm.tick()
			vs := evalList(ex, e)
			for i, t := range targets {
				var v any
				if i < len(vs) {
					v = vs[i]
				}
				if t.isVar {
					vm.assignName(e, t.name, v)
				} else if t.obj != nil {
					vm.setIndex(t.obj(e), t.key(e), v)
				} else {
					luaPanic("cannot assign")
				}
			}
			return ctlNone, nil
		}
	}
	if first.multi == nil {
		luaPanic("syntax error near '%s' (line %d)", p.t[p.p].k, p.t[p.p].line)
	}
	return func(e *luaEnv) (ctl, []any) {
		vm.tick()
		first.multi(e)
		return ctlNone, nil
	}
}

func luaForNum(v any) float64 {
	n, ok := luaTonum(v)
	if !ok {
		luaPanic("'for' value must be a number")
	}
	return n
}

func evalList(ex []mexpr, e *luaEnv) []any {
	out := make([]any, 0, len(ex))
	for i, x := range ex {
		if i == len(ex)-1 && x.multi != nil {
			return append(out, x.multi(e)...)
		}
		out = append(out, x.one(e))
	}
	return out
}

func (p *luaParser) exprList() []mexpr {
	l := []mexpr{p.expr()}
	for p.accept(",") {
		l = append(l, p.expr())
	}
	return l
}

func (vm *luaVM) lookup(e *luaEnv, n string) any {
	if v := e.find(n); v != nil {
		return *v
	}
	v, ok := vm.globals[n]
	if !ok {
		luaPanic("Script attempted to access nonexistent global variable '%s'", n)
	}
	return v
}

func (vm *luaVM) assignName(e *luaEnv, n string, v any) {
	if x := e.find(n); x != nil {
		*x = v
		return
	}
	luaPanic("Attempt to modify a readonly table / global variable '%s'", n)
}

func (vm *luaVM) index(o, k any) any {
	switch x := o.(type) {
	case *luaTable:
		return x.get(k)
	case string:
		if s, ok := vm.globals["string"].(*luaTable); ok {
			return s.get(k)
		}
	}
	luaPanic("attempt to index a %s value", luaType(o))
	return nil
}

func (vm *luaVM) setIndex(o, k, v any) {
	t, ok := o.(*luaTable)
	if !ok {
		luaPanic("attempt to index a %s value", luaType(o))
	}
	t.set(k, v)
}

func (vm *luaVM) call(f any, args []any) []any {
	fn, ok := f.(luaFn)
	if !ok {
		luaPanic("attempt to call a %s value", luaType(f))
	}
	return fn(args)
}

var luaBin = map[string][2]int{"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3}, "..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9}}

func (p *luaParser) expr() mexpr { return p.subexpr(0) }

func (p *luaParser) subexpr(limit int) mexpr {
	p.depth++
	if p.depth > 180 {
		luaPanic("chunk has too many syntax levels")
	}
	defer func() { p.depth-- }()
	var left mexpr
	switch p.peek() {
	case "not":
		p.next()
		x := p.subexpr(8).one
		left = mexpr{one: func(e *luaEnv) any { return !luaTruth(x(e)) }}
	case "-":
		p.next()
		x := p.subexpr(8).one
		left = mexpr{one: func(e *luaEnv) any { return -luaArith(x(e)) }}
	case "#":
		p.next()
		x := p.subexpr(8).one
		left = mexpr{one: func(e *luaEnv) any {
			switch v := x(e).(type) {
			case string:
				return float64(len(v))
			case *luaTable:
				return float64(len(v.arr))
			default:
				luaPanic("attempt to get length of a %s value", luaType(v))
				return nil
			}
		}}
	default:
		left = p.simple()
	}
	for {
		op := p.peek()
		pr, ok := luaBin[op]
		if !ok || pr[0] <= limit {
			return left
		}
		p.next()
		l, r := left.one, p.subexpr(pr[1]).one
		left = mexpr{one: luaBinop(op, l, r)}
	}
}

func luaArith(v any) float64 {
	n, ok := luaTonum(v)
	if !ok {
		luaPanic("attempt to perform arithmetic on a %s value", luaType(v))
	}
	return n
}

func luaConcat(v any) string {
	switch v.(type) {
	case string, float64:
		return luaTostr(v)
	}
	luaPanic("attempt to concatenate a %s value", luaType(v))
	return ""
}

func luaLess(a, b any, eq bool) bool {
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok {
			return x < y || eq && x == y
		}
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y || eq && x == y
		}
	}
	luaPanic("attempt to compare %s with %s", luaType(a), luaType(b))
	return false
}

func luaEq(a, b any) bool {
	if _, ok := a.(luaFn); ok {
		return false
	}
	if _, ok := b.(luaFn); ok {
		return false
	}
	return a == b
}

func luaBinop(op string, l, r expr) expr {
	switch op {
	case "and":
		return func(e *luaEnv) any {
			v := l(e)
			if !luaTruth(v) {
				return v
			}
			return r(e)
		}
	case "or":
		return func(e *luaEnv) any {
			v := l(e)
			if luaTruth(v) {
				return v
			}
			return r(e)
		}
	}
	return func(e *luaEnv) any {
		a, b := l(e), r(e)
		switch op {
		case "==":
			return luaEq(a, b)
		case "~=":
			return !luaEq(a, b)
		case "<":
			return luaLess(a, b, false)
		case ">":
			return luaLess(b, a, false)
		case "<=":
			return luaLess(a, b, true)
		case ">=":
			return luaLess(b, a, true)
		case "..":
			return luaConcat(a) + luaConcat(b)
		case "+":
			return luaArith(a) + luaArith(b)
		case "-":
			return luaArith(a) - luaArith(b)
		case "*":
			return luaArith(a) * luaArith(b)
		case "/":
			return luaArith(a) / luaArith(b)
		case "%":
			x, y := luaArith(a), luaArith(b)
			return x - math.Floor(x/y)*y
		case "^":
			return math.Pow(luaArith(a), luaArith(b))
		}
		return nil
	}
}

func (p *luaParser) simple() mexpr {
	t := p.t[p.p]
	konst := func(v any) mexpr { p.next(); return mexpr{one: func(*luaEnv) any { return v }} }
	switch t.k {
	case "num":
		return konst(t.n)
	case "str":
		return konst(t.s)
	case "nil":
		return konst(nil)
	case "true":
		return konst(true)
	case "false":
		return konst(false)
	case "...":
		p.next()
		return mexpr{one: func(e *luaEnv) any {
			if len(e.fn.varargs) == 0 {
				return nil
			}
			return e.fn.varargs[0]
		}, multi: func(e *luaEnv) []any { return e.fn.varargs }}
	case "{":
		return p.table()
	case "function":
		p.next()
		return mexpr{one: p.funcBody(false)}
	}
	return p.suffixed()
}

func (p *luaParser) table() mexpr {
	p.expect("{")
	type field struct {
		key expr
		val mexpr
	}
	var fs []field
	for p.peek() != "}" {
		switch {
		case p.peek() == "[":
			p.next()
			k := p.expr().one
			p.expect("]")
			p.expect("=")
			fs = append(fs, field{k, p.expr()})
		case p.peek() == "name" && p.t[p.p+1].k == "=":
			n := p.next().s
			p.next()
			fs = append(fs, field{func(*luaEnv) any { return n }, p.expr()})
		default:
			fs = append(fs, field{nil, p.expr()})
		}
		if !p.accept(",") && !p.accept(";") {
			break
		}
	}
	p.expect("}")
	return mexpr{one: func(e *luaEnv) any {
		t := &luaTable{}
		n := 1
		for i, f := range fs {
			if f.key != nil {
				t.set(f.key(e), f.val.one(e))
				continue
			}
			if i == len(fs)-1 && f.val.multi != nil {
				for _, v := range f.val.multi(e) {
					t.set(float64(n), v)
					n++
				}
				continue
			}
			t.set(float64(n), f.val.one(e))
			n++
		}
		return t
	}}
}

func (p *luaParser) funcBody(method bool) expr {
	p.expect("(")
	var params []string
	if method {
		params = append(params, "self")
	}
	va := false
	for p.peek() != ")" {
		if p.accept("...") {
			va = true
			break
		}
		params = append(params, p.expect("name").s)
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	b := p.block("end")
	p.expect("end")
	return func(e *luaEnv) any {
		return luaFn(func(args []any) []any {
			ne := &luaEnv{parent: e, fn: &luaFrame{}}
			for i, n := range params {
				var v any
				if i < len(args) {
					v = args[i]
				}
				ne.local(n, v)
			}
			if va && len(args) > len(params) {
				ne.fn.varargs = args[len(params):]
			}
			_, v := b(ne)
			return v
		})
	}
}

func (p *luaParser) suffixed() mexpr {
	vm := p.vm
	var x mexpr
	switch p.peek() {
	case "name":
		n := p.next().s
		x = mexpr{one: func(e *luaEnv) any { return vm.lookup(e, n) }, isVar: true, name: n}
	case "(":
		p.next()
		in := p.expr().one
		p.expect(")")
		x = mexpr{one: in}
	default:
		luaPanic("unexpected symbol near '%s' (line %d)", p.t[p.p].k, p.t[p.p].line)
	}
	for {
		switch p.peek() {
		case ".":
			p.next()
			k := p.expect("name").s
			o := x.one
			x = mexpr{one: func(e *luaEnv) any { return vm.index(o(e), k) }, obj: o, key: func(*luaEnv) any { return k }}
		case "[":
			p.next()
			k := p.expr().one
			p.expect("]")
			o := x.one
			x = mexpr{one: func(e *luaEnv) any { return vm.index(o(e), k(e)) }, obj: o, key: k}
		case ":":
			p.next()
			n := p.expect("name").s
			args := p.args()
			o := x.one
			m := func(e *luaEnv) []any {
				v := o(e)
				return vm.call(vm.index(v, n), append([]any{v}, evalList(args, e)...))
			}
			x = mexpr{one: first(m), multi: m}
		case "(", "str", "{":
			args := p.args()
			o := x.one
			m := func(e *luaEnv) []any { vm.tick(); return vm.call(o(e), evalList(args, e)) }
			x = mexpr{one: first(m), multi: m}
		default:
			return x
		}
	}
}

func first(m func(*luaEnv) []any) expr {
	return func(e *luaEnv) any {
		if r := m(e); len(r) > 0 {
			return r[0]
		}
		return nil
	}
}

func (p *luaParser) args() []mexpr {
	switch p.peek() {
	case "str":
		s := p.next().s
		return []mexpr{{one: func(*luaEnv) any { return s }}}
	case "{":
		return []mexpr{p.table()}
	}
	p.expect("(")
	var l []mexpr
	if p.peek() != ")" {
		l = p.exprList()
	}
	p.expect(")")
	return l
}

// ---- values

func luaType(v any) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *luaTable:
		return "table"
	}
	return "function"
}

func luaNumStr(f float64) string {
	switch {
	case math.IsInf(f, 1):
		return "inf"
	case math.IsInf(f, -1):
		return "-inf"
	case math.IsNaN(f):
		return "nan"
	}
	return fmtG(f, 14)
}

// fmtG formats like C's %.{prec}g.
func fmtG(f float64, prec int) string {
	if f == 0 {
		if math.Signbit(f) {
			return "-0"
		}
		return "0"
	}
	s := strconv.FormatFloat(f, 'e', prec-1, 64)
	i := strings.IndexByte(s, 'e')
	exp, _ := strconv.Atoi(s[i+1:])
	trim := func(m string) string {
		if strings.Contains(m, ".") {
			m = strings.TrimRight(strings.TrimRight(m, "0"), ".")
		}
		return m
	}
	if exp < -4 || exp >= prec {
		sign := "+"
		if exp < 0 {
			sign = "-"
			exp = -exp
		}
		return fmt.Sprintf("%se%s%02d", trim(s[:i]), sign, exp)
	}
	return trim(strconv.FormatFloat(f, 'f', prec-1-exp, 64))
}

func luaTostr(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return luaNumStr(x)
	case string:
		return x
	case *luaTable:
		if e, ok := x.get("err").(string); ok {
			return e
		}
		return "table"
	}
	return "function"
}

func luaStr2num(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	if s == "" {
		return 0, false
	}
	l := strings.ToLower(s)
	if strings.HasPrefix(l, "0x") {
		n, err := strconv.ParseUint(l[2:], 16, 64)
		return float64(n), err == nil
	}
	if strings.Contains(l, "_") {
		return 0, false
	}
	n, err := strconv.ParseFloat(l, 64)
	if err != nil && !math.IsInf(n, 0) {
		return 0, false
	}
	return n, true
}

func luaTonum(v any) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case string:
		return luaStr2num(x)
	}
	return 0, false
}

func arg(a []any, i int) any {
	if i < len(a) {
		return a[i]
	}
	return nil
}

func argNum(a []any, i int, fn string) float64 {
	n, ok := luaTonum(arg(a, i))
	if !ok {
		luaPanic("bad argument #%d to '%s' (number expected, got %s)", i+1, fn, luaType(arg(a, i)))
	}
	return n
}

func argStr(a []any, i int, fn string) string {
	switch x := arg(a, i).(type) {
	case string:
		return x
	case float64:
		return luaTostr(x)
	}
	luaPanic("bad argument #%d to '%s' (string expected, got %s)", i+1, fn, luaType(arg(a, i)))
	return ""
}

func argTab(a []any, i int, fn string) *luaTable {
	t, ok := arg(a, i).(*luaTable)
	if !ok {
		luaPanic("bad argument #%d to '%s' (table expected, got %s)", i+1, fn, luaType(arg(a, i)))
	}
	return t
}

func newLuaVM() *luaVM {
	vm := &luaVM{globals: map[string]any{}}
	g := vm.globals
	tab := func(m map[string]luaFn) *luaTable {
		t := &luaTable{}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			t.set(k, m[k])
		}
		return t
	}
	g["tostring"] = luaFn(func(a []any) []any { return []any{luaTostr(arg(a, 0))} })
	g["tonumber"] = luaFn(func(a []any) []any {
		if b := arg(a, 1); b != nil {
			n, err := strconv.ParseInt(strings.TrimSpace(luaTostr(arg(a, 0))), int(argNum(a, 1, "tonumber")), 64)
			if err != nil {
				return []any{nil}
			}
			return []any{float64(n)}
		}
		if n, ok := luaTonum(arg(a, 0)); ok {
			return []any{n}
		}
		return []any{nil}
	})
	g["type"] = luaFn(func(a []any) []any { return []any{luaType(arg(a, 0))} })
	g["next"] = luaFn(func(a []any) []any {
		k, v := argTab(a, 0, "next").next(arg(a, 1))
		if k == nil {
			return []any{nil}
		}
		return []any{k, v}
	})
	ipairsIter := luaFn(func(a []any) []any {
		i := a[1].(float64) + 1
		v := argTab(a, 0, "ipairs").get(i)
		if v == nil {
			return []any{nil}
		}
		return []any{i, v}
	})
	g["ipairs"] = luaFn(func(a []any) []any { return []any{ipairsIter, argTab(a, 0, "ipairs"), 0.0} })
	g["pairs"] = luaFn(func(a []any) []any { return []any{g["next"], argTab(a, 0, "pairs"), nil} })
	unpack := luaFn(func(a []any) []any {
		t := argTab(a, 0, "unpack")
		from, to := 1, len(t.arr)
		if arg(a, 1) != nil {
			from = int(argNum(a, 1, "unpack"))
		}
		if arg(a, 2) != nil {
			to = int(argNum(a, 2, "unpack"))
		}
		if to-from+1 >= 7995 {
			luaPanic("too many results to unpack")
		}
		var out []any
		for i := from; i <= to; i++ {
			out = append(out, t.get(float64(i)))
		}
		return out
	})
	g["unpack"] = unpack
	g["error"] = luaFn(func(a []any) []any { panic(&luaErr{arg(a, 0)}) })
	g["assert"] = luaFn(func(a []any) []any {
		if !luaTruth(arg(a, 0)) {
			if m := arg(a, 1); m != nil {
				panic(&luaErr{m})
			}
			luaPanic("assertion failed!")
		}
		return a
	})
	g["pcall"] = luaFn(func(a []any) (out []any) {
		defer func() {
			if r := recover(); r != nil {
				le, ok := r.(*luaErr)
				if !ok {
					panic(r)
				}
				out = []any{false, le.v}
			}
		}()
		return append([]any{true}, vm.call(arg(a, 0), a[1:])...)
	})
	g["select"] = luaFn(func(a []any) []any {
		if arg(a, 0) == "#" {
			return []any{float64(len(a) - 1)}
		}
		n := int(argNum(a, 0, "select"))
		if n >= len(a) {
			return nil
		}
		return a[n:]
	})
	tinsert := luaFn(func(a []any) []any {
		t := argTab(a, 0, "insert")
		if len(a) == 2 {
			t.set(float64(len(t.arr)+1), a[1])
			return nil
		}
		i := int(argNum(a, 1, "insert"))
		if i < 1 || i > len(t.arr)+1 {
			t.set(float64(i), a[2])
			return nil
		}
		t.arr = append(t.arr, nil)
		copy(t.arr[i:], t.arr[i-1:])
		t.arr[i-1] = a[2]
		return nil
	})
	g["table"] = tab(map[string]luaFn{
		"insert": tinsert,
		"getn":   func(a []any) []any { return []any{float64(len(argTab(a, 0, "getn").arr))} },
		"unpack": unpack,
		"remove": func(a []any) []any {
			t := argTab(a, 0, "remove")
			n := len(t.arr)
			if n == 0 {
				return []any{nil}
			}
			i := n
			if arg(a, 1) != nil {
				i = int(argNum(a, 1, "remove"))
			}
			if i < 1 || i > n {
				return []any{nil}
			}
			v := t.arr[i-1]
			t.arr = append(t.arr[:i-1], t.arr[i:]...)
			return []any{v}
		},
		"concat": func(a []any) []any {
			t := argTab(a, 0, "concat")
			sep := ""
			if arg(a, 1) != nil {
				sep = argStr(a, 1, "concat")
			}
			var s []string
			for _, v := range t.arr {
				s = append(s, luaConcat(v))
			}
			return []any{strings.Join(s, sep)}
		},
		"sort": func(a []any) []any {
			t := argTab(a, 0, "sort")
			sort.SliceStable(t.arr, func(i, j int) bool {
				if f := arg(a, 1); f != nil {
					r := vm.call(f, []any{t.arr[i], t.arr[j]})
					return luaTruth(arg(r, 0))
				}
				return luaLess(t.arr[i], t.arr[j], false)
			})
			return nil
		},
	})
	one := func(name string, f func(float64) float64) luaFn {
		return func(a []any) []any { return []any{f(argNum(a, 0, name))} }
	}
	m := tab(map[string]luaFn{
		"floor": one("floor", math.Floor), "ceil": one("ceil", math.Ceil), "abs": one("abs", math.Abs), "sqrt": one("sqrt", math.Sqrt),
		"max": func(a []any) []any {
			x := argNum(a, 0, "max")
			for i := range a {
				x = math.Max(x, argNum(a, i, "max"))
			}
			return []any{x}
		},
		"min": func(a []any) []any {
			x := argNum(a, 0, "min")
			for i := range a {
				x = math.Min(x, argNum(a, i, "min"))
			}
			return []any{x}
		},
		"fmod": func(a []any) []any { return []any{math.Mod(argNum(a, 0, "fmod"), argNum(a, 1, "fmod"))} },
	})
	m.set("huge", math.Inf(1))
	g["math"] = m
	g["string"] = tab(map[string]luaFn{
		"len":   func(a []any) []any { return []any{float64(len(argStr(a, 0, "len")))} },
		"lower": func(a []any) []any { return []any{strings.ToLower(argStr(a, 0, "lower"))} },
		"upper": func(a []any) []any { return []any{strings.ToUpper(argStr(a, 0, "upper"))} },
		"rep":   func(a []any) []any { return []any{strings.Repeat(argStr(a, 0, "rep"), int(argNum(a, 1, "rep")))} },
		"sub": func(a []any) []any {
			s := argStr(a, 0, "sub")
			i, j := 1, -1
			if arg(a, 1) != nil {
				i = int(argNum(a, 1, "sub"))
			}
			if arg(a, 2) != nil {
				j = int(argNum(a, 2, "sub"))
			}
			if i < 0 {
				i = max(len(s)+i+1, 1)
			} else if i == 0 {
				i = 1
			}
			if j < 0 {
				j = len(s) + j + 1
			} else if j > len(s) {
				j = len(s)
			}
			if i > j {
				return []any{""}
			}
			return []any{s[i-1 : j]}
		},
		"find": func(a []any) []any {
			s, p := argStr(a, 0, "find"), argStr(a, 1, "find")
			if strings.ContainsAny(p, "^$*+?.([%-") && !luaTruth(arg(a, 3)) {
				luaPanic("simulated Redis: patterns are not supported")
			}
			i := strings.Index(s, p)
			if i < 0 {
				return []any{nil}
			}
			return []any{float64(i + 1), float64(i + len(p))}
		},
		"format": func(a []any) []any {
			f := argStr(a, 0, "format")
			var b strings.Builder
			n := 1
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					b.WriteByte(f[i])
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("-+ #0123456789.", f[j]) >= 0 {
					j++
				}
				if j >= len(f) {
					luaPanic("invalid format")
				}
				spec := f[i:j]
				switch f[j] {
				case '%':
					b.WriteByte('%')
				case 's':
					fmt.Fprintf(&b, spec+"s", luaTostr(arg(a, n)))
					n++
				case 'd', 'i':
					fmt.Fprintf(&b, spec+"d", int64(argNum(a, n, "format")))
					n++
				case 'f':
					fmt.Fprintf(&b, spec+"f", argNum(a, n, "format"))
					n++
				case 'g':
					prec := 6
					if k := strings.IndexByte(spec, '.'); k >= 0 {
						prec, _ = strconv.Atoi(spec[k+1:])
					}
					b.WriteString(fmtG(argNum(a, n, "format"), prec))
					n++
				default:
					luaPanic("simulated Redis: format %%%c is not supported", f[j])
				}
				i = j
			}
			return []any{b.String()}
		},
	})
	return vm
}

// luaRun runs a script. call performs a command; it returns a reply value.
func luaRun(body string, keys, argv []string, call func(args []string) any) (res any, err error) {
	defer func() {
		if r := recover(); r != nil {
			le, ok := r.(*luaErr)
			if !ok {
				panic(r)
			}
			if t, ok := le.v.(*luaTable); ok {
				if m, ok := t.get("err").(string); ok {
					err = fmt.Errorf("%s", m)
					return
				}
			}
			err = fmt.Errorf("ERR Error running script: %s", luaTostr(le.v))
		}
	}()
	vm := newLuaVM()
	lst := func(s []string) *luaTable {
		t := &luaTable{}
		for _, x := range s {
			t.arr = append(t.arr, x)
		}
		return t
	}
	vm.globals["KEYS"] = lst(keys)
	vm.globals["ARGV"] = lst(argv)
	conv := func(a []any) []string {
		if len(a) == 0 {
			panic(&luaErr{"Please specify at least one argument for this redis lib call"})
		}
		out := make([]string, len(a))
		for i, v := range a {
			switch x := v.(type) {
			case string:
				out[i] = x
			case float64:
				out[i] = fmtG(x, 17)
			default:
				panic(&luaErr{"Lua redis lib command arguments must be strings or integers"})
			}
		}
		return out
	}
	errTab := func(m string) *luaTable { t := &luaTable{}; t.set("err", m); return t }
	rt := &luaTable{}
	rt.set("call", luaFn(func(a []any) []any {
		r := call(conv(a))
		if e, ok := r.(error); ok {
			panic(&luaErr{errTab(e.Error())})
		}
		return []any{toLua(r)}
	}))
	rt.set("pcall", luaFn(func(a []any) []any {
		r := call(conv(a))
		if e, ok := r.(error); ok {
			return []any{errTab(e.Error())}
		}
		return []any{toLua(r)}
	}))
	rt.set("status_reply", luaFn(func(a []any) []any { t := &luaTable{}; t.set("ok", arg(a, 0)); return []any{t} }))
	rt.set("error_reply", luaFn(func(a []any) []any { return []any{errTab(luaTostr(arg(a, 0)))} }))
	rt.set("log", luaFn(func(a []any) []any { return nil }))
	rt.set("setresp", luaFn(func(a []any) []any { return nil }))
	rt.set("replicate_commands", luaFn(func(a []any) []any { return []any{true} }))
	rt.set("LOG_WARNING", 3.0)
	vm.globals["redis"] = rt
	p := &luaParser{t: luaLex(body), vm: vm}
	b := p.block("eof")
	_, v := b(&luaEnv{fn: &luaFrame{}})
	return fromLua(arg(v, 0)), nil
}

func toLua(r any) any {
	switch x := r.(type) {
	case nil:
		return false
	case int64:
		return float64(x)
	case string:
		return x
	case status:
		t := &luaTable{}
		t.set("ok", string(x))
		return t
	case double:
		return fmtScore(float64(x))
	case mapReply:
		return toLua([]any(x))
	case []any:
		t := &luaTable{}
		for i, e := range x {
			t.set(float64(i+1), toLua(e))
		}
		return t
	}
	panic(fmt.Sprintf("toLua %T", r))
}

func fromLua(v any) any {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if x {
			return int64(1)
		}
		return nil
	case float64:
		return int64(x)
	case string:
		return x
	case *luaTable:
		if e, ok := x.get("err").(string); ok {
			return fmt.Errorf("%s", e)
		}
		if s, ok := x.get("ok").(string); ok {
			return status(s)
		}
		out := []any{}
		for i := 1; ; i++ {
			e := x.get(float64(i))
			if e == nil {
				break
			}
			out = append(out, fromLua(e))
		}
		return out
	}
	return nil
}
