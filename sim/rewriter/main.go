// The rewriter turns deckard's sources into the sources of the simulation: every
// construct whose outcome the Go runtime would decide (locks, goroutines, selects,
// channel operations, map iteration, the clock) and every constructor which opens
// a connection to the outside is replaced by the simulator's. It works on the
// syntax and types of whatever is in the tree, writes the results to a scratch
// directory and an overlay file for the go command; the tree is not touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	Name       string
	GoFiles    []string
	Error      *struct{ Err string }
}

const base = "verifsim/"

// replaced functions and types: import path -> name -> replacement.
var table = map[string]map[string]string{
	"sync": {
		"Mutex": "simrt.Mutex", "RWMutex": "simrt.RWMutex", "WaitGroup": "simrt.WaitGroup", "Once": "simrt.Once",
		"Cond": "simrt.Cond", "NewCond": "simrt.NewCond", "Map": "simrt.SyncMap",
		"OnceFunc": "simrt.OnceFunc", "OnceValue": "simrt.OnceValue", "OnceValues": "simrt.OnceValues",
	},
	"context": {"AfterFunc": "simrt.CtxAfterFunc"},
	"time":    {"Now": "simrt.Now", "Since": "simrt.Since", "Until": "simrt.Until", "Sleep": "simrt.Sleep", "AfterFunc": "simrt.AfterFunc"},
	"github.com/redis/go-redis/v9": {
		"NewClient": "simhooks.RedisNewClient", "NewClusterClient": "simhooks.RedisNewClusterClient",
		"NewUniversalClient": "simhooks.RedisNewUniversalClient",
	},
	"go.mongodb.org/mongo-driver/v2/mongo":   {"Connect": "simhooks.MongoConnect"},
	"github.com/patrickmn/go-cache":          {"New": "simhooks.NewGoCache"},
	"google.golang.org/grpc":                 {"NewServer": "simhooks.GrpcNewServer"},
	"net":                                    {"Listen": "simhooks.NetListen"},
	"os/signal":                              {"Notify": "simhooks.SignalNotify", "NotifyContext": "simhooks.SignalNotifyContext", "Stop": "simhooks.SignalStop"},
	"net/http":                               {"ListenAndServe": "simhooks.HTTPListenAndServe"},
	"github.com/elastic/go-elasticsearch/v7": {"NewClient": "simhooks.ElasticNewClient", "NewDefaultClient": "simhooks.ElasticNewDefaultClient"},
}

// replaced methods: package.Type.Method -> a function which takes the receiver (a pointer) and
// gives the method.
var methods = map[string]string{
	"net/http.Server.ListenAndServe":    "simhooks.HTTPServerListenAndServe",
	"net/http.Server.ListenAndServeTLS": "simhooks.HTTPServerListenAndServeTLS",
	"net.ListenConfig.Listen":           "simhooks.ListenConfigListen",
}

// something to refer to in each of those packages, so that the import stays used.
var keep = map[string]string{
	"sync": "Locker", "time": "Duration", "github.com/redis/go-redis/v9": "Options",
	"go.mongodb.org/mongo-driver/v2/mongo": "Client", "github.com/patrickmn/go-cache": "Cache",
	"context": "Context", "net": "Addr", "os/signal": "", "net/http": "Client", "github.com/elastic/go-elasticsearch/v7": "Config", "google.golang.org/grpc": "Server",
}

// packages without preemption points between statements: start-up and leaf code.
var noPoints = []string{"internal/config", "internal/logger", "internal/trace", "internal/dtime", "internal/project", "internal/metrics", "internal/cmd", "internal/queue/message", "internal/queue/score", "internal/queue/utils", "internal/queue/entities"}

type edit struct {
	lo, hi int
	f      func() string
	seq    int
}

type file struct {
	src   []byte
	edits []*edit
	fset  *token.FileSet
	info  *types.Info
	busy  map[*edit]bool
	hooks bool
	keeps map[string]bool
	inSel map[ast.Node]bool
}

func (f *file) off(p token.Pos) int { return f.fset.Position(p).Offset }
func (f *file) add(lo, hi int, fn func() string) {
	f.edits = append(f.edits, &edit{lo, hi, fn, len(f.edits)})
}
func (f *file) text(lo, hi int, s string) { f.add(lo, hi, func() string { return s }) }
func (f *file) node(n ast.Node) string    { return f.render(f.off(n.Pos()), f.off(n.End())) }

func (f *file) render(lo, hi int) string {
	var b strings.Builder
	pos := lo
	for _, e := range f.edits {
		if f.busy[e] || e.lo < pos || e.hi > hi || (e.lo == e.hi && e.lo == hi && hi != len(f.src)) {
			continue
		}
		if e.lo < lo {
			continue
		}
		b.Write(f.src[pos:e.lo])
		f.busy[e] = true
		b.WriteString(e.f())
		delete(f.busy, e)
		pos = e.hi
	}
	b.Write(f.src[pos:hi])
	return b.String()
}

func (f *file) sortEdits() {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.lo != b.lo {
			return a.lo < b.lo
		}
		// insertions first, then the widest replacement
		ai, bi := a.lo == a.hi, b.lo == b.hi
		if ai != bi {
			return ai
		}
		if a.hi != b.hi {
			return a.hi > b.hi
		}
		return a.seq < b.seq
	})
}

func (f *file) isChan(e ast.Expr) bool {
	t := f.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (f *file) walk(af *ast.File, points bool) {
	twoValue := map[ast.Expr]bool{}
	ast.Inspect(af, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				twoValue[ast.Unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				twoValue[ast.Unparen(n.Values[0])] = true
			}
		}
		return true
	})
	nsel := 0
	ast.Inspect(af, func(n ast.Node) bool {
		if n == nil || f.inSel[n] {
			return n != nil
		}
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if s := f.info.Selections[n]; s != nil && s.Kind() == types.MethodVal && len(s.Index()) == 1 {
				t, amp := s.Recv(), "&"
				if pt, ok := t.(*types.Pointer); ok {
					t, amp = pt.Elem(), ""
				}
				if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil {
					if r := methods[nt.Obj().Pkg().Path()+"."+nt.Obj().Name()+"."+n.Sel.Name]; r != "" {
						f.add(f.off(n.Pos()), f.off(n.End()), func() string { return r + "(" + amp + f.node(n.X) + ")" })
					}
				}
			}
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := f.info.Uses[id].(*types.PkgName); ok {
					p := pn.Imported().Path()
					if r := table[p][n.Sel.Name]; r != "" {
						f.text(f.off(n.Pos()), f.off(n.End()), r)
						f.keeps[id.Name+"\x00"+p] = true
					}
				}
			}
		case *ast.RangeStmt:
			t := f.info.TypeOf(n.X)
			if t == nil {
				break
			}
			fn := ""
			switch t.Underlying().(type) {
			case *types.Map:
				fn = "simrt.MapRange("
			case *types.Chan:
				fn = "simrt.ChanRange("
			}
			if fn != "" {
				f.text(f.off(n.X.Pos()), f.off(n.X.Pos()), fn)
				f.text(f.off(n.X.End()), f.off(n.X.End()), ")")
			}
		case *ast.GoStmt:
			f.goStmt(n)
		case *ast.SendStmt:
			f.add(f.off(n.Pos()), f.off(n.End()), func() string {
				return "simrt.Snd(" + f.node(n.Chan) + ")(" + f.node(n.Value) + ")"
			})
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				fn := "simrt.Recv1("
				if twoValue[n] {
					fn = "simrt.Recv2("
				}
				f.add(f.off(n.Pos()), f.off(n.End()), func() string { return fn + f.node(n.X) + ")" })
			}
		case *ast.SelectStmt:
			nsel++
			f.selectStmt(n, nsel)
		case *ast.FuncDecl:
			f.span(n)
		case *ast.BlockStmt:
			if points {
				f.points(n.List)
			}
		case *ast.CaseClause:
			if points {
				f.points(n.Body)
			}
		case *ast.CommClause:
			if points {
				f.points(n.Body)
			}
		}
		return true
	})
}

// The maintenance passes, whose start and end the harness wants to know.
var spans = map[string]bool{"ProcessLockPool": true, "ProcessTimeoutMessages": true, "ComputeMetrics": true, "RecoveryMessagesPool": true, "RemoveExceedingMessages": true, "RemoveTTLMessages": true}

func (f *file) span(n *ast.FuncDecl) {
	if n.Recv != nil || !spans[n.Name.Name] || n.Body == nil || len(n.Type.Params.List) == 0 || len(n.Type.Params.List[0].Names) == 0 {
		return
	}
	ctx := n.Type.Params.List[0].Names[0]
	if t := f.info.TypeOf(n.Type.Params.List[0].Type); t == nil || t.String() != "context.Context" || ctx.Name == "_" {
		return
	}
	at := f.off(n.Body.Lbrace) + 1
	f.text(at, at, fmt.Sprintf("defer simrt.Span(%q, %s)(); ", n.Name.Name, ctx.Name))
}

func (f *file) points(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		}
		done := false
		f.add(f.off(s.Pos()), f.off(s.Pos()), func() string {
			if done { // it belongs before the statement, not before its first operand again
				return ""
			}
			done = true
			return "simrt.P(); "
		})
	}
}

func (f *file) goStmt(n *ast.GoStmt) {
	call := n.Call
	fun := ast.Unparen(call.Fun)
	if id, ok := fun.(*ast.Ident); ok {
		if _, b := f.info.Uses[id].(*types.Builtin); b {
			return
		}
		if _, g := f.info.Instances[id]; g {
			return
		}
	}
	if tv, ok := f.info.Types[fun]; ok && tv.IsType() {
		return
	}
	name := "go"
	switch x := fun.(type) {
	case *ast.Ident:
		name = x.Name
	case *ast.SelectorExpr:
		name = x.Sel.Name
	case *ast.FuncLit:
		name = "func"
	}
	fn := "simrt.GoR("
	if call.Ellipsis.IsValid() {
		fn = "simrt.GoRV("
	}
	f.add(f.off(n.Pos()), f.off(n.End()), func() string {
		s := fn + strconv.Quote(name) + ", " + f.node(call.Fun)
		for _, a := range call.Args {
			s += ", " + f.node(a)
		}
		// keep the line structure of whatever follows
		return s + ")"
	})
}

func (f *file) selectStmt(n *ast.SelectStmt, id int) {
	type cl struct {
		c    *ast.CommClause
		recv *ast.UnaryExpr
		lhs  []ast.Expr
		tok  string
		send *ast.SendStmt
	}
	var cls []cl
	hasDefault := false
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		x := cl{c: c}
		switch st := c.Comm.(type) {
		case nil:
			hasDefault = true
			continue
		case *ast.SendStmt:
			x.send = st
			f.inSel[st] = true
		case *ast.ExprStmt:
			x.recv = ast.Unparen(st.X).(*ast.UnaryExpr)
			f.inSel[x.recv] = true
		case *ast.AssignStmt:
			x.recv = ast.Unparen(st.Rhs[0]).(*ast.UnaryExpr)
			x.lhs = st.Lhs
			x.tok = st.Tok.String()
			f.inSel[x.recv] = true
		}
		cls = append(cls, x)
	}
	if len(cls) == 0 && !hasDefault {
		f.text(f.off(n.Pos()), f.off(n.End()), "for { simrt.Block() }")
		return
	}
	f.add(f.off(n.Pos()), f.off(n.Body.Lbrace)+1, func() string {
		var names, vals []string
		for i, x := range cls {
			names = append(names, fmt.Sprintf("sim%d_%d", id, i))
			if x.send != nil {
				vals = append(vals, "simrt.SC("+f.node(x.send.Chan)+")("+f.node(x.send.Value)+")")
			} else {
				vals = append(vals, "simrt.R("+f.node(x.recv.X)+")")
			}
		}
		h := "switch "
		if len(names) > 0 {
			h += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
		}
		return h + "simrt.Select(" + strings.Join(append([]string{strconv.FormatBool(hasDefault)}, names...), ", ") + ") {"
	})
	for i, x := range cls {
		f.add(f.off(x.c.Pos()), f.off(x.c.Colon)+1, func() string {
			s := fmt.Sprintf("case %d:", i)
			v := fmt.Sprintf("sim%d_%d", id, i)
			if len(x.lhs) > 0 {
				var l []string
				for _, e := range x.lhs {
					l = append(l, f.node(e))
				}
				r := v + ".V"
				if len(x.lhs) == 2 {
					r += ", " + v + ".OK"
				}
				s += " " + strings.Join(l, ", ") + " " + x.tok + " " + r + ";"
			}
			return s
		})
	}
	if !hasDefault {
		f.text(f.off(n.Body.Rbrace), f.off(n.Body.Rbrace), "default: panic(\"unreachable\");")
	}
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewriter: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	modfile := flag.String("modfile", "", "")
	out := flag.String("out", "", "scratch directory")
	src := flag.String("src", "", "directory of the simulation packages")
	overlay := flag.String("overlay", "", "overlay file to write")
	flag.Parse()

	cmd := exec.Command("go", "list", "-modfile="+*modfile, "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,Error", "./internal/...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*listPkg
	dec := json.NewDecoder(strings.NewReader(string(raw)))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if strings.HasPrefix(p.ImportPath, "github.com/takenet/deckard/internal/") {
			pkgs = append(pkgs, &p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	repl := map[string]string{}
	for _, p := range pkgs {
		if p.Name == "mocks" || len(p.GoFiles) == 0 {
			continue
		}
		points := true
		for _, np := range noPoints {
			if strings.Contains(p.ImportPath+"/", np+"/") {
				points = false
			}
		}
		var files []*ast.File
		for _, g := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{Selections: map[*ast.SelectorExpr]*types.Selection{}, Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "rewriter: type error:", err) }}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("%s: %v", p.ImportPath, err)
		}
		rel := strings.TrimPrefix(p.ImportPath, "github.com/takenet/deckard/")
		for i, g := range p.GoFiles {
			path := filepath.Join(p.Dir, g)
			b, err := os.ReadFile(path)
			if err != nil {
				die("%v", err)
			}
			f := &file{src: b, fset: fset, info: info, busy: map[*edit]bool{}, keeps: map[string]bool{}, inSel: map[ast.Node]bool{}}
			af := files[i]
			name := af.Name.Name
			f.walk(af, points)
			if name == "main" {
				name = "deckardmain"
			}
			f.text(f.off(af.Name.Pos()), f.off(af.Name.End()), name+"; import simrt \""+base+"simrt\"; import simhooks \""+base+"hooks\"")
			f.sortEdits()
			res := f.render(0, len(b)) + "\nvar _ = simrt.Active\nvar _ = simhooks.Use\n"
			for k := range f.keeps {
				id, path, _ := strings.Cut(k, "\x00")
				if kt := keep[path]; kt != "" {
					res += "var _ " + id + "." + kt + "\n"
				} else {
					res += "var _ = " + id + ".Ignored\n"
				}
			}
			dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__")+"__"+g)
			if err := os.WriteFile(dst, []byte(res), 0o644); err != nil {
				die("%v", err)
			}
			if af.Name.Name == "main" {
				repl[filepath.Join(*repo, "internal/verifsim/deckardmain", g)] = dst
			} else {
				repl[path] = dst
			}
		}
	}
	// The harness, which must lie inside the module to import its internal packages.
	err = filepath.Walk(*src, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		r, _ := filepath.Rel(*src, path)
		repl[filepath.Join(*repo, "internal/verifsim", r)] = path
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(*overlay, j, 0o644); err != nil {
		die("%v", err)
	}
}
