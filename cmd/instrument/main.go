// Command instrument writes a copy of a Go package in which every source of
// nondeterminism goes through verif/simrt. It works on the type-checked syntax
// tree, so it follows whatever the working tree contains.
//
//	instrument -src DIR -out DIR [-set const=value,...] [-epoch N]
//
// DIR must be a scratch copy of the module: the tool runs "go list" in it.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var replaced = map[string]map[string]string{
	"sync/atomic": {"Int32": "AtomicInt32", "Int64": "AtomicInt64", "Uint32": "AtomicUint32", "Uint64": "AtomicUint64",
		"Uintptr": "AtomicUintptr", "Bool": "AtomicBool", "Pointer": "AtomicPointer", "Value": "AtomicValue"},
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond",
		"NewCond": "NewCond", "Pool": "Pool", "Locker": "Locker", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues", "Map": "Map"},
	"runtime": {"Gosched": "Gosched", "NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "SetFinalizer": "SetFinalizer"},
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After",
		"Timer": "Timer", "NewTimer": "NewTimer", "AfterFunc": "AfterFunc", "Ticker": "Ticker", "NewTicker": "NewTicker", "Tick": "TimeTick"},
	"math/rand": {"Seed": "RandSeed", "Int": "RandInt", "Intn": "RandIntn", "Int31": "RandInt31", "Int31n": "RandInt31n", "Int63": "RandInt63", "Int63n": "RandInt63n",
		"Uint32": "RandUint32", "Uint64": "RandUint64", "Float32": "RandFloat32", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
	"math/rand/v2": {"Int": "RandInt", "IntN": "RandIntn", "Int32": "RandInt31", "Int32N": "RandInt31n", "Int64": "RandInt63", "Int64N": "RandInt63n", "UintN": "RandUintN",
		"Uint32": "RandUint32", "Uint32N": "RandUint32N", "Uint64": "RandUint64", "Uint64N": "RandUint64N", "Float32": "RandFloat32", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
}

func init() {
	for _, op := range []string{"Load", "Store", "Swap", "Add", "CompareAndSwap", "And", "Or"} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			if t == "Pointer" && (op == "Add" || op == "And" || op == "Or") || t == "Uintptr" && (op == "And" || op == "Or") {
				continue
			}
			replaced["sync/atomic"][op+t] = op + t
		}
	}
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

type listed struct {
	Dir, ImportPath, Export string
	GoFiles                 []string
	Name                    string
	DepOnly                 bool
	Error                   *struct{ Err string }
}

type rewriter struct {
	fset    *token.FileSet
	pkg     *types.Package
	info    *types.Info
	atomicF map[types.Object]bool // fields and variables passed by address to sync/atomic
	seq     int
	used    bool
	counts  map[string]int

	zeroed, inits []string // package variables without a value, init functions
	setters       map[token.Pos]string
	epoch         string

	race     bool
	sites    []string
	captured map[types.Object]bool // local variables shared with a goroutine's function literal
	last     token.Pos
}

func main() {
	src := flag.String("src", "", "scratch copy of the module")
	out := flag.String("out", "", "output directory")
	set := flag.String("set", "", "constant overrides")
	epoch := flag.String("epoch", "", "removals per epoch")
	race := flag.Bool("race", false, "report plain memory accesses for race detection")
	tags := flag.String("tags", "", "build tags")
	flag.Parse()

	cmd := exec.Command("go", "list", "-tags", *tags, "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,Name,DepOnly,Error", ".")
	cmd.Dir = *src
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	exports := map[string]string{}
	var target listed
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		exports[l.ImportPath] = l.Export
		if !l.DepOnly {
			target = l
		}
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	directives := map[string][]string{}
	for _, n := range target.GoFiles {
		p := filepath.Join(target.Dir, n)
		data, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		for _, l := range strings.Split(string(data), "\n") {
			if strings.HasPrefix(l, "//go:linkname") {
				directives[n] = append(directives[n], l)
			}
		}
		f, err := parser.ParseFile(fset, p, data, 0)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
		names = append(names, n)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})}
	pkg, err := conf.Check(target.ImportPath, fset, files, info)
	if err != nil {
		die("%v", err)
	}
	r := &rewriter{fset: fset, pkg: pkg, info: info, atomicF: map[types.Object]bool{}, setters: map[token.Pos]string{}, counts: map[string]int{}, epoch: *epoch, race: *race, captured: map[types.Object]bool{}}
	for _, f := range files {
		r.collectAtomic(f)
		if r.race {
			r.collectCaptured(f)
		}
	}
	overrides := map[string]string{}
	if *set != "" {
		for _, kv := range strings.Split(*set, ",") {
			p := strings.SplitN(kv, "=", 2)
			overrides[p[0]] = p[1]
		}
	}
	r.guardKnobs(files, overrides)
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	for i, f := range files {
		r.used = false
		r.overrideConsts(f, overrides)
		r.file(f)
		r.packageState(f)
		var buf bytes.Buffer
		if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
			die("%s: %v", names[i], err)
		}
		for _, d := range directives[names[i]] {
			fmt.Fprintf(&buf, "\n%s\n", d)
		}
		if err := os.WriteFile(filepath.Join(*out, names[i]), buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	if r.race {
		var buf bytes.Buffer
		fmt.Fprintf(&buf, "package %s\n\nimport simrt__ \"verif/simrt\"\n\nfunc init() {\n\tsimrt__.RaceBuild = true\n\tsimrt__.Sites = []string{\n", target.Name)
		for _, n := range r.sites {
			fmt.Fprintf(&buf, "\t\t%q,\n", n)
		}
		buf.WriteString("\t}\n}\n")
		if err := os.WriteFile(filepath.Join(*out, "zz_simrt_sites.go"), buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	hook := "func ZZFirstBlock(t interface{}, n uint64) bool { return false }\n\nconst ZZMaxBlocks = 0\n"
	if o, ok := pkg.Scope().Lookup("Tree").(*types.TypeName); ok {
		if st, ok := o.Type().Underlying().(*types.Struct); ok {
			next, max := false, int64(0)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if b, ok := f.Type().(*types.Basic); ok && f.Name() == "nextFreeBlock" && b.Kind() == types.Uint64 {
					next = true
				}
				if a, ok := f.Type().(*types.Array); ok && f.Name() == "blocks" {
					max = a.Len()
				}
			}
			if next && max > 0 {
				if v, ok := overrides["maxBlockCount"]; ok {
					max, _ = strconv.ParseInt(v, 10, 64)
				}
				hook = fmt.Sprintf("func ZZFirstBlock(t *Tree, n uint64) bool { t.nextFreeBlock = n; return true }\n\nconst ZZMaxBlocks = %d\n", max)
			}
		}
	}
	hook = "package " + target.Name + "\n\nimport simrt__ \"verif/simrt\"\n\n" + hook + r.reset()
	if err := os.WriteFile(filepath.Join(*out, "zz_simrt_hook.go"), []byte(hook), 0o644); err != nil {
		die("%v", err)
	}
	var ks []string
	for k := range r.counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%s=%d ", k, r.counts[k])
	}
	fmt.Println()
}

// packageState makes the package level variables of a file resettable: every
// simulated execution starts with the state of a new process.
func (r *rewriter) packageState(f *ast.File) {
	fn := func(name string, body ...ast.Stmt) {
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
	}
	for _, d := range append([]ast.Decl(nil), f.Decls...) {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				d.Name = ast.NewIdent(fmt.Sprintf("simInit%d__", len(r.inits)))
				r.inits = append(r.inits, d.Name.Name)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				v := s.(*ast.ValueSpec)
				if len(v.Values) == 0 {
					for _, n := range v.Names {
						if n.Name != "_" {
							r.zeroed = append(r.zeroed, n.Name)
						}
					}
					continue
				}
				set := func(at *ast.Ident, lhs []ast.Expr, rhs ast.Expr) {
					name := fmt.Sprintf("simSet%d__", len(r.setters))
					r.setters[at.Pos()] = name
					fn(name, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}})
				}
				if len(v.Names) == len(v.Values) {
					for i, n := range v.Names {
						if n.Name != "_" {
							set(n, []ast.Expr{ast.NewIdent(n.Name)}, v.Values[i])
						}
					}
					continue
				}
				var lhs []ast.Expr
				for _, n := range v.Names {
					lhs = append(lhs, ast.NewIdent(n.Name))
				}
				set(v.Names[0], lhs, v.Values[0])
			}
		}
	}
}

// reset writes the function that starts the package again.
func (r *rewriter) reset() string {
	var b strings.Builder
	b.WriteString("\nfunc ZZReset() {\n\tsimrt__.Package(func() {\n")
	for _, n := range r.zeroed {
		fmt.Fprintf(&b, "\t\tsimrt__.Zero(&%s)\n", n)
	}
	for _, in := range r.info.InitOrder {
		if s, ok := r.setters[in.Lhs[0].Pos()]; ok {
			fmt.Fprintf(&b, "\t\t%s()\n", s)
		}
	}
	for _, n := range r.inits {
		fmt.Fprintf(&b, "\t\t%s()\n", n)
	}
	b.WriteString("\t})\n}\n\nfunc init() {\n")
	for _, n := range r.inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("}\n")
	return b.String()
}

// collectCaptured finds the local variables used by function literals that
// run as goroutines.
func (r *rewriter) collectCaptured(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		g, ok := n.(*ast.GoStmt)
		if !ok {
			return true
		}
		fl, ok := unparen(g.Call.Fun).(*ast.FuncLit)
		if !ok {
			return true
		}
		ast.Inspect(fl.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != r.pkg.Scope() && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
					r.captured[v] = true
				}
			}
			return true
		})
		return true
	})
}

// site numbers an access.
func (r *rewriter) site(n ast.Node) ast.Expr {
	if n.Pos().IsValid() {
		r.last = n.Pos()
	}
	p := r.fset.Position(r.last)
	s := fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
	if len(r.sites) == 0 || r.sites[len(r.sites)-1] != s {
		r.sites = append(r.sites, s)
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(r.sites) - 1)}
}

// location: an expression that denotes memory other tasks may reach, so that
// reading or writing it is an access.
func (r *rewriter) location(e ast.Expr) bool {
	if !r.race {
		return false
	}
	tv, ok := r.info.Types[e]
	if id, isID := e.(*ast.Ident); isID {
		v, ok := r.info.Uses[id].(*types.Var)
		if !ok || v.IsField() {
			return false
		}
		return (v.Parent() == r.pkg.Scope() || r.captured[v]) && r.plainType(v.Type())
	}
	if !ok || !tv.Addressable() || !tv.IsValue() || !r.plainType(tv.Type) {
		return false
	}
	switch x := e.(type) {
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		return s != nil && s.Kind() == types.FieldVal && r.reached(x.X)
	case *ast.IndexExpr:
		return r.reached(x.X)
	case *ast.StarExpr:
		return true
	}
	return false
}

// plainType: not one whose accesses are synchronisation.
func (r *rewriter) plainType(t types.Type) bool {
	switch t := t.(type) {
	case *types.Named:
		if p := t.Obj().Pkg(); p != nil && (p.Path() == "sync" || p.Path() == "sync/atomic") {
			return false
		}
		return r.plainType(t.Underlying())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !r.plainType(t.Field(i).Type()) {
				return false
			}
		}
	case *types.Array:
		return false
	}
	return true
}

// reached: the operand leads to memory outside the local variables.
func (r *rewriter) reached(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	switch t := t.Underlying().(type) {
	case *types.Pointer, *types.Slice:
		return true
	case *types.Struct, *types.Array:
		_ = t
		switch x := unparen(e).(type) {
		case *ast.Ident:
			v, ok := r.info.Uses[x].(*types.Var)
			return ok && (v.Parent() == r.pkg.Scope() || r.captured[v])
		case *ast.SelectorExpr:
			return r.reached(x.X)
		case *ast.IndexExpr:
			return r.reached(x.X)
		case *ast.StarExpr:
			return true
		}
	}
	return false
}

func (r *rewriter) access(fn string, e ast.Expr, at ast.Node) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.call(fn, &ast.UnaryExpr{Op: token.AND, X: e}, r.site(at))}}
}

// operand rewrites the operand of a selector or index expression: a struct or
// array value is only passed through.
func (r *rewriter) operand(p *ast.Expr) {
	if r.race {
		if t := r.typeOf(*p); t != nil {
			switch t.Underlying().(type) {
			case *types.Struct, *types.Array:
				r.addr(p)
				return
			}
		}
	}
	r.exprP(p)
}

func (r *rewriter) overrideConsts(f *ast.File, ov map[string]string) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.CONST {
			continue
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			for i, n := range v.Names {
				if i < len(v.Values) {
					r.epochLit(v.Values[i])
				}
				if val, ok := ov[n.Name]; ok && i < len(v.Values) {
					_, lit := v.Values[i].(*ast.BasicLit)
					_, expr := v.Values[i].(*ast.BinaryExpr)
					if lit || expr && n.Name == "locksShift" {
						v.Values[i] = &ast.BasicLit{Kind: token.INT, Value: val}
						r.counts["knob_"+n.Name]++
					}
				}
			}
		}
	}
}

// epochLit shortens the number of removals per epoch.
func (r *rewriter) epochLit(e ast.Expr) {
	l, ok := e.(*ast.BasicLit)
	if r.epoch == "" || !ok || l.Kind != token.INT {
		return
	}
	n, err := strconv.Atoi(r.epoch)
	if err != nil {
		return
	}
	switch strings.ReplaceAll(l.Value, "_", "") {
	case "1000":
		l.Value = strconv.Itoa(n)
		r.counts["knob_epoch"]++
	case "999":
		l.Value = strconv.Itoa(n - 1)
		r.counts["knob_epoch"]++
	}
}

// guardKnobs drops the overrides of constants whose value also seems to be
// written out somewhere else: changing one of the two would break the code.
func (r *rewriter) guardKnobs(files []*ast.File, ov map[string]string) {
	own := map[*ast.BasicLit]bool{}
	width := map[*ast.BasicLit]bool{} // shift counts and array lengths
	bound := map[*ast.BasicLit]bool{} // limits of slices
	isLen := func(e ast.Expr) bool {
		c, ok := e.(*ast.CallExpr)
		if !ok {
			return false
		}
		id, ok := c.Fun.(*ast.Ident)
		return ok && (id.Name == "len" || id.Name == "cap")
	}
	near := map[string][]string{
		"fullAllocFrom":  {"63", "64", "65", "126", "127", "128", "129", "130"},
		"blockSizeShift": {"18", "19", "20", "21", "4095", "4096", "262143", "262144", "2097151", "2097152", "1048576"},
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ValueSpec:
				for i, id := range n.Names {
					if _, ok := ov[id.Name]; ok && i < len(n.Values) {
						if l, ok := n.Values[i].(*ast.BasicLit); ok {
							own[l] = true
						}
					}
				}
			case *ast.BinaryExpr:
				switch n.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					if l, ok := n.Y.(*ast.BasicLit); ok && isLen(n.X) {
						bound[l] = true
					}
					if l, ok := n.X.(*ast.BasicLit); ok && isLen(n.Y) {
						bound[l] = true
					}
				}
				if l, ok := n.Y.(*ast.BasicLit); ok && (n.Op == token.SHL || n.Op == token.SHR) {
					width[l] = true
				}
			case *ast.ArrayType:
				if l, ok := n.Len.(*ast.BasicLit); ok {
					width[l] = true
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "make" {
					for _, a := range n.Args[1:] {
						if l, ok := a.(*ast.BasicLit); ok {
							bound[l] = true
						}
					}
				}
				if se, ok := n.Fun.(*ast.SelectorExpr); ok {
					if p := r.pkgOf(se.X); p != "" && p != r.pkg.Path() {
						for _, a := range n.Args {
							if l, ok := a.(*ast.BasicLit); ok {
								own[l] = true
							}
						}
					}
				}
			case *ast.BasicLit:
				if n.Kind != token.INT || own[n] {
					return true
				}
				for knob, vals := range near {
					if knob == "fullAllocFrom" && width[n] || knob == "blockSizeShift" && bound[n] {
						continue
					}
					for _, v := range vals {
						if _, on := ov[knob]; on && strings.ReplaceAll(n.Value, "_", "") == v && !(knob == "fullAllocFrom" && v == "126") {
							delete(ov, knob)
							if knob == "blockSizeShift" {
								delete(ov, "locksShift")
								delete(ov, "maxBlockCount")
							}
							r.counts["knob_dropped_"+knob]++
						}
					}
				}
			}
			return true
		})
	}
}

func (r *rewriter) pkgOf(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

func (r *rewriter) collectAtomic(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) == 0 {
			return true
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok || r.pkgOf(s.X) != "sync/atomic" {
			return true
		}
		a := c.Args[0]
		for {
			if p, ok := a.(*ast.ParenExpr); ok {
				a = p.X
			} else if cv, ok := a.(*ast.CallExpr); ok && len(cv.Args) == 1 {
				a = cv.Args[0] // conversion
			} else {
				break
			}
		}
		if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.AND {
			if sel, ok := u.X.(*ast.SelectorExpr); ok {
				if o := r.info.Uses[sel.Sel]; o != nil {
					r.atomicF[o] = true
				}
			}
		}
		return true
	})
}

func rt(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("simrt__"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	r.used = true
	r.counts[name]++
	return &ast.CallExpr{Fun: rt(name), Args: args}
}

func (r *rewriter) tmp() *ast.Ident {
	r.seq++
	return ast.NewIdent("sim__" + strconv.Itoa(r.seq))
}

func (r *rewriter) file(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Type != nil {
				r.fieldList(d.Recv)
				r.exprP((*ast.Expr)(nil))
				r.funcType(d.Type)
			}
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			r.genDecl(d)
		}
	}
	// fix imports
	usedPk := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					usedPk[pn.Imported().Path()] = true
				}
			}
		}
		return true
	})
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if _, ok := replaced[p]; ok && !usedPk[p] {
			im.Name = ast.NewIdent("_")
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("simrt__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/simrt"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	f.Comments = nil
	f.Doc = nil
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			r.exprP(&s.Type)
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.exprP(&u.X)
					s.Values[0] = r.call("ChanRecv2", u.X)
					continue
				}
			}
			for i := range s.Values {
				r.exprP(&s.Values[i])
			}
		case *ast.TypeSpec:
			r.exprP(&s.Type)
		}
	}
}

func (r *rewriter) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		r.exprP(&f.Type)
	}
}

func (r *rewriter) funcType(t *ast.FuncType) {
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *rewriter) block(b *ast.BlockStmt) {
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// sharedSlots: slices, arrays and pointers to arrays of fixed size integers or pointers.
func (r *rewriter) sharedSlots(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Uint64, types.Int32, types.Uint32, types.Int64:
		return true
	}
	return false
}

// simple: an expression without side effects that may be evaluated twice.
func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simple(e.X)
	case *ast.StarExpr:
		return simple(e.X)
	case *ast.ParenExpr:
		return simple(e.X)
	case *ast.IndexExpr:
		return simple(e.X) && simple(e.Index)
	case *ast.UnaryExpr:
		return e.Op != token.ARROW && simple(e.X)
	case *ast.BinaryExpr:
		return simple(e.X) && simple(e.Y)
	}
	return false
}

// sharedVar: a struct field reached through a pointer, a package variable, a
// dereferenced pointer or an element of a slice, of basic type.
func (r *rewriter) sharedVar(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Basic); !ok {
		return false
	}
	switch e := e.(type) {
	case *ast.SelectorExpr:
		return r.pkgOf(e.X) == ""
	case *ast.StarExpr, *ast.IndexExpr:
		return true
	}
	return false
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	if s != nil && s.Pos().IsValid() {
		r.last = s.Pos()
	}
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		r.exprP(&s.X)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.SendStmt:
		r.exprP(&s.Chan)
		r.exprP(&s.Value)
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("ChanSend", s.Chan), Args: []ast.Expr{s.Value}}}
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		if r.sharedVar(s.X) && simple(s.X) {
			x := s.X
			if ie, ok := x.(*ast.IndexExpr); ok && r.isMap(ie.X) {
				break
			}
			c := clone(x)
			return &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(x)}, Tok: token.ASSIGN, Rhs: []ast.Expr{
				&ast.BinaryExpr{X: r.call("Rd", c), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}
		}
	case *ast.AssignStmt:
		return r.assign(s)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		r.exprCall(s.Call)
	case *ast.ReturnStmt:
		for i := range s.Results {
			r.exprP(&s.Results[i])
		}
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		r.exprP(&s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		r.exprP(&s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				r.exprP(&cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				r.exprP(&cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		r.exprP(&s.Cond)
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
		r.tick(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
	}
	return s
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) tick(b *ast.BlockStmt) {
	b.List = append([]ast.Stmt{&ast.ExprStmt{X: r.call("Tick")}}, b.List...)
}

// lhs rewrites the operands of an assignment target, and adds a scheduling
// point before a plain store to shared slots.
func (r *rewriter) lhs(e ast.Expr) ast.Expr {
	loc := r.location(e)
	switch x := e.(type) {
	case *ast.IndexExpr:
		shared, m := r.sharedSlots(x.X), r.race && r.isMap(x.X)
		r.operand(&x.X)
		r.exprP(&x.Index)
		if shared {
			x.X = r.call("Pt", x.X)
		}
		if m {
			x.X = r.call("MW", x.X, r.site(e))
		}
	case *ast.SelectorExpr:
		r.operand(&x.X)
	case *ast.StarExpr:
		r.exprP(&x.X)
	case *ast.ParenExpr:
		x.X = r.lhs(x.X)
	}
	if loc {
		return r.access("W", e, e)
	}
	return e
}

func (r *rewriter) assign(s *ast.AssignStmt) ast.Stmt {
	// v, ok := <-ch
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			r.exprP(&u.X)
			for i := range s.Lhs {
				if s.Tok == token.ASSIGN {
					s.Lhs[i] = r.lhs(s.Lhs[i])
				}
			}
			s.Rhs[0] = r.call("ChanRecv2", u.X)
			return s
		}
	}
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		x := s.Lhs[0]
		if r.sharedVar(x) && simple(x) {
			if ie, ok := x.(*ast.IndexExpr); !ok || !r.isMap(ie.X) {
				op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
					token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
					token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
				c := clone(x)
				r.exprP(&s.Rhs[0])
				return &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(x)}, Tok: token.ASSIGN, Rhs: []ast.Expr{
					&ast.BinaryExpr{X: r.call("Rd", c), Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}}}
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = r.lhs(s.Lhs[i])
		}
		r.exprP(&s.Rhs[0])
		return s
	}
	if s.Tok == token.ASSIGN {
		for i := range s.Lhs {
			s.Lhs[i] = r.lhs(s.Lhs[i])
		}
	}
	for i := range s.Rhs {
		r.exprP(&s.Rhs[i])
	}
	return s
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// clone copies a simple expression (so that the two uses can be rewritten apart).
func clone(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		return ast.NewIdent(e.Name)
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: e.Kind, Value: e.Value}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: clone(e.X), Sel: ast.NewIdent(e.Sel.Name)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: clone(e.X)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: clone(e.X)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: clone(e.X), Index: clone(e.Index)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: e.Op, X: clone(e.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: clone(e.X), Op: e.Op, Y: clone(e.Y)}
	}
	panic("clone")
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.exprP(&c.Fun)
		return &ast.ExprStmt{X: r.call("Go", c.Fun)}
	}
	var pre []ast.Stmt
	bind := func(e *ast.Expr) {
		tv := r.info.Types[*e]
		if tv.Value != nil || tv.IsNil() {
			return
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return
		}
		t := r.tmp()
		r.exprP(e)
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{*e}})
		*e = t
	}
	if !r.info.Types[c.Fun].IsBuiltin() && !r.info.Types[c.Fun].IsType() {
		bind(&c.Fun)
	}
	for i := range c.Args {
		bind(&c.Args[i])
	}
	if id, ok := unparen(c.Fun).(*ast.Ident); ok && id.Name == "close" && r.info.Types[c.Fun].IsBuiltin() {
		c = r.call("ChanClose", c.Args[0])
	}
	var body ast.Stmt = &ast.ExprStmt{X: c}
	fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", fn)})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	if r.isChan(s.X) {
		ch, ok := r.tmp(), r.tmp()
		r.exprP(&s.X)
		r.block(s.Body)
		v := ast.Expr(ast.NewIdent("_"))
		tok := token.DEFINE
		var pre []ast.Stmt
		if s.Key != nil {
			v = s.Key
			if s.Tok == token.ASSIGN {
				pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}})
				tok = token.ASSIGN
			}
		}
		body := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: tok, Rhs: []ast.Expr{r.call("ChanRecv2", clone(ch))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: clone(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}
		if id, isID := v.(*ast.Ident); isID && id.Name != "_" && tok == token.DEFINE {
			// the loop variable may be unused in the body
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{clone(v)}})
		}
		body = append(pre, body...)
		body = append(body, &ast.BlockStmt{List: s.Body.List})
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}}, Body: &ast.BlockStmt{List: body}}
	}
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			s.Key = r.lhs(s.Key)
		}
		if s.Value != nil {
			s.Value = r.lhs(s.Value)
		}
	}
	isMap := r.isMap(s.X)
	shared, m, at := s.Value != nil && r.sharedSlots(s.X), r.race && isMap, ast.Node(s.X)
	if t := r.typeOf(s.X); r.race && t != nil {
		if _, ok := t.Underlying().(*types.Array); ok {
			r.addr(&s.X)
		} else {
			r.exprP(&s.X)
		}
	} else {
		r.exprP(&s.X)
	}
	if shared {
		s.X = r.call("Pt", s.X)
		if r.race {
			s.X = r.call("RS", s.X, r.site(at))
		}
	}
	if m {
		s.X = r.call("MR", s.X, r.site(at))
	}
	r.block(s.Body)
	if isMap && s.Key != nil {
		r.mapRange(s)
	}
	r.tick(s.Body)
	return s
}

// mapRange: the order of a map is a decision of the simulator.
func (r *rewriter) mapRange(s *ast.RangeStmt) {
	e, ok := r.tmp(), r.tmp()
	v := ast.Expr(ast.NewIdent("_"))
	if s.Value != nil {
		v = s.Value
	}
	tok := token.ASSIGN
	var pre []ast.Stmt
	if s.Tok == token.DEFINE {
		tok = token.DEFINE
	}
	load := &ast.CallExpr{Fun: &ast.SelectorExpr{X: clone(e), Sel: ast.NewIdent("Load")}}
	tv := r.tmp()
	pre = append(pre,
		&ast.AssignStmt{Lhs: []ast.Expr{tv, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{load}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: clone(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{clone(tv)}})
	set := func(lhs, rhs ast.Expr) {
		if id, isID := lhs.(*ast.Ident); isID && id.Name == "_" {
			return
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: tok, Rhs: []ast.Expr{rhs}})
		if tok == token.DEFINE {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{clone(lhs)}})
		}
	}
	set(s.Key, &ast.SelectorExpr{X: clone(e), Sel: ast.NewIdent("K")})
	set(v, clone(tv))
	s.Key, s.Value, s.Tok = ast.NewIdent("_"), e, token.DEFINE
	s.X = r.call("MapEntries", s.X)
	s.Body.List = append(pre, &ast.BlockStmt{List: s.Body.List})
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	// one switch statement, so that labels stay on it and it terminates where the select does:
	// switch c1, c2 := NewRecv(ch1), NewSend(ch2)(v); Select(false, c1, c2) {
	var ids, mks, cases []ast.Expr
	hasDefault := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var list []ast.Expr
		var body []ast.Stmt
		if cc.Comm == nil {
			hasDefault = "true"
		} else {
			id := r.tmp()
			list = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
			n++
			cases = append(cases, clone(id))
			var mk ast.Expr
			recv := func(e ast.Expr) {
				u := unparen(e).(*ast.UnaryExpr)
				r.exprP(&u.X)
				mk = r.call("NewRecv", u.X)
			}
			switch cm := cc.Comm.(type) {
			case *ast.SendStmt:
				r.exprP(&cm.Chan)
				r.exprP(&cm.Value)
				mk = &ast.CallExpr{Fun: r.call("NewSend", cm.Chan), Args: []ast.Expr{cm.Value}}
			case *ast.ExprStmt:
				recv(cm.X)
			case *ast.AssignStmt:
				recv(cm.Rhs[0])
				rhs := []ast.Expr{&ast.SelectorExpr{X: clone(id), Sel: ast.NewIdent("Val")}}
				if len(cm.Lhs) == 2 {
					rhs = append(rhs, &ast.SelectorExpr{X: clone(id), Sel: ast.NewIdent("Ok")})
				}
				if cm.Tok == token.ASSIGN {
					for i := range cm.Lhs {
						cm.Lhs[i] = r.lhs(cm.Lhs[i])
					}
				}
				body = append(body, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
			}
			ids, mks = append(ids, id), append(mks, mk)
		}
		body = append(body, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: list, Body: body})
	}
	if hasDefault == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"simrt: no case"`}}}}}})
	}
	if len(ids) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: ids, Tok: token.DEFINE, Rhs: mks}
	}
	sw.Tag = r.call("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...)
	return sw
}

func (r *rewriter) exprCall(c *ast.CallExpr) {
	var e ast.Expr = c
	r.exprP(&e)
	if n, ok := e.(*ast.CallExpr); ok && n != c {
		*c = *n
	}
}

func (r *rewriter) exprP(p *ast.Expr) {
	if p == nil || *p == nil {
		return
	}
	loc := r.location(*p)
	switch e := (*p).(type) {
	case *ast.Ident:
		if loc {
			*p = r.access("R", e, e)
		}
	case *ast.SelectorExpr:
		if pk := r.pkgOf(e.X); pk != "" {
			if n, ok := replaced[pk][e.Sel.Name]; ok {
				r.used = true
				r.counts[pk+"."+e.Sel.Name]++
				*p = rt(n)
			}
			return
		}
		o := r.info.Uses[e.Sel]
		r.operand(&e.X)
		if loc {
			*p = r.access("R", e, e)
		}
		if o != nil && r.atomicF[o] {
			*p = r.call("Rd", *p)
		}
	case *ast.CallExpr:
		r.callExpr(p, e)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.exprP(&e.X)
			*p = r.call("ChanRecv", e.X)
			return
		}
		if e.Op == token.AND {
			// an address is not an access
			r.addr(&e.X)
			return
		}
		r.exprP(&e.X)
	case *ast.BinaryExpr:
		switch e.Op {
		case token.GEQ, token.GTR, token.EQL, token.LSS, token.LEQ, token.NEQ, token.REM:
			r.epochLit(e.X)
			r.epochLit(e.Y)
		}
		r.exprP(&e.X)
		r.exprP(&e.Y)
	case *ast.IndexExpr:
		shared, m := r.sharedSlots(e.X), r.race && r.isMap(e.X)
		r.operand(&e.X)
		r.exprP(&e.Index)
		if shared {
			e.X = r.call("Pt", e.X)
		}
		if m {
			e.X = r.call("MR", e.X, r.site(e))
		}
		if loc {
			*p = r.access("R", e, e)
		}
	case *ast.IndexListExpr:
		r.exprP(&e.X)
		for i := range e.Indices {
			r.exprP(&e.Indices[i])
		}
	case *ast.SliceExpr:
		r.operand(&e.X)
		r.exprP(&e.Low)
		r.exprP(&e.High)
		r.exprP(&e.Max)
	case *ast.ParenExpr:
		r.exprP(&e.X)
	case *ast.StarExpr:
		r.exprP(&e.X)
		if loc {
			*p = r.access("R", e, e)
		}
	case *ast.TypeAssertExpr:
		r.exprP(&e.X)
		r.exprP(&e.Type)
	case *ast.KeyValueExpr:
		if _, ok := e.Key.(*ast.Ident); !ok {
			r.exprP(&e.Key)
		}
		r.exprP(&e.Value)
	case *ast.CompositeLit:
		r.exprP(&e.Type)
		for i := range e.Elts {
			r.exprP(&e.Elts[i])
		}
	case *ast.FuncLit:
		r.funcType(e.Type)
		r.block(e.Body)
	case *ast.ArrayType:
		r.exprP(&e.Len)
		r.exprP(&e.Elt)
	case *ast.StructType:
		r.fieldList(e.Fields)
	case *ast.FuncType:
		r.funcType(e)
	case *ast.InterfaceType:
		r.fieldList(e.Methods)
	case *ast.MapType:
		r.exprP(&e.Key)
		r.exprP(&e.Value)
	case *ast.ChanType:
		r.exprP(&e.Value)
	case *ast.Ellipsis:
		r.exprP(&e.Elt)
	}
}

// addr rewrites the operands of an address-of expression without treating it as an access.
func (r *rewriter) addr(p *ast.Expr) {
	switch e := (*p).(type) {
	case *ast.SelectorExpr:
		if r.pkgOf(e.X) != "" {
			r.exprP(p)
			return
		}
		r.operand(&e.X)
	case *ast.IndexExpr:
		r.operand(&e.X)
		r.exprP(&e.Index)
	case *ast.Ident:
	case *ast.StarExpr:
		r.exprP(&e.X)
	case *ast.ParenExpr:
		r.addr(&e.X)
	default:
		r.exprP(p)
	}
}

func (r *rewriter) callExpr(p *ast.Expr, e *ast.CallExpr) {
	builtin := ""
	if id, ok := unparen(e.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			builtin = b.Name()
		}
	}
	switch builtin {
	case "close":
		r.exprP(&e.Args[0])
		*p = r.call("ChanClose", e.Args[0])
		return
	case "len":
		if r.isChan(e.Args[0]) {
			r.exprP(&e.Args[0])
			*p = r.call("ChanLen", e.Args[0])
			return
		}
	case "copy":
		shared := r.sharedSlots(e.Args[0]) || r.sharedSlots(e.Args[1])
		e2 := *e
		e2.Args = append([]ast.Expr(nil), e.Args...)
		r.exprP(&e.Args[0])
		r.exprP(&e.Args[1])
		if shared {
			e.Args[0] = r.call("Pt", e.Args[0])
			if r.race && r.sharedSlots(e2.Args[0]) && r.sharedSlots(e2.Args[1]) {
				*p = r.call("Copy", e.Args[0], e.Args[1], r.site(e))
			}
		}
		return
	case "delete":
		if r.race {
			at := r.site(e)
			r.exprP(&e.Args[0])
			r.exprP(&e.Args[1])
			e.Args[0] = r.call("MW", e.Args[0], at)
			return
		}
	}
	// constant expressions (len of arrays, conversions of constants) stay as they are
	if tv, ok := r.info.Types[*p]; ok && tv.Value != nil && tv.Value.Kind() != constant.Unknown {
		return
	}
	if s, ok := unparen(e.Fun).(*ast.SelectorExpr); ok && r.pkgOf(s.X) == "" {
		// a method call: its receiver is not read here
		r.operand(&s.X)
	} else {
		r.exprP(&e.Fun)
	}
	for i := range e.Args {
		r.exprP(&e.Args[i])
	}
	// body-less functions (memmove) access slots behind pointers
	if id, ok := unparen(e.Fun).(*ast.Ident); ok {
		if f, ok := r.info.Uses[id].(*types.Func); ok && strings.Contains(strings.ToLower(f.Name()), "memmove") && len(e.Args) > 0 {
			e.Args[0] = r.call("Pt", e.Args[0])
			if r.race && len(e.Args) == 3 {
				*p = r.call("Move", e.Fun, e.Args[0], e.Args[1], e.Args[2], r.site(id))
			}
		}
	}
}
