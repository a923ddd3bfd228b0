package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// C19: walkers write neither the tree or the record they are given nor any
// package-level memory.

// pureLib lists library packages whose functions do not write through the
// pointers they are given (apart from the exceptions in scansInto).
var pureLib = map[string]bool{"strings": true, "strconv": true, "errors": true, "fmt": true, "math": true, "unicode": true, "unicode/utf8": true, "regexp": true, "regexp/syntax": true, "time": true, "reflect": true, "encoding/json": true, "bytes": true}

var impureFn = map[string]bool{"json.Unmarshal": true, "fmt.Sscan": true, "fmt.Sscanf": true, "fmt.Sscanln": true, "fmt.Fscan": true, "fmt.Fscanf": true, "fmt.Fscanln": true, "fmt.Scan": true, "fmt.Scanf": true, "fmt.Scanln": true}

// readers are functions of other packages that only read their arguments.
var readers = map[string]bool{"sort.SearchStrings": true, "sort.SearchInts": true, "sort.Search": true, "sort.SliceIsSorted": true, "sort.StringsAreSorted": true,
	"slices.Contains": true, "slices.ContainsFunc": true, "slices.Index": true, "slices.IndexFunc": true, "slices.Equal": true, "slices.Clone": true, "slices.BinarySearch": true, "slices.Max": true, "slices.Min": true, "slices.Values": true, "slices.All": true, "slices.Sorted": true,
	"maps.Keys": true, "maps.Values": true, "maps.All": true, "maps.Clone": true, "maps.Equal": true}

type effects struct {
	m      *module
	fns    []*ssa.Function
	inRep  map[*ssa.Function]bool
	a      map[ssa.Value]bool         // points into package memory
	ct     map[ssa.Value][]types.Type // points to memory that holds pointers of these types into package memory
	why    map[ssa.Value]string
	taken  map[string][]*ssa.Function // address-taken functions by signature
	ret    map[*ssa.Function]bool
	retCt  map[*ssa.Function][]types.Type
	retWhy map[*ssa.Function]string
	bad    map[token.Pos]string
	at     map[token.Pos]*ssa.Function
	once   map[*ssa.Function]bool // run by sync.Once
	dirty  bool
	sites  int
}

func pointerish(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if pointerish(t.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerish(t.Elem())
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if pointerish(t.At(i).Type()) {
				return true
			}
		}
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.TypeParam:
		return true
	}
	return false
}

// generated tells files written by a generator from their first lines.
func generated(file string) bool {
	f, err := os.Open(file)
	if err != nil {
		return false
	}
	defer f.Close()
	head := make([]byte, 400)
	n, _ := f.Read(head)
	for _, l := range strings.Split(string(head[:n]), "\n") {
		if strings.HasPrefix(l, "// Code generated ") && strings.HasSuffix(strings.TrimSpace(l), "DO NOT EDIT.") {
			return true
		}
	}
	return false
}

func newEffects(m *module, dirs []string) *effects {
	e := &effects{m: m, inRep: map[*ssa.Function]bool{}, a: map[ssa.Value]bool{}, ct: map[ssa.Value][]types.Type{}, why: map[ssa.Value]string{}, taken: map[string][]*ssa.Function{}, ret: map[*ssa.Function]bool{}, retCt: map[*ssa.Function][]types.Type{}, retWhy: map[*ssa.Function]string{}, bad: map[token.Pos]string{}, at: map[token.Pos]*ssa.Function{}, once: map[*ssa.Function]bool{}}
	gen := map[string]bool{}
	for _, d := range dirs {
		for fn := range m.allFunctions(d) {
			if len(fn.Blocks) == 0 {
				continue
			}
			file := m.fset.Position(fn.Pos()).Filename
			if g, ok := gen[file]; !ok {
				gen[file] = generated(file)
			} else if g {
				continue
			}
			if gen[file] {
				continue
			}
			if strings.HasPrefix(fn.Name(), "_C") || strings.HasPrefix(fn.Name(), "_cgo") {
				continue
			}
			if fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#") {
				continue
			}
			e.fns = append(e.fns, fn)
			e.inRep[fn] = true
		}
	}
	// generic instances
	for fn := range ssautil.AllFunctions(m.prog) {
		if o := fn.Origin(); o != nil && e.inRep[o] && !e.inRep[fn] && len(fn.Blocks) > 0 {
			e.fns = append(e.fns, fn)
			e.inRep[fn] = true
		}
	}
	for _, fn := range e.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for i, op := range ins.Operands(ops) {
					if op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if c, ok := ins.(ssa.CallInstruction); ok && i == 0 && c.Common().Value == f {
							continue
						}
						e.take(f)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					e.take(mc.Fn.(*ssa.Function))
				}
				// sync.Once and friends run their argument once
				if c, ok := ins.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && (f.Name() == "Do" || strings.HasPrefix(f.Name(), "OnceFunc") || strings.HasPrefix(f.Name(), "OnceValue")) {
						for _, a := range c.Common().Args {
							switch x := a.(type) {
							case *ssa.Function:
								e.once[x] = true
							case *ssa.MakeClosure:
								e.once[x.Fn.(*ssa.Function)] = true
							}
						}
					}
				}
			}
		}
	}
	return e
}

func (e *effects) take(f *ssa.Function) {
	k := f.Signature.String()
	for _, g := range e.taken[k] {
		if g == f {
			return
		}
	}
	e.taken[k] = append(e.taken[k], f)
}

func (e *effects) hold(v ssa.Value, ts []types.Type, why string) {
	if v == nil || !pointerish(v.Type()) {
		return
	}
	if _, c := v.(*ssa.Const); c {
		return
	}
next:
	for _, t := range ts {
		for _, o := range e.ct[v] {
			if types.Identical(o, t) {
				continue next
			}
		}
		e.ct[v] = append(e.ct[v], t)
		e.dirty = true
		if e.why[v] == "" {
			e.why[v] = why
		}
	}
}

// held is what storing v puts into memory.
func (e *effects) held(v ssa.Value) []types.Type {
	l := e.ct[v]
	if e.isA(v) && pointerish(v.Type()) {
		l = append(append([]types.Type(nil), l...), v.Type())
	}
	return l
}

// mayHold tells whether a value of type to can be, or contain, a stored t.
func mayHold(to, t types.Type) bool {
	if types.Identical(to, t) {
		return true
	}
	_, i1 := to.Underlying().(*types.Interface)
	_, i2 := t.Underlying().(*types.Interface)
	_, p1 := to.(*types.TypeParam)
	_, p2 := t.(*types.TypeParam)
	if i1 || i2 || p1 || p2 {
		return true
	}
	switch x := to.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if pointerish(x.Field(i).Type()) && mayHold(x.Field(i).Type(), t) {
				return true
			}
		}
	case *types.Array:
		return mayHold(x.Elem(), t)
	case *types.Tuple:
		for i := 0; i < x.Len(); i++ {
			if mayHold(x.At(i).Type(), t) {
				return true
			}
		}
	}
	return types.Identical(to.Underlying(), t.Underlying())
}

func (e *effects) set(m map[ssa.Value]bool, v ssa.Value, why string) {
	if v == nil || m[v] || !pointerish(v.Type()) {
		return
	}
	if _, c := v.(*ssa.Const); c {
		return
	}
	m[v] = true
	if e.why[v] == "" {
		e.why[v] = why
	}
	e.dirty = true
}

func (e *effects) isA(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return g.Pkg != nil
	}
	return e.a[v]
}

func (e *effects) of(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok {
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	return e.why[v]
}

// flow passes both facts on.
func (e *effects) flow(from, to ssa.Value) {
	if e.isA(from) {
		e.set(e.a, to, e.of(from))
	}
	e.hold(to, e.ct[from], e.of(from))
}

// base is the value a derived address starts from.
func base(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

func (e *effects) report(pos token.Pos, fn *ssa.Function, format string, a ...interface{}) {
	if e.once[fn] {
		return
	}
	if _, ok := e.bad[pos]; !ok {
		e.bad[pos] = fmt.Sprintf(format, a...)
		e.at[pos] = fn
	}
}

func (e *effects) run() {
	for {
		e.dirty = false
		e.sites = 0
		for _, fn := range e.fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					e.instr(fn, ins)
				}
			}
		}
		if !e.dirty {
			return
		}
	}
}

func (e *effects) instr(fn *ssa.Function, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.FieldAddr:
		e.flow(x.X, x)
		e.back(x, x.X)
	case *ssa.IndexAddr:
		e.flow(x.X, x)
		e.back(x, x.X)
	case *ssa.Slice:
		e.flow(x.X, x)
		e.back(x, x.X)
	case *ssa.Field:
		e.flow(x.X, x)
	case *ssa.Index:
		e.flow(x.X, x)
	case *ssa.Lookup:
		e.load(x.X, x)
	case *ssa.Extract:
		e.flow(x.Tuple, x)
	case *ssa.Phi:
		for _, v := range x.Edges {
			e.flow(v, x)
			e.back(x, v)
		}
	case *ssa.ChangeType:
		e.flow(x.X, x)
		e.back(x, x.X)
	case *ssa.ChangeInterface:
		e.flow(x.X, x)
		e.back(x, x.X)
	case *ssa.Convert:
		e.flow(x.X, x)
		e.back(x, x.X)
	case *ssa.MakeInterface:
		e.flow(x.X, x)
		e.back(x, x.X)
	case *ssa.TypeAssert:
		e.flow(x.X, x)
		e.back(x, x.X)
	case *ssa.SliceToArrayPointer:
		e.flow(x.X, x)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			e.load(x.X, x)
		} else if x.Op == token.ARROW {
			e.load(x.X, x)
		}
	case *ssa.Range:
		e.flow(x.X, x)
		if e.isA(x.X) || len(e.ct[x.X]) > 0 {
			e.a[x] = true
			e.why[x] = e.of(x.X)
		}
	case *ssa.Next:
		if e.a[x.Iter] {
			e.set(e.a, x, e.of(x.Iter))
		}
	case *ssa.Store:
		e.sites++
		if e.isA(x.Addr) {
			e.report(x.Pos(), fn, "writes %s", e.of(x.Addr))
		}
		e.hold(base(x.Addr), e.held(x.Val), e.of(x.Val))
		e.hold(x.Addr, e.held(x.Val), e.of(x.Val))
	case *ssa.MapUpdate:
		e.sites++
		if e.isA(x.Map) {
			e.report(x.Pos(), fn, "writes an entry of %s", e.of(x.Map))
		}
		for _, v := range []ssa.Value{x.Key, x.Value} {
			e.hold(x.Map, e.held(v), e.of(v))
		}
	case *ssa.Send:
		if e.isA(x.Chan) {
			e.report(x.Pos(), fn, "sends on %s", e.of(x.Chan))
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			e.flow(b, f.FreeVars[i])
			e.back(f.FreeVars[i], b)
		}
	case *ssa.Return:
		for _, v := range x.Results {
			if e.isA(v) && pointerish(v.Type()) && !e.ret[fn] {
				e.ret[fn] = true
				e.retWhy[fn] = e.of(v)
				e.dirty = true
			}
			if len(e.ct[v]) > len(e.retCt[fn]) {
				e.retCt[fn] = e.ct[v]
				e.retWhy[fn] = e.of(v)
				e.dirty = true
			}
		}
	case ssa.CallInstruction:
		e.call(fn, x)
	}
}

// back lets stores through a derived address be seen through its origin.
func (e *effects) back(from, to ssa.Value) {
	e.hold(to, e.ct[from], e.of(from))
}

func (e *effects) load(from, to ssa.Value) {
	if e.isA(from) {
		e.set(e.a, to, e.of(from))
	}
	for _, t := range e.ct[from] {
		if mayHold(to.Type(), t) {
			e.set(e.a, to, e.of(from))
		}
	}
	e.hold(to, e.ct[from], e.of(from))
}

func (e *effects) call(fn *ssa.Function, call ssa.CallInstruction) {
	com := call.Common()
	res, _ := call.(ssa.Value)
	bind := func(f *ssa.Function, args []ssa.Value) {
		for i, p := range f.Params {
			if i < len(args) {
				e.flow(args[i], p)
				e.back(p, args[i])
			}
		}
		if e.ret[f] && res != nil {
			e.set(e.a, res, e.retWhy[f])
		}
		if res != nil {
			e.hold(res, e.retCt[f], e.retWhy[f])
		}
	}
	var tainted []ssa.Value
	for _, a := range com.Args {
		if e.isA(a) && pointerish(a.Type()) {
			tainted = append(tainted, a)
		}
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			e.sites++
			if e.isA(com.Args[0]) {
				if len(com.Args) > 1 && !isNilConst(com.Args[1]) {
					e.report(call.Pos(), fn, "may append in place to %s", e.of(com.Args[0]))
				}
				e.set(e.a, res, e.of(com.Args[0]))
			}
			if len(com.Args) > 1 {
				if st, ok := com.Args[1].Type().Underlying().(*types.Slice); ok && pointerish(st.Elem()) {
					l := e.ct[com.Args[1]]
					if e.isA(com.Args[1]) {
						l = append(append([]types.Type(nil), l...), st.Elem())
					}
					e.hold(res, l, e.of(com.Args[1]))
					e.hold(base(com.Args[0]), l, e.of(com.Args[1]))
				}
			}
			e.hold(res, e.ct[com.Args[0]], e.of(com.Args[0]))
		case "copy", "delete", "clear":
			e.sites++
			if e.isA(com.Args[0]) {
				e.report(call.Pos(), fn, "%s changes %s", b.Name(), e.of(com.Args[0]))
			}
			if b.Name() == "copy" {
				if st, ok := com.Args[1].Type().Underlying().(*types.Slice); ok && pointerish(st.Elem()) {
					l := e.ct[com.Args[1]]
					if e.isA(com.Args[1]) {
						l = append(append([]types.Type(nil), l...), st.Elem())
					}
					e.hold(base(com.Args[0]), l, e.of(com.Args[1]))
				}
			}
		}
		return
	}
	if com.IsInvoke() {
		// a method of the library's own types, or of another package's
		own := false
		for _, g := range e.fns {
			if g.Name() == com.Method.Name() && g.Signature.Recv() != nil && types.Identical(types.NewSignatureType(nil, nil, nil, g.Signature.Params(), g.Signature.Results(), g.Signature.Variadic()), com.Method.Type().(*types.Signature)) ||
				g.Name() == com.Method.Name() && g.Signature.Recv() != nil && g.Signature.Params().Len() == com.Signature().Params().Len() {
				own = true
				bind(g, append([]ssa.Value{com.Value}, com.Args...))
			}
		}
		if !own && e.isA(com.Value) {
			switch com.Method.Name() {
			case "Error", "String", "GoString":
			default:
				e.report(call.Pos(), fn, "calls the method %s on %s", com.Method.Name(), e.of(com.Value))
			}
		}
		return
	}
	f := com.StaticCallee()
	if f == nil {
		for _, g := range e.taken[com.Signature().String()] {
			bind(g, com.Args)
		}
		for _, g := range e.fns {
			if g.Parent() != nil && types.Identical(g.Signature, com.Signature()) {
				bind(g, com.Args)
			}
		}
		return
	}
	if e.inRep[f] {
		bind(f, com.Args)
		return
	}
	if len(f.Blocks) > 0 && f.Origin() == nil && f.Pkg != nil && f.Pkg.Pkg.Path() == fn.Pkg.Pkg.Path() {
		bind(f, com.Args)
		return
	}
	if len(tainted) == 0 {
		return
	}
	e.sites++
	path, name := "", f.Name()
	if o := f.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	short := path[strings.LastIndex(path, "/")+1:] + "." + name
	if i := strings.IndexByte(short, '['); i >= 0 {
		short = short[:i]
	}
	switch {
	case f.Pkg != nil && strings.HasPrefix(e.of(tainted[0]), f.Pkg.Pkg.Name()+"."):
		return // a dependency's own variables
	case path == "sync" && ((strings.HasSuffix(name, "Lock") || strings.HasSuffix(name, "Unlock")) || name == "Do"):
		return
	case pureLib[path] && !impureFn[short], readers[short]:
		if res != nil && pointerish(res.Type()) {
			// e.g. errors.Unwrap, reflect.ValueOf
			if path == "reflect" || path == "errors" {
				e.set(e.a, res, e.of(tainted[0]))
			}
		}
		return
	}
	e.report(call.Pos(), fn, "passes %s to %s, which may change it", e.of(tainted[0]), f.String())
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

func init() {
	register("C19", "effect analysis: interprocedural data flow of package-level memory through the SSA of the library, with every store, map update, append, copy and foreign call as a sink; abstract interpretation of every walker with the tree and the record's values marked, judging every write", checkC19)
}

func checkC19(c *Check) error {
	for _, ver := range []string{"v4", "v5", "v6"} {
		m, err := loadModule(ver, "./pkg/...")
		if err != nil {
			return err
		}
		var dirs []string
		for _, d := range sortedDirs(m) {
			if strings.HasPrefix(d, "pkg/") {
				dirs = append(dirs, d)
			}
		}
		e := newEffects(m, dirs)
		e.run()
		for pos, what := range e.bad {
			fn := e.at[pos]
			if ver == "v6" && e.underParse(fn) {
				continue // decided by C01, with the lock
			}
			c.fail(ver+":package state", fn.String(), "%s in %s", what, m.fset.Position(pos))
		}
		c.ok(ver+":package state", e.sites)
		c.cov[ver+" functions whose effects are analysed"] = len(e.fns)
		c.cov[ver+" stores, updates and calls judged"] = e.sites
		c.need(ver+":package state", 30)
	}
	ids := []string{"C11", "C15", "C16", "C17", "C18", "C22", "C24", "C25", "C26"}
	if c.thorough() {
		ids = append(ids, "C09", "C10", "C12", "C13", "C23")
	}
	c.effects = true
	for _, id := range ids {
		c.prefix = id + " "
		if err := checks[id].run(c); err != nil {
			c.prefix, c.effects = "", false
			return err
		}
	}
	c.prefix, c.effects = "", false
	c.assume = append(c.assume, "the code generated by ANTLR and its runtime keep their shared tables under the lock of C29", "functions of the standard library's text, number, time, error and reflection packages do not write through their arguments")
	return nil
}

// underParse tells functions that only ParseTSL reaches.
func (e *effects) underParse(fn *ssa.Function) bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range e.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range ins.Operands(ops) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok {
							callers[g] = append(callers[g], f)
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var only func(f *ssa.Function) bool
	only = func(f *ssa.Function) bool {
		if f.Name() == "ParseTSL" && f.Parent() == nil {
			return true
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		if f.Parent() == nil && (ast.IsExported(f.Name()) || len(callers[f]) == 0) {
			return false
		}
		l := callers[f]
		if f.Parent() != nil {
			l = append(l, f.Parent())
		}
		for _, g := range l {
			if !only(g) {
				return false
			}
		}
		return true
	}
	return only(fn)
}
