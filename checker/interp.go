package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Interp analyses functions over abstract values for one partition.
type Interp struct {
	*chooser
	m       *module
	globals map[*ssa.Global]*Obj
	state   bool  // a package-level variable was written: later calls may depend on it
	argv    []Val // arguments of the command line
	lazy    map[string]*Obj
	fuel    int
	depth   int
	stack   []*ssa.Function
	// hook is consulted before a function is analysed; it returns its result
	// when the function is modelled or summarised.
	hook func(in *Interp, fn *ssa.Function, args []Val) ([]Val, bool)
	// invokeHook is consulted for method calls on values of unknown type.
	invokeHook func(in *Interp, recv Val, method *types.Func, args []Val) ([]Val, bool)
	events     []Event
	inited     map[*ssa.Package]bool
	seq        int
	writes     []string // writes to input objects or globals
	frames     []*frame
	ext        map[string]bool // external functions treated as opaque
	analysed   map[*ssa.Function]bool
	cs         *cstore
	ci         *CI // C functions are analysed too
	// onGlobal is told of accesses to package-level variables and the memory
	// reachable from them.
	onGlobal func(name string, write bool, pos token.Pos)
	onLock   func(op string, mutex Val, pos token.Pos)
	initing  int
	// texts of the input, and those of them that are sampled
	leaves map[string]bool
	pins   []string
	mayPin bool
	pinAll bool
}

func (in *Interp) touch(name string, write bool, pos token.Pos) {
	if write && in.initing == 0 {
		in.state = true
	}
	if in.onGlobal != nil && in.initing == 0 {
		in.onGlobal(name, write, pos)
	}
}

// markGlobal marks the memory a package-level variable holds.
func markGlobal(v Val, name string, seen map[interface{}]bool) {
	switch v := v.(type) {
	case VStruct:
		for _, f := range v.f {
			markGlobal(f, name, seen)
		}
	case VArray:
		for _, f := range v.e {
			markGlobal(f, name, seen)
		}
	case VIface:
		markGlobal(v.v, name, seen)
	case VPtr:
		if !seen[v.obj] {
			seen[v.obj] = true
			if !v.obj.global {
				v.obj.global = true
				v.obj.name = "memory of " + name
			}
			markGlobal(v.obj.v, name, seen)
		}
	case VSlice:
		if v.arr != nil && !seen[v.arr] {
			seen[v.arr] = true
			if !v.arr.global {
				v.arr.global = true
				v.arr.name = "memory of " + name
			}
			markGlobal(v.arr.v, name, seen)
		}
	case VMap:
		if !seen[v.m] {
			seen[v.m] = true
			v.m.global = true
			v.m.name = "memory of " + name
			for i := range v.m.keys {
				markGlobal(v.m.keys[i], name, seen)
				markGlobal(v.m.vals[i], name, seen)
			}
		}
	}
}

// markInput marks the memory of a value the caller passes in.
func markInput(v Val, name string, seen map[interface{}]bool) {
	obj := func(o *Obj) {
		if o != nil && !seen[o] {
			seen[o] = true
			o.input, o.name = true, name
			markInput(o.v, name, seen)
		}
	}
	switch v := v.(type) {
	case VStruct:
		for _, f := range v.f {
			markInput(f, name, seen)
		}
	case VArray:
		for _, f := range v.e {
			markInput(f, name, seen)
		}
	case VIface:
		markInput(v.v, name, seen)
	case VPtr:
		obj(v.obj)
	case VSlice:
		obj(v.arr)
	case VMap:
		if v.m != nil && !seen[v.m] {
			seen[v.m] = true
			v.m.input = true
			for i := range v.m.keys {
				markInput(v.m.keys[i], name, seen)
				markInput(v.m.vals[i], name, seen)
			}
		}
	}
}

// Event is something the analysed code did that a specification may ask about.
type Event struct {
	kind string
	args []Val
	pos  token.Pos
	fn   string
}

type frame struct {
	fn          *ssa.Function
	env         map[ssa.Value]Val
	defers      []func()
	pan         *absPanic
	recovered   bool
	block, prev *ssa.BasicBlock
	curPos      token.Pos
}

func newInterp(m *module, c *chooser) *Interp {
	return &Interp{chooser: c, m: m, globals: map[*ssa.Global]*Obj{}, lazy: map[string]*Obj{}, fuel: 400000,
		inited: map[*ssa.Package]bool{}, ext: map[string]bool{}, analysed: map[*ssa.Function]bool{}}
}

func (in *Interp) undecided(pos token.Pos, format string, a ...interface{}) {
	fn := ""
	if len(in.stack) > 0 {
		fn = in.stack[len(in.stack)-1].String()
	}
	panic(undecided{fmt.Sprintf(format, a...), pos, fn})
}

func (in *Interp) crash(pos token.Pos, format string, a ...interface{}) {
	fn := ""
	if len(in.stack) > 0 {
		fn = in.stack[len(in.stack)-1].String()
	}
	panic(absPanic{what: fmt.Sprintf(format, a...), pos: pos, fn: fn})
}

func (in *Interp) fresh(prefix string) string {
	in.seq++
	return fmt.Sprintf("%s#%d", prefix, in.seq)
}

func (in *Interp) newObj(v Val, t types.Type, name string) *Obj {
	return &Obj{v: v, typ: t, name: in.fresh(name)}
}

// zero returns the zero value of a type.
func (in *Interp) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsString != 0:
			return VStr{}
		case u.Info()&types.IsFloat != 0:
			return cFloat(0)
		case u.Info()&types.IsNumeric != 0:
			return cInt(0)
		}
		return VNil{}
	case *types.Struct:
		if scalarStruct(t) {
			return mkTerm(t, "zero:"+typeName(t))
		}
		s := VStruct{typ: t, f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 4096 {
			in.undecided(0, "array of %d elements", n)
		}
		a := VArray{make([]Val, n)}
		for i := range a.e {
			a.e[i] = in.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		t := make(VTuple, u.Len())
		for i := range t {
			t[i] = in.zero(u.At(i).Type())
		}
		return t
	}
	return VNil{}
}

// opaque makes an unknown value of a type, identified by key.
func (in *Interp) opaque(t types.Type, op string, args ...Val) Val {
	term := mkTerm(t, op, args...)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return cBool(in.choose("bool:"+term.key, 2) == 1)
		}
		if u.Info()&types.IsString != 0 {
			return atomStr(term)
		}
		return term
	case *types.Struct:
		if scalarStruct(t) {
			return term
		}
		s := VStruct{typ: t, f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = in.opaque(u.Field(i).Type(), fmt.Sprintf("%s.%s", term.key, u.Field(i).Name()))
		}
		return s
	case *types.Array:
		a := VArray{make([]Val, int(u.Len()))}
		for i := range a.e {
			a.e[i] = in.opaque(u.Elem(), fmt.Sprintf("%s[%d]", term.key, i))
		}
		return a
	case *types.Tuple:
		t := make(VTuple, u.Len())
		for i := range t {
			t[i] = in.opaque(u.At(i).Type(), fmt.Sprintf("%s/%d", term.key, i))
		}
		return t
	case *types.Interface:
		if isErrorType(t) {
			if in.choose("err:"+term.key, 2) == 1 {
				return VIface{dyn: nil, v: term}
			}
			return VNil{}
		}
		return term
	}
	return term
}

func isErrorType(t types.Type) bool {
	return types.Identical(t.Underlying(), types.Universe.Lookup("error").Type().Underlying())
}

// copyVal copies aggregates held by value.
func copyVal(v Val) Val {
	switch v := v.(type) {
	case VStruct:
		f := make([]Val, len(v.f))
		for i := range f {
			f[i] = copyVal(v.f[i])
		}
		return VStruct{v.typ, f}
	case VArray:
		e := make([]Val, len(v.e))
		for i := range e {
			e[i] = copyVal(v.e[i])
		}
		return VArray{e}
	}
	return v
}

// load reads through a pointer.
func (in *Interp) load(p Val, t types.Type, pos token.Pos) Val {
	switch p := p.(type) {
	case VNil:
		in.crash(pos, "nil pointer dereference")
	case VPtr:
		if p.obj.c != nil {
			return in.loadC(p, pos)
		}
		if p.obj.cobj != nil {
			return in.ci.goLoad(in, p, t, pos)
		}
		if p.obj.global {
			in.touch(p.obj.name, false, pos)
		}
		v := p.obj.v
		for _, i := range p.path {
			switch a := v.(type) {
			case VStruct:
				v = a.f[i]
			case VArray:
				if i < 0 || i >= len(a.e) {
					in.crash(pos, "index out of range [%d] with length %d", i, len(a.e))
				}
				v = a.e[i]
			case *VTerm:
				// component of an opaque aggregate
				st, ok := a.typ.Underlying().(*types.Struct)
				if !ok {
					in.undecided(pos, "component of opaque value %s", a.key)
				}
				v = in.opaque(st.Field(i).Type(), a.key+"."+st.Field(i).Name())
			default:
				in.undecided(pos, "load of component of %T", v)
			}
		}
		if v == nil {
			return in.zero(t)
		}
		return copyVal(v)
	case *VTerm:
		if in.mayBeNil(p) {
			in.crash(pos, "nil pointer dereference of %s", p.key)
		}
		return copyVal(in.lazyObj(p, t).v)
	}
	in.undecided(pos, "load through %T", p)
	return nil
}

// mayBeNil decides whether an opaque reference is nil.
func (in *Interp) mayBeNil(t *VTerm) bool {
	if v, ok := in.known("nil:" + t.key); ok {
		return v == 1
	}
	return false
}

// lazyObj gives the object an opaque pointer points at.
func (in *Interp) lazyObj(p *VTerm, elem types.Type) *Obj {
	if o, ok := in.lazy[p.key]; ok {
		return o
	}
	o := &Obj{typ: elem, name: "*" + p.key}
	in.lazy[p.key] = o
	o.v = in.opaque(elem, "*"+p.key)
	return o
}

func (in *Interp) store(p Val, v Val, pos token.Pos) {
	switch p := p.(type) {
	case VNil:
		in.crash(pos, "nil pointer dereference")
	case VPtr:
		if p.obj.c != nil {
			in.events = append(in.events, Event{kind: "cwrite", args: []Val{p}, pos: pos})
			in.undecided(pos, "direct write to an AST node of the C core")
		}
		if p.obj.cobj != nil {
			in.undecided(pos, "direct write to memory of the C core")
		}
		if p.obj.input || p.obj.global {
			in.writes = append(in.writes, fmt.Sprintf("%s written in %s", p.obj.name, in.where(pos)))
		}
		if p.obj.global {
			in.touch(p.obj.name, true, pos)
			if in.initing == 0 {
				markGlobal(v, p.obj.name, map[interface{}]bool{})
			}
		}
		p.obj.v = in.setPath(p.obj.v, p.path, copyVal(v), pos)
		return
	case *VTerm:
		if in.mayBeNil(p) {
			in.crash(pos, "nil pointer dereference of %s", p.key)
		}
		if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
			o := in.lazyObj(p, pt.Elem())
			if o.input {
				in.writes = append(in.writes, fmt.Sprintf("%s written in %s", o.name, in.where(pos)))
			}
			o.v = copyVal(v)
			return
		}
	}
	in.undecided(pos, "store through %T", p)
}

func (in *Interp) setPath(v Val, path []int, x Val, pos token.Pos) Val {
	if len(path) == 0 {
		return x
	}
	switch a := v.(type) {
	case VStruct:
		f := append([]Val(nil), a.f...)
		f[path[0]] = in.setPath(a.f[path[0]], path[1:], x, pos)
		return VStruct{a.typ, f}
	case VArray:
		if path[0] < 0 || path[0] >= len(a.e) {
			in.crash(pos, "index out of range [%d] with length %d", path[0], len(a.e))
		}
		// arrays are updated in place: slices share them
		a.e[path[0]] = in.setPath(a.e[path[0]], path[1:], x, pos)
		return a
	}
	in.undecided(pos, "store to component of %T", v)
	return nil
}

func (in *Interp) where(pos token.Pos) string {
	fn := ""
	if len(in.stack) > 0 {
		fn = in.stack[len(in.stack)-1].String()
	}
	return fn + " (" + in.position(pos) + ")"
}

func (in *Interp) position(pos token.Pos) string {
	if in.m == nil || in.m.fset == nil || pos == token.NoPos {
		return "?"
	}
	p := in.m.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoRoot+"/"), p.Line)
}

// global returns the object of a package-level variable.
func (in *Interp) global(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		return o
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	pkg := g.Pkg
	o := &Obj{typ: et, name: g.String()}
	in.globals[g] = o
	if pkg != nil && in.inRepo(pkg) {
		o.v = in.zero(et)
		in.initPkg(pkg)
		o.global = true
		return o
	}
	o.v = in.opaqueGlobal(g, et)
	o.global = true
	return o
}

func (in *Interp) opaqueGlobal(g *ssa.Global, et types.Type) Val {
	if isErrorType(et) {
		return VIface{dyn: nil, v: mkTerm(et, "global:"+g.String())}
	}
	if g.String() == "os.Args" {
		return in.mkSlice(append([]Val{atomStr(mkTerm(tString, "program name"))}, in.argv...))
	}
	t := mkTerm(et, "global:"+g.String())
	in.facts["nil:"+t.key] = 0
	if _, ok := et.Underlying().(*types.Basic); ok {
		return in.opaque(et, "global:"+g.String())
	}
	return t
}

func (in *Interp) inRepo(pkg *ssa.Package) bool {
	for _, p := range in.m.byDir {
		if p == pkg {
			return true
		}
	}
	return false
}

// initPkg analyses the package's variable initialisers.
func (in *Interp) initPkg(pkg *ssa.Package) {
	if in.inited[pkg] {
		return
	}
	in.inited[pkg] = true
	f := pkg.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	w := in.writes
	in.initing++
	in.callFn(f, nil, nil, token.NoPos)
	in.initing--
	in.writes = w
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if o, ok := in.globals[g]; ok {
				o.global = true
				markGlobal(o.v, o.name, map[interface{}]bool{})
			}
		}
	}
}

// ---------------------------------------------------------------------------

// callFn analyses a call of a known function.
func (in *Interp) callFn(fn *ssa.Function, args []Val, free []Val, pos token.Pos) []Val {
	if in.hook != nil {
		if r, ok := in.hook(in, fn, args); ok {
			return r
		}
	}
	if r, ok := in.model(fn, args, pos); ok {
		return r
	}
	if len(fn.Blocks) == 0 {
		return in.external(fn, args, pos)
	}
	if fn.Pkg != nil && !in.inRepo(fn.Pkg) && !in.m.std[fn.Pkg] && fn.Parent() == nil && fn.Synthetic == "" {
		return in.external(fn, args, pos)
	}
	if fn.Name() == "init" && fn.Synthetic != "" && len(in.stack) > 0 && in.stack[len(in.stack)-1].Name() == "init" {
		return nil // dependency's initialiser: done on demand
	}
	in.depth++
	if in.depth > 1200 {
		in.undecided(pos, "recursion deeper than the analysed trees need in %s", fn)
	}
	in.stack = append(in.stack, fn)
	in.analysed[fn] = true
	defer func() { in.depth--; in.stack = in.stack[:len(in.stack)-1] }()
	fr := &frame{fn: fn, env: make(map[ssa.Value]Val, 32)}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			fr.env[fv] = free[i]
		}
	}
	in.frames = append(in.frames, fr)
	defer func() { in.frames = in.frames[:len(in.frames)-1] }()
	return in.runFrame(fr)
}

func (in *Interp) runFrame(fr *frame) (res []Val) {
	fn := fr.fn
	done := false
	func() {
		defer func() {
			if done {
				return
			}
			r := recover()
			if r == nil {
				return
			}
			p, ok := r.(absPanic)
			if !ok {
				panic(r)
			}
			if len(fr.defers) == 0 {
				panic(r)
			}
			fr.pan = &p
			in.runDefers(fr)
			if fr.pan != nil {
				panic(*fr.pan)
			}
			// recovered: return the named results
			if fn.Recover != nil {
				res = in.runBlocks(fr, fn.Recover)
			} else {
				res = make([]Val, fn.Signature.Results().Len())
				for i := range res {
					res[i] = in.zero(fn.Signature.Results().At(i).Type())
				}
			}
		}()
		res = in.runBlocks(fr, fn.Blocks[0])
		done = true
	}()
	return res
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if p, ok := r.(absPanic); ok {
						fr.pan = &p
						return
					}
					panic(r)
				}
			}()
			d()
		}()
	}
	if fr.pan != nil && fr.recovered {
		fr.pan = nil
	}
}

func (in *Interp) runBlocks(fr *frame, b *ssa.BasicBlock) []Val {
	fr.prev = nil
	for {
		fr.block = b
		// phis first, in parallel
		var phiV []Val
		n := 0
		for _, instr := range b.Instrs {
			phi, ok := instr.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			for i, p := range b.Preds {
				if p == fr.prev {
					phiV = append(phiV, in.val(fr, phi.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < n; i++ {
			fr.env[b.Instrs[i].(*ssa.Phi)] = phiV[i]
		}
		var next *ssa.BasicBlock
		for _, instr := range b.Instrs[n:] {
			in.fuel--
			if in.fuel < 0 {
				in.undecided(instr.Pos(), "no fixpoint within the step bound in %s", fr.fn)
			}
			if instr.Pos() != token.NoPos {
				fr.curPos = instr.Pos()
			}
			switch x := instr.(type) {
			case *ssa.If:
				c := in.val(fr, x.Cond)
				if in.truth(c, x.Pos()) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var res []Val
				for _, r := range x.Results {
					res = append(res, copyVal(in.val(fr, r)))
				}
				return res
			case *ssa.Panic:
				v := in.val(fr, x.X)
				fnn := fr.fn.String()
				panic(absPanic{what: "explicit panic " + key(v), pos: x.Pos(), val: v, fn: fnn})
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.pan != nil {
					panic(*fr.pan)
				}
			default:
				in.step(fr, instr)
			}
		}
		if next == nil {
			in.undecided(fr.curPos, "control falls off block in %s", fr.fn)
		}
		fr.prev = b
		b = next
	}
}

func (in *Interp) truth(v Val, pos token.Pos) bool {
	switch v := v.(type) {
	case VConst:
		return constant.BoolVal(v.c)
	case *VTerm:
		return in.choose("bool:"+v.key, 2) == 1
	}
	in.undecided(pos, "condition %s", key(v))
	return false
}

// val evaluates an operand.
func (in *Interp) val(fr *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constVal(v)
	case *ssa.Global:
		return VPtr{obj: in.global(v)}
	case *ssa.Function:
		return VFunc{fn: v}
	case *ssa.Builtin:
		return VFunc{name: "builtin." + v.Name()}
	}
	x, ok := fr.env[v]
	if !ok {
		in.undecided(v.Pos(), "use of value %s before definition in %s", v.Name(), fr.fn)
	}
	return x
}

func (in *Interp) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.String:
		return cStr(constant.StringVal(c.Value))
	case constant.Bool:
		return VConst{c.Value}
	default:
		if isFloat(c.Type()) {
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return cFloat(f)
		}
		if isInteger(c.Type()) {
			return VConst{constant.ToInt(c.Value)}
		}
		if isString(c.Type()) {
			i, _ := constant.Int64Val(c.Value)
			return cStr(string(rune(i)))
		}
		return VConst{c.Value}
	}
}

func (in *Interp) step(fr *frame, instr ssa.Instruction) {
	switch x := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		o := in.newObj(in.zero(et), et, x.Comment)
		in.initSpecial(o, et)
		fr.env[x] = VPtr{obj: o}
	case *ssa.Store:
		in.store(in.val(fr, x.Addr), in.val(fr, x.Val), x.Pos())
	case *ssa.UnOp:
		fr.env[x] = in.unop(fr, x)
	case *ssa.BinOp:
		fr.env[x] = in.binop(x.Op, in.val(fr, x.X), in.val(fr, x.Y), x.X.Type(), x.Pos())
	case *ssa.Call:
		r := in.call(fr, &x.Call, x.Pos())
		switch len(r) {
		case 0:
		case 1:
			if _, isTuple := x.Type().(*types.Tuple); isTuple {
				fr.env[x] = VTuple(r)
			} else {
				fr.env[x] = r[0]
			}
		default:
			fr.env[x] = VTuple(r)
		}
	case *ssa.Go:
		in.events = append(in.events, Event{kind: "go", pos: x.Pos()})
		in.call(fr, &x.Call, x.Pos())
	case *ssa.Defer:
		fn, args := in.prepare(fr, &x.Call, x.Pos())
		fr.defers = append(fr.defers, func() { in.apply(fn, args, &x.Call, x.Pos()) })
	case *ssa.Extract:
		t, ok := in.val(fr, x.Tuple).(VTuple)
		if !ok {
			in.undecided(x.Pos(), "extract from %T", in.val(fr, x.Tuple))
		}
		fr.env[x] = t[x.Index]
	case *ssa.ChangeType:
		v := in.val(fr, x.X)
		if t, ok := v.(*VTerm); ok {
			n := *t
			n.typ = x.Type()
			v = &n
		}
		if s, ok := v.(VStruct); ok {
			v = VStruct{x.Type(), s.f}
		}
		fr.env[x] = v
	case *ssa.ChangeInterface:
		fr.env[x] = in.val(fr, x.X)
	case *ssa.MakeInterface:
		v := in.val(fr, x.X)
		fr.env[x] = VIface{dyn: x.X.Type(), v: copyVal(v)}
	case *ssa.Convert:
		fr.env[x] = in.convert(in.val(fr, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.MultiConvert:
		fr.env[x] = in.convert(in.val(fr, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		var free []Val
		for _, b := range x.Bindings {
			free = append(free, in.val(fr, b))
		}
		fr.env[x] = VFunc{fn: f, free: free}
	case *ssa.MakeMap:
		fr.env[x] = VMap{&MapObj{name: in.fresh("map")}}
	case *ssa.MakeChan:
		fr.env[x] = mkTerm(x.Type(), in.fresh("chan"))
	case *ssa.MakeSlice:
		n, ok1 := in.intOf(in.val(fr, x.Len))
		cp, ok2 := in.intOf(in.val(fr, x.Cap))
		if ok1 && !ok2 {
			// room for more elements: how much is not known
			if in.compare(in.val(fr, x.Cap), cInt(int64(n)), true) < 0 {
				in.crash(x.Pos(), "makeslice: cap out of range (capacity may be less than the length)")
			}
			cp, ok2 = n+64, true
		}
		if !ok1 || !ok2 {
			l := in.val(fr, x.Len)
			if t, ok := l.(*VTerm); ok {
				if in.compare(t, cInt(0), true) < 0 {
					in.crash(x.Pos(), "makeslice: len out of range (length may be negative)")
				}
				sl := mkTerm(x.Type(), "makeslice", t)
				in.facts["nil:"+sl.key] = 0
				fr.env[x] = sl
				return
			}
			in.undecided(x.Pos(), "make with unknown length %s", key(l))
		}
		if n < 0 || cp < n {
			in.crash(x.Pos(), "makeslice: len out of range")
		}
		if cp > 100000 {
			in.undecided(x.Pos(), "make of %d elements", cp)
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		a := VArray{make([]Val, cp)}
		for i := range a.e {
			a.e[i] = in.zero(et)
		}
		fr.env[x] = VSlice{in.newObj(a, types.NewArray(et, int64(cp)), "makeslice"), 0, n, cp}
	case *ssa.FieldAddr:
		p := in.val(fr, x.X)
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		fr.env[x] = in.addrOf(p, x.Field, pt, x.Pos())
	case *ssa.Field:
		v := in.val(fr, x.X)
		switch s := v.(type) {
		case VStruct:
			fr.env[x] = s.f[x.Field]
		case *VTerm:
			st := x.X.Type().Underlying().(*types.Struct)
			fr.env[x] = in.opaque(st.Field(x.Field).Type(), s.key+"."+st.Field(x.Field).Name())
		default:
			in.undecided(x.Pos(), "field of %T", v)
		}
	case *ssa.IndexAddr:
		fr.env[x] = in.indexAddr(in.val(fr, x.X), in.val(fr, x.Index), x)
	case *ssa.Index:
		v := in.val(fr, x.X)
		i := in.val(fr, x.Index)
		switch a := v.(type) {
		case VArray:
			k, ok := in.intOf(i)
			if !ok {
				in.undecided(x.Pos(), "array index %s", key(i))
			}
			if k < 0 || k >= len(a.e) {
				in.crash(x.Pos(), "index out of range")
			}
			fr.env[x] = a.e[k]
		case VStr:
			fr.env[x] = in.strIndex(a, i, stepping(x.Index), x.Pos())
		default:
			in.undecided(x.Pos(), "index of %T", v)
		}
	case *ssa.Lookup:
		fr.env[x] = in.lookup(in.val(fr, x.X), in.val(fr, x.Index), x)
	case *ssa.MapUpdate:
		in.mapUpdate(in.val(fr, x.Map), in.val(fr, x.Key), in.val(fr, x.Value), x.Pos())
	case *ssa.Slice:
		fr.env[x] = in.slice(fr, x)
	case *ssa.Range:
		fr.env[x] = in.rangeOver(in.val(fr, x.X), x.Pos())
	case *ssa.Next:
		it := in.val(fr, x.Iter).(*vIter)
		tup := x.Type().(*types.Tuple)
		if it.pos >= len(it.keys) {
			fr.env[x] = VTuple{cBool(false), in.zeroOrNil(tup.At(1).Type()), in.zeroOrNil(tup.At(2).Type())}
		} else {
			fr.env[x] = VTuple{cBool(true), it.keys[it.pos], it.vals[it.pos]}
			it.pos++
		}
	case *ssa.TypeAssert:
		fr.env[x] = in.typeAssert(in.val(fr, x.X), x)
	case *ssa.SliceToArrayPointer:
		s, ok := in.val(fr, x.X).(VSlice)
		if !ok || s.off != 0 {
			in.undecided(x.Pos(), "slice to array pointer")
		}
		fr.env[x] = VPtr{obj: s.arr}
	case *ssa.Send:
		in.events = append(in.events, Event{kind: "send", pos: x.Pos()})
	case *ssa.Select:
		in.undecided(x.Pos(), "select statement")
	default:
		in.undecided(instr.Pos(), "instruction %T", instr)
	}
}

func (in *Interp) zeroOrNil(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VNil{}
	}
	return in.zero(t)
}

func (in *Interp) intOf(v Val) (int, bool) {
	c, ok := v.(VConst)
	if !ok {
		return 0, false
	}
	i := constant.ToInt(c.c)
	if i.Kind() != constant.Int {
		return 0, false
	}
	n, exact := constant.Int64Val(i)
	return int(n), exact
}

func (in *Interp) addrOf(p Val, field int, pt types.Type, pos token.Pos) Val {
	switch p := p.(type) {
	case VNil:
		in.crash(pos, "nil pointer dereference")
	case VPtr:
		return VPtr{p.obj, append(append([]int(nil), p.path...), field)}
	case *VTerm:
		if in.mayBeNil(p) {
			in.crash(pos, "nil pointer dereference of %s", p.key)
		}
		o := in.lazyObj(p, pt)
		return VPtr{o, []int{field}}
	}
	in.undecided(pos, "field address of %T", p)
	return nil
}

func (in *Interp) indexAddr(v, i Val, x *ssa.IndexAddr) Val {
	k, known := in.intOf(i)
	switch a := v.(type) {
	case VSlice:
		if !known {
			if t, ok := i.(*VTerm); ok {
				// concretise a small opaque index
				for n := 0; n < a.len; n++ {
					if in.compare(t, cInt(int64(n)), true) == 0 {
						return VPtr{a.arr, []int{a.off + n}}
					}
				}
				in.crash(x.Pos(), "index %s out of range with length %d", t.key, a.len)
			}
			in.undecided(x.Pos(), "slice index %s", key(i))
		}
		if k < 0 || k >= a.len {
			in.crash(x.Pos(), "index out of range [%d] with length %d", k, a.len)
		}
		return VPtr{a.arr, []int{a.off + k}}
	case VPtr:
		if !known {
			in.undecided(x.Pos(), "array index %s", key(i))
		}
		return VPtr{a.obj, append(append([]int(nil), a.path...), k)}
	case VNil:
		in.crash(x.Pos(), "index out of range of nil slice")
	case *VTerm:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		if known && (k >= walked || stepping(x.Index)) && (a.op == "bytes" || a.op == "slice") {
			in.sample(a, x.Pos(), "access to its characters")
		}
		ln := in.lenOf(a, x.Pos())
		if in.compare(i, cInt(0), true) < 0 || in.compare(i, ln, true) >= 0 {
			in.crash(x.Pos(), "index %s out of range of %s", key(i), a.key)
		}
		t := mkTerm(types.NewPointer(et), "elem", a, i)
		return VPtr{obj: in.lazyObj(t, et)}
	}
	in.undecided(x.Pos(), "index address of %T", v)
	return nil
}

func (in *Interp) strIndex(s VStr, i Val, loop bool, pos token.Pos) Val {
	k, known := in.intOf(i)
	if str, ok := s.isConst(); ok && known {
		if k < 0 || k >= len(str) {
			in.crash(pos, "string index out of range [%d] with length %d", k, len(str))
		}
		return cInt(int64(str[k]))
	}
	if in.ci != nil && known {
		if l, ok := in.ci.byteText(s); ok {
			if k < 0 || k >= len(l) {
				in.crash(pos, "string index out of range [%d] with length %d", k, len(l))
			}
			return byteVal(l[k])
		}
	}
	if part, off, ok := in.textAt(s, i); ok && part < len(s.parts) && s.parts[part].atom == nil && off < len(s.parts[part].s) {
		return cInt(int64(s.parts[part].s[off]))
	}
	if known && (k >= walked || loop) {
		in.sample(s, pos, "access to its characters")
	}
	ln := in.strLen(s)
	if !in.mayBe(i, cInt(0), -1) && !in.mayBe(i, ln, 0) && !in.mayBe(i, ln, 1) {
		return mkTerm(types.Typ[types.Uint8], "byteat", s, i)
	}
	if in.compare(i, cInt(0), true) < 0 || in.compare(i, ln, true) >= 0 {
		in.crash(pos, "string index %s out of range of %s", key(i), key(s))
	}
	return mkTerm(types.Typ[types.Uint8], "byteat", s, i)
}

func (in *Interp) strLen(s VStr) Val {
	if str, ok := s.isConst(); ok {
		return cInt(int64(len(str)))
	}
	if in.ci != nil {
		if l, ok := in.ci.byteText(s); ok {
			return cInt(int64(len(l)))
		}
	}
	var total Val = cInt(0)
	for _, p := range s.parts {
		var l Val
		if p.atom == nil {
			l = cInt(int64(len(p.s)))
		} else {
			l = mkTerm(types.Typ[types.Int], "len", p.atom)
		}
		total = in.arith(token.ADD, total, l, types.Typ[types.Int], token.NoPos)
	}
	return total
}

func (in *Interp) lenOf(v Val, pos token.Pos) Val {
	switch a := v.(type) {
	case VNil:
		return cInt(0)
	case VSlice:
		return cInt(int64(a.len))
	case VStr:
		return in.strLen(a)
	case VArray:
		return cInt(int64(len(a.e)))
	case VMap:
		return cInt(int64(len(a.m.keys)))
	case VPtr:
		if arr, ok := in.load(a, nil, pos).(VArray); ok {
			return cInt(int64(len(arr.e)))
		}
	case *VTerm:
		if a.op == "makeslice" {
			return a.args[0]
		}
		if s, ok := in.textOf(a, pos); ok {
			return in.strLen(s)
		}
		return mkTerm(types.Typ[types.Int], "len", a)
	}
	in.undecided(pos, "len of %T", v)
	return nil
}

func (in *Interp) lookup(m, k Val, x *ssa.Lookup) Val {
	et := x.Type()
	if x.CommaOk {
		et = x.Type().(*types.Tuple).At(0).Type()
	}
	ret := func(v Val, ok bool) Val {
		if x.CommaOk {
			return VTuple{v, cBool(ok)}
		}
		return v
	}
	switch a := m.(type) {
	case VStr:
		return in.strIndex(a, k, stepping(x.Index), x.Pos())
	case VNil:
		return ret(in.zero(et), false)
	case VMap:
		if a.m.global {
			in.touch(a.m.name, false, x.Pos())
		}
		in.hashable(k, x.Pos())
		for i := range a.m.keys {
			if in.equal(a.m.keys[i], k, x.Pos()) {
				return ret(copyVal(a.m.vals[i]), true)
			}
		}
		return ret(in.zero(et), false)
	case *VTerm:
		if in.choose("has:"+a.key+"["+key(k)+"]", 2) == 1 {
			v := in.opaque(et, "lookup", a, k)
			return ret(v, true)
		}
		return ret(in.zero(et), false)
	}
	in.undecided(x.Pos(), "lookup in %T", m)
	return nil
}

func (in *Interp) hashable(k Val, pos token.Pos) {
	if i, ok := k.(VIface); ok && i.dyn != nil && !types.Comparable(i.dyn) {
		in.crash(pos, "hash of unhashable type %s", typeName(i.dyn))
	}
}

func (in *Interp) mapUpdate(m, k, v Val, pos token.Pos) {
	switch a := m.(type) {
	case VNil:
		in.crash(pos, "assignment to entry in nil map")
	case VMap:
		if a.m.global {
			in.touch(a.m.name, true, pos)
			if in.initing == 0 {
				markGlobal(v, a.m.name, map[interface{}]bool{})
			}
		}
		if a.m.input || a.m.global && in.initing == 0 {
			in.writes = append(in.writes, a.m.name+" written in "+in.where(pos))
		}
		in.hashable(k, pos)
		for i := range a.m.keys {
			if in.equal(a.m.keys[i], k, pos) {
				a.m.vals[i] = copyVal(v)
				return
			}
		}
		a.m.keys = append(a.m.keys, k)
		a.m.vals = append(a.m.vals, copyVal(v))
		return
	case *VTerm:
		in.writes = append(in.writes, "opaque map "+a.key+" written in "+in.where(pos))
		return
	}
	in.undecided(pos, "map update of %T", m)
}

func (in *Interp) slice(fr *frame, x *ssa.Slice) Val {
	v := in.val(fr, x.X)
	get := func(e ssa.Value) Val {
		if e == nil {
			return nil
		}
		return in.val(fr, e)
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	switch a := v.(type) {
	case VStr:
		return in.strSlice(a, lo, hi, x.Pos())
	case VNil:
		l, _ := in.intOf(orZero(lo))
		h, _ := in.intOf(orZero(hi))
		if l != 0 || h != 0 {
			in.crash(x.Pos(), "slice bounds out of range of nil slice")
		}
		return VNil{}
	case VSlice, VPtr:
		var arr *Obj
		off, ln, cp := 0, 0, 0
		switch s := a.(type) {
		case VSlice:
			arr, off, ln, cp = s.arr, s.off, s.len, s.cap
		case VPtr:
			if len(s.path) > 0 {
				// slice of an array component: share through a view
				av, ok := in.load2(s).(VArray)
				if !ok {
					in.undecided(x.Pos(), "slice of component")
				}
				arr = &Obj{v: av, name: s.obj.name + ".view", input: s.obj.input, global: s.obj.global}
			} else {
				arr = s.obj
			}
			av, ok := arr.v.(VArray)
			if !ok {
				in.undecided(x.Pos(), "slice of %T", arr.v)
			}
			ln, cp = len(av.e), len(av.e)
		}
		l, h, m := 0, ln, cp
		var ok bool
		if lo != nil {
			if l, ok = in.intOf(lo); !ok {
				in.undecided(x.Pos(), "slice bound %s", key(lo))
			}
		}
		if hi != nil {
			if h, ok = in.intOf(hi); !ok {
				in.undecided(x.Pos(), "slice bound %s", key(hi))
			}
		}
		if mx != nil {
			if m, ok = in.intOf(mx); !ok {
				in.undecided(x.Pos(), "slice bound %s", key(mx))
			}
		}
		if l < 0 || h < l || h > cp || m < h || m > cp {
			in.crash(x.Pos(), "slice bounds out of range [%d:%d] with capacity %d", l, h, cp)
		}
		return VSlice{arr, off + l, h - l, m - l}
	case *VTerm:
		if s, ok := in.textOf(a, x.Pos()); ok && mx == nil {
			return in.unknownBytes(x.Type(), asStr(in.strSlice(s, lo, hi, x.Pos())))
		}
		args := []Val{a}
		for _, e := range []Val{lo, hi} {
			if e == nil {
				args = append(args, VNil{})
			} else {
				args = append(args, e)
			}
		}
		return mkTerm(x.Type(), "slice", args...)
	}
	in.undecided(x.Pos(), "slice of %T", v)
	return nil
}

func (in *Interp) load2(p VPtr) Val {
	v := p.obj.v
	for _, i := range p.path {
		switch a := v.(type) {
		case VStruct:
			v = a.f[i]
		case VArray:
			v = a.e[i]
		}
	}
	return v
}

func orZero(v Val) Val {
	if v == nil {
		return cInt(0)
	}
	return v
}

// strSlice takes a substring.
// textAt finds the part and offset of a byte position that is known to lie in
// or at the edge of a part; at an edge it is the later part.
func (in *Interp) textAt(s VStr, x Val) (part, off int, ok bool) {
	k := key(x)
	var sum Val = cInt(0)
	for i, p := range s.parts {
		if p.atom != nil {
			if key(sum) == k {
				return i, 0, true
			}
			sum = in.arith(token.ADD, sum, mkTerm(types.Typ[types.Int], "len", p.atom), types.Typ[types.Int], token.NoPos)
			continue
		}
		for d := 0; d <= len(p.s); d++ {
			if key(in.arith(token.ADD, sum, cInt(int64(d)), types.Typ[types.Int], token.NoPos)) == k {
				return i, d, true
			}
		}
		sum = in.arith(token.ADD, sum, cInt(int64(len(p.s))), types.Typ[types.Int], token.NoPos)
	}
	return len(s.parts), 0, key(sum) == k
}

func (in *Interp) strSlice(s VStr, lo, hi Val, pos token.Pos) Val {
	if str, ok := s.isConst(); ok {
		l, h := 0, len(str)
		ok1, ok2 := true, true
		if lo != nil {
			l, ok1 = in.intOf(lo)
		}
		if hi != nil {
			h, ok2 = in.intOf(hi)
		}
		if ok1 && ok2 {
			if l < 0 || h < l || h > len(str) {
				in.crash(pos, "slice bounds out of range [%d:%d] with length %d", l, h, len(str))
			}
			return cStr(str[l:h])
		}
	}
	ln := in.strLen(s)
	if lo == nil {
		lo = cInt(0)
	}
	if hi == nil {
		hi = ln
	}
	// bounds inside known fragments cut the text exactly
	at := func(x Val) (part, off int, ok bool) { return in.textAt(s, x) }
	if i, d, ok := at(lo); ok {
		if j, e, ok := at(hi); ok && (i < j || i == j && d <= e) {
			r := VStr{}
			for x := i; x <= j && x < len(s.parts); x++ {
				p := s.parts[x]
				if p.atom != nil {
					if x < j {
						r = r.add(p)
					}
					continue
				}
				f, t := 0, len(p.s)
				if x == i {
					f = d
				}
				if x == j {
					t = e
				}
				r = r.add(Part{s: p.s[f:t]})
			}
			return r
		}
	}
	if in.compare(lo, cInt(0), true) < 0 || in.compare(hi, ln, true) > 0 || in.compare(lo, hi, true) > 0 {
		in.crash(pos, "slice bounds out of range [%s:%s] of %s", key(lo), key(hi), key(s))
	}
	return atomStr(mkTerm(types.Typ[types.String], "substr", s, lo, hi))
}

func (in *Interp) rangeOver(v Val, pos token.Pos) Val {
	switch a := v.(type) {
	case VNil:
		return &vIter{}
	case VMap:
		it := &vIter{}
		idx := make([]int, len(a.m.keys))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(i, j int) bool { return key(a.m.keys[idx[i]]) < key(a.m.keys[idx[j]]) })
		for _, i := range idx {
			it.keys = append(it.keys, a.m.keys[i])
			it.vals = append(it.vals, a.m.vals[i])
		}
		return it
	case VStr:
		str, ok := a.isConst()
		if !ok && in.ci != nil {
			if l, ok := in.ci.byteText(a); ok {
				// characters beyond ASCII appear as their bytes
				it := &vIter{str: true}
				for i, v := range l {
					it.keys = append(it.keys, cInt(int64(i)))
					it.vals = append(it.vals, byteVal(v))
				}
				return it
			}
		}
		if !ok {
			in.sample(a, pos, "iteration over its characters")
			in.undecided(pos, "iteration over the characters of unknown text %s", key(a))
		}
		it := &vIter{str: true}
		for i, r := range str {
			it.keys = append(it.keys, cInt(int64(i)))
			it.vals = append(it.vals, cInt(int64(r)))
		}
		return it
	}
	in.undecided(pos, "range over %T", v)
	return nil
}

func (in *Interp) typeAssert(v Val, x *ssa.TypeAssert) Val {
	ok := false
	var res Val
	toIface := types.IsInterface(x.AssertedType)
	dynName := "nil"
	switch a := v.(type) {
	case VNil:
	case VIface:
		if a.dyn == nil {
			// opaque non-nil dynamic type
			t := a.v.(*VTerm)
			if toIface {
				ok = isErrorType(x.AssertedType) || in.choose("impl:"+t.key+":"+typeName(x.AssertedType), 2) == 1
				res = v
			} else {
				ok = in.isDyn(t, x.AssertedType)
				res = in.opaqueNonNil(x.AssertedType, "as", t)
			}
			dynName = "unknown"
			break
		}
		dynName = typeName(a.dyn)
		if toIface {
			ok = types.Implements(a.dyn, x.AssertedType.Underlying().(*types.Interface))
			res = v
		} else {
			ok = types.Identical(a.dyn, x.AssertedType)
			res = copyVal(a.v)
		}
	case *VTerm:
		if in.nilTerm(a) {
			break
		}
		dynName = "unknown"
		if toIface {
			ok = in.choose("impl:"+a.key+":"+typeName(x.AssertedType), 2) == 1
			res = v
		} else {
			ok = in.isDyn(a, x.AssertedType)
			if ok {
				res = in.opaqueNonNil(x.AssertedType, "as", a)
			}
		}
	default:
		in.undecided(x.Pos(), "type assertion on %T", v)
	}
	if x.CommaOk {
		if !ok {
			return VTuple{in.zero(x.AssertedType), cBool(false)}
		}
		return VTuple{res, cBool(true)}
	}
	if !ok {
		in.crash(x.Pos(), "interface conversion: value of type %s is not %s", dynName, typeName(x.AssertedType))
	}
	return res
}

func (in *Interp) opaqueNonNil(t types.Type, op string, args ...Val) Val {
	v := in.opaque(t, op, args...)
	if x, ok := v.(*VTerm); ok {
		in.facts["nil:"+x.key] = 0
	}
	return v
}

// isDyn decides whether an opaque interface holds the given concrete type.
func (in *Interp) isDyn(t *VTerm, ty types.Type) bool {
	k := "dyn:" + t.key
	if d, ok := in.known(k); ok && d == 1 {
		_, is := in.known(k + "=" + typeName(ty))
		return is
	}
	if in.choose(k+"?"+typeName(ty), 2) == 1 {
		in.facts[k] = 1
		in.facts[k+"="+typeName(ty)] = 1
		return true
	}
	return false
}

// nilTerm decides whether an opaque reference is nil, forking.
func (in *Interp) nilTerm(t *VTerm) bool { return in.choose("nil:"+t.key, 2) == 1 }

// ---------------------------------------------------------------------------
// Operators

func (in *Interp) unop(fr *frame, x *ssa.UnOp) Val {
	v := in.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		return in.load(v, x.Type(), x.Pos())
	case token.NOT:
		return cBool(!in.truth(v, x.Pos()))
	case token.SUB:
		if c, ok := v.(VConst); ok {
			if f, ok := constant.Float64Val(constant.ToFloat(c.c)); ok && f == 0 && isFloat(x.X.Type()) {
				return cFloat(0) // -0 == 0
			}
			return VConst{constant.UnaryOp(token.SUB, c.c, 0)}
		}
		return in.neg(v, x.X.Type())
	case token.XOR:
		if c, ok := v.(VConst); ok {
			return VConst{constant.UnaryOp(token.XOR, c.c, 0)}
		}
		return mkTerm(x.Type(), "not", v)
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		r := in.opaque(et, in.fresh("recv"))
		if x.CommaOk {
			return VTuple{r, cBool(true)}
		}
		return r
	}
	in.undecided(x.Pos(), "operator %s", x.Op)
	return nil
}

func (in *Interp) neg(v Val, t types.Type) Val {
	if tm, ok := v.(*VTerm); ok && tm.op == "neg" {
		return tm.args[0]
	}
	return mkTerm(t, "neg", v)
}

func (in *Interp) binop(op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return cBool(in.equal(a, b, pos))
	case token.NEQ:
		return cBool(!in.equal(a, b, pos))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if r, ok := in.ci.byteCmp(a, b); ok {
			return cBool(op == token.LSS && r < 0 || op == token.LEQ && r <= 0 || op == token.GTR && r > 0 || op == token.GEQ && r >= 0)
		}
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isNaN(a) || isNaN(b) {
			return cBool(false)
		}
	}
	switch op {
	case token.LSS:
		return cBool(in.compare(a, b, isInteger(t)) < 0)
	case token.LEQ:
		return cBool(in.compare(a, b, isInteger(t)) <= 0)
	case token.GTR:
		return cBool(in.compare(a, b, isInteger(t)) > 0)
	case token.GEQ:
		return cBool(in.compare(a, b, isInteger(t)) >= 0)
	}
	if sa, ok := a.(VStr); ok && op == token.ADD {
		sb, ok := b.(VStr)
		if !ok {
			in.undecided(pos, "string concatenation with %T", b)
		}
		return sa.concat(sb)
	}
	if ca, ok := a.(VConst); ok && ca.c.Kind() == constant.Bool {
		cb := b.(VConst)
		x, y := constant.BoolVal(ca.c), constant.BoolVal(cb.c)
		switch op {
		case token.AND:
			return cBool(x && y)
		case token.OR:
			return cBool(x || y)
		case token.XOR:
			return cBool(x != y)
		}
	}
	return in.arith(op, a, b, t, pos)
}

func wrapInt(c constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return c
	}
	c = constant.ToInt(c)
	if c.Kind() != constant.Int {
		return c
	}
	bits := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
	r := constant.BinaryOp(c, token.REM, mod)
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if b.Info()&types.IsUnsigned == 0 {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

func isConstNum(v Val, n float64) bool {
	c, ok := v.(VConst)
	if !ok || c.c.Kind() == constant.Bool {
		return false
	}
	f, _ := constant.Float64Val(constant.ToFloat(c.c))
	return f == n
}

func (in *Interp) arith(op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	ca, ok1 := a.(VConst)
	cb, ok2 := b.(VConst)
	integer := isInteger(t)
	if (op == token.QUO || op == token.REM) && integer {
		if ok2 {
			if constant.Sign(cb.c) == 0 {
				in.crash(pos, "integer divide by zero")
			}
		} else if in.zeroInt(b) {
			in.crash(pos, "integer divide by zero (divisor %s may be zero)", key(b))
		}
	}
	if ok1 && ok2 {
		if integer {
			x, y := constant.ToInt(ca.c), constant.ToInt(cb.c)
			switch op {
			case token.SHL, token.SHR:
				s, _ := constant.Uint64Val(y)
				return VConst{wrapInt(constant.Shift(x, op, uint(s)), t)}
			case token.QUO:
				return VConst{wrapInt(constant.BinaryOp(x, token.QUO_ASSIGN, y), t)}
			case token.AND_NOT:
				return VConst{wrapInt(constant.BinaryOp(x, token.AND_NOT, y), t)}
			}
			return VConst{wrapInt(constant.BinaryOp(x, op, y), t)}
		}
		x, _ := constant.Float64Val(constant.ToFloat(ca.c))
		y, _ := constant.Float64Val(constant.ToFloat(cb.c))
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		}
		if math.IsInf(r, 0) || math.IsNaN(r) {
			return mkTerm(t, fmt.Sprintf("float:%v", r))
		}
		return cFloat(r)
	}
	switch op {
	case token.ADD:
		if isConstNum(a, 0) {
			return b
		}
		if isConstNum(b, 0) {
			return a
		}
		if nb, ok := b.(*VTerm); ok && nb.op == "neg" {
			return in.arith(token.SUB, a, nb.args[0], t, pos)
		}
		if na, ok := a.(*VTerm); ok && na.op == "neg" {
			return in.arith(token.SUB, b, na.args[0], t, pos)
		}
		if key(a) > key(b) {
			a, b = b, a
		}
		if integer {
			// (x + c1) + c2
			if k, ok := a.(VConst); ok {
				if tb, ok := b.(*VTerm); ok && (tb.op == "add" || tb.op == "sub") {
					for i, other := range []int{1, 0} {
						if c2, ok := tb.args[i].(VConst); ok && tb.op == "add" {
							return in.arith(token.ADD, VConst{constant.BinaryOp(k.c, token.ADD, c2.c)}, tb.args[other], t, pos)
						}
					}
				}
			}
		}
		return mkTerm(t, "add", a, b)
	case token.SUB:
		if isConstNum(b, 0) {
			return a
		}
		if isConstNum(a, 0) {
			return in.neg(b, t)
		}
		if integer {
			if key(a) == key(b) {
				return cInt(0)
			}
			if k, ok := b.(VConst); ok {
				return in.arith(token.ADD, VConst{constant.UnaryOp(token.SUB, constant.ToInt(k.c), 0)}, a, t, pos)
			}
		}
		return mkTerm(t, "sub", a, b)
	case token.MUL:
		if isConstNum(a, 1) {
			return b
		}
		if isConstNum(b, 1) {
			return a
		}
		if isConstNum(a, -1) {
			return in.neg(b, t)
		}
		if isConstNum(b, -1) {
			return in.neg(a, t)
		}
		if key(a) > key(b) {
			a, b = b, a
		}
		return mkTerm(t, "mul", a, b)
	case token.QUO:
		if integer {
			return mkTerm(t, "idiv", a, b)
		}
		return mkTerm(t, "div", a, b)
	case token.REM:
		return mkTerm(t, "rem", a, b)
	}
	return mkTerm(t, "op"+op.String(), a, b)
}

// zeroInt decides whether an integer atom is zero.
func (in *Interp) zeroInt(b Val) bool {
	if t, ok := b.(*VTerm); ok && t.op == "trunc" {
		// trunc(x) = 0 exactly when |x| < 1
		ab := mkTerm(types.Typ[types.Float64], "abs", t.args[0])
		for _, f := range in.order {
			if (f.a == ab.key && f.b == "#1") || (f.b == ab.key && f.a == "#1") {
				return in.compare(ab, cInt(1), false) < 0
			}
		}
	}
	return in.compare(b, cInt(0), true) == 0
}

// equal decides ==.
func (in *Interp) equal(a, b Val, pos token.Pos) bool {
	if r, ok := in.ci.byteEq(a, b); ok {
		return r
	}
	if isNaN(a) || isNaN(b) {
		return false
	}
	switch x := a.(type) {
	case VNil:
		return in.isNil(b, pos)
	case VConst:
		if t, ok := b.(*VTerm); ok && x.c.Kind() == constant.Bool {
			return in.truth(t, pos) == constant.BoolVal(x.c)
		}
		if _, ok := b.(VIface); ok {
			return false
		}
		return in.equals(a, b, false)
	case VStr:
		y, ok := b.(VStr)
		if !ok {
			if _, isT := b.(*VTerm); !isT {
				return false
			}
			return in.equals(a, b, false)
		}
		return in.strEqual(x, y)
	case VIface:
		switch y := b.(type) {
		case VNil:
			return false
		case VIface:
			if rx, ok := x.v.(*VTerm); ok && rx.op == "reflecttype" {
				ry, ok := y.v.(*VTerm)
				return ok && ry.op == "reflecttype" && types.Identical(rx.args[0].(VIface).dyn, ry.args[0].(VIface).dyn)
			}
			if x.dyn == nil || y.dyn == nil {
				return in.choose("eq:"+pair(a, b), 2) == 1 || key(a) == key(b)
			}
			if !types.Identical(x.dyn, y.dyn) {
				return false
			}
			if !types.Comparable(x.dyn) {
				in.crash(pos, "comparing uncomparable type %s", typeName(x.dyn))
			}
			return in.equal(x.v, y.v, pos)
		case *VTerm:
			return in.choose("eq:"+pair(a, b), 2) == 1
		}
	case VStruct:
		y, ok := b.(VStruct)
		if !ok {
			return false
		}
		for i := range x.f {
			if !in.equal(x.f[i], y.f[i], pos) {
				return false
			}
		}
		return true
	case VArray:
		y := b.(VArray)
		for i := range x.e {
			if !in.equal(x.e[i], y.e[i], pos) {
				return false
			}
		}
		return true
	case VPtr:
		switch y := b.(type) {
		case VPtr:
			return x.obj == y.obj && fmt.Sprint(x.path) == fmt.Sprint(y.path)
		default:
			return false
		}
	case VFunc, VMap, VSlice:
		return false
	case *VTerm:
		switch y := b.(type) {
		case VNil:
			return in.isNil(a, pos)
		case VConst, VStr:
			return in.equal(b, a, pos)
		case *VTerm:
			if x.key == y.key {
				return true
			}
			if x.typ != nil && isTime(x.typ) {
				return in.choose("timeident:"+pair(a, b), 2) == 1
			}
			if x.typ != nil {
				if bt, ok := x.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
					return in.equals(a, b, bt.Info()&types.IsInteger != 0)
				}
			}
			return in.choose("eq:"+pair(a, b), 2) == 1
		case VIface:
			return in.choose("eq:"+pair(a, b), 2) == 1
		default:
			return false
		}
	}
	in.undecided(pos, "comparison of %T and %T", a, b)
	return false
}

func pair(a, b Val) string {
	x, y := key(a), key(b)
	if x > y {
		x, y = y, x
	}
	return x + "|" + y
}

func (in *Interp) strEqual(x, y VStr) bool {
	// cut common prefix fragments
	if s, ok := x.isConst(); ok && s == "" {
		for _, p := range y.parts {
			if p.atom == nil {
				return false
			}
		}
	}
	if s, ok := y.isConst(); ok && s == "" {
		for _, p := range x.parts {
			if p.atom == nil {
				return false
			}
		}
	}
	return in.equals(x, y, false)
}

func (in *Interp) isNil(v Val, pos token.Pos) bool {
	switch x := v.(type) {
	case VNil:
		return true
	case *VTerm:
		return in.nilTerm(x)
	}
	return false
}

// convert implements conversions.
func (in *Interp) convert(v Val, from, to types.Type, pos token.Pos) Val {
	switch x := v.(type) {
	case VConst:
		switch {
		case isInteger(to):
			if f := constant.ToInt(x.c); f.Kind() == constant.Int {
				return VConst{wrapInt(f, to)}
			}
			f, _ := constant.Float64Val(constant.ToFloat(x.c))
			return VConst{wrapInt(constant.MakeInt64(int64(f)), to)}
		case isFloat(to):
			f, _ := constant.Float64Val(constant.ToFloat(x.c))
			return cFloat(f)
		case isString(to):
			i, _ := constant.Int64Val(constant.ToInt(x.c))
			return cStr(string(rune(i)))
		}
		return v
	case VStr:
		if isString(to) {
			return v
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			s, isC := x.isConst()
			if !isC {
				t := mkTerm(to, "bytes", x)
				in.facts["nil:"+t.key] = 0
				return t
			}
			var e []Val
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				for _, r := range s {
					e = append(e, cInt(int64(r)))
				}
			} else {
				for i := 0; i < len(s); i++ {
					e = append(e, cInt(int64(s[i])))
				}
			}
			return VSlice{in.newObj(VArray{e}, nil, "bytes"), 0, len(e), len(e)}
		}
	case VSlice, VNil:
		if isString(to) {
			return in.bytesToString(v, from, pos)
		}
		return v
	case *VTerm:
		switch {
		case isNumeric(to) && from != nil && isNumeric(from):
			if isFloat(from) && isInteger(to) {
				return mkTerm(to, "trunc", x)
			}
			fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
			if isFloat(to) {
				if tb.Kind() == types.Float32 && (fb.Kind() == types.Float64 || isInteger(from)) {
					return mkTerm(to, "float32", x)
				}
				n := *x
				n.typ = to
				return &n // widening to float keeps the number
			}
			if isInteger(from) && isInteger(to) {
				if fits(fb, tb) {
					n := *x
					n.typ = to
					return &n
				}
				return mkTerm(to, "wrap"+tb.Name(), x)
			}
			n := *x
			n.typ = to
			return &n
		case isString(to):
			if x.op == "bytes" {
				return x.args[0]
			}
			if x.op == "slice" {
				return atomStr(mkTerm(to, "str", x))
			}
			return atomStr(mkTerm(to, "str", x))
		}
		n := *x
		n.typ = to
		return &n
	case VPtr, VFunc:
		return v
	}
	in.undecided(pos, "conversion of %T to %s", v, typeName(to))
	return nil
}

func fits(f, t *types.Basic) bool {
	size := func(b *types.Basic) (int, bool) {
		u := b.Info()&types.IsUnsigned != 0
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8, u
		case types.Int16, types.Uint16:
			return 16, u
		case types.Int32, types.Uint32:
			return 32, u
		}
		return 64, u
	}
	fs, fu := size(f)
	ts, tu := size(t)
	switch {
	case fu == tu:
		return fs <= ts
	case fu && !tu:
		return fs < ts
	}
	return false
}

func (in *Interp) bytesToString(v Val, from types.Type, pos token.Pos) Val {
	s, ok := v.(VSlice)
	if !ok {
		return VStr{}
	}
	arr, ok := s.arr.v.(VArray)
	if !ok {
		in.undecided(pos, "string from opaque bytes")
	}
	rune32 := false
	if sl, ok := from.Underlying().(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			rune32 = true
		}
	}
	out := VStr{}
	for i := 0; i < s.len; i++ {
		e := arr.e[s.off+i]
		n, ok := in.intOf(e)
		if !ok {
			if t, isT := e.(*VTerm); isT {
				out = out.add(Part{atom: mkTerm(types.Typ[types.String], "char", t)})
				continue
			}
			in.undecided(pos, "string from unknown byte")
		}
		if rune32 {
			var b [4]byte
			w := utf8.EncodeRune(b[:], rune(n))
			out = out.add(Part{s: string(b[:w])})
		} else {
			out = out.add(Part{s: string([]byte{byte(n)})})
		}
	}
	return out
}

// ---------------------------------------------------------------------------
// Calls

func (in *Interp) prepare(fr *frame, c *ssa.CallCommon, pos token.Pos) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := in.val(fr, c.Value)
		args = append(args, recv)
	}
	for _, a := range c.Args {
		args = append(args, copyVal(in.val(fr, a)))
	}
	if c.IsInvoke() {
		return nil, args
	}
	return in.val(fr, c.Value), args
}

func (in *Interp) call(fr *frame, c *ssa.CallCommon, pos token.Pos) []Val {
	fn, args := in.prepare(fr, c, pos)
	return in.apply(fn, args, c, pos)
}

func (in *Interp) apply(fn Val, args []Val, c *ssa.CallCommon, pos token.Pos) []Val {
	if c.IsInvoke() {
		return in.invoke(args[0], c.Method, args[1:], pos)
	}
	switch f := fn.(type) {
	case VFunc:
		if strings.HasPrefix(f.name, "builtin.") {
			return in.builtin(strings.TrimPrefix(f.name, "builtin."), args, c, pos)
		}
		if f.native != nil {
			return f.native(in, args)
		}
		return in.callFn(f.fn, args, f.free, pos)
	case VNil:
		in.crash(pos, "call of nil function")
	case *VTerm:
		if in.mayBeNil(f) {
			in.crash(pos, "call of nil function")
		}
		return in.opaqueResults(c.Signature(), "call:"+f.key, args)
	}
	in.undecided(pos, "call of %T", fn)
	return nil
}

// invoke calls a method through an interface.
func (in *Interp) invoke(recv Val, m *types.Func, args []Val, pos token.Pos) []Val {
	switch r := recv.(type) {
	case VNil:
		in.crash(pos, "method %s called on nil interface", m.Name())
	case VIface:
		if in.invokeHook != nil {
			if res, ok := in.invokeHook(in, recv, m, args); ok {
				return res
			}
		}
		if r.dyn != nil {
			if res, ok := in.reflectMethod(recv, m.Name(), args, pos); ok {
				return res
			}
			f := in.m.prog.LookupMethod(r.dyn, m.Pkg(), m.Name())
			if f == nil {
				in.undecided(pos, "method %s of %s not found", m.Name(), typeName(r.dyn))
			}
			return in.callFn(f, append([]Val{r.v}, args...), nil, pos)
		}
		if m.Name() == "Error" && len(args) == 0 {
			return []Val{atomStr(mkTerm(types.Typ[types.String], "errtext", r.v))}
		}
		return in.opaqueResults(m.Type().(*types.Signature), "method:"+m.Name()+":"+key(r.v), args)
	case *VTerm:
		if in.invokeHook != nil {
			if res, ok := in.invokeHook(in, recv, m, args); ok {
				return res
			}
		}
		if in.mayBeNil(r) {
			in.crash(pos, "method %s called on nil interface", m.Name())
		}
		return in.opaqueResults(m.Type().(*types.Signature), m.Name(), append([]Val{r}, args...))
	}
	in.undecided(pos, "method %s on %T", m.Name(), recv)
	return nil
}

func (in *Interp) opaqueResults(sig *types.Signature, op string, args []Val) []Val {
	n := sig.Results().Len()
	res := make([]Val, n)
	base := mkTerm(nil, op, args...)
	for i := 0; i < n; i++ {
		k := base.key
		if n > 1 {
			k = fmt.Sprintf("%s/%d", base.key, i)
		}
		res[i] = in.opaqueKeyed(sig.Results().At(i).Type(), k, op, args)
	}
	return res
}

func (in *Interp) opaqueKeyed(t types.Type, k, op string, args []Val) Val {
	v := in.opaque(t, k)
	if x, ok := v.(*VTerm); ok && x.key == k {
		x.op, x.args = op, args
	}
	return v
}

// external is the default summary of a function outside the repository: a pure
// function of its arguments.
func (in *Interp) external(fn *ssa.Function, args []Val, pos token.Pos) []Val {
	in.sampleCall(fn, args, pos)
	in.ext[fn.String()] = true
	res := in.opaqueResults(fn.Signature, fn.String(), args)
	for i, r := range res {
		// constructors of the standard library do not return nil references
		if t, ok := r.(*VTerm); ok {
			if _, isPtr := fn.Signature.Results().At(i).Type().Underlying().(*types.Pointer); isPtr {
				if _, has := in.known("nil:" + t.key); !has {
					in.facts["nil:"+t.key] = 0
				}
			}
		}
	}
	return res
}

func (in *Interp) builtin(name string, args []Val, c *ssa.CallCommon, pos token.Pos) []Val {
	switch name {
	case "len":
		return []Val{in.lenOf(args[0], pos)}
	case "cap":
		if s, ok := args[0].(VSlice); ok {
			return []Val{cInt(int64(s.cap))}
		}
		return []Val{in.lenOf(args[0], pos)}
	case "append":
		return []Val{in.appendTo(args[0], args[1], c.Args[0].Type(), pos)}
	case "copy":
		return []Val{in.copySlice(args[0], args[1], pos)}
	case "delete":
		if m, ok := args[0].(VMap); ok {
			for i := range m.m.keys {
				if in.equal(m.m.keys[i], args[1], pos) {
					m.m.keys = append(append([]Val(nil), m.m.keys[:i]...), m.m.keys[i+1:]...)
					m.m.vals = append(append([]Val(nil), m.m.vals[:i]...), m.m.vals[i+1:]...)
					break
				}
			}
		}
		return nil
	case "print", "println", "close":
		return nil
	case "recover":
		// the frame being unwound is the caller of the deferred function
		for i := len(in.frames) - 2; i >= 0; i-- {
			if in.frames[i].pan != nil && !in.frames[i].recovered {
				v := in.frames[i].pan.val
				in.frames[i].recovered = true
				if v == nil {
					v = VIface{dyn: nil, v: mkTerm(nil, "panicvalue")}
				}
				return []Val{v}
			}
		}
		return []Val{VNil{}}
	case "panic":
		in.crash(pos, "explicit panic %s", key(args[0]))
	case "ssa:wrapnilchk":
		if _, ok := args[0].(VNil); ok {
			in.crash(pos, "nil pointer dereference in method wrapper")
		}
		return []Val{args[0]}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			cmp := in.compare(a, r, false)
			if (name == "min" && cmp < 0) || (name == "max" && cmp > 0) {
				r = a
			}
		}
		return []Val{r}
	case "clear":
		switch a := args[0].(type) {
		case VMap:
			a.m.keys, a.m.vals = nil, nil
		}
		return nil
	case "String": // unsafe.String etc.
	}
	in.undecided(pos, "builtin %s", name)
	return nil
}

func (in *Interp) elems(v Val, pos token.Pos) ([]Val, bool) {
	switch s := v.(type) {
	case VNil:
		return nil, true
	case VSlice:
		arr, ok := s.arr.v.(VArray)
		if !ok {
			return nil, false
		}
		return arr.e[s.off : s.off+s.len], true
	case VStr:
		if str, ok := s.isConst(); ok {
			var e []Val
			for i := 0; i < len(str); i++ {
				e = append(e, cInt(int64(str[i])))
			}
			return e, true
		}
		// unknown text appended as bytes: one opaque byte run per atom
		var e []Val
		for _, p := range s.parts {
			if p.atom == nil {
				for i := 0; i < len(p.s); i++ {
					e = append(e, cInt(int64(p.s[i])))
				}
			} else {
				e = append(e, mkTerm(types.Typ[types.Uint8], "run", p.atom))
			}
		}
		return e, true
	}
	return nil, false
}

// textOf is the text of a list of bytes.
func (in *Interp) textOf(v Val, pos token.Pos) (VStr, bool) {
	switch v := v.(type) {
	case VNil:
		return VStr{}, true
	case VStr:
		return v, true
	case *VTerm:
		if v.op == "bytes" && len(v.args) == 1 {
			s, ok := v.args[0].(VStr)
			return s, ok
		}
	case VSlice:
		arr, ok := v.arr.v.(VArray)
		if !ok {
			return VStr{}, false
		}
		b := make([]byte, v.len)
		for i := range b {
			n, ok := in.intOf(arr.e[v.off+i])
			if !ok {
				return VStr{}, false
			}
			b[i] = byte(n)
		}
		return cStr(string(b)), true
	}
	return VStr{}, false
}

// unknownBytes are the bytes of a text that is not known.
func (in *Interp) unknownBytes(t types.Type, s VStr) Val {
	b := mkTerm(t, "bytes", s)
	in.facts["nil:"+b.key] = 0
	return b
}

// appendText is append of a text to a list of bytes.
func (in *Interp) appendText(t types.Type, a, b Val, pos token.Pos) (Val, bool) {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	if e, ok := sl.Elem().Underlying().(*types.Basic); !ok || e.Kind() != types.Uint8 {
		return nil, false
	}
	x, ok1 := in.textOf(a, pos)
	y, ok2 := in.textOf(b, pos)
	if !ok1 || !ok2 {
		return nil, false
	}
	_, known1 := x.isConst()
	_, known2 := y.isConst()
	if known1 && known2 {
		return nil, false
	}
	return in.unknownBytes(t, x.concat(y)), true
}

func (in *Interp) appendTo(a, b Val, t types.Type, pos token.Pos) Val {
	if v, ok := in.appendText(t, a, b, pos); ok {
		return v
	}
	be, ok := in.elems(b, pos)
	if !ok {
		return in.opaqueNonNil(t, "append", a, b)
	}
	switch s := a.(type) {
	case VNil:
		if len(be) == 0 {
			return a
		}
		e := make([]Val, len(be))
		for i := range be {
			e[i] = copyVal(be[i])
		}
		return VSlice{in.newObj(VArray{e}, nil, "append"), 0, len(e), len(e)}
	case VSlice:
		if s.len+len(be) <= s.cap {
			// in place: visible through every slice of the same array
			arr := s.arr.v.(VArray)
			if (s.arr.input || s.arr.global) && len(be) > 0 {
				in.writes = append(in.writes, s.arr.name+" appended to in place in "+in.where(pos))
			}
			for i := range be {
				arr.e[s.off+s.len+i] = copyVal(be[i])
			}
			return VSlice{s.arr, s.off, s.len + len(be), s.cap}
		}
		old, _ := in.elems(s, pos)
		e := make([]Val, 0, s.len+len(be))
		for _, x := range old {
			e = append(e, copyVal(x))
		}
		for _, x := range be {
			e = append(e, copyVal(x))
		}
		return VSlice{in.newObj(VArray{e}, nil, "append"), 0, len(e), len(e)}
	case *VTerm:
		return in.opaqueNonNil(t, "append", a, b)
	}
	in.undecided(pos, "append to %T", a)
	return nil
}

func (in *Interp) copySlice(a, b Val, pos token.Pos) Val {
	be, ok := in.elems(b, pos)
	s, ok2 := a.(VSlice)
	if _, isNil := a.(VNil); isNil {
		return cInt(0)
	}
	if !ok || !ok2 {
		in.undecided(pos, "copy of unknown slices")
	}
	n := len(be)
	if s.len < n {
		n = s.len
	}
	tmp := append([]Val(nil), be[:n]...)
	arr := s.arr.v.(VArray)
	if (s.arr.input || s.arr.global) && n > 0 {
		in.writes = append(in.writes, s.arr.name+" written in "+in.where(pos))
	}
	for i := 0; i < n; i++ {
		arr.e[s.off+i] = copyVal(tmp[i])
	}
	return cInt(int64(n))
}
