package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27, C30 and C31: the commands of v4, v5 and v6.

// command is one command of the repository.
type command struct {
	ver, dir string
	kind     string            // sql, gorm, mongo, graphql, mem, parser
	names    map[string]string // accepted column names -> field of the stored book
}

func commands() []command {
	old := map[string]string{"title": "Title", "author": "Author", "spec.pages": "Spec.Pages", "spec.rating": "Spec.Rating"}
	v5 := map[string]string{"on_loan": "OnLoan"}
	for k, v := range old {
		v5[k] = v
	}
	v6 := map[string]string{"title": "Title", "author": "Author", "pages": "Spec.Pages", "rating": "Spec.Rating", "on_loan": "OnLoan"}
	var l []command
	for _, k := range []string{"sqlite", "gorm", "mongo", "graphql", "mem"} {
		kind := map[string]string{"sqlite": "sql"}[k]
		if kind == "" {
			kind = k
		}
		l = append(l, command{"v4", "cmd/tsl_" + k, kind, old}, command{"v5", "cmd/tsl_" + k, kind, v5})
	}
	l = append(l, command{"v6", "cmd/tsl_mem", "mem", v6})
	for _, v := range []string{"v4", "v5", "v6"} {
		l = append(l, command{v, "cmd/tsl_parser", "parser", nil})
	}
	return l
}

// libCall is one call into a database library.
type libCall struct {
	name string // method or function name
	full string
	args []Val // receiver first
	res  []Val
	pos  token.Pos
}

// cmdRun follows one abstract run of a command.
type cmdRun struct {
	c         command
	in        *Interp
	user      Val
	flags     map[string]Val
	calls     []libCall
	late      []libCall // library calls after a failed step
	failed    string    // the step on the user's filter that failed
	libErr    string    // a library call failed
	readErr   string    // a library call failed after the user's text was parsed
	parses    int
	checks    int
	walks     int
	nexts     map[string]int
	rows      int // rows delivered
	rowKeys   []string
	bad       []string
	freed     map[string]bool
	funcs     []VFunc
	seenFn    map[string]bool
	given     [][2]Val // options defined, and their values on the command line
	flagsRead bool
	evals     []Val
	forms     []Val // values turned into text for output
	shown     []VStr
	probe     func(r *cmdRun, f Val)    // given the column check
	verdict   func(i int, tree Val) int // result of the i-th evaluation: 0 false, 1 true, 2 error, 3 not a truth value
	onRow     func(r *cmdRun, call libCall)
	dots      int

	listArgs bool // the arguments of an SQL text are a list
	sqlArgs  []Val
}

func (r *cmdRun) complain(format string, a ...interface{}) {
	r.bad = append(r.bad, fmt.Sprintf(format, a...))
}

// fullKey is the key of a value with the memory it points at.
func fullKey(in *Interp, v Val, seen map[*Obj]bool) string {
	switch x := v.(type) {
	case VPtr:
		if seen[x.obj] {
			return ""
		}
		seen[x.obj] = true
		return "&" + fullKey(in, x.obj.v, seen)
	case VIface:
		return fullKey(in, x.v, seen)
	case VStruct:
		s := ""
		for _, f := range x.f {
			s += fullKey(in, f, seen) + ","
		}
		return "{" + s + "}"
	case VArray:
		s := ""
		for _, f := range x.e {
			s += fullKey(in, f, seen) + ","
		}
		return "[" + s + "]"
	case VSlice:
		s := ""
		if a, ok := x.arr.v.(VArray); ok {
			for i := 0; i < x.len && x.off+i < len(a.e); i++ {
				s += fullKey(in, a.e[x.off+i], seen) + ","
			}
		}
		return "[" + s + "]"
	case VMap:
		s := ""
		for i := range x.m.keys {
			s += fullKey(in, x.m.keys[i], seen) + ":" + fullKey(in, x.m.vals[i], seen) + ","
		}
		return "map[" + s + "]"
	case *VTerm:
		s := x.key
		if x.op == "parsed" || x.op == "checked" {
			return s
		}
		for _, a := range x.args {
			s += "|" + fullKey(in, a, seen)
		}
		return s
	}
	return key(v)
}

func (r *cmdRun) parsed() string  { return "parsed(" + key(r.user) + ")" }
func (r *cmdRun) checked() string { return "checked(" + r.parsed() + ")" }

// inspect complains when a library is given more than the checked filter.
func (r *cmdRun) inspect(what string, args []Val) {
	k := ""
	for _, a := range args {
		k += fullKey(r.in, a, map[*Obj]bool{}) + ";"
	}
	k = strings.ReplaceAll(k, r.checked(), "")
	if r.c.kind == "parser" {
		k = strings.ReplaceAll(k, r.parsed(), "")
	}
	if strings.Contains(k, r.parsed()) {
		r.complain("%s is given the filter before its columns are checked", what)
		return
	}
	if strings.Contains(k, key(r.user)) {
		r.complain("%s is given the user's text itself", what)
	}
}

func (r *cmdRun) useTree(what string, t Val) {
	k := key(t)
	want := r.checked()
	if r.c.kind == "parser" {
		want = r.parsed()
	}
	if k != want {
		switch k {
		case r.parsed():
			r.complain("%s is given the tree before its columns are checked", what)
		default:
			r.complain("%s is given %s instead of the user's filter", what, k)
		}
	}
	if r.freed[k] {
		r.complain("%s is given a tree that was released", what)
	}
	if r.failed != "" {
		r.complain("%s runs after the %s failed", what, r.failed)
	}
}

// collect finds functions of the command handed to a library.
func (r *cmdRun) collect(v Val, seen map[interface{}]bool) {
	switch x := v.(type) {
	case VFunc:
		if x.fn != nil && r.in.inRepo(x.fn.Pkg) && !r.seenFn[x.fn.String()] {
			r.seenFn[x.fn.String()] = true
			r.funcs = append(r.funcs, x)
		}
	case VPtr:
		if !seen[x.obj] {
			seen[x.obj] = true
			r.collect(x.obj.v, seen)
		}
	case VIface:
		r.collect(x.v, seen)
	case VStruct:
		for _, f := range x.f {
			r.collect(f, seen)
		}
	case VArray:
		for _, f := range x.e {
			r.collect(f, seen)
		}
	case VSlice:
		r.collect(x.arr.v, seen)
	case VMap:
		if !seen[x.m] {
			seen[x.m] = true
			for _, e := range x.m.vals {
				r.collect(e, seen)
			}
		}
	case *VTerm:
		for _, a := range x.args {
			r.collect(a, seen)
		}
	}
}

func pathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if p := fn.Parent(); p != nil {
		return pathOf(p)
	}
	return ""
}

// library tells the packages whose calls count as using a database.
func library(path string) bool {
	if path == "database/sql" || strings.HasPrefix(path, "database/sql/") || path == "net/http" {
		return true
	}
	first, _, _ := strings.Cut(path, "/")
	return strings.Contains(first, ".")
}

// ending are library calls that finish work and retrieve nothing.
var ending = map[string]bool{"Commit": true, "Rollback": true, "Close": true, "Disconnect": true, "Free": true}

func marshaller(path, name string) bool {
	return strings.HasPrefix(name, "Marshal") && (path == "encoding/json" || strings.Contains(path, "yaml") || strings.Contains(path, "prettyjson"))
}

// encodes: the encoders that write the form of a value to a stream.
func encodes(path string, fn *ssa.Function) bool {
	if !marshaller(path, "Marshal") {
		return false
	}
	if rc := fn.Signature.Recv(); rc != nil {
		return strings.HasSuffix(typeName(rc.Type()), ".Encoder")
	}
	return fn.Name() == "NewEncoder"
}

func (r *cmdRun) encoder(in *Interp, path string, fn *ssa.Function, args []Val) []Val {
	switch fn.Name() {
	case "NewEncoder":
		o := in.newObj(VNil{}, nil, "encoder")
		o.extra = &bufOut{w: args[0]}
		return []Val{VPtr{obj: o}}
	case "SetIndent", "SetEscapeHTML":
		return nil
	case "Close":
		return []Val{VNil{}}
	case "Encode":
		p, ok := args[0].(VPtr)
		if !ok {
			break
		}
		b, ok := p.obj.extra.(*bufOut)
		if !ok {
			break
		}
		r.forms = append(r.forms, args[1])
		r.inspectForm(args[1])
		if r.errorOr("output form") {
			r.libErr = "output form"
			return []Val{in.newError("Encode")}
		}
		t := mkTerm(types.NewSlice(types.Typ[types.Byte]), "form:"+path, args[1])
		in.fprint(b.w, asStr(in.convert(t, t.typ, tString, fn.Pos())).add(Part{s: "\n"}), fn.Pos())
		return []Val{VNil{}}
	}
	in.undecided(fn.Pos(), "encoder method %s", fn.Name())
	return nil
}

func (r *cmdRun) errorOr(name string) bool { return r.in.choose("fails:"+name, 2) == 1 }

func (r *cmdRun) hook(in *Interp, fn *ssa.Function, args []Val) ([]Val, bool) {
	path, name := pathOf(fn), fn.Name()
	res := fn.Signature.Results()
	errFn := func() Val { return in.newError(name) }
	switch {
	case path == "flag":
		return r.flag(fn, args)
	case strings.HasSuffix(path, "/pkg/tsl"):
		switch {
		case name == "ParseTSL":
			r.parses++
			if key(args[0]) != key(r.user) {
				r.complain("the parser is given %s instead of the user's text", key(args[0]))
			}
			if r.errorOr("parse") {
				r.failed = "parse"
				return []Val{VNil{}, errFn()}, true
			}
			t := mkTerm(res.At(0).Type(), "parsed", args[0])
			in.facts["nil:"+t.key] = 0
			return []Val{t, VNil{}}, true
		case name == "Free":
			k := key(args[0])
			if r.freed[k] {
				r.complain("%s is released twice", k)
			}
			r.freed[k] = true
			return nil, true
		case name == "init" || len(fn.Blocks) == 0 || fn.Signature.Recv() == nil:
			return nil, false
		}
		in.undecided(fn.Pos(), "the command uses tsl.%s", name)
	case strings.HasSuffix(path, "/pkg/walkers/ident") && name == "Walk":
		r.checks++
		if key(args[0]) != r.parsed() {
			r.complain("the column check is given %s instead of the parsed filter", key(args[0]))
		}
		if r.failed != "" {
			r.complain("the column check runs after the %s failed", r.failed)
		}
		if r.probe != nil {
			r.probe(r, args[1])
		}
		if r.errorOr("column check") {
			r.failed = "column check"
			return []Val{VNil{}, errFn()}, true
		}
		t := mkTerm(res.At(0).Type(), "checked", args[0])
		in.facts["nil:"+t.key] = 0
		return []Val{t, VNil{}}, true
	case strings.HasSuffix(path, "/pkg/walkers/sql") && name == "Walk", strings.HasSuffix(path, "/pkg/walkers/mongo") && name == "Walk":
		r.walks++
		r.useTree("the translation", args[0])
		if r.errorOr("translation") {
			r.failed = "translation"
			return []Val{VNil{}, errFn()}, true
		}
		t := mkTerm(res.At(0).Type(), "filter", args[0])
		in.facts["nil:"+t.key] = 0
		return []Val{t, VNil{}}, true
	case strings.HasSuffix(path, "/pkg/walkers/graphviz") && name == "Walk":
		r.dots++
		r.useTree("the drawing", args[1])
		if r.errorOr("drawing") {
			r.failed = "drawing"
			return []Val{VStr{}, errFn()}, true
		}
		return []Val{atomStr(mkTerm(tString, "drawn", args...)), VNil{}}, true
	case strings.HasSuffix(path, "/pkg/walkers/semantics") && name == "Walk":
		r.walks++
		r.useTree("the evaluation", args[0])
		r.evals = append(r.evals, args[1])
		v := 0
		if r.verdict != nil {
			v = r.verdict(len(r.evals)-1, args[0])
		}
		wrap := func(b Val, t types.Type) Val {
			if _, isB := res.At(0).Type().Underlying().(*types.Basic); isB {
				return b
			}
			return VIface{dyn: t, v: b}
		}
		switch v {
		case 2:
			r.failed = "evaluation"
			if _, isB := res.At(0).Type().Underlying().(*types.Basic); isB {
				return []Val{cBool(in.choose("result with the error", 2) == 1), errFn()}, true
			}
			return []Val{VNil{}, errFn()}, true
		case 3:
			return []Val{wrap(atomStr(mkTerm(tString, "text result")), tString), VNil{}}, true
		}
		return []Val{wrap(cBool(v == 1), types.Typ[types.Bool]), VNil{}}, true
	case marshaller(path, name):
		r.forms = append(r.forms, args[0])
		r.inspectForm(args[0])
		if r.errorOr("output form") {
			r.libErr = "output form"
			return []Val{VNil{}, errFn()}, true
		}
		t := mkTerm(res.At(0).Type(), "form:"+path, args[0])
		in.facts["nil:"+t.key] = 0
		return []Val{t, VNil{}}, true
	case encodes(path, fn):
		return r.encoder(in, path, fn, args), true
	case strings.Contains(path, "/walkers/"):
		if name == "init" {
			return nil, true
		}
		in.undecided(fn.Pos(), "the command uses %s", fn)
	case library(path) && !in.inRepo(fn.Pkg):
		if name == "init" || strings.HasPrefix(name, "init#") {
			return nil, true
		}
		return r.library(fn.String(), name, res, args, fn.Pos()), true
	case len(fn.Blocks) == 0 && fn.Pkg == nil && fn.Synthetic != "" && fn.Object() != nil && fn.Object().Pkg() != nil && library(fn.Object().Pkg().Path()):
		return r.library(fn.String(), name, res, args, fn.Pos()), true
	}
	return nil, false
}

func (r *cmdRun) inspectForm(v Val) {
	if r.failed != "" {
		r.complain("output is prepared after the %s failed", r.failed)
	}
}

func (r *cmdRun) flag(fn *ssa.Function, args []Val) ([]Val, bool) {
	in := r.in
	mk := func(name, def Val, t types.Type) Val {
		n, ok := str1(name)
		if !ok {
			in.undecided(fn.Pos(), "option with an unknown name")
		}
		if v, ok := r.flags[n]; ok {
			if v == nil {
				return def // not given
			}
			return v
		}
		return in.opaque(t, "flag:"+n)
	}
	name := fn.Name()
	if fn.Signature.Recv() != nil && len(args) > 0 { // a flag.FlagSet
		args = args[1:]
	}
	// An option has its default until the command line is read.
	define := func(cell, n, def Val, t types.Type) {
		in.store(cell, def, fn.Pos())
		v := mk(n, def, t)
		if r.flagsRead {
			if key(v) != key(def) {
				r.complain("the option %s is defined after the command line is read: a command line that has it is refused", key(n))
			}
			return
		}
		r.given = append(r.given, [2]Val{cell, v})
	}
	switch name {
	case "String", "Bool", "Int", "Uint", "Int64", "Uint64", "Float64", "Duration":
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		cell := VPtr{obj: in.newObj(args[1], t, "flag")}
		define(cell, args[0], args[1], t)
		return []Val{cell}, true
	case "StringVar", "BoolVar", "IntVar", "UintVar", "Float64Var":
		t := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		define(args[0], args[1], args[2], t)
		return nil, true
	case "Parse":
		r.flagsRead = true
		for _, g := range r.given {
			in.store(g[0], g[1], fn.Pos())
		}
		if fn.Signature.Results().Len() == 1 {
			return []Val{VNil{}}, true
		}
		return nil, true
	case "NewFlagSet":
		return []Val{in.opaqueNonNil(fn.Signature.Results().At(0).Type(), "flags")}, true
	case "Usage", "PrintDefaults", "SetOutput":
		return nil, true
	case "NArg":
		return []Val{cInt(0)}, true
	case "Args":
		return []Val{VNil{}}, true
	case "Arg":
		return []Val{VStr{}}, true
	case "init":
		return nil, true
	}
	return nil, false
}

// library models a call into a library outside the repository: an unknown
// result, different for every call.
func (r *cmdRun) library(full, name string, sig *types.Tuple, args []Val, pos token.Pos) []Val {
	in := r.in
	r.inspect(full, args)
	for _, a := range args {
		r.collect(a, map[interface{}]bool{})
	}
	k := full + fmt.Sprintf("#%d", len(r.calls))
	call := libCall{name: name, full: full, args: args, pos: pos}
	if r.failed != "" && !ending[name] {
		r.late = append(r.late, call)
	}
	res := make([]Val, sig.Len())
	failed := false
	for i := sig.Len() - 1; i >= 0; i-- {
		t := sig.At(i).Type()
		base := mkTerm(nil, k, args...)
		rk := base.key
		if sig.Len() > 1 {
			rk += fmt.Sprintf("/%d", i)
		}
		switch {
		case isErrorType(t):
			if ending[name] {
				res[i] = VNil{}
			} else if r.errorOr(full + fmt.Sprintf("#%d", len(r.calls))) {
				res[i] = in.newError(full)
				failed = true
			} else {
				res[i] = VNil{}
			}
		case name == "Next" && isBool(t):
			rec := key(args[0])
			more := r.nexts[rec] < 2 && in.choose("another row of "+rec+fmt.Sprint(r.nexts[rec]), 2) == 1
			r.nexts[rec]++
			if more {
				r.rows++
				r.rowKeys = append(r.rowKeys, fullKey(in, args[0], map[*Obj]bool{}))
			}
			res[i] = cBool(more)
		case failed:
			res[i] = in.zero(t)
		case r.listArgs && name == "ToSql" && types.Identical(t, tAnySl):
			res[i] = r.argList(in)
		default:
			res[i] = in.opaqueKeyed(t, rk, k, args)
			if x, ok := res[i].(*VTerm); ok {
				in.facts["nil:"+x.key] = 0
				x.args = args
			}
		}
	}
	if failed {
		r.libErr = full
		if r.parses > 0 && r.readErr == "" {
			r.readErr = full
		}
	}
	call.res = res
	r.calls = append(r.calls, call)
	if !failed && r.onRow != nil {
		r.onRow(r, call)
	}
	return res
}

// argList is the list of the arguments of an SQL text, of any length.
func (r *cmdRun) argList(in *Interp) Val {
	n := []int{0, 1, 3, 12, 40}[in.choose("number of arguments", 5)]
	var l []Val
	for i := 0; i < n; i++ {
		l = append(l, iface(tString, atomStr(mkTerm(tString, longName("sqlarg", i)))))
	}
	r.sqlArgs = l
	return in.mkSlice(l)
}

func (r *cmdRun) invoke(in *Interp, recv Val, m *types.Func, args []Val) ([]Val, bool) {
	if m.Pkg() == nil {
		return nil, false
	}
	if t, ok := recv.(*VTerm); ok && t.op == "filter" {
		if m.Name() != "ToSql" {
			in.undecided(m.Pos(), "method %s of the filter", m.Name())
		}
		if r.errorOr("writing the SQL text") {
			r.failed = "translation"
			return []Val{VStr{}, VNil{}, in.newError("ToSql")}, true
		}
		at := m.Type().(*types.Signature).Results().At(1).Type()
		if r.listArgs {
			return []Val{atomStr(mkTerm(tString, "sqltext", recv)), r.argList(in), VNil{}}, true
		}
		a := mkTerm(at, "sqlargs", recv)
		in.facts["nil:"+a.key] = 0
		return []Val{atomStr(mkTerm(tString, "sqltext", recv)), a, VNil{}}, true
	}
	if i, ok := recv.(VIface); ok && i.dyn != nil {
		if n, ok := types.Unalias(i.dyn).(*types.Named); ok && n.Obj().Pkg() != nil && !library(n.Obj().Pkg().Path()) {
			return nil, false
		}
	}
	if library(m.Pkg().Path()) {
		return r.library("("+m.Pkg().Path()+")."+m.Name(), m.Name(), m.Type().(*types.Signature).Results(), append([]Val{recv}, args...), m.Pos()), true
	}
	return nil, false
}

// startCmd analyses a command from main; callbacks handed to libraries that
// take the user's filter run afterwards.
func startCmd(in *Interp, m *module, c command) *cmdRun {
	r := &cmdRun{c: c, in: in, flags: map[string]Val{}, nexts: map[string]int{}, freed: map[string]bool{}, seenFn: map[string]bool{}}
	r.user = atomStr(mkTerm(tString, "user text"))
	r.flags["i"] = r.user
	in.hook = r.hook
	in.invokeHook = r.invoke
	return r
}

type cmdEnd struct {
	exit  *exited
	crash *absPanic
	res   []Val // results of the resolver of a server
	err   bool  // the request failed
}

func (e cmdEnd) failedEnd() bool {
	return e.err || e.exit != nil && e.exit.known && e.exit.code != 0
}

func (r *cmdRun) run(m *module) cmdEnd {
	main := m.byDir[r.c.dir].Func("main")
	var e cmdEnd
	e.exit, e.crash = r.in.runMain(main)
	if r.c.kind != "graphql" || e.crash != nil || e.exit != nil {
		return e
	}
	// the server is up: a request arrives
	found := false
	for _, f := range r.funcs {
		sig := f.fn.Signature
		var args []Val
		takes := false
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				args = append(args, r.in.opaqueNonNil(t, fmt.Sprintf("param%d", i)))
				continue
			}
			v := VStruct{typ: t, f: make([]Val, st.NumFields())}
			for j := range v.f {
				ft := st.Field(j).Type()
				if mt, isMap := ft.Underlying().(*types.Map); isMap && st.Field(j).Name() == "Args" && isString(mt.Key()) {
					v.f[j] = VMap{&MapObj{keys: []Val{cStr("filter")}, vals: []Val{VIface{dyn: tString, v: r.user}}, name: "arguments"}}
					takes = true
					continue
				}
				v.f[j] = VNil{}
				if _, isStruct := ft.Underlying().(*types.Struct); isStruct {
					v.f[j] = r.in.zero(ft)
				}
			}
			args = append(args, v)
		}
		if !takes {
			continue
		}
		found = true
		r.calls = nil
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case exited:
					e.exit = &x
				case absPanic:
					e.crash = &x
				default:
					panic(x)
				}
			}()
			e.res = r.in.callFn(f.fn, args, f.free, token.NoPos)
		}()
		if n := len(e.res); n > 0 {
			if _, isNil := e.res[n-1].(VNil); !isNil {
				e.err = true
			}
		}
	}
	if !found {
		r.in.undecided(main.Pos(), "no resolver that takes a filter argument is registered")
	}
	return e
}

var dataCmd = map[string]bool{"sql": true, "gorm": true, "mongo": true, "graphql": true}

func init() {
	register("C27", "typestate analysis by abstract interpretation of the SSA of every command from main (and the GraphQL resolver): parse, column check, translation, query; each step's outcome is followed through every later call into a database library, and the column check is analysed on an unknown name", func(c *Check) error {
		mods := map[string]*module{}
		for _, v := range []string{"v4", "v5", "v6"} {
			m, err := loadModule(v, "./cmd/...")
			if err != nil {
				return err
			}
			mods[v] = m
		}
		c.assume = append(c.assume, "calls into libraries outside the repository return any value or any error and do not call back, except resolvers registered with the GraphQL library", "what the parser and the walkers do with a tree is decided by C14-C26")
		var jobs []func()
		for _, cmd := range commands() {
			cmd := cmd
			m := mods[cmd.ver]
			if cmd.kind == "parser" {
				continue
			}
			if p := m.byDir[cmd.dir]; p == nil || p.Func("main") == nil {
				c.fail("command", cmd.ver+"/"+cmd.dir, "has no main function")
				continue
			}
			c.scope = append(c.scope, cmd.ver+"/"+cmd.dir)
			where := cmd.ver + "/" + cmd.dir
			// order of the steps
			jobs = append(jobs, func() {
				good := false
				c.explore(m, "steps", where, func(in *Interp, fail func(string, ...interface{})) {
					r := startCmd(in, m, cmd)
					r.verdict = func(i int, t Val) int {
						if i > 1 {
							return 0
						}
						return in.choose(fmt.Sprintf("evaluation %d", i), 3)
					}
					e := r.run(m)
					if judgeSteps(r, e, fail) {
						good = true
					}
				})
				if !good {
					c.fail("steps", where, "no analysed run gets from the user's text to a query or an evaluation")
				}
			})
			// the column check
			for _, n := range columnProbes(cmd) {
				n := n
				jobs = append(jobs, func() {
					probed := false
					c.explore(m, "column check", where+" "+key(n), func(in *Interp, fail func(string, ...interface{})) {
						r := startCmd(in, m, cmd)
						r.flags["o"] = cStr("json")
						r.probe = func(r *cmdRun, f Val) {
							probed = true
							judgeName(r, f, n, fail)
							panic(pruned{})
						}
						r.run(m)
					})
					if !probed {
						c.fail("column check", where, "the column check is never reached")
					}
				})
			}
		}
		parallel(jobs)
		c.need("steps", 11)
		c.need("column check", 680)
		return nil
	})
}

// judgeSteps decides one run; it reports whether the run got to the data.
func judgeSteps(r *cmdRun, e cmdEnd, fail func(string, ...interface{})) bool {
	switch {
	case len(r.bad) > 0:
		fail("%s", r.bad[0])
		return false
	case e.crash != nil:
		fail("may crash: %s in %s (%s)", e.crash.what, e.crash.fn, r.in.position(e.crash.pos))
		return false
	case len(r.late) > 0:
		fail("%s is called after the %s failed", r.late[0].full, r.failed)
		return false
	case r.failed != "" && !e.failedEnd():
		fail("the %s failed and the command does not report an error", r.failed)
		return false
	case r.parses > 1:
		fail("the user's text is parsed twice")
		return false
	case r.readErr != "" && !e.failedEnd():
		fail("%s fails and the command does not report an error", r.readErr)
		return false
	case r.failed != "" || e.failedEnd() || r.libErr != "":
		return false
	}
	// everything went well
	switch {
	case r.parses == 0 || r.checks == 0 || r.walks == 0:
		fail("succeeds without using the user's filter")
		return false
	}
	if dataCmd[r.c.kind] {
		asked := false
		for _, l := range r.calls {
			for _, a := range l.args {
				asked = asked || strings.Contains(fullKey(r.in, a, map[*Obj]bool{}), "filter("+r.checked()+")")
			}
		}
		if !asked {
			fail("succeeds without giving the checked filter to the database")
			return false
		}
		for _, k := range r.rowKeys {
			if !strings.Contains(k, "filter("+r.checked()+")") {
				fail("delivers rows of a query that does not carry the checked filter")
				return false
			}
		}
		return r.rows > 0
	}
	return len(r.evals) > 0
}

func columnProbes(cmd command) []Val {
	l := []Val{atomStr(mkTerm(tString, "any name"))}
	for n := range cmd.names {
		for _, v := range []string{n, strings.ToUpper(n), strings.Title(n), n + " ", " " + n, n + "s", n[1:], n[:len(n)-1], n + ".x", "`" + n + "`", n + "\x00"} {
			l = append(l, cStr(v))
		}
	}
	for _, v := range []string{"", "id", "*", "1", "_id", "book_id", "deleted_at", "spec", "onloan", "on-loan", "$where", "x'; drop table books; --"} {
		l = append(l, cStr(v))
	}
	for _, v := range []string{"pages", "rating", "spec.pages", "spec.rating", "on_loan"} {
		if cmd.names[v] == "" {
			l = append(l, cStr(v))
		}
	}
	return l
}

// judgeName decides the answer of a column check for one name.
func judgeName(r *cmdRun, f Val, name Val, fail func(string, ...interface{})) {
	in := r.in
	n := len(in.order)
	res := in.apply1(f, []Val{name}, token.NoPos)
	if len(res) != 2 {
		in.undecided(token.NoPos, "column check with %d results", len(res))
	}
	_, accepted := res[1].(VNil)
	if s, ok := str1(name); ok {
		_, want := r.c.names[s]
		if accepted && !want {
			fail("the column check accepts %q", s)
		}
		if !accepted && want {
			fail("the column check rejects %q", s)
		}
		return
	}
	if !accepted {
		return
	}
	for _, o := range in.order[n:] {
		for x := range r.c.names {
			k := key(cStr(x))
			if o.r == 0 && (o.a == key(name) && o.b == k || o.b == key(name) && o.a == k) {
				return
			}
		}
	}
	fail("the column check accepts a name that is not listed")
}
