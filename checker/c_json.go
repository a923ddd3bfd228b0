package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: JSON and YAML forms of v6 trees.

// jval is an encoded value.
type jval struct {
	kind string // obj, arr, str, num, bool, null, time
	v    Val
	keys []string
	obj  map[string]*jval
	arr  []*jval
}

func (j *jval) String() string {
	switch j.kind {
	case "obj":
		var l []string
		for _, k := range j.keys {
			l = append(l, k+":"+j.obj[k].String())
		}
		return "{" + strings.Join(l, ", ") + "}"
	case "arr":
		var l []string
		for _, x := range j.arr {
			l = append(l, x.String())
		}
		return "[" + strings.Join(l, ", ") + "]"
	case "null":
		return "null"
	}
	return j.kind + " " + key(j.v)
}

// encErr: the encoder reports an error.
type encErr struct{ why string }

// encoder follows the reflection-based encoders of encoding/json and yaml.v3.
type encoder struct {
	in   *Interp
	yaml bool
	made map[string]*jval // results of Marshal calls
}

func (e *encoder) method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	sel := e.in.m.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return e.in.m.prog.MethodValue(sel)
}

func (e *encoder) enc(v Val, t types.Type) *jval {
	in := e.in
	if i, ok := v.(VIface); ok {
		if i.dyn == nil {
			in.undecided(token.NoPos, "value of unknown type %s is encoded", key(v))
		}
		return e.enc(i.v, i.dyn)
	}
	if _, ok := v.(VNil); ok {
		if _, isSlice := t.Underlying().(*types.Slice); isSlice && e.yaml {
			return &jval{kind: "arr"}
		}
		return &jval{kind: "null"}
	}
	if isTime(t) {
		return &jval{kind: "time", v: v}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" && n.Obj().Name() == "RawMessage" && !e.yaml {
		return e.bytes(v)
	}
	if e.yaml {
		if f := e.method(t, "MarshalYAML"); f != nil {
			r := in.callFn(f, []Val{v}, nil, token.NoPos)
			if _, ok := r[1].(VNil); !ok {
				panic(encErr{"MarshalYAML gives an error"})
			}
			return e.enc(r[0], types.NewInterfaceType(nil, nil))
		}
	} else if f := e.method(t, "MarshalJSON"); f != nil {
		r := in.callFn(f, []Val{v}, nil, token.NoPos)
		if _, ok := r[1].(VNil); !ok {
			panic(encErr{"MarshalJSON gives an error"})
		}
		return e.bytes(r[0])
	}
	if f := e.method(t, "MarshalText"); f != nil {
		in.undecided(token.NoPos, "MarshalText of %s", typeName(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &jval{kind: "str", v: v}
		case u.Info()&types.IsBoolean != 0:
			return &jval{kind: "bool", v: v}
		case u.Info()&types.IsNumeric != 0:
			return &jval{kind: "num", v: v}
		}
	case *types.Pointer:
		return e.enc(in.load(v, u.Elem(), token.NoPos), u.Elem())
	case *types.Slice, *types.Array:
		el, ok := in.elems(v, token.NoPos)
		if a, isA := v.(VArray); isA {
			el, ok = a.e, true
		}
		if !ok {
			in.undecided(token.NoPos, "list %s of unknown length is encoded", key(v))
		}
		var et types.Type
		if s, isS := u.(*types.Slice); isS {
			et = s.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		j := &jval{kind: "arr"}
		for _, x := range el {
			j.arr = append(j.arr, e.enc(x, et))
		}
		return j
	case *types.Map:
		m, ok := v.(VMap)
		if !ok {
			in.undecided(token.NoPos, "unknown map is encoded")
		}
		j := &jval{kind: "obj", obj: map[string]*jval{}}
		for i, k := range m.m.keys {
			ks, ok := str1(unIface(k))
			if !ok {
				in.undecided(token.NoPos, "map with an unknown key is encoded")
			}
			j.set(ks, e.enc(m.m.vals[i], u.Elem()))
		}
		return j
	case *types.Struct:
		s, ok := v.(VStruct)
		if !ok {
			in.undecided(token.NoPos, "unknown struct %s is encoded", key(v))
		}
		j := &jval{kind: "obj", obj: map[string]*jval{}}
		e.fields(j, s, u)
		return j
	}
	if u, ok := t.Underlying().(*types.Interface); ok && u != nil {
		in.undecided(token.NoPos, "value %s of unknown type is encoded", key(v))
	}
	panic(encErr{"a value of type " + typeName(t) + " cannot be encoded"})
}

func (j *jval) set(k string, v *jval) {
	if _, ok := j.obj[k]; !ok {
		j.keys = append(j.keys, k)
	}
	j.obj[k] = v
}

func (e *encoder) fields(j *jval, s VStruct, u *types.Struct) {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		lib := "json"
		if e.yaml {
			lib = "yaml"
		}
		tag := reflect.StructTag(u.Tag(i)).Get(lib)
		if e.yaml && tag == "" && u.Tag(i) != "" && !strings.Contains(u.Tag(i), ":") {
			tag = u.Tag(i)
		}
		parts := strings.Split(tag, ",")
		name := parts[0]
		if tag == "-" {
			continue
		}
		opt := map[string]bool{}
		for _, o := range parts[1:] {
			opt[o] = true
		}
		if f.Embedded() && name == "" && !e.yaml || opt["inline"] {
			st, ok := f.Type().Underlying().(*types.Struct)
			sv, ok2 := s.f[i].(VStruct)
			if !ok || !ok2 {
				e.in.undecided(token.NoPos, "embedded field %s is encoded", f.Name())
			}
			e.fields(j, sv, st)
			continue
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
			if e.yaml {
				name = strings.ToLower(name)
			}
		}
		if opt["omitempty"] && e.empty(s.f[i], f.Type()) {
			continue
		}
		x := e.enc(s.f[i], f.Type())
		if opt["string"] && !e.yaml {
			x = &jval{kind: "str", v: cStr("quoted")}
		}
		if _, dup := j.obj[name]; dup {
			panic(encErr{"two fields are named " + name})
		}
		j.set(name, x)
	}
}

func (e *encoder) empty(v Val, t types.Type) bool {
	switch v := v.(type) {
	case VNil:
		return true
	case VIface:
		// yaml.v3 asks the value itself
		return e.yaml && isTime(v.dyn) && e.in.choose("iszero:"+key(v.v), 2) == 1
	case VPtr:
		return false
	case VConst:
		return key(v) == "#0" || key(v) == "#false"
	case VSlice:
		return v.len == 0
	case VMap:
		return len(v.m.keys) == 0
	case VStr:
		return e.in.equal(v, VStr{}, token.NoPos)
	case *VTerm:
		if isNumeric(t) {
			return e.in.compare(v, cInt(0), isInteger(t)) == 0
		}
	case VStruct:
		return false
	}
	e.in.undecided(token.NoPos, "omitempty of %T", v)
	return false
}

// bytes reads back encoded bytes.
func (e *encoder) bytes(v Val) *jval {
	if j, ok := e.made[key(v)]; ok {
		return j
	}
	s, ok := str1(e.in.bytesToString(v, types.NewSlice(types.Typ[types.Byte]), token.NoPos))
	if !ok {
		e.in.undecided(token.NoPos, "the JSON text %s is not known", key(v))
	}
	var x interface{}
	if err := json.Unmarshal([]byte(s), &x); err != nil {
		panic(encErr{fmt.Sprintf("%q is not JSON", s)})
	}
	return constJSON(x)
}

func constJSON(x interface{}) *jval {
	switch x := x.(type) {
	case nil:
		return &jval{kind: "null"}
	case string:
		return &jval{kind: "str", v: cStr(x)}
	case float64:
		return &jval{kind: "num", v: cFloat(x)}
	case bool:
		return &jval{kind: "bool", v: cBool(x)}
	case []interface{}:
		j := &jval{kind: "arr"}
		for _, y := range x {
			j.arr = append(j.arr, constJSON(y))
		}
		return j
	}
	j := &jval{kind: "obj", obj: map[string]*jval{}}
	for k, y := range x.(map[string]interface{}) {
		j.set(k, constJSON(y))
	}
	sort.Strings(j.keys)
	return j
}

// wanted is the specified form of a tree, in the words of gnode; nil is null.
func carries(s *cstore, n *CNode, j *jval) string {
	in := s.in
	if n == nil {
		if j.kind == "null" {
			return ""
		}
		return fmt.Sprintf("%s for an absent node", j)
	}
	if j.kind != "obj" {
		return fmt.Sprintf("%s for the node %s", j, s.show(n))
	}
	want := map[string]func(x *jval) string{}
	is := func(kind string, v Val) func(x *jval) string {
		return func(x *jval) string {
			if x.kind == kind && key(x.v) == key(v) {
				return ""
			}
			return fmt.Sprintf("%s where %s %s is expected", x, kind, key(v))
		}
	}
	child := func(k *CNode) func(x *jval) string { return func(x *jval) string { return carries(s, k, x) } }
	want["type"] = is("str", cStr(in.strOf("Kind", n.kind)))
	optional := map[string]bool{}
	switch {
	case s.is(n, "BinaryExpr"), s.is(n, "UnaryExpr"):
		want["operator"] = is("str", cStr(in.strOf("Operator", n.op)))
		l, r := (*CNode)(nil), n.kids[len(n.kids)-1]
		if len(n.kids) == 2 {
			l = n.kids[0]
		}
		if l != nil {
			want["left"] = child(l)
		}
		if r != nil {
			want["right"] = child(r)
		}
	case s.is(n, "ArrayLiteral"):
		want["values"] = func(x *jval) string {
			if x.kind != "arr" || len(x.arr) != len(n.kids) {
				return fmt.Sprintf("%s where %d elements are expected", x, len(n.kids))
			}
			for i, k := range n.kids {
				if w := carries(s, k, x.arr[i]); w != "" {
					return w
				}
			}
			return ""
		}
	case s.is(n, "NumericLiteral"):
		want["value"] = is("num", n.num)
	case s.is(n, "BooleanLiteral"):
		want["value"] = is("bool", n.b)
	case s.is(n, "NullLiteral"):
		optional["value"] = true
		want["value"] = func(x *jval) string {
			if x.kind == "null" || x.kind == "str" && key(x.v) == key(cStr("NULL")) {
				return ""
			}
			return fmt.Sprintf("%s where null is expected", x)
		}
	case s.is(n, "DateLiteral", "TimestampLiteral"):
		want["value"] = func(x *jval) string {
			if x.kind == "str" && key(x.v) == key(n.str) {
				return ""
			}
			if x.kind == "time" && key(instant(x.v)) == key(mkTerm(in.timeType(), "parsed", n.str)) {
				return ""
			}
			return fmt.Sprintf("%s where the date %s is expected", x, key(n.str))
		}
	default:
		want["value"] = is("str", n.str)
	}
	for k, f := range want {
		x, ok := j.obj[k]
		if !ok {
			if optional[k] {
				continue
			}
			return fmt.Sprintf("%s has no %s for the node %s", j, k, s.show(n))
		}
		if w := f(x); w != "" {
			return k + ": " + w
		}
	}
	for _, k := range j.keys {
		if want[k] == nil && j.obj[k].kind != "null" {
			return fmt.Sprintf("%s has a %s of its own for the node %s", j, k, s.show(n))
		}
		if want[k] == nil && (k == "left" || k == "right") {
			return fmt.Sprintf("%s shows an absent operand of the node %s", j, s.show(n))
		}
	}
	return ""
}

func encRun(in *Interp, k *v6consts, t operand, yaml bool, fail func(string, ...interface{})) {
	s := in.newStore(k)
	root := t.mk(s, "x")
	e := &encoder{in: in, yaml: yaml, made: map[string]*jval{}}
	in.hook = func(in *Interp, fn *ssa.Function, args []Val) ([]Val, bool) {
		switch fullName(fn) {
		case "encoding/json.Marshal", "encoding/json.MarshalIndent":
			j := (&encoder{in: in, made: e.made}).enc(args[0], types.NewInterfaceType(nil, nil))
			r := mkTerm(types.NewSlice(types.Typ[types.Byte]), in.fresh("json"))
			in.facts["nil:"+r.key] = 0
			e.made[key(r)] = j
			return []Val{r, VNil{}}, true
		}
		return nil, false
	}
	form := "JSON"
	if yaml {
		form = "YAML"
	}
	var j *jval
	why := func() (why string) {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case encErr:
				why = "the " + form + " form fails: " + r.why
			case absPanic:
				why = fmt.Sprintf("the %s form may crash: %s in %s (%s)", form, r.what, r.fn, in.position(r.pos))
			default:
				panic(r)
			}
		}()
		j = e.enc(s.wrap(root), types.NewPointer(s.nt))
		return ""
	}()
	if why == "" {
		if why = carries(s, root, j); why != "" {
			why = "the " + form + " form " + why
		}
	}
	if why != "" {
		fail("%s: %s", s.show(root), why)
	}
	for _, w := range in.writes {
		fail("%s: the tree is changed: %s", s.show(root), w)
	}
}

func init() {
	register("C17", "abstract interpretation of the SSA of MarshalJSON and MarshalYAML with a model of the reflection rules of encoding/json and yaml.v3 (tags, omitempty, marshalers); the encoded structure is compared with the tree", func(c *Check) error {
		m, err := loadModule("v6", "./pkg/...")
		if err != nil {
			return err
		}
		k, err := v6Consts(m)
		if err != nil {
			return err
		}
		p := m.byDir["pkg/tsl"]
		for _, n := range []string{"MarshalJSON", "MarshalYAML"} {
			o := p.Type("TSLNode")
			if o == nil || m.prog.MethodSets.MethodSet(types.NewPointer(o.Type())).Lookup(nil, n) == nil {
				return fmt.Errorf("v6 TSLNode.%s not found", n)
			}
		}
		c.scope = append(c.scope, "v6/pkg/tsl/marshal.go", "v6/pkg/tsl (Go side)")
		c.assume = append(c.assume, "encoding/json and yaml.v3 encode structs, maps, lists and scalars by their documented rules", "numbers are finite and texts are valid UTF-8", "the C accessor functions return the stored data (decided by C08)")
		var jobs []func()
		for rule, trees := range walkTrees(c.thorough(), []int{34, 140}, []int{12, 112, 1100}) {
			for _, t := range trees {
				for _, yaml := range []bool{false, true} {
					rule, t, yaml := rule, t, yaml
					if yaml {
						rule = "yaml:" + rule
					} else {
						rule = "json:" + rule
					}
					jobs = append(jobs, func() {
						c.explore(m, rule, t.label, func(in *Interp, fail func(string, ...interface{})) { encRun(in, k, t, yaml, fail) })
					})
				}
			}
		}
		for _, n := range []string{"MarshalJSON", "MarshalYAML"} {
			n := n
			jobs = append(jobs, func() {
				c.explore(m, "nil", n+" of nil", func(in *Interp, fail func(string, ...interface{})) {
					s := in.newStore(k)
					e := &encoder{in: in, yaml: n == "MarshalYAML", made: map[string]*jval{}}
					o := in.tryCall(e.method(types.NewPointer(s.nt), n), []Val{VNil{}})
					switch {
					case o.crash != nil:
						fail("may crash: %s", o.crash.what)
					case key(o.res[1]) != "nil":
						fail("gives an error")
					case n == "MarshalJSON" && e.bytes(o.res[0]).kind != "null", n == "MarshalYAML" && key(o.res[0]) != "nil":
						fail("gives %s", key(o.res[0]))
					}
				})
			})
		}
		parallel(jobs)
		for _, f := range []string{"json", "yaml"} {
			c.need(f+":leaf", 7)
			c.need(f+":operands", 1300)
			c.need(f+":nesting", 1900)
			c.need(f+":depth", 270)
		}
		c.need("nil", 2)
		return nil
	})
}
