package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22, C23: the evaluators of v5 and v4.

var tStrSl = types.NewSlice(tString)

type sem45 struct {
	c    *Check
	g    *legacy
	walk *ssa.Function
}

func newSem45(c *Check, ver string) (*sem45, error) {
	g, err := loadLegacy(c, ver)
	if err != nil {
		return nil, err
	}
	p := g.m.byDir["pkg/walkers/semantics"]
	if p == nil || p.Func("Walk") == nil {
		return nil, fmt.Errorf("%s semantics.Walk not found", ver)
	}
	c.scope = append(c.scope, ver+"/pkg/walkers/semantics")
	return &sem45{c, g, p.Func("Walk")}, nil
}

// values are the classes of what a record may hold for a name.
func (e *sem45) values(level int) []recClass {
	var l []recClass
	kinds := numKinds
	if level > 0 {
		kinds = []types.BasicKind{types.Float64, types.Int32}
	}
	if level > 1 {
		kinds = kinds[:1]
	}
	for _, k := range kinds {
		l = append(l, numClass(k))
	}
	strs := func(n int) recClass {
		return recClass{fmt.Sprintf("[]string of %d", n), func(in *Interp, name string) Val {
			var s []Val
			for i := 0; i < n; i++ {
				s = append(s, in.leafText(fmt.Sprintf("elem%d:%s", i, name)))
			}
			return iface(tStrSl, in.mkSlice(s))
		}}
	}
	l = append(l,
		recClass{"string", func(in *Interp, n string) Val { return iface(tString, in.leafText("text:"+n)) }},
		recClass{"nil", func(in *Interp, n string) Val { return VNil{} }},
		recClass{"map", func(in *Interp, n string) Val { return iface(tMap, VMap{&MapObj{name: "map:" + n}}) }},
	)
	if level > 1 {
		return l
	}
	l = append(l,
		recClass{"bool", func(in *Interp, n string) Val { return iface(tBool, cBool(in.choose("val:"+n, 2) == 1)) }},
		recClass{"time", func(in *Interp, n string) Val { return iface(in.timeType(), mkTerm(in.timeType(), "time:"+n)) }},
		recClass{"missing", nil},
		strs(1))
	if level == 0 {
		l = append(l, strs(0), strs(2),
			recClass{"[]interface", func(in *Interp, n string) Val { return iface(tAnySl, in.mkSlice([]Val{VNil{}})) }},
			recClass{"complex128", func(in *Interp, n string) Val {
				return iface(types.Typ[types.Complex128], mkTerm(types.Typ[types.Complex128], "complex:"+n))
			}})
	}
	return l
}

// lval is a value of the reference evaluation.
type lval struct {
	kind string // Number, String, Boolean, Date, Null, List
	v    Val
	list []Val
}

func (e *sem45) resolve(r *semRun, n *lnode) lval {
	if n.op != "Ident" {
		return lval{kind: n.op, v: n.val}
	}
	v, _ := r.record(n.val)
	i, ok := v.(VIface)
	if !ok {
		return lval{kind: "Null"}
	}
	if b, ok := i.dyn.(*types.Basic); ok {
		switch b.Kind() {
		case types.String:
			return lval{kind: "String", v: i.v}
		case types.Bool:
			if e.g.ver == "v5" {
				return lval{kind: "Boolean", v: i.v}
			}
			if r.in.truth(i.v, token.NoPos) {
				return lval{kind: "String", v: cStr("true")}
			}
			return lval{kind: "String", v: cStr("false")}
		case types.Float32, types.Float64, types.Int, types.Int32, types.Int64, types.Uint, types.Uint32, types.Uint64:
			return lval{kind: "Number", v: i.v}
		}
	}
	if e.g.ver == "v5" {
		if isTime(i.dyn) {
			return lval{kind: "Date", v: i.v}
		}
		if types.Identical(i.dyn, tStrSl) {
			l, _ := r.in.elems(i.v, token.NoPos)
			return lval{kind: "List", list: l}
		}
	}
	throw("unsupported type " + typeName(i.dyn))
	return lval{}
}

func (e *sem45) operand(r *semRun, n *lnode) lval {
	if !isMathOp(n.op) {
		return e.resolve(r, n)
	}
	if e.g.ver == "v4" {
		throw("arithmetic is not supported")
	}
	a, b := e.operand(r, n.l), e.operand(r, n.r)
	if a.kind == "Null" || b.kind == "Null" {
		return lval{kind: "Null"}
	}
	if a.kind != "Number" || b.kind != "Number" {
		throw("arithmetic on " + a.kind + " and " + b.kind)
	}
	var v Val
	switch n.op {
	case "Add":
		v = r.in.arith(token.ADD, a.v, b.v, tFloat, token.NoPos)
	case "Subtract":
		v = r.in.arith(token.SUB, a.v, b.v, tFloat, token.NoPos)
	case "Multiply":
		v = r.in.arith(token.MUL, a.v, b.v, tFloat, token.NoPos)
	case "Divide":
		v = r.in.arith(token.QUO, a.v, b.v, tFloat, token.NoPos)
	case "Modulo":
		v = mkTerm(tFloat, "rem", a.v, b.v)
	}
	return lval{kind: "Number", v: v}
}

// eval is the reference semantics: a truth value, or anyBoolOrErr when only
// the form of the outcome is fixed.
func (e *sem45) eval(r *semRun, n *lnode) Val {
	in := r.in
	switch n.op {
	case "And", "Or":
		a, b := e.eval(r, n.l), e.eval(r, n.r)
		_, o1 := a.(anyBoolOrErr)
		_, o2 := b.(anyBoolOrErr)
		if o1 || o2 {
			return anyBoolOrErr{}
		}
		x, y := in.truth(a, token.NoPos), in.truth(b, token.NoPos)
		if n.op == "And" {
			return cBool(x && y)
		}
		return cBool(x || y)
	case "Not":
		a := e.eval(r, n.l)
		if _, open := a.(anyBoolOrErr); open {
			return a
		}
		return cBool(!in.truth(a, token.NoPos))
	}
	l := e.operand(r, n.l)
	switch n.op {
	case "IsNil":
		return cBool(l.kind == "Null")
	case "IsNotNil":
		return cBool(l.kind != "Null")
	}
	if n.r.op != "Array" {
		if e.g.ver == "v4" {
			if l.kind == "Null" {
				return cBool(false)
			}
			if n.r.op == "Ident" || isMathOp(n.r.op) {
				throw("not supported on the right hand side")
			}
		}
		v := e.operand(r, n.r)
		if v.kind == "List" {
			throw("a list on the right hand side")
		}
		if l.kind == "Null" || v.kind == "Null" {
			return cBool(false)
		}
		return e.compare(r, n.op, l, v)
	}
	if l.kind == "Null" {
		return cBool(false)
	}
	var es []lval
	for _, k := range n.r.list {
		es = append(es, lval{kind: k.op, v: k.val})
	}
	want := l.kind
	switch l.kind {
	case "List":
		want = "String"
		if n.op != "In" && n.op != "NotIn" {
			throw("a range test of a list")
		}
	case "Boolean":
		throw("a list or range test of a boolean")
	}
	for _, x := range es {
		if x.kind != want {
			throw("elements of another type")
		}
	}
	res := false
	switch n.op {
	case "In", "NotIn":
		have := l.list
		if l.kind != "List" {
			have = []Val{l.v}
		}
		for _, x := range es {
			for _, h := range have {
				if !res && in.equals(instant(h), instant(x.v), false) {
					res = true
				}
			}
		}
	case "Between", "NotBetween":
		if len(es) != 2 {
			throw("not a range")
		}
		res = in.compare(instant(l.v), instant(es[0].v), false) >= 0 && in.compare(instant(l.v), instant(es[1].v), false) < 0
	default:
		throw("operator " + n.op + " on a list")
	}
	return cBool(res != strings.HasPrefix(n.op, "Not"))
}

func (e *sem45) compare(r *semRun, op string, l, v lval) Val {
	in := r.in
	if l.kind == "Boolean" {
		var b bool
		switch v.kind {
		case "Boolean":
			b = in.truth(v.v, token.NoPos)
		case "Number":
			b = !in.equals(v.v, cInt(0), false)
		case "String":
			if op == "Eq" || op == "NotEq" {
				return anyBoolOrErr{}
			}
			throw("order of booleans")
		default:
			throw("a boolean and a " + v.kind)
		}
		switch op {
		case "Eq":
			return cBool(in.truth(l.v, token.NoPos) == b)
		case "NotEq":
			return cBool(in.truth(l.v, token.NoPos) != b)
		}
		throw("operator " + op + " on booleans")
	}
	if l.kind != v.kind || l.kind == "List" {
		throw("a " + l.kind + " and a " + v.kind)
	}
	switch op {
	case "Like", "ILike", "Regex", "NotRegex":
		if l.kind != "String" {
			throw("operator " + op + " on a " + l.kind)
		}
		return anyBoolOrErr{}
	}
	d := in.compare(instant(l.v), instant(v.v), false)
	switch op {
	case "Eq":
		return cBool(d == 0)
	case "NotEq":
		return cBool(d != 0)
	case "Lt":
		return cBool(d < 0)
	case "Lte":
		return cBool(d <= 0)
	case "Gt":
		return cBool(d > 0)
	case "Gte":
		return cBool(d >= 0)
	}
	throw("operator " + op)
	return nil
}

func (e *sem45) spec(r *semRun, n *lnode) (v Val, err *specErr) {
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(specErr); ok {
				err = &s
				return
			}
			panic(p)
		}
	}()
	return e.eval(r, n), nil
}

func (n *lnode) idents() int {
	k := 0
	n.each(func(x *lnode) {
		if x.op == "Ident" {
			k++
		}
	})
	return k
}

func (e *sem45) tree(rule string, t lgen, judge func(r *semRun, root *lnode, o outcome, fail func(string, ...interface{}))) func() {
	return func() {
		e.c.explore(e.g.m, e.g.ver+":"+rule, t.label, func(in *Interp, fail func(string, ...interface{})) {
			root := t.mk(in, "x")
			level := root.idents() - 1
			if e.c.thorough() {
				level--
			}
			if level < 0 {
				level = 0
			}
			if level > 2 {
				level = 2
			}
			r := &semRun{in: in, classes: e.values(level), memo: map[string]Val{}}
			tree := e.g.value(in, root)
			o := in.tryCall(e.walk, []Val{tree, r.callback()})
			judge(r, root, o, fail)
		})
	}
}

func (e *sem45) truthJudge(r *semRun, root *lnode, o outcome, fail func(string, ...interface{})) {
	if o.crash != nil {
		fail("%s: may crash: %s in %s", root, o.crash.what, o.crash.fn)
		return
	}
	want, werr := e.spec(r, root)
	if werr != nil {
		return
	}
	_, open := want.(anyBoolOrErr)
	if _, noErr := o.res[1].(VNil); !noErr {
		if !open || !mayMatch(root) {
			fail("%s: gives an error, expected %s", root, show(want))
		}
		return
	}
	if !open && r.in.truth(o.res[0], token.NoPos) != r.in.truth(want, token.NoPos) {
		fail("%s: gives %s, expected %s", root, key(o.res[0]), show(want))
	}
}

// mayMatch: an invalid regular expression may make this tree fail.
func mayMatch(n *lnode) bool {
	m := false
	n.each(func(x *lnode) {
		switch x.op {
		case "Like", "ILike", "Regex", "NotRegex":
			m = true
		}
	})
	return m
}

func (e *sem45) errorJudge(r *semRun, root *lnode, o outcome, fail func(string, ...interface{})) {
	if o.crash != nil {
		fail("%s: may crash: %s in %s (%s)", root, o.crash.what, o.crash.fn, r.in.position(o.crash.pos))
		return
	}
	if _, werr := e.spec(r, root); werr != nil {
		if _, noErr := o.res[1].(VNil); noErr {
			fail("%s: gives %s, expected an error (%s)", root, key(o.res[0]), werr.why)
		}
	}
}

// opposite: comparing a boolean with a text is left open, but = and != agree
// on it.
func (e *sem45) opposite() {
	e.c.explore(e.g.m, e.g.ver+":opposite", "boolean with a text", func(in *Interp, fail func(string, ...interface{})) {
		r := &semRun{in: in, classes: []recClass{{"bool", func(in *Interp, n string) Val { return iface(tBool, cBool(in.choose("val:"+n, 2) == 1)) }}}, memo: map[string]Val{}}
		var got []bool
		for _, op := range []string{"Eq", "NotEq"} {
			root := lop(op, e.g.leaf(in, "Ident", "x"), e.g.leaf(in, "String", "x"))
			o := in.tryCall(e.walk, []Val{e.g.value(in, root), r.callback()})
			if o.crash != nil {
				fail("%s: may crash: %s", root, o.crash.what)
				return
			}
			got = append(got, in.truth(o.res[0], token.NoPos))
		}
		if got[0] == got[1] {
			fail("= and != of a boolean and a text are both %v", got[0])
		}
	})
}

const sem45Tech = "abstract interpretation of the SSA of semantics.Walk (v5, v4) with trace partitioning over the trees the grammar can build and the classes of record values, compared with a reference semantics per operator"

func init() {
	run := func(c *Check, judge func(e *sem45) func(*semRun, *lnode, outcome, func(string, ...interface{}))) error {
		c.assume = append(c.assume, "conversion of an integer to float64 keeps its value and numbers are neither NaN nor infinite (NaN is decided for =, in, between and their negations)",
			"the outcome of a regular expression match is left open here (decided by C12)")
		var jobs []func()
		for _, ver := range []string{"v5", "v4"} {
			e, err := newSem45(c, ver)
			if err != nil {
				return err
			}
			for rule, ts := range e.g.trees() {
				for _, t := range ts {
					if rule == "operand" && !strings.Contains(t.label, "Is") {
						continue
					}
					jobs = append(jobs, e.tree(rule, t, judge(e)))
				}
			}
		}
		parallel(jobs)
		if c.id == "C22" {
			e, err := newSem45(c, "v5")
			if err != nil {
				return err
			}
			e.opposite()
			e.nan()
			e4, err := newSem45(c, "v4")
			if err != nil {
				return err
			}
			e4.nan()
		}
		c.need("v5:condition", 400)
		c.need("v4:condition", 200)
		c.need("v5:nesting", 300)
		c.need("v4:nesting", 300)
		return nil
	}
	register("C22", sem45Tech, func(c *Check) error {
		return run(c, func(e *sem45) func(*semRun, *lnode, outcome, func(string, ...interface{})) { return e.truthJudge })
	})
	register("C23", sem45Tech, func(c *Check) error {
		return run(c, func(e *sem45) func(*semRun, *lnode, outcome, func(string, ...interface{})) { return e.errorJudge })
	})
}
