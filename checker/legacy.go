package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// legacy is the v4 or v5 module, whose trees are plain Go values.
type legacy struct {
	m    *module
	ver  string
	ops  map[string]string // AndOp -> "$and"
	node types.Type
}

func loadLegacy(c *Check, ver string) (*legacy, error) {
	m, err := loadModule(ver, "./pkg/...")
	if err != nil {
		return nil, err
	}
	p := m.byDir["pkg/tsl"]
	if p == nil {
		return nil, fmt.Errorf("%s: package pkg/tsl not found", ver)
	}
	g := &legacy{m: m, ver: ver, ops: map[string]string{}}
	for _, n := range p.Pkg.Scope().Names() {
		if k, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok && strings.HasSuffix(n, "Op") && k.Val().Kind() == constant.String {
			g.ops[strings.TrimSuffix(n, "Op")] = constant.StringVal(k.Val())
		}
	}
	o := p.Pkg.Scope().Lookup("Node")
	if o == nil {
		return nil, fmt.Errorf("%s: type tsl.Node not found", ver)
	}
	g.node = o.Type()
	st, ok := g.node.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("%s: tsl.Node is not a struct", ver)
	}
	have := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		have[st.Field(i).Name()] = true
	}
	for _, f := range []string{"Func", "Left", "Right"} {
		if !have[f] {
			return nil, fmt.Errorf("%s: tsl.Node has no field %s", ver, f)
		}
	}
	for _, n := range g.opNames() {
		if _, ok := g.ops[n]; !ok {
			return nil, fmt.Errorf("%s: constant tsl.%sOp not found", ver, n)
		}
	}
	return g, nil
}

var (
	legacyCmp  = []string{"Lt", "Lte", "Gt", "Gte", "Eq", "NotEq"}
	legacyMath = []string{"Add", "Subtract", "Multiply", "Divide", "Modulo"}
)

func (g *legacy) opNames() []string {
	l := []string{"Ident", "Array", "String", "Number", "Lt", "Lte", "Gt", "Gte", "Eq", "NotEq", "Regex", "NotRegex", "Like", "ILike", "In", "NotIn",
		"Between", "NotBetween", "Not", "And", "Or", "IsNil", "IsNotNil", "Add", "Subtract", "Multiply", "Divide", "Modulo"}
	if g.ver == "v5" {
		l = append(l, "Boolean", "Date")
	}
	return l
}

func (g *legacy) litKinds() []string {
	if g.ver == "v5" {
		return []string{"Number", "String", "Boolean", "Date"}
	}
	return []string{"Number", "String"}
}

// lnode is the reference form of a v4/v5 tree.
type lnode struct {
	op   string
	val  Val // leaf value
	l, r *lnode
	list []*lnode // children of an Array
}

func (g *legacy) leaf(in *Interp, kind, name string) *lnode {
	n := &lnode{op: kind}
	switch kind {
	case "Ident":
		n.val = in.leafText("id:" + name)
	case "Number":
		n.val = in.leafNum("num:" + name)
	case "String":
		n.val = in.leafText("str:" + name)
	case "Boolean":
		n.val = cBool(in.choose("lit:"+name, 2) == 1)
	case "Date":
		n.val = in.leafTime("date:" + name)
	}
	return n
}

func lop(op string, l, r *lnode) *lnode  { return &lnode{op: op, l: l, r: r} }
func larr(e ...*lnode) *lnode            { return &lnode{op: "Array", list: e} }
func (n *lnode) isLeaf() bool            { return n.val != nil }
func isMathOp(op string) bool            { return contains(legacyMath, op) }
func contains(l []string, s string) bool { return indexOf(l, s) >= 0 }
func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// value builds the Go value of the tree: a tsl.Node.
func (g *legacy) value(in *Interp, n *lnode) Val {
	st := g.node.Underlying().(*types.Struct)
	v := in.zero(g.node).(VStruct)
	var left, right Val = VNil{}, VNil{}
	switch {
	case n.op == "Array":
		var e []Val
		for _, k := range n.list {
			e = append(e, g.value(in, k))
		}
		sl := in.mkSlice(e)
		markInput(sl, "a list of the tree", map[interface{}]bool{})
		right = VIface{dyn: types.NewSlice(g.node), v: sl}
	case n.isLeaf():
		t := tString
		switch n.op {
		case "Number":
			t = tFloat
		case "Boolean":
			t = tBool
		case "Date":
			left = VIface{dyn: in.timeType(), v: n.val}
		}
		if n.op != "Date" {
			left = VIface{dyn: t, v: n.val}
		}
	default:
		if n.l != nil {
			left = VIface{dyn: g.node, v: g.value(in, n.l)}
		}
		if n.r != nil {
			right = VIface{dyn: g.node, v: g.value(in, n.r)}
		}
	}
	for i := range v.f {
		switch st.Field(i).Name() {
		case "Func":
			op, ok := g.ops[n.op]
			if !ok {
				op = n.op
			}
			v.f[i] = cStr(op)
		case "Left":
			v.f[i] = left
		case "Right":
			v.f[i] = right
		}
	}
	return v
}

func (n *lnode) String() string {
	switch {
	case n == nil:
		return "<none>"
	case n.op == "Array":
		var e []string
		for _, k := range n.list {
			e = append(e, k.String())
		}
		return "(" + strings.Join(e, ", ") + ")"
	case n.isLeaf():
		return n.op + " " + key(n.val)
	case n.r == nil:
		return n.op + "(" + n.l.String() + ")"
	}
	return "(" + n.l.String() + " " + n.op + " " + n.r.String() + ")"
}

// lgen names a way to build a subtree.
type lgen struct {
	label string
	mk    func(in *Interp, side string) *lnode
}

func (g *legacy) leafGen(kind string) lgen {
	return lgen{kind, func(in *Interp, side string) *lnode { return g.leaf(in, kind, side) }}
}

// columns are the generators of left operands: identifiers and arithmetic.
func (g *legacy) columns() []lgen {
	l := []lgen{g.leafGen("Ident")}
	for _, op := range legacyMath {
		l = append(l, g.mathGen(op, g.leafGen("Ident"), g.leafGen("Number")))
	}
	l = append(l, g.mathGen("Add", g.leafGen("Ident"), g.leafGen("Ident")))
	l = append(l, g.mathGen("Subtract", g.mathGen("Add", g.leafGen("Ident"), g.leafGen("Number")), g.leafGen("Number")))
	l = append(l, g.mathGen("Multiply", g.leafGen("Ident"), g.mathGen("Subtract", g.leafGen("Ident"), g.leafGen("Number"))))
	for _, k := range g.litKinds() {
		if k != "Number" {
			l = append(l, g.mathGen("Add", g.leafGen("Ident"), g.leafGen(k)))
		}
	}
	if g.ver == "v5" {
		l = append(l, g.mathGen("Subtract", g.mathGen("Add", g.leafGen("Ident"), g.leafGen("Date")), g.leafGen("Date")))
	}
	return l
}

func (g *legacy) mathGen(op string, l, r lgen) lgen {
	return lgen{"(" + l.label + " " + op + " " + r.label + ")", func(in *Interp, side string) *lnode {
		return lop(op, l.mk(in, side+"l"), r.mk(in, side+"r"))
	}}
}

// lists are the generators of literal lists.
func (g *legacy) lists() []lgen {
	mk := func(kinds ...string) lgen {
		return lgen{"[" + strings.Join(kinds, ",") + "]", func(in *Interp, side string) *lnode {
			var e []*lnode
			for i, k := range kinds {
				e = append(e, g.leaf(in, k, fmt.Sprintf("%s%d", side, i)))
			}
			return larr(e...)
		}}
	}
	l := []lgen{mk(), mk("Number"), mk("String"), mk("Number", "Number"), mk("String", "String"), mk("String", "Number"), mk("Number", "String"), mk("Number", "Number", "Number"), mk("String", "String", "String")}
	if g.ver == "v5" {
		l = append(l, mk("Date"), mk("Date", "Date"), mk("Boolean"), mk("Boolean", "Boolean"), mk("Boolean", "Date"), mk("String", "Boolean"),
			mk("Date", "String"), mk("String", "Date"), mk("Date", "Date", "Date"), mk("Date", "Date", "Number"), mk("Boolean", "Boolean", "Boolean"))
	}
	return l
}

func (g *legacy) pairs() []lgen {
	var l []lgen
	for _, a := range g.litKinds() {
		for _, b := range g.litKinds() {
			a, b := a, b
			l = append(l, lgen{"[" + a + "," + b + "]", func(in *Interp, side string) *lnode {
				return larr(g.leaf(in, a, side+"0"), g.leaf(in, b, side+"1"))
			}})
		}
	}
	return l
}

// conditions are the generators of conditions the grammar can build, with
// every operator, left operand and right operand.
func (g *legacy) conditions() []lgen {
	var out []lgen
	cond := func(op string, l, r lgen) {
		out = append(out, lgen{l.label + " " + op + " " + r.label, func(in *Interp, side string) *lnode {
			return lop(op, l.mk(in, side+"L"), r.mk(in, side+"R"))
		}})
	}
	cols := g.columns()
	for _, op := range []string{"In", "NotIn"} {
		for _, n := range []int{12, 40, 130} {
			for _, k := range []string{"Number", "String"} {
				n, k := n, k
				cond(op, g.leafGen("Ident"), lgen{fmt.Sprintf("[%d %s]", n, k), func(in *Interp, side string) *lnode {
					var e []*lnode
					for i := 0; i < n; i++ {
						e = append(e, g.leaf(in, k, longName(side, i)))
					}
					return larr(e...)
				}})
			}
		}
	}
	// Every operator of arithmetic inside every other one
	id, num := g.leafGen("Ident"), g.leafGen("Number")
	for _, outer := range legacyMath {
		for _, inner := range legacyMath {
			in := g.mathGen(inner, id, num)
			for _, m := range []lgen{g.mathGen(outer, in, num), g.mathGen(outer, num, in), g.mathGen(outer, in, g.mathGen(inner, num, num))} {
				cond("Gt", m, num)
				cond("Lte", id, m)
			}
			cond("Eq", g.mathGen(outer, id, g.mathGen(inner, num, g.mathGen(outer, num, num))), num)
			cond("NotEq", g.mathGen(outer, g.mathGen(inner, g.mathGen(outer, id, num), num), num), num)
		}
	}
	var lits []lgen
	for _, k := range g.litKinds() {
		lits = append(lits, g.leafGen(k))
	}
	for _, c := range cols {
		for _, op := range legacyCmp {
			for _, r := range append(append([]lgen(nil), lits...), cols...) {
				cond(op, c, r)
			}
		}
		texts := []lgen{g.leafGen("String")}
		if g.ver == "v5" {
			texts = append(texts, g.leafGen("Ident"))
		}
		for _, op := range []string{"Regex", "NotRegex", "Like", "ILike"} {
			for _, r := range texts {
				cond(op, c, r)
			}
		}
		for _, op := range []string{"In", "NotIn"} {
			for _, r := range g.lists() {
				cond(op, c, r)
			}
		}
		for _, op := range []string{"Between", "NotBetween"} {
			for _, r := range g.pairs() {
				cond(op, c, r)
			}
		}
		for _, op := range []string{"IsNil", "IsNotNil"} {
			op, c := op, c
			out = append(out, lgen{op + " " + c.label, func(in *Interp, side string) *lnode { return lop(op, c.mk(in, side+"L"), nil) }})
		}
	}
	return out
}

// plainConditions is one condition per operator.
func (g *legacy) plainConditions() []lgen {
	id, num, str := g.leafGen("Ident"), g.leafGen("Number"), g.leafGen("String")
	var out []lgen
	add := func(op string, r func(in *Interp, side string) *lnode) {
		out = append(out, lgen{op, func(in *Interp, side string) *lnode {
			var rn *lnode
			if r != nil {
				rn = r(in, side+"R")
			}
			return lop(op, id.mk(in, side+"L"), rn)
		}})
	}
	for _, op := range legacyCmp {
		add(op, num.mk)
	}
	for _, op := range []string{"Like", "ILike", "Regex", "NotRegex"} {
		add(op, str.mk)
	}
	for _, op := range []string{"In", "NotIn"} {
		add(op, func(in *Interp, side string) *lnode {
			return larr(g.leaf(in, "String", side+"0"), g.leaf(in, "String", side+"1"))
		})
	}
	for _, op := range []string{"Between", "NotBetween"} {
		add(op, func(in *Interp, side string) *lnode {
			return larr(g.leaf(in, "Number", side+"0"), g.leaf(in, "Number", side+"1"))
		})
	}
	add("IsNil", nil)
	add("IsNotNil", nil)
	return out
}

// combos nest conditions under not, and, or.
func (g *legacy) combos() []lgen {
	var out []lgen
	leafs := g.plainConditions()
	id := leafs[0]
	var d1 []lgen
	for _, c := range leafs {
		c := c
		d1 = append(d1, lgen{"Not(" + c.label + ")", func(in *Interp, side string) *lnode { return lop("Not", c.mk(in, side+"n"), nil) }})
		for _, op := range []string{"And", "Or"} {
			op := op
			d1 = append(d1,
				lgen{"(" + c.label + " " + op + " " + id.label + ")", func(in *Interp, side string) *lnode { return lop(op, c.mk(in, side+"a"), id.mk(in, side+"b")) }},
				lgen{"(" + id.label + " " + op + " " + c.label + ")", func(in *Interp, side string) *lnode { return lop(op, id.mk(in, side+"a"), c.mk(in, side+"b")) }})
		}
	}
	out = append(out, d1...)
	for _, c := range d1 {
		c := c
		out = append(out, lgen{"Not(" + c.label + ")", func(in *Interp, side string) *lnode { return lop("Not", c.mk(in, side+"n"), nil) }})
		for _, op := range []string{"And", "Or"} {
			op := op
			out = append(out,
				lgen{"(" + c.label + " " + op + " " + id.label + ")", func(in *Interp, side string) *lnode { return lop(op, c.mk(in, side+"a"), id.mk(in, side+"b")) }},
				lgen{"(" + id.label + " " + op + " " + c.label + ")", func(in *Interp, side string) *lnode { return lop(op, id.mk(in, side+"a"), c.mk(in, side+"b")) }})
		}
	}
	// Long chains, the conditions of one chain are alike
	for _, n := range []int{20, 70} {
		for _, op := range []string{"And", "Or", "Not", "Not And"} {
			for _, left := range []bool{true, false} {
				n, op, left := n, op, left
				out = append(out, lgen{fmt.Sprintf("%d levels of %s (left %v)", n, op, left), func(in *Interp, side string) *lnode {
					o := id.mk(in, side)
					for i := 0; i < n; i++ {
						switch {
						case op == "Not":
							o = lop("Not", o, nil)
						case left:
							o = lop(strings.TrimPrefix(op, "Not "), o, id.mk(in, side))
						default:
							o = lop(strings.TrimPrefix(op, "Not "), id.mk(in, side), o)
						}
						if op == "Not And" {
							o = lop("Not", o, nil)
						}
					}
					return o
				}})
			}
		}
	}
	return out
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}
