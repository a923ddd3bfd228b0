package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CNode is the abstract form of an AST node of the C core, as seen from Go
// through the accessor functions.
type CNode struct {
	id     string
	kind   int
	op     int
	str    Val // text of the text-like kinds
	num    Val
	b      Val
	kids   []*CNode // 2 for binary, 1 for unary, n for arrays; entries may be nil
	freed  bool
	owned  bool   // linked below another node
	origin string // input, clone, parsed
	from   *CNode // the node this is a clone of
	obj    *Obj
}

// kinds and operators of v6, read from the Go constants.
type v6consts struct {
	kind map[string]int // String, Numeric, ...
	op   map[string]int // EQ, NE, ...
	kn   map[int]string
	on   map[int]string
}

func constsOf(m *module, dir, typ, prefix string) (map[string]int, error) {
	p := m.byDir[dir]
	if p == nil {
		return nil, fmt.Errorf("package %s not found", dir)
	}
	out := map[string]int{}
	for _, n := range p.Pkg.Scope().Names() {
		c, ok := p.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok || !strings.HasPrefix(n, prefix) {
			continue
		}
		if nt, ok := c.Type().(*types.Named); !ok || nt.Obj().Name() != typ {
			continue
		}
		v, _ := constant.Int64Val(constant.ToInt(c.Val()))
		out[strings.TrimPrefix(n, prefix)] = int(v)
	}
	return out, nil
}

func v6Consts(m *module) (*v6consts, error) {
	k, err := constsOf(m, "pkg/tsl", "Kind", "Kind")
	if err != nil {
		return nil, err
	}
	o, err := constsOf(m, "pkg/tsl", "Operator", "Op")
	if err != nil {
		return nil, err
	}
	c := &v6consts{k, o, map[int]string{}, map[int]string{}}
	for n, v := range k {
		c.kn[v] = n
	}
	for n, v := range o {
		c.on[v] = n
	}
	for _, n := range []string{"NumericLiteral", "StringLiteral", "Identifier", "BinaryExpr", "UnaryExpr", "DateLiteral", "TimestampLiteral", "ArrayLiteral", "BooleanLiteral", "NullLiteral"} {
		if _, ok := k[n]; !ok {
			return nil, fmt.Errorf("constant tsl.Kind%s not found", n)
		}
	}
	for _, n := range v6ops {
		if _, ok := o[n]; !ok {
			return nil, fmt.Errorf("constant tsl.Op%s not found", n)
		}
	}
	return c, nil
}

var v6binary = []string{"EQ", "NE", "LT", "LE", "GT", "GE", "REQ", "RNE", "And", "Or", "Like", "ILike", "In", "Between", "Is", "Plus", "Minus", "Star", "Slash", "Percent"}
var v6unary = []string{"Not", "UMinus", "Len", "Any", "All", "Sum"}
var v6ops = append(append([]string(nil), v6binary...), v6unary...)

// ctree is the set of nodes of one partition.
type cstore struct {
	in    *Interp
	c     *v6consts
	nodes []*CNode
	ct    types.Type // struct ast_node
	nt    types.Type // TSLNode
	n     int
}

func (in *Interp) newStore(c *v6consts) *cstore {
	s := &cstore{in: in, c: c}
	p := in.m.byDir["pkg/tsl"].Pkg
	s.nt = p.Scope().Lookup("TSLNode").Type()
	if o := p.Scope().Lookup("_Ctype_struct_ast_node"); o != nil {
		s.ct = o.Type()
	} else {
		in.undecided(token.NoPos, "C type struct ast_node not visible in package tsl")
	}
	in.cs = s
	return s
}

func (s *cstore) node(kind string, origin string) *CNode {
	s.n++
	n := &CNode{id: fmt.Sprintf("n%d", s.n), kind: s.c.kind[kind], origin: origin}
	n.obj = &Obj{c: n, typ: s.ct, name: "cnode:" + n.id}
	s.nodes = append(s.nodes, n)
	return n
}

// leaf makes a leaf of the given kind with an unknown value.
func (s *cstore) leaf(kind, name string) *CNode {
	n := s.node(kind, "input")
	switch kind {
	case "NumericLiteral":
		n.num = s.in.leafNum("num:" + name)
	case "BooleanLiteral":
		n.b = cBool(s.in.choose("lit:"+name, 2) == 1)
	case "NullLiteral":
	case "DateLiteral":
		t := s.in.leafText("date:" + name)
		n.str = t
		s.in.facts["parse:2006-01-02T15:04:05Z07:00:"+key(t)] = 0
		s.in.facts["textlen:"+key(t)] = 10
	case "TimestampLiteral":
		n.str = s.in.leafText("stamp:" + name)
	case "Identifier":
		n.str = s.in.leafText("id:" + name)
	default:
		n.str = s.in.leafText("str:" + name)
	}
	return n
}

func (s *cstore) binary(op string, l, r *CNode) *CNode {
	n := s.node("BinaryExpr", "input")
	n.op = s.c.op[op]
	n.kids = []*CNode{l, r}
	for _, k := range n.kids {
		if k != nil {
			k.owned = true
		}
	}
	return n
}

func (s *cstore) unary(op string, r *CNode) *CNode {
	n := s.node("UnaryExpr", "input")
	n.op = s.c.op[op]
	n.kids = []*CNode{r}
	if r != nil {
		r.owned = true
	}
	return n
}

func (s *cstore) array(e ...*CNode) *CNode {
	n := s.node("ArrayLiteral", "input")
	n.kids = e
	for _, k := range e {
		if k != nil {
			k.owned = true
		}
	}
	return n
}

func (n *CNode) ptr() Val {
	if n == nil {
		return VNil{}
	}
	return VPtr{obj: n.obj}
}

// wrap builds the *TSLNode for a C node.
func (s *cstore) wrap(n *CNode) Val {
	if n == nil {
		return VNil{}
	}
	st := s.nt.Underlying().(*types.Struct)
	v := s.in.zero(s.nt).(VStruct)
	done := false
	for i := 0; i < st.NumFields(); i++ {
		if pt, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem().Underlying(), s.ct.Underlying()) {
			v.f[i] = n.ptr()
			done = true
		}
	}
	if !done {
		s.in.undecided(token.NoPos, "TSLNode holds no C node")
	}
	o := s.in.newObj(v, s.nt, "TSLNode")
	return VPtr{obj: o}
}

// unwrap finds the C node behind a *TSLNode.
func (s *cstore) unwrap(v Val) (*CNode, bool) {
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	p, ok := v.(VPtr)
	if !ok {
		return nil, false
	}
	st, ok := p.obj.v.(VStruct)
	if !ok {
		return nil, false
	}
	for _, f := range st.f {
		if c, ok := f.(VPtr); ok && c.obj.c != nil {
			return c.obj.c, true
		}
	}
	return nil, true
}

func (s *cstore) clone(n *CNode, origin string) *CNode {
	if n == nil {
		return nil
	}
	m := s.node(s.c.kn[n.kind], origin)
	m.op, m.str, m.num, m.b, m.from = n.op, n.str, n.num, n.b, n
	for _, k := range n.kids {
		c := s.clone(k, origin)
		if c != nil {
			c.owned = true
		}
		m.kids = append(m.kids, c)
	}
	return m
}

func (s *cstore) is(n *CNode, kinds ...string) bool {
	for _, k := range kinds {
		if n.kind == s.c.kind[k] {
			return true
		}
	}
	return false
}

// show prints a tree for messages.
func (s *cstore) show(n *CNode) string {
	if n == nil {
		return "<none>"
	}
	switch {
	case s.is(n, "BinaryExpr"):
		return "(" + s.show(n.kids[0]) + " " + s.c.on[n.op] + " " + s.show(n.kids[1]) + ")"
	case s.is(n, "UnaryExpr"):
		return s.c.on[n.op] + "(" + s.show(n.kids[0]) + ")"
	case s.is(n, "ArrayLiteral"):
		var e []string
		for _, k := range n.kids {
			e = append(e, s.show(k))
		}
		return "[" + strings.Join(e, ", ") + "]"
	case n.str != nil:
		return strings.TrimSuffix(s.c.kn[n.kind], "Literal") + " " + key(n.str)
	case n.num != nil:
		return key(n.num)
	case n.b != nil:
		return key(n.b)
	}
	return s.c.kn[n.kind]
}

// loadC reads a field of a C node directly.
func (in *Interp) loadC(p VPtr, pos token.Pos) Val {
	n := p.obj.c
	if n.freed {
		in.crash(pos, "read of a released node")
	}
	if len(p.path) == 1 {
		if st, ok := p.obj.typ.Underlying().(*types.Struct); ok {
			if f := st.Field(p.path[0]); strings.TrimLeft(f.Name(), "_") == "type" {
				return cInt(int64(n.kind))
			}
		}
	}
	in.undecided(pos, "direct read of the data of a C node")
	return nil
}

// cgo models the accessor functions of the C core (their C bodies are checked
// separately) and the cgo helpers.
func (in *Interp) cgo(fn *ssa.Function, args []Val, pos token.Pos) ([]Val, bool) {
	name := fn.Name()
	switch {
	case strings.HasPrefix(name, "_cgoCheck"):
		return nil, true
	case strings.HasPrefix(name, "_Cfunc_"):
		name = strings.TrimPrefix(name, "_Cfunc_")
	default:
		return nil, true
	}
	in.events = append(in.events, Event{kind: "c:" + name, args: args, pos: pos})
	if in.ci != nil {
		return in.ci.fromGo(in, name, fn, args, pos), true
	}
	rt := func() types.Type {
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return fn.Signature.Results().At(0).Type()
	}
	switch name {
	case "CString":
		o := in.newObj(VNil{}, nil, "cstring")
		o.v = args[0]
		o.extra = "cstring"
		return []Val{VPtr{obj: o}}, true
	case "GoString":
		switch p := args[0].(type) {
		case VNil:
			return []Val{VStr{}}, true
		case VPtr:
			if p.obj.extra == "freed" {
				in.crash(pos, "C text read after it was released")
			}
			return []Val{p.obj.v}, true
		case *VTerm:
			return []Val{atomStr(mkTerm(types.Typ[types.String], "gostring", p))}, true
		}
		in.undecided(pos, "GoString of %T", args[0])
	case "free", "_Cgo_free":
		switch p := args[0].(type) {
		case VNil:
			return nil, true
		case VPtr:
			if p.obj.c != nil {
				in.crash(pos, "an AST node is passed to free instead of ast_free")
			}
			if p.obj.extra == "freed" {
				in.crash(pos, "C memory released twice")
			}
			p.obj.extra = "freed"
			return nil, true
		}
		return nil, true
	}
	if in.cs == nil {
		// calls outside the tree analyses: opaque results
		return in.opaqueResults(fn.Signature, "c:"+name+"/"+in.fresh(""), args), true
	}
	s := in.cs
	get := func(i int, nilOK bool) *CNode {
		switch p := args[i].(type) {
		case VNil:
			if !nilOK {
				in.crash(pos, "%s called on an absent node", name)
			}
			return nil
		case VPtr:
			if p.obj.c != nil {
				if p.obj.c.freed {
					in.crash(pos, "%s called on a released node", name)
				}
				return p.obj.c
			}
		}
		in.undecided(pos, "%s called on %T", name, args[i])
		return nil
	}
	want := func(n *CNode, kinds ...string) {
		if !s.is(n, kinds...) {
			in.crash(pos, "%s called on a %s node reads the wrong data", name, s.c.kn[n.kind])
		}
	}
	node := func(n *CNode) []Val { return []Val{n.ptr()} }
	touch := func(n *CNode, what string) {
		if n != nil && n.origin == "input" {
			in.writes = append(in.writes, fmt.Sprintf("input tree %s in %s", what, in.where(pos)))
		}
	}
	attach := func(n *CNode, i int, c *CNode) []Val {
		touch(n, "changed (attach)")
		if old := n.kids[i]; old != nil {
			touch(old, "released")
			if old == c {
				in.crash(pos, "attach releases the node it attaches")
			}
			old.owned = false
			in.freeTree(old)
		}
		if c != nil {
			if c.owned {
				in.crash(pos, "a node is attached to two places")
			}
			c.owned = true
		}
		n.kids[i] = c
		return []Val{cInt(1)}
	}
	switch name {
	case "get_number_value":
		n := get(0, false)
		want(n, "NumericLiteral")
		return []Val{n.num}, true
	case "get_boolean_value":
		n := get(0, false)
		want(n, "BooleanLiteral")
		if in.truth(n.b, pos) {
			return []Val{cInt(1)}, true
		}
		return []Val{cInt(0)}, true
	case "get_string_value":
		n := get(0, false)
		if n.str == nil {
			return []Val{VNil{}}, true
		}
		o := &Obj{v: n.str, name: "cstr:" + n.id}
		return []Val{VPtr{obj: o}}, true
	case "get_binary_op", "get_binary_left", "get_binary_right":
		n := get(0, false)
		want(n, "BinaryExpr")
		switch name {
		case "get_binary_op":
			return []Val{cInt(int64(n.op))}, true
		case "get_binary_left":
			return node(n.kids[0]), true
		}
		return node(n.kids[1]), true
	case "get_unary_op", "get_unary_child":
		n := get(0, false)
		want(n, "UnaryExpr")
		if name == "get_unary_op" {
			return []Val{cInt(int64(n.op))}, true
		}
		return node(n.kids[0]), true
	case "get_array_size":
		n := get(0, false)
		want(n, "ArrayLiteral")
		return []Val{cInt(int64(len(n.kids)))}, true
	case "get_array_element":
		n := get(0, false)
		want(n, "ArrayLiteral")
		i, ok := in.intOf(args[1])
		if !ok {
			in.undecided(pos, "array element at unknown index")
		}
		if i < 0 || i >= len(n.kids) {
			return []Val{VNil{}}, true
		}
		return node(n.kids[i]), true
	case "ast_free":
		n := get(0, true)
		if n == nil {
			return nil, true
		}
		touch(n, "released")
		if n.owned {
			in.crash(pos, "a node that still belongs to a tree is released")
		}
		in.freeTree(n)
		return nil, true
	case "ast_clone":
		n := get(0, true)
		return node(s.clone(n, "clone")), true
	case "ast_detach_binary_left", "ast_detach_binary_right", "ast_detach_unary_child":
		n := get(0, true)
		k := "BinaryExpr"
		i := 0
		if name == "ast_detach_unary_child" {
			k = "UnaryExpr"
		}
		if name == "ast_detach_binary_right" {
			i = 1
		}
		if n == nil || !s.is(n, k) {
			return []Val{VNil{}}, true
		}
		touch(n, "changed (detach)")
		c := n.kids[i]
		n.kids[i] = nil
		if c != nil {
			c.owned = false
		}
		return node(c), true
	case "ast_attach_binary_left", "ast_attach_binary_right", "ast_attach_unary_child":
		n := get(0, true)
		c := get(1, true)
		k := "BinaryExpr"
		i := 0
		if name == "ast_attach_unary_child" {
			k = "UnaryExpr"
		}
		if name == "ast_attach_binary_right" {
			i = 1
		}
		if n == nil || !s.is(n, k) {
			return []Val{cInt(0)}, true
		}
		return attach(n, i, c), true
	case "ast_attach_array_element":
		n := get(0, true)
		i, known := in.intOf(args[1])
		c := get(2, true)
		if !known {
			in.undecided(pos, "array element attached at an unknown index")
		}
		if n == nil || !s.is(n, "ArrayLiteral") || i < 0 || i >= len(n.kids) {
			return []Val{cInt(0)}, true
		}
		return attach(n, i, c), true
	case "parse_input_string":
		if in.choose("parse-ok:"+in.fresh("p"), 2) == 1 {
			n := s.node("Identifier", "parsed")
			n.str = atomStr(mkTerm(types.Typ[types.String], "parsed"))
			return node(n), true
		}
		return []Val{VNil{}}, true
	}
	if rt() == nil {
		return nil, true
	}
	return in.opaqueResults(fn.Signature, "c:"+name+"/"+in.fresh(""), args), true
}

func (in *Interp) freeTree(n *CNode) {
	if n == nil {
		return
	}
	if n.freed {
		panic(absPanic{what: "a node is released twice"})
	}
	n.freed = true
	for _, k := range n.kids {
		if k != nil {
			k.owned = false
			in.freeTree(k)
		}
	}
}
