package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sql6 decides C14 (v6 part) and C15 by abstract interpretation of sql.Walk on
// trees of every operator and operand kind, rendering the returned condition
// and reading it back with SQL's precedence.
type sql6 struct {
	c    *Check
	m    *module
	k    *v6consts
	walk *ssa.Function
}

func newSql6(c *Check) (*sql6, error) {
	m, err := loadModule("v6", "./pkg/...")
	if err != nil {
		return nil, err
	}
	k, err := v6Consts(m)
	if err != nil {
		return nil, err
	}
	p := m.byDir["pkg/walkers/sql"]
	if p == nil || p.Func("Walk") == nil {
		return nil, fmt.Errorf("v6 sql.Walk not found")
	}
	c.scope = append(c.scope, "v6/pkg/walkers/sql", "v6/pkg/tsl (Go side)")
	c.assume = append(c.assume, "squirrel renders Expr, And, Or and its comparison maps as documented (modelled in checker/squirrel.go)", "the C accessor functions return the stored data (decided by C08)")
	return &sql6{c, m, k, p.Func("Walk")}, nil
}

var errNoSql = fmt.Errorf("no SQL form")

// specSql is the expected structure of the condition of a tree.
func specSql(s *cstore, n *CNode) (*sqlNode, error) {
	if n == nil {
		return nil, errNoSql
	}
	op := s.c.on[n.op]
	sub := func(ns ...*CNode) ([]*sqlNode, error) {
		var l []*sqlNode
		for _, k := range ns {
			e, err := specSql(s, k)
			if err != nil {
				return nil, err
			}
			l = append(l, e)
		}
		return l, nil
	}
	switch {
	case s.is(n, "Identifier"):
		return &sqlNode{op: "ident", val: n.str}, nil
	case s.is(n, "NumericLiteral", "StringLiteral", "BooleanLiteral", "DateLiteral", "TimestampLiteral"):
		return &sqlNode{op: "lit", val: litOf{s, n}}, nil
	case s.is(n, "UnaryExpr"):
		if op != "Not" && op != "UMinus" {
			return nil, errNoSql
		}
		l, err := sub(n.kids...)
		return &sqlNode{op: op, kids: l}, err
	case s.is(n, "BinaryExpr"):
		switch op {
		case "In", "Between":
			r := n.kids[1]
			if r == nil || !s.is(r, "ArrayLiteral") || len(r.kids) == 0 || (op == "Between" && len(r.kids) != 2) {
				return nil, errNoSql
			}
			l, err := sub(append([]*CNode{n.kids[0]}, r.kids...)...)
			return &sqlNode{op: op, kids: l}, err
		case "Is":
			if n.kids[1] == nil {
				return nil, errNoSql
			}
			l, err := sub(n.kids[0])
			return &sqlNode{op: "IsNull", kids: l}, err
		case "RNE":
			l, err := sub(n.kids...)
			return &sqlNode{op: "Not", kids: []*sqlNode{{op: "REQ", kids: l}}}, err
		}
		if op == "" {
			return nil, errNoSql
		}
		l, err := sub(n.kids...)
		return &sqlNode{op: op, kids: l}, err
	}
	return nil, errNoSql
}

// litOf is an expected literal argument.
type litOf struct {
	s *cstore
	n *CNode
}

// litMatches decides whether a bound argument is the value of a literal.
func litMatches(in *Interp, l litOf, arg Val) bool {
	i, ok := arg.(VIface)
	if !ok || i.dyn == nil {
		return false
	}
	s, n := l.s, l.n
	switch {
	case s.is(n, "NumericLiteral"):
		return isNumeric(i.dyn) && key(i.v) == key(n.num)
	case s.is(n, "StringLiteral"):
		return isString(i.dyn) && key(i.v) == key(n.str)
	case s.is(n, "BooleanLiteral"):
		b := in.truth(n.b, token.NoPos)
		w := "#0"
		if b {
			w = "#1"
		}
		return isNumeric(i.dyn) && key(i.v) == w
	case s.is(n, "DateLiteral", "TimestampLiteral"):
		return dateArg(in, i, n.str, s.is(n, "TimestampLiteral"))
	}
	return false
}

// dateArg: the argument denotes the instant of the text: the text itself, a
// time, or a time formatted without losing its fraction or its zone.
func dateArg(in *Interp, i VIface, text Val, frac bool) bool {
	if isTime(i.dyn) {
		return key(instant(i.v)) == key(mkTerm(in.timeType(), "parsed", text))
	}
	if !isString(i.dyn) {
		return false
	}
	if key(i.v) == key(text) {
		return true
	}
	sv, ok := i.v.(VStr)
	if !ok || len(sv.parts) != 1 || sv.parts[0].atom == nil || sv.parts[0].atom.op != "timefmt" {
		return false
	}
	a := sv.parts[0].atom.args
	lay, ok := str1(a[1])
	if !ok || key(instant(a[0])) != key(mkTerm(in.timeType(), "parsed", text)) {
		return false
	}
	for _, need := range []string{"2006", "01", "02", "15", "04", "05"} {
		if !strings.Contains(lay, need) {
			return false
		}
	}
	if frac && !strings.Contains(lay, "05.999999999") && !strings.Contains(lay, "05.000000000") {
		return false
	}
	zone := strings.Contains(lay, "Z07:00") || strings.Contains(lay, "-07:00") || strings.Contains(lay, "-0700")
	return zone || isUTC(a[0])
}

func isUTC(t Val) bool {
	x, ok := t.(*VTerm)
	return ok && x.op == "samewhen" && len(x.args) > 1 && key(x.args[1]) == key(cStr("(time.Time).UTC"))
}

// sameSql compares the rendered structure with the expected one.
func sameSql(in *Interp, got, want *sqlNode) string {
	if got == nil || want == nil {
		return "missing"
	}
	switch want.op {
	case "ident":
		if got.op == "atom" && key(atomStr(got.atom)) == key(want.val) {
			return ""
		}
		return fmt.Sprintf("%s where the identifier %s is expected", got, key(want.val))
	case "lit":
		l := want.val.(litOf)
		if got.op == "arg" && litMatches(in, l, got.val) {
			return ""
		}
		return fmt.Sprintf("%s where the literal %s is expected", got, l.s.show(l.n))
	}
	if got.op != want.op || len(got.kids) != len(want.kids) {
		return fmt.Sprintf("%s where %s of %d operands is expected", got, want.op, len(want.kids))
	}
	for i := range want.kids {
		if w := sameSql(in, got.kids[i], want.kids[i]); w != "" {
			return w
		}
	}
	return ""
}

func (e *sql6) tree(rule, label string, build func(s *cstore) *CNode, judge func(in *Interp, s *cstore, root *CNode, text VStr, args []Val, gotErr bool, fail func(string, ...interface{}))) {
	e.c.explore(e.m, rule, label, func(in *Interp, fail func(string, ...interface{})) {
		s := in.newStore(e.k)
		root := build(s)
		o := in.tryCall(e.walk, []Val{s.wrap(root)})
		if o.crash != nil {
			fail("may crash: %s in %s (%s)", o.crash.what, o.crash.fn, in.position(o.crash.pos))
			return
		}
		if _, ok := o.res[1].(VNil); !ok {
			judge(in, s, root, VStr{}, nil, true, fail)
			return
		}
		if _, ok := o.res[0].(VNil); ok {
			fail("%s: neither a condition nor an error", s.show(root))
			return
		}
		text, args, rerr := in.renderSql(o.res[0], token.NoPos)
		if rerr != nil {
			judge(in, s, root, VStr{}, nil, true, fail)
			return
		}
		judge(in, s, root, text, args, false, fail)
	})
}

// literals lists the literals of a tree in order, and its identifiers.
func literals(s *cstore, n *CNode, lits *[]litOf, ids map[string]bool) {
	if n == nil {
		return
	}
	switch {
	case s.is(n, "Identifier"):
		ids[key(n.str)] = true
	case s.is(n, "NumericLiteral", "StringLiteral", "BooleanLiteral", "DateLiteral", "TimestampLiteral"):
		*lits = append(*lits, litOf{s, n})
	}
	for _, k := range n.kids {
		literals(s, k, lits, ids)
	}
}

func judgeBound(in *Interp, s *cstore, root *CNode, text VStr, args []Val, gotErr bool, fail func(string, ...interface{})) {
	if gotErr {
		return
	}
	var lits []litOf
	ids := map[string]bool{}
	literals(s, root, &lits, ids)
	for _, p := range text.parts {
		if p.atom != nil && !ids[p.atom.key] {
			fail("%s: %s becomes part of the SQL text", s.show(root), p.atom.key)
			return
		}
	}
	toks, err := sqlLex(text, args)
	if err != nil {
		fail("%s: %v", s.show(root), err)
		return
	}
	for _, t := range toks {
		if t.kind == "num" {
			fail("%s: the number %s in the SQL text", s.show(root), t.s)
			return
		}
	}
	if len(args) != len(lits) {
		fail("%s: %d literals, %d bound arguments", s.show(root), len(lits), len(args))
		return
	}
	for i := range args {
		if !litMatches(in, lits[i], args[i]) {
			fail("%s: argument %d is %s, not the literal %s", s.show(root), i+1, show(args[i]), s.show(lits[i].n))
			return
		}
	}
}

func judgeStructure(in *Interp, s *cstore, root *CNode, text VStr, args []Val, gotErr bool, fail func(string, ...interface{})) {
	want, err := specSql(s, root)
	if err != nil {
		if !gotErr {
			fail("%s: has no SQL form but gives %s", s.show(root), key(text))
		}
		return
	}
	if gotErr {
		fail("%s: gives an error", s.show(root))
		return
	}
	got, perr := parseSql(text, args)
	if perr != nil {
		fail("%s: %s is not a well-formed condition: %v", s.show(root), key(text), perr)
		return
	}
	if w := sameSql(in, got.flat(), want.flat()); w != "" {
		fail("%s: %s reads as %s: %s", s.show(root), key(text), got, w)
	}
}

var sqlLeaves = []operand{opIdent, opStr, opNum, opBool, opDate, opStamp}

var opArr2all = operand{"[ident,str]", func(s *cstore, side string) *CNode { return s.array(opIdent.mk(s, side+"0"), opStr.mk(s, side+"1")) }}
var opArr5 = operand{"[str,num,bool,date,stamp]", func(s *cstore, side string) *CNode {
	return s.array(opStr.mk(s, side+"0"), opNum.mk(s, side+"1"), opBool.mk(s, side+"2"), opDate.mk(s, side+"3"), opStamp.mk(s, side+"4"))
}}

var sqlPlain = []string{"EQ", "NE", "LT", "LE", "GT", "GE", "REQ", "RNE", "And", "Or", "Like", "ILike", "Plus", "Minus", "Star", "Slash", "Percent"}

// mkOp builds an expression of the given operator around one operand placed
// at the given position, with plain leaves elsewhere.
func mkOp(s *cstore, op, side string, pos int, x *CNode) *CNode {
	switch op {
	case "Not", "UMinus", "Len", "Any", "All", "Sum":
		return s.unary(op, x)
	case "In":
		e := []*CNode{opIdent.mk(s, side+"l"), opStr.mk(s, side+"a"), opNum.mk(s, side+"b")}
		e[pos] = x
		return s.binary(op, e[0], s.array(e[1], e[2]))
	case "Between":
		e := []*CNode{opIdent.mk(s, side+"l"), opNum.mk(s, side+"a"), opNum.mk(s, side+"b")}
		e[pos] = x
		return s.binary(op, e[0], s.array(e[1], e[2]))
	case "Is":
		return s.binary(op, x, opNull.mk(s, side+"n"))
	}
	e := []*CNode{opIdent.mk(s, side+"l"), opStr.mk(s, side+"r")}
	e[pos] = x
	return s.binary(op, e[0], e[1])
}

func opPositions(op string) int {
	switch op {
	case "Not", "UMinus", "Len", "Any", "All", "Sum", "Is":
		return 1
	case "In", "Between":
		return 3
	}
	return 2
}

func (e *sql6) jobs(judge func(in *Interp, s *cstore, root *CNode, text VStr, args []Val, gotErr bool, fail func(string, ...interface{}))) []func() {
	var jobs []func()
	add := func(rule, label string, build func(s *cstore) *CNode) {
		jobs = append(jobs, func() { e.tree(rule, label, build, judge) })
	}
	for _, o := range append([]operand{opArr2n, opArr0, opNone}, sqlLeaves...) {
		o := o
		add("leaf", o.label, func(s *cstore) *CNode { return o.mk(s, "x") })
	}
	rights := append([]operand{opArr0, opArr1n, opArr2n, opArr2d, opArr2t, opArr3, opArr5, opArr12, opArr2all, opArrArr, opNone}, sqlLeaves...)
	for _, op := range v6binary {
		for _, l := range append([]operand{opArr1n, opNone}, sqlLeaves...) {
			for _, r := range append([]operand{opNull}, rights...) {
				if r.label == "NullLiteral" && op != "Is" || r.label != "NullLiteral" && op == "Is" {
					continue // the grammar has null only after is
				}
				op, l, r := op, l, r
				add(op, l.label+" "+op+" "+r.label, func(s *cstore) *CNode { return s.binary(op, l.mk(s, "l"), r.mk(s, "r")) })
			}
		}
	}
	for _, op := range v6unary {
		for _, o := range append([]operand{opArr2n, opNone}, sqlLeaves...) {
			op, o := op, o
			add(op, op+" "+o.label, func(s *cstore) *CNode { return s.unary(op, o.mk(s, "x")) })
		}
	}
	// every operator as each operand of every operator
	for _, op := range v6ops {
		for pos := 0; pos < opPositions(op); pos++ {
			for _, op2 := range v6ops {
				op, op2, pos := op, op2, pos
				add("nest:"+op, fmt.Sprintf("%s with %s as operand %d", op, op2, pos), func(s *cstore) *CNode {
					return mkOp(s, op, "p", pos, mkOp(s, op2, "c", 0, opIdent.mk(s, "x")))
				})
				for _, op3 := range v6ops {
					for pos2 := 0; pos2 < opPositions(op2); pos2++ {
						op3, pos2 := op3, pos2
						add("nest3:"+op, fmt.Sprintf("%s with %s as operand %d with %s as operand %d", op, op2, pos, op3, pos2), func(s *cstore) *CNode {
							return mkOp(s, op, "p", pos, mkOp(s, op2, "c", pos2, mkOp(s, op3, "g", 0, opStr.mk(s, "x"))))
						})
					}
				}
			}
		}
	}
	// long lists, and long chains of every operator
	for _, n := range []int{40, 300, 1100} {
		for _, o := range sqlLeaves {
			if o.label == "Identifier" || o.label == "BooleanLiteral" {
				continue // every truth value would double the cases
			}
			l := listOf(o, n)
			add("long", "In "+l.label, func(s *cstore) *CNode { return s.binary("In", opIdent.mk(s, "x"), l.mk(s, "r")) })
		}
	}
	for _, op := range v6ops {
		for pos := 0; pos < opPositions(op); pos++ {
			for _, n := range []int{12, 45} {
				op, pos, n := op, pos, n
				add("long", fmt.Sprintf("%d levels of %s as operand %d", n, op, pos), func(s *cstore) *CNode {
					o := opIdent.mk(s, "x")
					for i := 0; i < n; i++ {
						o = mkOp(s, op, fmt.Sprintf("p%d", i), pos, o)
					}
					return o
				})
			}
		}
	}
	add("unknown", "unknown operator", func(s *cstore) *CNode {
		n := s.binary("EQ", opNum.mk(s, "l"), opNum.mk(s, "r"))
		n.op = 9999
		return n
	})
	return jobs
}

func init() {
	register("C15", "abstract interpretation of the SSA of v6 sql.Walk over trees of every operator, operand kind and nesting; the rendered condition is read back with SQL precedence and compared with the tree", func(c *Check) error {
		e, err := newSql6(c)
		if err != nil {
			return err
		}
		parallel(e.jobs(judgeStructure))
		for _, op := range v6ops {
			c.need("nest:"+op, len(v6ops))
		}
		return nil
	})
}
