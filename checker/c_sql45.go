package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SQL of v4 and v5: C24 (structure) and the v4/v5 part of C14 (bound literals).

type sql45 struct {
	c    *Check
	g    *legacy
	walk *ssa.Function
}

func newSql45(c *Check, ver string) (*sql45, error) {
	g, err := loadLegacy(c, ver)
	if err != nil {
		return nil, err
	}
	p := g.m.byDir["pkg/walkers/sql"]
	if p == nil || p.Func("Walk") == nil {
		return nil, fmt.Errorf("%s sql.Walk not found", ver)
	}
	c.scope = append(c.scope, ver+"/pkg/walkers/sql")
	return &sql45{c, g, p.Func("Walk")}, nil
}

type lLit struct{ n *lnode }

var legacySqlOp = map[string]string{"Eq": "EQ", "NotEq": "NE", "Lt": "LT", "Lte": "LE", "Gt": "GT", "Gte": "GE", "Like": "Like", "ILike": "ILike",
	"And": "And", "Or": "Or", "Add": "Plus", "Subtract": "Minus", "Multiply": "Star", "Divide": "Slash", "Modulo": "Percent", "Not": "Not"}

func specSql45(n *lnode) (*sqlNode, error) {
	sub := func(ns ...*lnode) ([]*sqlNode, error) {
		var l []*sqlNode
		for _, k := range ns {
			e, err := specSql45(k)
			if err != nil {
				return nil, err
			}
			l = append(l, e)
		}
		return l, nil
	}
	if n == nil {
		return nil, errNoSql
	}
	if n.isLeaf() {
		if n.op == "Ident" {
			return &sqlNode{op: "ident", val: n.val}, nil
		}
		return &sqlNode{op: "lit", val: lLit{n}}, nil
	}
	not := func(x *sqlNode, err error) (*sqlNode, error) { return &sqlNode{op: "Not", kids: []*sqlNode{x}}, err }
	switch n.op {
	case "Not":
		return not(specSql45(n.l))
	case "IsNil":
		l, err := sub(n.l)
		return &sqlNode{op: "IsNull", kids: l}, err
	case "IsNotNil":
		l, err := sub(n.l)
		return not(&sqlNode{op: "IsNull", kids: l}, err)
	case "In", "NotIn", "Between", "NotBetween":
		l, err := sub(append([]*lnode{n.l}, n.r.list...)...)
		x := &sqlNode{op: strings.TrimPrefix(n.op, "Not"), kids: l}
		if n.op == "In" && len(n.r.list) == 0 || n.op == "NotIn" && len(n.r.list) == 0 {
			x = &sqlNode{op: "false"}
		}
		if strings.HasPrefix(n.op, "Not") {
			return not(x, err)
		}
		return x, err
	}
	op, ok := legacySqlOp[n.op]
	if !ok {
		return nil, errNoSql
	}
	l, err := sub(n.l, n.r)
	return &sqlNode{op: op, kids: l}, err
}

func lLitMatches(in *Interp, l lLit, got *sqlNode) bool {
	n := l.n
	if got.op == "arg" {
		i, ok := got.val.(VIface)
		if !ok || i.dyn == nil {
			return false
		}
		switch n.op {
		case "Number":
			return isNumeric(i.dyn) && key(i.v) == key(n.val)
		case "String":
			return isString(i.dyn) && key(i.v) == key(n.val)
		case "Boolean":
			w := "#0"
			if in.truth(n.val, token.NoPos) {
				w = "#1"
			}
			return isNumeric(i.dyn) && key(i.v) == w
		case "Date":
			return dateArg45(in, i, n.val)
		}
		return false
	}
	switch n.op {
	case "Number":
		return got.op == "atom" && numberText(got.atom, n.val)
	case "Boolean":
		w := "0"
		if in.truth(n.val, token.NoPos) {
			w = "1"
		}
		return got.op == "num" && key(got.val) == key(cStr(w))
	}
	return false
}

// numberText: the fragment is the decimal text of the number, losslessly.
func numberText(a *VTerm, num Val) bool {
	return a.op == "fmtnum" && len(a.args) > 0 && key(a.args[0]) == key(num)
}

func dateArg45(in *Interp, i VIface, t Val) bool {
	if isTime(i.dyn) {
		return key(instant(i.v)) == key(instant(t))
	}
	sv, ok := i.v.(VStr)
	if !ok || len(sv.parts) != 1 || sv.parts[0].atom == nil || sv.parts[0].atom.op != "timefmt" {
		return false
	}
	a := sv.parts[0].atom.args
	lay, ok := str1(a[1])
	if !ok || key(instant(a[0])) != key(instant(t)) {
		return false
	}
	for _, need := range []string{"2006", "01", "02", "15", "04"} {
		if !strings.Contains(lay, need) {
			return false
		}
	}
	if !strings.Contains(lay, "05.999999999") && !strings.Contains(lay, "05.000000000") {
		return false
	}
	return strings.Contains(lay, "Z07:00") || strings.Contains(lay, "-07:00") || strings.Contains(lay, "-0700") || isUTC(a[0])
}

func sameSql45(in *Interp, got, want *sqlNode) string {
	switch want.op {
	case "ident":
		if got.op == "atom" && key(atomStr(got.atom)) == key(want.val) {
			return ""
		}
		return fmt.Sprintf("%s where the identifier %s is expected", got, key(want.val))
	case "lit":
		l := want.val.(lLit)
		if lLitMatches(in, l, got) {
			return ""
		}
		return fmt.Sprintf("%s where the literal %s is expected", got, l.n)
	case "false":
		if got.op == "EQ" && len(got.kids) == 2 && got.kids[0].op == "num" && got.kids[1].op == "num" && key(got.kids[0].val) != key(got.kids[1].val) {
			return ""
		}
		return fmt.Sprintf("%s where a condition that never holds is expected", got)
	case "Not":
		if k := want.kids[0]; k.op == "false" && got.op == "EQ" && len(got.kids) == 2 && got.kids[0].op == "num" && got.kids[1].op == "num" && key(got.kids[0].val) == key(got.kids[1].val) {
			return ""
		}
	}
	if got.op != want.op || len(got.kids) != len(want.kids) {
		return fmt.Sprintf("%s where %s of %d operands is expected", got, want.op, len(want.kids))
	}
	for i := range want.kids {
		if w := sameSql45(in, got.kids[i], want.kids[i]); w != "" {
			return w
		}
	}
	return ""
}

type judge45 func(in *Interp, root *lnode, text VStr, args []Val, gotErr bool, fail func(string, ...interface{}))

func judgeStructure45(in *Interp, root *lnode, text VStr, args []Val, gotErr bool, fail func(string, ...interface{})) {
	want, err := specSql45(root)
	if err != nil {
		if !gotErr {
			fail("%s: has no SQL form but gives %s", root, key(text))
		}
		return
	}
	if gotErr {
		fail("%s: gives an error", root)
		return
	}
	got, perr := parseSql(text, args)
	if perr != nil {
		fail("%s: %s is not a well-formed condition: %v", root, key(text), perr)
		return
	}
	if w := sameSql45(in, got.flat(), want.flat()); w != "" {
		fail("%s: %s reads as %s: %s", root, key(text), got, w)
	}
}

func (n *lnode) leaves(lits *[]*lnode, ids map[string]bool) {
	if n == nil {
		return
	}
	if n.isLeaf() {
		if n.op == "Ident" {
			ids[key(n.val)] = true
		} else {
			*lits = append(*lits, n)
		}
	}
	n.l.leaves(lits, ids)
	n.r.leaves(lits, ids)
	for _, k := range n.list {
		k.leaves(lits, ids)
	}
}

// judgeBound45: texts and dates are only ever bound arguments, in order;
// numbers and booleans inside arithmetic may be digits.
func judgeBound45(in *Interp, root *lnode, text VStr, args []Val, gotErr bool, fail func(string, ...interface{})) {
	if gotErr {
		return
	}
	var lits []*lnode
	ids := map[string]bool{}
	root.leaves(&lits, ids)
	for _, p := range text.parts {
		if p.atom == nil || ids[p.atom.key] {
			continue
		}
		num := false
		for _, l := range lits {
			if l.op == "Number" && numberText(p.atom, l.val) {
				num = true
			}
		}
		if !num {
			fail("%s: %s becomes part of the SQL text", root, p.atom.key)
			return
		}
	}
	toks, err := sqlLex(text, args)
	if err != nil {
		fail("%s: %s: %v", root, key(text), err)
		return
	}
	// literals in order: each argument or number in the text is the next literal
	i := 0
	for _, t := range toks {
		var n *sqlNode
		switch t.kind {
		case "arg":
			n = &sqlNode{op: "arg", val: t.val}
		case "atom":
			if ids[t.atom.key] {
				continue
			}
			n = &sqlNode{op: "atom", atom: t.atom}
		case "num":
			n = &sqlNode{op: "num", val: cStr(t.s)}
		default:
			continue
		}
		if i < len(lits) && lLitMatches(in, lLit{lits[i]}, n) {
			i++
			continue
		}
		if t.kind == "num" {
			continue // (1=0) for an empty list
		}
		fail("%s: %s is not the next literal of the filter", root, n)
		return
	}
	if i != len(lits) {
		hasEmpty := strings.Contains(key(text), "(1=")
		if !hasEmpty {
			fail("%s: the literal %s is missing from %s", root, lits[i], key(text))
		}
	}
}

func (e *sql45) jobs(judge judge45) []func() {
	var jobs []func()
	add := func(rule string, gen lgen) {
		jobs = append(jobs, func() {
			e.c.explore(e.g.m, e.g.ver+":"+rule, gen.label, func(in *Interp, fail func(string, ...interface{})) {
				root := gen.mk(in, "x")
				o := in.tryCall(e.walk, []Val{e.g.value(in, root)})
				if o.crash != nil {
					fail("%s: may crash: %s in %s (%s)", root, o.crash.what, o.crash.fn, in.position(o.crash.pos))
					return
				}
				if _, ok := o.res[1].(VNil); !ok {
					judge(in, root, VStr{}, nil, true, fail)
					return
				}
				if _, ok := o.res[0].(VNil); ok {
					fail("%s: neither a condition nor an error", root)
					return
				}
				text, args, rerr := in.renderSql(o.res[0], token.NoPos)
				judge(in, root, text, args, rerr != nil, fail)
			})
		})
	}
	for _, c := range e.g.columns() {
		add("operand", c)
	}
	for _, k := range e.g.litKinds() {
		add("operand", e.g.leafGen(k))
	}
	for _, c := range e.g.conditions() {
		add("condition", c)
	}
	for _, c := range e.g.combos() {
		add("nesting", c)
	}
	add("unknown", lgen{"unknown operator", func(in *Interp, side string) *lnode {
		return lop("$unknown", e.g.leaf(in, "Ident", side), e.g.leaf(in, "Number", side+"r"))
	}})
	return jobs
}

func init() {
	register("C24", "abstract interpretation of the SSA of v5 and v4 sql.Walk over trees of every operator, operand kind and nesting; the rendered condition is read back with SQL precedence and compared with the tree", func(c *Check) error {
		var jobs []func()
		for _, ver := range []string{"v5", "v4"} {
			e, err := newSql45(c, ver)
			if err != nil {
				return err
			}
			jobs = append(jobs, e.jobs(judgeStructure45)...)
			c.need(ver+":condition", 300)
			c.need(ver+":nesting", 200)
		}
		c.assume = append(c.assume, "squirrel renders Expr, And, Or and its comparison maps as documented (modelled in checker/squirrel.go)")
		parallel(jobs)
		return nil
	})
	register("C14", "abstract interpretation of the SSA of sql.Walk (v6, v5, v4) with literal texts as opaque fragments: the rendered SQL text may contain no fragment that comes from a literal, and the bound arguments are the literals in order", func(c *Check) error {
		e6, err := newSql6(c)
		if err != nil {
			return err
		}
		jobs := e6.jobs(judgeBound)
		for _, op := range v6ops {
			c.need("nest:"+op, len(v6ops))
		}
		for _, ver := range []string{"v5", "v4"} {
			e, err := newSql45(c, ver)
			if err != nil {
				return err
			}
			jobs = append(jobs, e.jobs(judgeBound45)...)
			c.need(ver+":condition", 300)
			c.need(ver+":nesting", 200)
		}
		parallel(jobs)
		return nil
	})
}
