package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20, C21: the listeners of the v5 and v4 parsers.

// psrc is a way to write something: its parse tree, the node it stands for,
// and whether it must be reported as an error.
type psrc struct {
	p    *pnode
	n    *lnode
	bad  string
	cut  bool // the parse tree is what error recovery leaves
	more func(in *Interp) string
}

type pgen struct {
	label string
	mk    func(in *Interp, side string) psrc
}

type parse45 struct {
	c     *Check
	g     *legacy
	parse *ssa.Function
	pkg   *ssa.Package
}

func atom(name string) VStr { return atomStr(mkTerm(tString, name)) }

func (e *parse45) idents() []pgen {
	mk := func(label, open, shut string) pgen {
		return pgen{"Ident" + label, func(in *Interp, side string) psrc {
			name := cStr("n").concat(atom("id:" + side))
			text := cStr(open).concat(name).concat(cStr(shut))
			p := ctxNode("mathExp", "ColumnIdentifier", ctxNode("columnName", "ColumnName", tokNode("IDENTIFIER", text)))
			return psrc{p: p, n: &lnode{op: "Ident", val: name}}
		}}
	}
	l := []pgen{mk("", "", "")}
	if e.pkg.Pkg.Scope().Lookup("TableNameContext") != nil && e.g.ver == "v4" {
		l = append(l, pgen{"Ident a.b.c", func(in *Interp, side string) psrc {
			id := func(i int) *pnode {
				return tokNode("IDENTIFIER", cStr("n").concat(atom(fmt.Sprintf("id%d:%s", i, side))))
			}
			c := ctxNode("columnName", "ColumnName", ctxNode("databaseName", "DatabaseName", id(0)), word("dot", "."), ctxNode("tableName", "TableName", id(1)), word("dot", "."), id(2))
			return psrc{p: ctxNode("mathExp", "ColumnIdentifier", c), n: &lnode{op: "Ident", val: c.fullText()}}
		}})
	}
	if e.g.ver == "v5" {
		l = append(l, mk("`", "`", "`"), mk("\"", "\"", "\""), mk("[]", "[", "]"))
	}
	return l
}

func litCtx(ctx string, kids ...*pnode) *pnode { return ctxNode("literalValue", ctx, kids...) }

func (e *parse45) numbers() []pgen {
	mk := func(label, sign string, suffix string, mult float64, bad bool) pgen {
		return pgen{"Number " + label, func(in *Interp, side string) psrc {
			digits := cStr("1").concat(atom("digits:" + side)).concat(cStr("7"))
			var kids []*pnode
			num := digits
			if sign != "" {
				kids = append(kids, word("sign", sign))
				num = cStr(sign).concat(digits)
			}
			kids = append(kids, tokNode("NUMERIC_LITERAL", digits.concat(cStr(suffix))))
			k := "err:parsefloat:" + key(num)
			s := psrc{p: litCtx("NumberLiteral", ctxNode("signedNumber", "SignedNumber", kids...))}
			if in.choose(k, 2) == 1 {
				s.bad = "a number that cannot be represented"
			}
			var v Val = mkTerm(tFloat, "parsefloat", num)
			if mult != 1 {
				v = in.arith(14, v, cFloat(mult), tFloat, 0)
			}
			s.n = &lnode{op: "Number", val: v}
			return s
		}}
	}
	konst := func(text string, v float64) pgen {
		return pgen{"Number " + text, func(in *Interp, side string) psrc {
			return psrc{p: litCtx("NumberLiteral", ctxNode("signedNumber", "SignedNumber", tokNode("NUMERIC_LITERAL", cStr(text)))), n: &lnode{op: "Number", val: cFloat(v)}}
		}}
	}
	l := []pgen{mk("digits", "", "", 1, false), mk("-digits", "-", "", 1, false), mk("+digits", "+", "", 1, false),
		konst("5", 5), konst("0", 0), konst("1.5e3", 1500), konst(".5", .5), konst("7.", 7), konst("12E-1", 1.2)}
	if e.g.ver == "v5" {
		m := 1.0
		for _, s := range []string{"K", "M", "G", "T", "P"} {
			m *= 1024
			l = append(l, mk(s, "", s, m, false), mk(s+"i", "", s+"i", m, false), mk("-"+s+"i", "-", s+"i", m, false), konst("3"+s, 3*m), konst("3"+s+"i", 3*m))
		}
	}
	return l
}

func (e *parse45) texts() []pgen {
	l := []pgen{{"String", func(in *Interp, side string) psrc {
		t := atom("str:" + side)
		v := in.replace(t, cStr("''"), cStr("'"), -1)
		return psrc{p: litCtx("StringLiteral", ctxNode("stringValue", "StringValue", tokNode("STRING_LITERAL", cStr("'").concat(t).concat(cStr("'"))))), n: &lnode{op: "String", val: v}}
	}}}
	return l
}

func konstText(src, val string) pgen {
	return pgen{fmt.Sprintf("String %q", src), func(in *Interp, side string) psrc {
		return psrc{p: litCtx("StringLiteral", ctxNode("stringValue", "StringValue", tokNode("STRING_LITERAL", cStr("'"+src+"'")))), n: &lnode{op: "String", val: cStr(val)}}
	}}
}

var oddStrings = [][2]string{{"", ""}, {"''", "'"}, {"''''", "''"}, {"a''b", "a'b"}, {"\\", "\\"}, {"\\n", "\\n"}, {"\"", "\""}, {" x ", " x "}, {"é", "é"}, {"a''''b''", "a''b'"}, {"5", "5"}, {"true", "true"}, {"Ki", "Ki"}, {"%_", "%_"}}

func (e *parse45) booleans() []pgen {
	var l []pgen
	if e.g.ver != "v5" {
		return nil
	}
	for _, t := range []string{"true", "false", "TRUE", "FALSE", "tRuE", "False"} {
		t := t
		l = append(l, pgen{t, func(in *Interp, side string) psrc {
			tok := "K_" + strings.ToUpper(t)
			return psrc{p: litCtx("BooleanLiteral", word(tok, t)), n: &lnode{op: "Boolean", val: cBool(strings.EqualFold(t, "true"))}}
		}})
	}
	return l
}

func (e *parse45) dates() []pgen {
	if e.g.ver != "v5" {
		return nil
	}
	mk := func(ctx, tok, layout, other string) pgen {
		return pgen{ctx, func(in *Interp, side string) psrc {
			t := atom("date:" + side)
			in.facts["parse:"+other+":"+key(t)] = 0
			s := psrc{p: litCtx(ctx, tokNode(tok, t)), n: &lnode{op: "Date", val: mkTerm(in.timeType(), "parsed", t)}}
			if !in.parses(layout, t) {
				s.bad = "a date that does not exist"
			}
			return s
		}}
	}
	return []pgen{mk("DateLiteral", "RFC3339", layoutFull, layoutShort), mk("ShortDateLiteral", "DATE", layoutShort, layoutFull)}
}

// wrap makes a literalOrMath of an operand.
func (e *parse45) wrap(s psrc) psrc {
	if e.pkg.Pkg.Scope().Lookup("LiteralOrMathContext") == nil {
		return s
	}
	s.p = ctxNode("literalOrMath", "LiteralOrMath", s.p)
	return s
}

func both(a, b psrc) string {
	if a.bad != "" {
		return a.bad
	}
	return b.bad
}

var mathWords = map[string][2]string{"Multiply": {"MulOps", "*"}, "Divide": {"DivOps", "/"}, "Modulo": {"ModOps", "%"}, "Add": {"AddOps", "+"}, "Subtract": {"SubOps", "-"}}

func (e *parse45) math(op string, l, r pgen) pgen {
	return pgen{"(" + l.label + " " + op + " " + r.label + ")", func(in *Interp, side string) psrc {
		a, b := l.mk(in, side+"l"), e.wrap(r.mk(in, side+"r"))
		w := mathWords[op]
		s := psrc{p: ctxNode("mathExp", w[0], a.p, word("op", w[1]), b.p), n: lop(op, a.n, b.n), bad: both(a, b)}
		if b.n.op == "String" && s.bad == "" {
			s.bad = "arithmetic on a text"
		}
		return s
	}}
}

func (e *parse45) par(l pgen) pgen {
	return pgen{"(" + l.label + ")", func(in *Interp, side string) psrc {
		a := l.mk(in, side)
		ctx := "Par"
		if a.p.rule == "mathExp" {
			ctx = "MathPar"
		}
		a.p = ctxNode(a.p.rule, ctx, word("open", "("), a.p, word("close", ")"))
		return a
	}}
}

func notKids(not bool) []*pnode {
	if !not {
		return nil
	}
	return []*pnode{ctxNode("keyNot", "KeyNot", word("K_NOT", "not"))}
}

var cmpWords = [][2]string{{"<", "Lt"}, {"<=", "Lte"}, {">", "Gt"}, {">=", "Gte"}, {"=", "Eq"}, {"!=", "NotEq"}, {"<>", "NotEq"}}

func (e *parse45) cmp(l pgen, opText, op string, r pgen) pgen {
	return pgen{l.label + " " + opText + " " + r.label, func(in *Interp, side string) psrc {
		a, b := l.mk(in, side+"L"), e.wrap(r.mk(in, side+"R"))
		return psrc{p: ctxNode("expr", "LiteralOps", a.p, ctxNode("literalOp", "LiteralOp", word("op", opText)), b.p), n: lop(op, a.n, b.n), bad: both(a, b)}
	}}
}

func (e *parse45) regex(l pgen, opText string, r pgen) pgen {
	return pgen{l.label + " " + opText + " " + r.label, func(in *Interp, side string) psrc {
		a, b := l.mk(in, side+"L"), e.wrap(r.mk(in, side+"R"))
		op := map[string]string{"~=": "Regex", "~!": "NotRegex"}[opText]
		s := psrc{p: ctxNode("expr", "StringOps", a.p, ctxNode("stringOp", "StringOp", word("op", opText)), b.p), n: lop(op, a.n, b.n), bad: both(a, b)}
		if s.bad == "" && b.n.op != "String" && (b.n.op != "Ident" || e.g.ver == "v4") {
			s.bad = "a regular expression that is not a text"
		}
		return s
	}}
}

func (e *parse45) like(l pgen, not bool, kw string, r pgen) pgen {
	return pgen{fmt.Sprintf("%s not=%v %s %s", l.label, not, kw, r.label), func(in *Interp, side string) psrc {
		a, b := l.mk(in, side+"L"), r.mk(in, side+"R")
		kids := append([]*pnode{a.p}, notKids(not)...)
		kids = append(kids, ctxNode("likeOp", "LikeOp", word("K_"+strings.ToUpper(kw), kw)), b.p)
		op := "Like"
		if strings.EqualFold(kw, "ilike") {
			op = "ILike"
		}
		n := lop(op, a.n, b.n)
		if not {
			n = lop("Not", n, nil)
		}
		s := psrc{p: ctxNode("expr", "Like", kids...), n: n, bad: both(a, b)}
		if s.bad == "" && b.n.op != "String" {
			s.bad = "a pattern that is not a text"
		}
		return s
	}}
}

func (e *parse45) isNull(l pgen, not bool) pgen {
	return pgen{fmt.Sprintf("%s is not=%v null", l.label, not), func(in *Interp, side string) psrc {
		a := l.mk(in, side+"L")
		kids := append([]*pnode{a.p, word("K_IS", "is")}, notKids(not)...)
		op := "IsNil"
		if not {
			op = "IsNotNil"
		}
		return psrc{p: ctxNode("expr", "IsNull", append(kids, word("K_NULL", "null"))...), n: lop(op, a.n, nil), bad: a.bad}
	}}
}

func (e *parse45) isLit(l pgen, not bool, r pgen) pgen {
	return pgen{fmt.Sprintf("%s is not=%v %s", l.label, not, r.label), func(in *Interp, side string) psrc {
		a, b := l.mk(in, side+"L"), r.mk(in, side+"R")
		kids := append([]*pnode{a.p, word("K_IS", "is")}, notKids(not)...)
		op := "Eq"
		if not {
			op = "NotEq"
		}
		return psrc{p: ctxNode("expr", "IsLiteral", append(kids, b.p)...), n: lop(op, a.n, b.n), bad: both(a, b)}
	}}
}

func (e *parse45) between(l pgen, not bool, lo, hi pgen) pgen {
	return pgen{fmt.Sprintf("%s not=%v between %s and %s", l.label, not, lo.label, hi.label), func(in *Interp, side string) psrc {
		a, b, c := l.mk(in, side+"L"), lo.mk(in, side+"R0"), hi.mk(in, side+"R1")
		kids := append([]*pnode{a.p}, notKids(not)...)
		kids = append(kids, word("K_BETWEEN", "between"), b.p, word("K_AND", "and"), c.p)
		op := "Between"
		if not {
			op = "NotBetween"
		}
		s := psrc{p: ctxNode("expr", "Between", kids...), n: lop(op, a.n, larr(b.n, c.n)), bad: both(a, b)}
		if s.bad == "" {
			s.bad = c.bad
		}
		return s
	}}
}

func (e *parse45) list(l pgen, not bool, es ...pgen) pgen {
	var lb []string
	for _, x := range es {
		lb = append(lb, x.label)
	}
	return pgen{fmt.Sprintf("%s not=%v in (%s)", l.label, not, strings.Join(lb, ", ")), func(in *Interp, side string) psrc {
		a := l.mk(in, side+"L")
		kids := append([]*pnode{a.p}, notKids(not)...)
		kids = append(kids, word("K_IN", "in"), word("open", "("))
		arr := larr()
		s := psrc{bad: a.bad}
		for i, x := range es {
			if i > 0 {
				kids = append(kids, word("comma", ","))
			}
			b := x.mk(in, fmt.Sprintf("%sR%d", side, i))
			if s.bad == "" {
				s.bad = b.bad
			}
			kids = append(kids, b.p)
			arr.list = append(arr.list, b.n)
		}
		op := "In"
		if not {
			op = "NotIn"
		}
		s.p, s.n = ctxNode("expr", "In", append(kids, word("close", ")"))...), lop(op, a.n, arr)
		return s
	}}
}

func (e *parse45) logic(op string, l, r pgen) pgen {
	return pgen{"(" + l.label + ") " + op + " (" + r.label + ")", func(in *Interp, side string) psrc {
		a, b := l.mk(in, side+"a"), r.mk(in, side+"b")
		return psrc{p: ctxNode("expr", op, a.p, word("K_"+strings.ToUpper(op), op), b.p), n: lop(op, a.n, b.n), bad: both(a, b)}
	}}
}

func (e *parse45) not(l pgen) pgen {
	return pgen{"not (" + l.label + ")", func(in *Interp, side string) psrc {
		a := l.mk(in, side+"n")
		return psrc{p: ctxNode("expr", "Not", word("K_NOT", "not"), a.p), n: lop("Not", a.n, nil), bad: a.bad}
	}}
}

// sources enumerates everything the grammar can write, by rule.
func (e *parse45) sources() map[string][]pgen {
	out := map[string][]pgen{}
	id, num, str := e.idents()[0], e.numbers()[0], e.texts()[0]
	simple := e.cmp(id, "=", "Eq", num)
	lits := append(append(append([]pgen{num}, str), e.dates()...), e.booleans()...)
	if len(lits) > 5 {
		lits = lits[:5]
	}
	var maths []pgen
	for _, op := range legacyMath {
		maths = append(maths, e.math(op, id, num), e.math(op, id, id))
		for _, l := range lits[1:] {
			maths = append(maths, e.math(op, id, l))
		}
		maths = append(maths, e.math(op, e.par(e.math("Subtract", id, num)), e.math("Add", id, num)), e.math(op, e.math("Divide", id, num), id))
	}
	add := func(rule string, g ...pgen) { out[rule] = append(out[rule], g...) }
	for _, l := range append(append(append(append(append([]pgen{}, e.idents()...), e.numbers()...), e.texts()...), e.dates()...), e.booleans()...) {
		add("literal", e.cmp(id, "=", "Eq", l))
	}
	for _, x := range oddStrings {
		add("literal", e.cmp(id, "=", "Eq", konstText(x[0], x[1])))
	}
	for _, i := range e.idents() {
		add("literal", e.cmp(i, "=", "Eq", num), e.isNull(i, false))
	}
	lefts := append([]pgen{id, e.par(id)}, maths...)
	rights := append(append([]pgen{}, lits...), lefts...)
	for i, l := range lefts {
		for _, w := range cmpWords {
			for j, r := range rights {
				if i > 1 && j > 6 && !e.c.thorough() {
					continue
				}
				add("comparison", e.cmp(l, w[0], w[1], r))
			}
		}
		for _, w := range []string{"~=", "~!"} {
			for j, r := range rights {
				if i > 1 && j > 6 {
					continue
				}
				add("regex", e.regex(l, w, r))
			}
		}
		for _, not := range []bool{false, true} {
			for _, kw := range []string{"like", "ilike", "LIKE", "iLike"} {
				for _, r := range lits {
					add("like", e.like(l, not, kw, r))
				}
			}
			add("null", e.isNull(l, not))
			for _, r := range lits {
				add("is", e.isLit(l, not, r))
				add("list", e.list(l, not, r))
				for _, r2 := range lits {
					add("range", e.between(l, not, r, r2))
					add("list", e.list(l, not, r, r2))
				}
			}
			add("list", e.list(l, not), e.list(l, not, num, num, num), e.list(l, not, str, str, str, str, num))
		}
	}
	conds := []pgen{simple, e.cmp(id, "<>", "NotEq", e.math("Add", id, num)), e.regex(id, "~!", str), e.like(id, true, "ilike", str), e.isNull(id, true), e.isLit(id, false, str), e.between(id, true, num, num), e.list(id, false, str, str), e.list(id, true), e.regex(id, "~=", num)}
	var d1 []pgen
	for _, c := range conds {
		d1 = append(d1, e.not(c), e.par(c))
		for _, op := range []string{"And", "Or"} {
			d1 = append(d1, e.logic(op, c, simple), e.logic(op, simple, c))
		}
	}
	add("nesting", d1...)
	for _, c := range d1 {
		add("nesting", e.not(c), e.par(c))
		for _, op := range []string{"And", "Or"} {
			add("nesting", e.logic(op, c, simple), e.logic(op, conds[7], c))
		}
	}
	// long lists and chains
	for _, n := range []int{15, 60} {
		n := n
		relabel := func(l string, g pgen) { add("long", pgen{fmt.Sprintf("%d %s", n, l), g.mk}) }
		for _, not := range []bool{false, true} {
			var l []pgen
			for i := 0; i < n; i++ {
				l = append(l, str)
			}
			relabel(fmt.Sprintf("texts, not %v", not), e.list(id, not, l...))
		}
		cond := e.isNull(id, false)
		ops := []func(g pgen) pgen{e.not, e.par,
			func(g pgen) pgen { return e.logic("And", g, cond) }, func(g pgen) pgen { return e.logic("And", cond, g) },
			func(g pgen) pgen { return e.logic("Or", g, cond) }, func(g pgen) pgen { return e.logic("Or", cond, g) },
			func(g pgen) pgen { return e.not(e.par(e.logic("Or", e.not(g), cond))) }}
		for i, step := range ops {
			g := cond
			for j := 0; j < n; j++ {
				g = pgen{"chain", step(g).mk}
			}
			relabel(fmt.Sprintf("levels of chain %d", i), g)
		}
		for _, op := range legacyMath {
			a, b := id, id
			for j := 0; j < n; j++ {
				a, b = pgen{"chain", e.math(op, a, id).mk}, pgen{"chain", e.math(op, id, e.par(b)).mk}
			}
			relabel("levels of "+op+" on the left", e.cmp(a, "=", "Eq", str))
			relabel("levels of "+op+" on the right", e.cmp(b, "=", "Eq", str))
		}
	}
	return out
}

// recovered enumerates what error recovery leaves of a construct: everything
// after the words that select the construct may be missing.
func (e *parse45) recovered() []pgen {
	id, num, str := e.idents()[0], e.numbers()[0], e.texts()[0]
	var out []pgen
	cut := func(g pgen, keep int) {
		out = append(out, pgen{fmt.Sprintf("%s, cut after %d", g.label, keep), func(in *Interp, side string) psrc {
			s := g.mk(in, side)
			if keep < len(s.p.kids) {
				s.p.kids = s.p.kids[:keep]
			}
			s.cut = true
			return s
		}})
	}
	sel := func(g pgen, from int, max int) {
		for k := from; k <= max; k++ {
			cut(g, k)
		}
	}
	sel(e.cmp(id, "=", "Eq", num), 2, 3)
	sel(e.cmp(e.math("Add", id, num), "<", "Lt", num), 2, 3)
	sel(e.regex(id, "~=", str), 2, 3)
	sel(e.like(id, false, "like", str), 2, 3)
	sel(e.like(id, true, "ilike", str), 3, 4)
	sel(e.isNull(id, false), 2, 3)
	sel(e.isNull(id, true), 3, 4)
	sel(e.isLit(id, false, num), 2, 3)
	sel(e.isLit(id, true, num), 3, 4)
	sel(e.between(id, false, num, num), 2, 5)
	sel(e.between(id, true, num, num), 3, 6)
	for _, l := range [][]pgen{nil, {num}, {num, str}} {
		sel(e.list(id, false, l...), 2, 4+2*len(l))
		sel(e.list(id, true, l...), 3, 5+2*len(l))
	}
	simple := e.cmp(id, "=", "Eq", num)
	sel(e.not(simple), 1, 2)
	sel(e.logic("And", simple, simple), 2, 3)
	sel(e.logic("Or", simple, simple), 2, 3)
	sel(e.par(simple), 1, 3)
	for _, op := range legacyMath {
		m := e.math(op, id, num)
		out = append(out, pgen{"(Ident " + op + " <missing>) = Number", func(in *Interp, side string) psrc {
			s := e.cmp(m, "=", "Eq", num).mk(in, side)
			l := s.p.kids[0]
			l.kids = l.kids[:2]
			s.cut = true
			return s
		}})
	}
	// a token made up by error recovery
	for _, sign := range []string{"-", "+"} {
		sign := sign
		for _, t := range []string{"", "<missing NUMERIC_LITERAL>"} {
			t := t
			out = append(out, pgen{"Ident = " + sign + t, func(in *Interp, side string) psrc {
				s := simple.mk(in, side)
				kids := []*pnode{word("sign", sign)}
				if t != "" {
					kids = append(kids, word("NUMERIC_LITERAL", t))
				}
				rhs := litCtx("NumberLiteral", ctxNode("signedNumber", "SignedNumber", kids...))
				s.p.kids[2] = e.wrap(psrc{p: rhs}).p
				s.cut = true
				return s
			}})
		}
	}
	// nothing, an operand alone, or a generic context
	for _, k := range []int{0, 1} {
		k := k
		out = append(out, pgen{fmt.Sprintf("no condition %d", k), func(in *Interp, side string) psrc {
			s := id.mk(in, side)
			p := ctxNode("expr", "Expr")
			if k == 1 {
				p.kids = []*pnode{s.p}
			}
			return psrc{p: p, n: s.n, cut: true}
		}})
	}
	return out
}

func newParse45(c *Check, ver string) (*parse45, error) {
	g, err := loadLegacy(c, ver)
	if err != nil {
		return nil, err
	}
	p, pp := g.m.byDir["pkg/tsl"], g.m.byDir["pkg/parser"]
	if p.Func("ParseTSL") == nil || pp == nil {
		return nil, fmt.Errorf("%s tsl.ParseTSL not found", ver)
	}
	c.scope = append(c.scope, ver+"/pkg/tsl (ParseTSL, Listener, ErrorListener)", ver+"/pkg/parser (listener dispatch)")
	return &parse45{c, g, p.Func("ParseTSL"), pp}, nil
}

// run analyses ParseTSL on the parse tree of a source.
func (e *parse45) run(rule string, g pgen, lexErr, parseErr bool, judge func(in *Interp, s psrc, o outcome, fail func(string, ...interface{}))) func() {
	return func() {
		e.c.explore(e.g.m, e.g.ver+":"+rule, g.label, func(in *Interp, fail func(string, ...interface{})) {
			s := g.mk(in, "x")
			root := ctxNode("start", "Start", s.p)
			if !s.cut {
				root.kids = append(root.kids, word("EOF", "<EOF>"))
			}
			a := &antlr{g: e.g, in: in, pkg: e.pkg, tree: root, lexErr: lexErr, parseErr: parseErr}
			in.hook = a.hook
			input := atom("input")
			o := in.tryCall(e.parse, []Val{input})
			if o.crash != nil {
				fail("may crash: %s in %s (%s)", o.crash.what, o.crash.fn, in.position(o.crash.pos))
				return
			}
			if !a.started {
				in.undecided(0, "the parser is not started")
			}
			if a.input == nil || key(a.input) != key(input) {
				fail("the text parsed is %s, not the input", key(a.input))
				return
			}
			judge(in, s, o, fail)
		})
	}
}

func isNilErr(v Val) bool { _, ok := v.(VNil); return ok }

func shapeJudge(e *parse45) func(in *Interp, s psrc, o outcome, fail func(string, ...interface{})) {
	return func(in *Interp, s psrc, o outcome, fail func(string, ...interface{})) {
		if s.bad != "" {
			return
		}
		if !isNilErr(o.res[1]) {
			fail("gives an error, expected %s", s.n)
			return
		}
		got, err := e.g.from(in, o.res[0])
		if err != nil {
			fail("the tree is not well-formed: %v", err)
			return
		}
		if w := sameShape(s.n, got); w != "" {
			fail("the tree differs: %s", w)
		}
	}
}

// sameShape compares trees; the order of the elements of a list test is open.
func sameShape(want, got *lnode) string {
	if want != nil && got != nil && (want.op == "In" || want.op == "NotIn") && want.op == got.op && want.r != nil && got.r != nil && got.r.op == "Array" && len(got.r.list) == len(want.r.list) {
		rev := &lnode{op: "Array"}
		for i := len(got.r.list) - 1; i >= 0; i-- {
			rev.list = append(rev.list, got.r.list[i])
		}
		if sameShape(want.r, rev) == "" {
			return sameShape(want.l, got.l)
		}
		if w := sameShape(want.r, got.r); w != "" {
			return w
		}
		return sameShape(want.l, got.l)
	}
	switch {
	case want == nil && got == nil:
		return ""
	case want == nil || got == nil:
		return fmt.Sprintf("%s in place of %s", got, want)
	case want.isLeaf() && got.isLeaf():
		if want.op != got.op || key(want.val) != key(got.val) {
			return fmt.Sprintf("%s in place of %s", got, want)
		}
		return ""
	case want.op != got.op || want.isLeaf() != got.isLeaf() || len(want.list) != len(got.list):
		return fmt.Sprintf("%s in place of %s", got, want)
	}
	if r := sameShape(want.l, got.l); r != "" {
		return r
	}
	if r := sameShape(want.r, got.r); r != "" {
		return r
	}
	for i := range want.list {
		if r := sameShape(want.list[i], got.list[i]); r != "" {
			return r
		}
	}
	return ""
}

func mustFail(why string) func(in *Interp, s psrc, o outcome, fail func(string, ...interface{})) {
	return func(in *Interp, s psrc, o outcome, fail func(string, ...interface{})) {
		w := why
		if w == "" {
			w = s.bad
		}
		if w != "" && isNilErr(o.res[1]) {
			fail("no error though there is %s", w)
		}
	}
}

const parse45Tech = "abstract interpretation of the SSA of ParseTSL and the tree listener (v5, v4) on the parse trees of every grammar production, the ANTLR runtime summarised, literal texts and parse outcomes partitioned"

func init() {
	common := func(c *Check, f func(e *parse45) []func()) error {
		c.assume = append(c.assume,
			"the ANTLR runtime and the generated parser build the parse tree of TSL.g4, report every lexer and parser error to the registered listeners and call the listener in document order",
			"after a reported error the recovered tree holds the words that select a production and any prefix of the rest")
		var jobs []func()
		for _, ver := range []string{"v5", "v4"} {
			e, err := newParse45(c, ver)
			if err != nil {
				return err
			}
			jobs = append(jobs, f(e)...)
		}
		parallel(jobs)
		return nil
	}
	register("C20", parse45Tech, func(c *Check) error {
		err := common(c, func(e *parse45) []func() {
			var jobs []func()
			for rule, gs := range e.sources() {
				for _, g := range gs {
					jobs = append(jobs, e.run(rule, g, false, false, shapeJudge(e)))
				}
			}
			return jobs
		})
		for _, v := range []string{"v5:", "v4:"} {
			for _, r := range []string{"comparison", "nesting", "list", "range", "like"} {
				c.need(v+r, 100)
			}
		}
		return err
	})
	register("C21", parse45Tech, func(c *Check) error {
		err := common(c, func(e *parse45) []func() {
			var jobs []func()
			for rule, gs := range e.sources() {
				for i, g := range gs {
					jobs = append(jobs, e.run(rule, g, false, false, mustFail("")))
					if rule == "literal" || rule == "nesting" || i%7 == 0 {
						jobs = append(jobs, e.run(rule+" after an illegal character", g, true, false, mustFail("an illegal character")),
							e.run(rule+" after a syntax error", g, false, true, mustFail("a syntax error")))
					}
				}
			}
			for _, g := range e.recovered() {
				jobs = append(jobs, e.run("recovered", g, false, true, mustFail("a syntax error")), e.run("recovered, illegal character", g, true, true, mustFail("a syntax error")))
				for _, w := range []pgen{e.not(g), e.par(g), e.logic("And", g, g), e.logic("Or", e.cmp(e.idents()[0], "=", "Eq", e.numbers()[0]), g)} {
					w := w
					jobs = append(jobs, e.run("recovered", pgen{w.label, func(in *Interp, side string) psrc { s := w.mk(in, side); s.cut = true; return s }}, false, true, mustFail("a syntax error")))
				}
			}
			return jobs
		})
		for _, v := range []string{"v5:", "v4:"} {
			c.need(v+"recovered", 100)
			c.need(v+"comparison", 100)
		}
		return err
	})
}

var _ = types.Universe
