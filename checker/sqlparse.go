package main

import (
	"fmt"
	"strings"
	"unicode"
)

// sqlNode is a parsed piece of a rendered SQL condition.
type sqlNode struct {
	op   string // "ident", "arg", "text", "num", or an operator
	val  Val
	kids []*sqlNode
	atom *VTerm
}

type sqlTok struct {
	kind string // word, punct, atom, arg, num, end
	s    string
	atom *VTerm
	val  Val
}

type sqlErr struct{ msg string }

// sqlLex splits rendered text into tokens; placeholders take their arguments.
func sqlLex(text VStr, args []Val) (toks []sqlTok, err error) {
	ai := 0
	for pi, p := range text.parts {
		if p.atom != nil {
			if pi > 0 && p.atom.op == "fmtnum" && strings.HasSuffix(text.parts[pi-1].s, "-") {
				return nil, fmt.Errorf("a number right after a minus: a negative one starts a comment")
			}
			toks = append(toks, sqlTok{kind: "atom", atom: p.atom})
			continue
		}
		s := p.s
		for i := 0; i < len(s); {
			c := rune(s[i])
			switch {
			case unicode.IsSpace(c):
				i++
				continue
			case c == '?':
				if i+1 < len(s) && s[i+1] == '?' {
					return nil, fmt.Errorf("an escaped placeholder ??")
				}
				if ai >= len(args) {
					return nil, fmt.Errorf("more placeholders than arguments")
				}
				toks = append(toks, sqlTok{kind: "arg", val: args[ai]})
				ai++
				i++
				continue
			case strings.HasPrefix(s[i:], "--"), strings.HasPrefix(s[i:], "/*"), c == '\'', c == '"', c == ';', c == '`', c == '#':
				return nil, fmt.Errorf("%q in the SQL text", s[i:])
			case unicode.IsLetter(c) || c == '_':
				j := i
				for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_') {
					j++
				}
				toks = append(toks, sqlTok{kind: "word", s: strings.ToUpper(s[i:j])})
				i = j
				continue
			case unicode.IsDigit(c):
				j := i
				for j < len(s) && (unicode.IsDigit(rune(s[j])) || s[j] == '.') {
					j++
				}
				toks = append(toks, sqlTok{kind: "num", s: s[i:j]})
				i = j
				continue
			}
			done := false
			for _, o := range []string{"<=", ">=", "<>", "!=", "!~", "~*"} {
				if strings.HasPrefix(s[i:], o) {
					toks = append(toks, sqlTok{kind: "punct", s: o})
					i += 2
					done = true
					break
				}
			}
			if done {
				continue
			}
			if strings.ContainsRune("()+-*/%=<>,~", c) {
				toks = append(toks, sqlTok{kind: "punct", s: string(c)})
				i++
				continue
			}
			return nil, fmt.Errorf("unexpected %q in the SQL text", s[i:])
		}
	}
	if ai != len(args) {
		return nil, fmt.Errorf("%d arguments for %d placeholders", len(args), ai)
	}
	return append(toks, sqlTok{kind: "end"}), nil
}

type sqlParser struct {
	t []sqlTok
	i int
}

// parseSql reads a rendered condition with SQL's precedence: OR, AND, NOT,
// comparisons (which do not chain), additive, multiplicative, sign.
func parseSql(text VStr, args []Val) (n *sqlNode, err error) {
	t, err := sqlLex(text, args)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(sqlErr); ok {
				n, err = nil, fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	p := &sqlParser{t: t}
	n = p.or()
	if p.t[p.i].kind != "end" {
		p.bad("text after the end of the condition")
	}
	return n, nil
}

func (p *sqlParser) bad(f string, a ...interface{}) { panic(sqlErr{fmt.Sprintf(f, a...)}) }
func (p *sqlParser) word(s string) bool {
	if p.t[p.i].kind == "word" && p.t[p.i].s == s {
		p.i++
		return true
	}
	return false
}
func (p *sqlParser) punct(s string) bool {
	if p.t[p.i].kind == "punct" && p.t[p.i].s == s {
		p.i++
		return true
	}
	return false
}
func (p *sqlParser) expect(s string) {
	if !p.punct(s) {
		p.bad("expected %q", s)
	}
}

func (p *sqlParser) or() *sqlNode {
	n := p.and()
	if !p.word("OR") {
		return n
	}
	r := &sqlNode{op: "Or", kids: []*sqlNode{n, p.and()}}
	for p.word("OR") {
		r.kids = append(r.kids, p.and())
	}
	return r
}

func (p *sqlParser) and() *sqlNode {
	n := p.not()
	if !p.word("AND") {
		return n
	}
	r := &sqlNode{op: "And", kids: []*sqlNode{n, p.not()}}
	for p.word("AND") {
		r.kids = append(r.kids, p.not())
	}
	return r
}

func (p *sqlParser) not() *sqlNode {
	if p.word("NOT") {
		return &sqlNode{op: "Not", kids: []*sqlNode{p.not()}}
	}
	return p.cmp()
}

func (p *sqlParser) cmp() *sqlNode {
	l := p.add()
	n := p.cmpTail(l)
	if n == nil {
		return l
	}
	save := p.i
	if p.cmpTail(n) != nil {
		p.bad("a comparison is used ungrouped as an operand of another")
	}
	p.i = save
	return n
}

var sqlCmp = map[string]string{"=": "EQ", "!=": "NE", "<>": "NE", "<": "LT", "<=": "LE", ">": "GT", ">=": "GE"}

func (p *sqlParser) cmpTail(l *sqlNode) *sqlNode {
	t := p.t[p.i]
	if t.kind == "punct" {
		if op, ok := sqlCmp[t.s]; ok {
			p.i++
			return &sqlNode{op: op, kids: []*sqlNode{l, p.add()}}
		}
		return nil
	}
	if t.kind != "word" {
		return nil
	}
	save := p.i
	neg := p.word("NOT")
	var n *sqlNode
	switch {
	case p.word("LIKE"):
		n = &sqlNode{op: "Like", kids: []*sqlNode{l, p.add()}}
	case p.word("ILIKE"):
		n = &sqlNode{op: "ILike", kids: []*sqlNode{l, p.add()}}
	case p.word("REGEXP"), p.word("RLIKE"):
		n = &sqlNode{op: "REQ", kids: []*sqlNode{l, p.add()}}
	case p.word("IN"):
		n = &sqlNode{op: "In", kids: []*sqlNode{l}}
		p.expect("(")
		if p.punct(")") {
			p.bad("an empty list")
		}
		for {
			n.kids = append(n.kids, p.or())
			if p.punct(")") {
				break
			}
			p.expect(",")
		}
	case p.word("BETWEEN"):
		lo := p.add()
		if !p.word("AND") {
			p.bad("BETWEEN without AND")
		}
		n = &sqlNode{op: "Between", kids: []*sqlNode{l, lo, p.add()}}
	case !neg && p.word("IS"):
		not := p.word("NOT")
		if !p.word("NULL") {
			// IS [NOT] TRUE or value: kept as is
			n = &sqlNode{op: "IsVal", kids: []*sqlNode{l, p.add()}}
		} else {
			n = &sqlNode{op: "IsNull", kids: []*sqlNode{l}}
		}
		if not {
			n = &sqlNode{op: "Not", kids: []*sqlNode{n}}
		}
		return n
	default:
		p.i = save
		return nil
	}
	if neg {
		n = &sqlNode{op: "Not", kids: []*sqlNode{n}}
	}
	return n
}

func (p *sqlParser) add() *sqlNode {
	n := p.mul()
	for {
		switch {
		case p.punct("+"):
			n = &sqlNode{op: "Plus", kids: []*sqlNode{n, p.mul()}}
		case p.punct("-"):
			n = &sqlNode{op: "Minus", kids: []*sqlNode{n, p.mul()}}
		default:
			return n
		}
	}
}

func (p *sqlParser) mul() *sqlNode {
	n := p.unary()
	for {
		switch {
		case p.punct("*"):
			n = &sqlNode{op: "Star", kids: []*sqlNode{n, p.unary()}}
		case p.punct("/"):
			n = &sqlNode{op: "Slash", kids: []*sqlNode{n, p.unary()}}
		case p.punct("%"):
			n = &sqlNode{op: "Percent", kids: []*sqlNode{n, p.unary()}}
		default:
			return n
		}
	}
}

func (p *sqlParser) unary() *sqlNode {
	if p.punct("-") {
		if t := p.t[p.i]; t.kind == "punct" && t.s == "-" {
			p.bad("two signs in a row start a comment")
		}
		return &sqlNode{op: "UMinus", kids: []*sqlNode{p.unary()}}
	}
	if p.punct("+") {
		return p.unary()
	}
	return p.primary()
}

func (p *sqlParser) primary() *sqlNode {
	t := p.t[p.i]
	p.i++
	switch t.kind {
	case "atom":
		return &sqlNode{op: "atom", atom: t.atom}
	case "arg":
		return &sqlNode{op: "arg", val: t.val}
	case "num":
		return &sqlNode{op: "num", val: cStr(t.s)}
	case "word":
		p.bad("unexpected word %s", t.s)
	case "punct":
		if t.s == "(" {
			n := p.or()
			p.expect(")")
			return n
		}
		p.bad("unexpected %q", t.s)
	case "end":
		p.bad("an operand is missing")
	}
	return nil
}

// flat merges nested conjunctions and disjunctions, whose grouping has no
// meaning.
func (n *sqlNode) flat() *sqlNode {
	if n == nil {
		return nil
	}
	m := &sqlNode{op: n.op, val: n.val, atom: n.atom}
	for _, k := range n.kids {
		k = k.flat()
		if (n.op == "And" || n.op == "Or") && k.op == n.op {
			m.kids = append(m.kids, k.kids...)
			continue
		}
		m.kids = append(m.kids, k)
	}
	return m
}

func (n *sqlNode) String() string {
	if n == nil {
		return "<none>"
	}
	switch n.op {
	case "atom":
		return n.atom.key
	case "arg":
		return "?" + show(n.val)
	case "num":
		return key(n.val)
	}
	var e []string
	for _, k := range n.kids {
		e = append(e, k.String())
	}
	return n.op + "(" + strings.Join(e, ", ") + ")"
}
