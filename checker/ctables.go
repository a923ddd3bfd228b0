package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
)

// --- the documented tokens ---------------------------------------------------

type tokSpec struct {
	name string
	re   string
}

var tslTokens = func() []tokSpec {
	var l []tokSpec
	for _, k := range []string{"like", "ilike", "and", "or", "between", "in", "is", "null", "not", "true", "false", "len", "any", "all", "sum"} {
		l = append(l, tokSpec{k, "(?i:" + k + ")"})
	}
	for _, k := range []string{"<=", "<", ">=", ">", "=", "~=", "~!"} {
		l = append(l, tokSpec{k, regexpQuote(k)})
	}
	l = append(l, tokSpec{"!=", "!=|<>"})
	num := `[+-]?[0-9]+(\.[0-9]*)?`
	l = append(l,
		tokSpec{"RFC3339", rfcRe},
		tokSpec{"DATE", dateRe},
		tokSpec{"NUMBER", num + `([Ee][+-]?[0-9]+|[kKmMgGtTpP][iI]?)?`},
		tokSpec{"STRING", `'([^'\\]|\\[^\n])*'|"([^"\\]|\\[^\n])*"|` + "`([^`\\\\]|\\\\[^\n])*`"},
		tokSpec{"IDENT", `[a-zA-Z_]([a-zA-Z0-9_./]|\[\*\]|\[[a-zA-Z0-9_./-]+\])*`})
	for _, k := range []string{"(", ")", ",", "+", "-", "*", "/", "%", "[", "]"} {
		l = append(l, tokSpec{k, regexpQuote(k)})
	}
	return append(l, tokSpec{"SPACE", `[ \t\r\n\f\v]+`}, tokSpec{"ILLEGAL", `[^\n]`})
}()

const dateRe = `[0-9]{4}-[0-9]{2}-[0-9]{2}`
const rfcRe = dateRe + `T[0-9]{2}:[0-9]{2}:[0-9]{2}(\.[0-9]+)?(Z|[+-][0-9]{2}:[0-9]{2})`

func regexpQuote(s string) string {
	var b strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

// byteDFA is a deterministic automaton over bytes. State -1 is the dead state.
type byteDFA struct {
	next   [][256]int
	accept []int // index into the specification, -1 if none
}

// buildDFA makes the automaton of a list of patterns; on ties the first wins.
func buildDFA(specs []tokSpec) (*byteDFA, error) {
	type st struct{ prog, pc int }
	var progs []*syntax.Prog
	for _, s := range specs {
		re, err := syntax.Parse(s.re, syntax.Perl)
		if err != nil {
			return nil, fmt.Errorf("pattern of %s: %v", s.name, err)
		}
		p, err := syntax.Compile(re.Simplify())
		if err != nil {
			return nil, err
		}
		progs = append(progs, p)
	}
	closure := func(l []st) (out []st, acc int) {
		seen := map[st]bool{}
		acc = -1
		var add func(s st)
		add = func(s st) {
			if seen[s] {
				return
			}
			seen[s] = true
			in := &progs[s.prog].Inst[s.pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(st{s.prog, int(in.Out)})
				add(st{s.prog, int(in.Arg)})
			case syntax.InstCapture, syntax.InstNop, syntax.InstEmptyWidth:
				add(st{s.prog, int(in.Out)})
			case syntax.InstMatch:
				if acc < 0 || s.prog < acc {
					acc = s.prog
				}
			case syntax.InstFail:
			default:
				out = append(out, s)
			}
		}
		for _, s := range l {
			add(s)
		}
		sort.Slice(out, func(i, j int) bool {
			return out[i].prog < out[j].prog || out[i].prog == out[j].prog && out[i].pc < out[j].pc
		})
		return
	}
	d := &byteDFA{}
	ids := map[string]int{}
	var work [][]st
	state := func(l []st) int {
		l, acc := closure(l)
		if len(l) == 0 && acc < 0 {
			return -1
		}
		k := fmt.Sprint(l, acc)
		if i, ok := ids[k]; ok {
			return i
		}
		i := len(d.next)
		ids[k] = i
		d.next = append(d.next, [256]int{})
		d.accept = append(d.accept, acc)
		work = append(work, l)
		return i
	}
	var init []st
	for i, p := range progs {
		init = append(init, st{i, p.Start})
	}
	state(init)
	for i := 0; i < len(work); i++ {
		for b := 0; b < 256; b++ {
			var l []st
			for _, s := range work[i] {
				in := &progs[s.prog].Inst[s.pc]
				if in.MatchRune(rune(b)) {
					l = append(l, st{s.prog, int(in.Out)})
				}
			}
			n := -1
			if len(l) > 0 {
				n = state(l)
			}
			d.next[i][b] = n
		}
	}
	return d, nil
}

// --- the tables of the generated scanner -------------------------------------

type flexTables struct {
	ec, accept, base, def, nxt, chk, meta []int64
	jam                                   int64
}

func (p *cProgram) rom(names ...string) (map[string][]int64, *cUnit) {
	for _, u := range p.units {
		out := map[string][]int64{}
		for _, n := range names {
			g := u.globals[n]
			if g == nil || g.init == nil || g.typ.k != 'a' {
				break
			}
			var l []int64
			switch {
			case g.init.str != "":
				for i := 0; i < len(g.init.str); i++ {
					l = append(l, int64(int8(g.init.str[i])))
				}
			case g.init.agg != nil:
				for _, e := range g.init.agg {
					l = append(l, e.val.n)
				}
			default:
				l = make([]int64, g.typ.n)
			}
			out[n] = l
		}
		if len(out) == len(names) {
			return out, u
		}
	}
	return nil, nil
}

func (p *cProgram) flex() (*flexTables, error) {
	t, _ := p.rom("yy_ec", "yy_accept", "yy_base", "yy_def", "yy_nxt", "yy_chk")
	if t == nil {
		return nil, fmt.Errorf("no scanner tables of the known form")
	}
	f := &flexTables{ec: t["yy_ec"], accept: t["yy_accept"], base: t["yy_base"], def: t["yy_def"], nxt: t["yy_nxt"], chk: t["yy_chk"]}
	if m, _ := p.rom("yy_meta"); m != nil {
		f.meta = m["yy_meta"]
	}
	// one-byte tables are unsigned
	for _, l := range [][]int64{f.ec, f.meta} {
		for i := range l {
			l[i] &= 0xff
		}
	}
	f.jam = int64(len(f.accept) - 1)
	return f, nil
}

// step is the scanner's transition; the jam state means no transition.
func (f *flexTables) step(s int64, b int) (n int64, err error) {
	defer func() {
		if recover() != nil {
			err = fmt.Errorf("scanner tables: a transition of state %d on byte %d leaves the tables", s, b)
		}
	}()
	c := f.ec[b]
	for i := 0; f.chk[f.base[s]+c] != s; i++ {
		if i > 10000 {
			return 0, fmt.Errorf("scanner tables: default chain of state %d does not end", s)
		}
		s = f.def[s]
		if s >= int64(len(f.accept)) {
			c = f.meta[c]
		}
	}
	return f.nxt[f.base[s]+c], nil
}

// --- the documented grammar -----------------------------------------------

// rnode is a node of the tree a sentence must give.
type rnode struct {
	kind string // name of the kind: BinaryExpr ...
	op   string // name of the operator
	tok  int    // token of a leaf
	kids []*rnode
}

type rprod struct {
	lhs   string
	rhs   []string
	build func(v []*rnode) *rnode
}

func rbin(op string, i, j int) func(v []*rnode) *rnode {
	return func(v []*rnode) *rnode { return &rnode{kind: "BinaryExpr", op: op, kids: []*rnode{v[i], v[j]}} }
}

func rneg(f func(v []*rnode) *rnode) func(v []*rnode) *rnode {
	return func(v []*rnode) *rnode { return &rnode{kind: "UnaryExpr", op: "Not", kids: []*rnode{f(v)}} }
}

func run1(op string) func(v []*rnode) *rnode {
	return func(v []*rnode) *rnode { return &rnode{kind: "UnaryExpr", op: op, kids: []*rnode{v[1]}} }
}

func rsame(i int) func(v []*rnode) *rnode { return func(v []*rnode) *rnode { return v[i] } }

var tslGrammar = func() []rprod {
	var g []rprod
	add := func(lhs, rhs string, b func(v []*rnode) *rnode) {
		g = append(g, rprod{lhs, strings.Fields(rhs), b})
	}
	add("input", "expr", rsame(0))
	add("expr", "or_", rsame(0))
	add("or_", "and_", rsame(0))
	add("or_", "or_ or and_", rbin("Or", 0, 2))
	add("and_", "cmp", rsame(0))
	add("and_", "and_ and cmp", rbin("And", 0, 2))
	add("cmp", "sum_", rsame(0))
	for _, o := range [][2]string{{"=", "EQ"}, {"!=", "NE"}, {"<", "LT"}, {"<=", "LE"}, {">", "GT"}, {">=", "GE"}, {"~=", "REQ"}, {"~!", "RNE"}, {"like", "Like"}, {"ilike", "ILike"}} {
		add("cmp", "cmp "+o[0]+" sum_", rbin(o[1], 0, 2))
	}
	add("cmp", "cmp not like sum_", rneg(rbin("Like", 0, 3)))
	add("cmp", "cmp not ilike sum_", rneg(rbin("ILike", 0, 3)))
	null := func(v []*rnode) *rnode {
		return &rnode{kind: "BinaryExpr", op: "Is", kids: []*rnode{v[0], {kind: "NullLiteral", tok: -1}}}
	}
	add("cmp", "cmp is null", null)
	add("cmp", "cmp is not null", rneg(null))
	between := func(i, j int) func(v []*rnode) *rnode {
		return func(v []*rnode) *rnode {
			return &rnode{kind: "BinaryExpr", op: "Between", kids: []*rnode{v[0], {kind: "ArrayLiteral", kids: []*rnode{v[i], v[j]}}}}
		}
	}
	add("cmp", "cmp between sum_ and sum_", between(2, 4))
	add("cmp", "cmp not between sum_ and sum_", rneg(between(3, 5)))
	add("cmp", "cmp in sum_", rbin("In", 0, 2))
	add("cmp", "cmp not in sum_", rneg(rbin("In", 0, 3)))
	add("sum_", "prod", rsame(0))
	add("sum_", "sum_ + prod", rbin("Plus", 0, 2))
	add("sum_", "sum_ - prod", rbin("Minus", 0, 2))
	add("prod", "pre", rsame(0))
	add("prod", "prod * pre", rbin("Star", 0, 2))
	add("prod", "prod / pre", rbin("Slash", 0, 2))
	add("prod", "prod % pre", rbin("Percent", 0, 2))
	add("pre", "unary", rsame(0))
	for _, o := range [][2]string{{"not", "Not"}, {"len", "Len"}, {"any", "Any"}, {"all", "All"}, {"sum", "Sum"}} {
		add("pre", o[0]+" pre", run1(o[1]))
	}
	add("unary", "primary", rsame(0))
	add("unary", "- unary", run1("UMinus"))
	add("unary", "+ unary", rsame(1))
	add("unary", "( expr )", rsame(1))
	add("unary", "array", rsame(0))
	add("array", "[ elems ]", rsame(1))
	add("elems", "", func(v []*rnode) *rnode { return &rnode{kind: "ArrayLiteral"} })
	add("elems", "list", rsame(0))
	add("elems", "list ,", rsame(0))
	add("list", "expr", func(v []*rnode) *rnode { return &rnode{kind: "ArrayLiteral", kids: []*rnode{v[0]}} })
	add("list", "list , expr", func(v []*rnode) *rnode {
		return &rnode{kind: "ArrayLiteral", kids: append(append([]*rnode(nil), v[0].kids...), v[2])}
	})
	for _, t := range [][2]string{{"NUMBER", "NumericLiteral"}, {"STRING", "StringLiteral"}, {"IDENT", "Identifier"}, {"RFC3339", "TimestampLiteral"}, {"DATE", "DateLiteral"}, {"true", "BooleanLiteral"}, {"false", "BooleanLiteral"}} {
		kind := t[1]
		add("primary", t[0], func(v []*rnode) *rnode { return &rnode{kind: kind, tok: v[0].tok} })
	}
	return g
}()

// lrTable is the LALR(1) automaton of a grammar.
type lrTable struct {
	prods   []rprod
	nonterm map[string]bool
	terms   []string
	states  []lrState
}

type lrState struct {
	kernel map[string]map[string]bool // "prod.dot" -> lookaheads
	shift  map[string]int             // terminal or nonterminal -> state
	reduce map[string]int             // lookahead -> production
	from   int
	sym    string
}

const lrEnd = "$end"

func buildLALR(prods []rprod) (*lrTable, error) {
	t := &lrTable{prods: append([]rprod{{lhs: "$accept", rhs: []string{prods[0].lhs, lrEnd}}}, prods...), nonterm: map[string]bool{}}
	for _, p := range t.prods {
		t.nonterm[p.lhs] = true
	}
	seen := map[string]bool{}
	for _, p := range t.prods {
		for _, s := range p.rhs {
			if !t.nonterm[s] && !seen[s] {
				seen[s] = true
				t.terms = append(t.terms, s)
			}
		}
	}
	// nullable and first sets
	nullable := map[string]bool{}
	first := map[string]map[string]bool{}
	for s := range t.nonterm {
		first[s] = map[string]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, p := range t.prods {
			all := true
			for _, s := range p.rhs {
				if !t.nonterm[s] {
					if !first[p.lhs][s] {
						first[p.lhs][s] = true
						ch = true
					}
					all = false
					break
				}
				for f := range first[s] {
					if !first[p.lhs][f] {
						first[p.lhs][f] = true
						ch = true
					}
				}
				if !nullable[s] {
					all = false
					break
				}
			}
			if all && !nullable[p.lhs] {
				nullable[p.lhs] = true
				ch = true
			}
		}
	}
	firstOf := func(rest []string, la map[string]bool) map[string]bool {
		out := map[string]bool{}
		for _, s := range rest {
			if !t.nonterm[s] {
				out[s] = true
				return out
			}
			for f := range first[s] {
				out[f] = true
			}
			if !nullable[s] {
				return out
			}
		}
		for f := range la {
			out[f] = true
		}
		return out
	}
	by := map[string][]int{}
	for i, p := range t.prods {
		by[p.lhs] = append(by[p.lhs], i)
	}
	type item struct{ p, dot int }
	ik := func(i item) string { return fmt.Sprintf("%d.%d", i.p, i.dot) }
	unk := func(s string) item {
		var i item
		fmt.Sscanf(s, "%d.%d", &i.p, &i.dot)
		return i
	}
	closure := func(kernel map[string]map[string]bool) map[item]map[string]bool {
		out := map[item]map[string]bool{}
		var work []item
		add := func(i item, la map[string]bool) {
			m := out[i]
			n := len(m)
			if m == nil {
				m = map[string]bool{}
				out[i] = m
				n = -1
			}
			for l := range la {
				m[l] = true
			}
			if len(m) != n {
				work = append(work, i)
			}
		}
		for k, la := range kernel {
			add(unk(k), la)
		}
		for len(work) > 0 {
			i := work[len(work)-1]
			work = work[:len(work)-1]
			rhs := t.prods[i.p].rhs
			if i.dot >= len(rhs) || !t.nonterm[rhs[i.dot]] {
				continue
			}
			la := firstOf(rhs[i.dot+1:], out[i])
			for _, p := range by[rhs[i.dot]] {
				add(item{p, 0}, la)
			}
		}
		return out
	}
	core := func(k map[string]map[string]bool) string {
		var l []string
		for s := range k {
			l = append(l, s)
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	ids := map[string]int{}
	t.states = []lrState{{kernel: map[string]map[string]bool{"0.0": {"$none": true}}, from: -1}}
	ids["0.0"] = 0
	work := []int{0}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		cl := closure(t.states[s].kernel)
		t.states[s].shift = map[string]int{}
		goTo := map[string]map[string]map[string]bool{}
		for i, la := range cl {
			rhs := t.prods[i.p].rhs
			if i.dot >= len(rhs) {
				continue
			}
			x := rhs[i.dot]
			if goTo[x] == nil {
				goTo[x] = map[string]map[string]bool{}
			}
			goTo[x][ik(item{i.p, i.dot + 1})] = la
		}
		var syms []string
		for x := range goTo {
			syms = append(syms, x)
		}
		sort.Strings(syms)
		for _, x := range syms {
			k := goTo[x]
			c := core(k)
			n, ok := ids[c]
			if !ok {
				n = len(t.states)
				ids[c] = n
				t.states = append(t.states, lrState{kernel: map[string]map[string]bool{}, from: s, sym: x})
			}
			ch := !ok
			for i, la := range k {
				if t.states[n].kernel[i] == nil {
					t.states[n].kernel[i] = map[string]bool{}
				}
				for l := range la {
					if !t.states[n].kernel[i][l] {
						t.states[n].kernel[i][l] = true
						ch = true
					}
				}
			}
			if ch {
				work = append(work, n)
			}
			t.states[s].shift[x] = n
		}
	}
	for s := range t.states {
		t.states[s].reduce = map[string]int{}
		for i, la := range closure(t.states[s].kernel) {
			if i.dot < len(t.prods[i.p].rhs) {
				continue
			}
			for l := range la {
				if q, ok := t.states[s].reduce[l]; ok && q != i.p {
					return nil, fmt.Errorf("the reference grammar is ambiguous: reduce/reduce on %s", l)
				}
				if _, ok := t.states[s].shift[l]; ok {
					return nil, fmt.Errorf("the reference grammar is ambiguous: shift/reduce on %s", l)
				}
				t.states[s].reduce[l] = i.p
			}
		}
	}
	return t, nil
}

// parse gives the tree of a token sequence, or the number of tokens accepted
// before the first offending one.
func (t *lrTable) parse(toks []string) (*rnode, int) {
	type ent struct {
		s int
		v *rnode
	}
	st := []ent{{0, nil}}
	for i := 0; ; {
		a := lrEnd
		if i < len(toks) {
			a, _ = sizedTok(toks[i])
		}
		s := t.states[st[len(st)-1].s]
		if a == lrEnd {
			if _, ok := s.shift[lrEnd]; ok {
				return st[len(st)-1].v, i
			}
		}
		if n, ok := s.shift[a]; ok {
			st = append(st, ent{n, &rnode{tok: i}})
			i++
			continue
		}
		p, ok := s.reduce[a]
		if !ok {
			return nil, i
		}
		pr := t.prods[p]
		v := make([]*rnode, len(pr.rhs))
		for k := range v {
			v[k] = st[len(st)-len(v)+k].v
		}
		st = st[:len(st)-len(v)]
		st = append(st, ent{t.states[st[len(st)-1].s].shift[pr.lhs], pr.build(v)})
	}
}

// --- the tables of the generated parser ----------------------------------

type bisonTables struct {
	pact, defact, pgoto, defgoto, table, check, r1, r2, translate []int64
	final, last, ntokens, ninf, tninf                             int64
}

func (p *cProgram) bison() (*bisonTables, error) {
	t, u := p.rom("yypact", "yydefact", "yypgoto", "yydefgoto", "yytable", "yycheck", "yyr1", "yyr2", "yytranslate")
	if t == nil {
		return nil, fmt.Errorf("no parser tables of the known form")
	}
	b := &bisonTables{pact: t["yypact"], defact: t["yydefact"], pgoto: t["yypgoto"], defgoto: t["yydefgoto"], table: t["yytable"], check: t["yycheck"], r1: t["yyr1"], r2: t["yyr2"], translate: t["yytranslate"]}
	m := p.macros[u.file]
	for n, d := range map[string]*int64{"YYFINAL": &b.final, "YYLAST": &b.last, "YYNTOKENS": &b.ntokens, "YYPACT_NINF": &b.ninf, "YYTABLE_NINF": &b.tninf} {
		v, err := strconv.ParseInt(strings.Trim(m[n], "()"), 10, 64)
		if err != nil {
			return nil, fmt.Errorf("parser constant %s not found", n)
		}
		*d = v
	}
	return b, nil
}

// action is what the parser does in a state on a terminal number:
// shift>0 the next state, reduce>0 the rule; both 0 is an error.
func (b *bisonTables) action(s int64, term int64) (shift, reduce int64, err error) {
	defer func() {
		if recover() != nil {
			err = fmt.Errorf("an entry of state %d lies outside the parser tables", s)
		}
	}()
	n := b.pact[s]
	if n == b.ninf {
		return 0, b.defact[s], nil
	}
	n += term
	if n < 0 || n > b.last || b.check[n] != term {
		return 0, b.defact[s], nil
	}
	n = b.table[n]
	if n <= 0 {
		if n == b.tninf {
			return 0, 0, nil
		}
		return 0, -n, nil
	}
	return n, 0, nil
}

// goTo is the state after reducing to nonterminal number nt above state s.
func (b *bisonTables) goTo(s, nt int64) (n int64, err error) {
	defer func() {
		if recover() != nil {
			err = fmt.Errorf("a goto of state %d lies outside the parser tables", s)
		}
	}()
	i := nt - b.ntokens
	k := b.pgoto[i] + s
	if k >= 0 && k <= b.last && b.check[k] == s {
		return b.table[k], nil
	}
	return b.defgoto[i], nil
}

// accepts runs the decoded tables on terminal numbers.
func (b *bisonTables) accepts(terms []int64) (bool, error) {
	st := []int64{0}
	for i := 0; ; {
		s := st[len(st)-1]
		if s == b.final {
			return true, nil
		}
		a := int64(0)
		if i < len(terms) {
			a = terms[i]
		}
		sh, re, err := b.action(s, a)
		if err != nil {
			return false, err
		}
		switch {
		case sh > 0:
			st = append(st, sh)
			i++
		case re > 0:
			n := int(b.r2[re])
			if n >= len(st) {
				return false, fmt.Errorf("rule %d takes more than the stack has", re)
			}
			st = st[:len(st)-n]
			g, err := b.goTo(st[len(st)-1], b.r1[re])
			if err != nil {
				return false, err
			}
			st = append(st, g)
		default:
			return false, nil
		}
		if len(st) > 10000 {
			return false, fmt.Errorf("the parser tables loop")
		}
	}
}
