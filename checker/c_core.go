package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The parser of v6: its Go side and the C sources behind it are analysed
// together, over texts whose bytes are abstract.

type core struct {
	c    *Check
	m    *module
	p    *cProgram
	k    *v6consts
	lr   *lrTable
	fns  map[string]*ssa.Function
	base [][]int64 // sizes of the blocks the scanner keeps after one, two, three parses

	once  sync.Once
	comp  map[string][]string
	compM sync.Mutex
}

func newCore(c *Check) (*core, error) {
	k := &core{c: c, fns: map[string]*ssa.Function{}, comp: map[string][]string{}}
	var err error
	if k.m, err = loadModule("v6", "./pkg/tsl"); err != nil {
		return nil, err
	}
	if k.k, err = v6Consts(k.m); err != nil {
		return nil, err
	}
	if k.p, err = loadC(repoRoot + "/v6/pkg/tsl"); err != nil {
		return nil, err
	}
	if k.lr, err = buildLALR(tslGrammar); err != nil {
		return nil, err
	}
	pkg := k.m.byDir["pkg/tsl"]
	if pkg == nil {
		return nil, fmt.Errorf("package tsl not found")
	}
	if k.fns["ParseTSL"] = pkg.Func("ParseTSL"); k.fns["ParseTSL"] == nil {
		return nil, fmt.Errorf("tsl.ParseTSL not found")
	}
	t := pkg.Type("TSLNode")
	if t == nil {
		return nil, fmt.Errorf("tsl.TSLNode not found")
	}
	ms := k.m.prog.MethodSets.MethodSet(types.NewPointer(t.Type()))
	for _, n := range []string{"Type", "Value", "Free", "Clone", "DetachLeft", "DetachRight", "DetachChild", "AttachLeft", "AttachRight", "AttachChild", "AttachElement"} {
		sel := ms.Lookup(pkg.Pkg, n)
		if sel == nil {
			return nil, fmt.Errorf("method %s of TSLNode not found", n)
		}
		k.fns[n] = k.m.prog.MethodValue(sel)
	}
	return k, nil
}

// crun is the analysis of one partition.
type crun struct {
	*core
	in   *Interp
	ci   *CI
	fail func(format string, a ...interface{})
	n    int
}

func (k *core) explore(rule, construct string, body func(r *crun)) {
	k.c.explore(k.m, rule, construct, func(in *Interp, fail func(format string, a ...interface{})) {
		in.ci = newCI(k.p, in.chooser)
		body(&crun{core: k, in: in, ci: in.ci, fail: fail})
	})
}

// --- texts --------------------------------------------------------------------

func lit(s string) []CV {
	var l []CV
	for i := 0; i < len(s); i++ {
		l = append(l, cvI(8, int64(int8(s[i]))))
	}
	return l
}

func (r *crun) oneOf(name, set string) CV {
	return symByte(r.ci.sym(name, func(b int) bool { return strings.IndexByte(set, byte(b)) >= 0 }))
}

// letters that begin or continue no keyword, suffix or exponent
const plainLetters = "chjqvxCHJQVX"

// sizedTok splits "STRING#9", a text of nine bytes; other tokens have no size.
func sizedTok(tok string) (base string, n int) {
	if i := strings.IndexByte(tok, '#'); i > 0 {
		if n, err := strconv.Atoi(tok[i+1:]); err == nil {
			return tok[:i], n
		}
	}
	return tok, -1
}

// lexeme is a spelling of a token with every byte that may vary left open.
func (r *crun) lexeme(tok string) []CV {
	r.n++
	nm := func(i int) string { return fmt.Sprintf("t%d.%d", r.n, i) }
	digits := func(pat string) []CV {
		var l []CV
		for i := 0; i < len(pat); i++ {
			if pat[i] == '0' {
				l = append(l, r.oneOf(nm(i), "0123456789"))
			} else {
				l = append(l, cvI(8, int64(pat[i])))
			}
		}
		return l
	}
	if base, n := sizedTok(tok); n >= 0 {
		var l []CV
		for i := 0; i < n; i++ {
			l = append(l, r.oneOf(nm(i), plainLetters))
		}
		if base == "STRING" {
			l = append(append(lit("'"), l...), lit("'")...)
		}
		return l
	}
	switch tok {
	case "IDENT":
		return []CV{r.oneOf(nm(0), plainLetters), r.oneOf(nm(1), plainLetters)}
	case "NUMBER":
		return []CV{r.oneOf(nm(0), "123456789"), r.oneOf(nm(1), "0123456789")}
	case "STRING":
		return append(append(lit("'"), r.oneOf(nm(0), plainLetters), r.oneOf(nm(1), plainLetters)), lit("'")...)
	case "DATE":
		return digits("0000-00-00")
	case "RFC3339":
		return digits("0000-00-00T00:00:00Z")
	case "!=":
		if r.n%2 == 0 {
			return lit("<>")
		}
		return lit("!=")
	}
	if tok[0] < 'a' || tok[0] > 'z' {
		return lit(tok)
	}
	var l []CV
	for i := 0; i < len(tok); i++ {
		l = append(l, r.oneOf(nm(i), tok[i:i+1]+strings.ToUpper(tok[i:i+1])))
	}
	return l
}

// sentence spells a token sequence, with a space between tokens.
func (r *crun) sentence(toks []string) (text []CV, lexemes [][]CV) {
	for i, t := range toks {
		if i > 0 {
			text = append(text, lit(" ")...)
		}
		l := r.lexeme(t)
		lexemes = append(lexemes, l)
		text = append(text, l...)
	}
	return
}

// --- calls --------------------------------------------------------------------

func (r *crun) goCall(name string, args ...Val) []Val {
	return r.in.callFn(r.fns[name], args, nil, token.NoPos)
}

func isNilVal(v Val) bool { _, ok := v.(VNil); return ok }

// parse analyses a call of ParseTSL on a text.
func (r *crun) parse(text []CV) (node, err Val) {
	res := r.goCall("ParseTSL", r.ci.textVal(text))
	return res[0], res[1]
}

// ctree is a tree as the Go API shows it.
type ctree struct {
	kind, op string
	val      Val
	kids     []*ctree
}

func (t *ctree) String() string {
	if t == nil {
		return "nothing"
	}
	var l []string
	for _, k := range t.kids {
		l = append(l, k.String())
	}
	switch t.kind {
	case "BinaryExpr", "UnaryExpr":
		return t.op + "(" + strings.Join(l, ", ") + ")"
	case "ArrayLiteral":
		return "[" + strings.Join(l, ", ") + "]"
	}
	return t.kind + " " + key(t.val)
}

// constInt64 reads a constant integer.
func constInt64(v Val) (int64, bool) {
	c, ok := v.(VConst)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.c))
}

// field is a component of a structure, by name.
func fieldOf(v Val, name string) Val {
	s, ok := v.(VStruct)
	if !ok {
		return nil
	}
	st := s.typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.f[i]
		}
	}
	return nil
}

func (r *crun) tree(node Val) *ctree {
	if isNilVal(node) {
		return nil
	}
	if _, ok := node.(VPtr); !ok {
		r.in.undecided(token.NoPos, "a node is %s", key(node))
	}
	code, ok := constInt64(r.goCall("Type", node)[0])
	if !ok {
		r.in.undecided(token.NoPos, "the kind of a node is not a constant")
	}
	t := &ctree{kind: r.k.kn[int(code)]}
	if t.kind == "" {
		r.in.crash(token.NoPos, "a node has kind %d, which has no name", code)
	}
	v := r.goCall("Value", node)[0]
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	operator := func() {
		o, ok := constInt64(fieldOf(v, "Operator"))
		if !ok || r.k.on[int(o)] == "" {
			r.in.crash(token.NoPos, "a node has operator %d, which has no name", o)
		}
		t.op = r.k.on[int(o)]
	}
	switch t.kind {
	case "BinaryExpr":
		operator()
		t.kids = []*ctree{r.tree(fieldOf(v, "Left")), r.tree(fieldOf(v, "Right"))}
	case "UnaryExpr":
		operator()
		if l := fieldOf(v, "Left"); l != nil && !isNilVal(l) {
			r.in.crash(token.NoPos, "a prefix node has a left operand")
		}
		t.kids = []*ctree{r.tree(fieldOf(v, "Right"))}
	case "ArrayLiteral":
		es, ok := r.in.elems(fieldOf(v, "Values"), token.NoPos)
		if !ok {
			r.in.undecided(token.NoPos, "the elements of an array are %s", key(v))
		}
		for _, e := range es {
			t.kids = append(t.kids, r.tree(e))
		}
	default:
		t.val = v
	}
	return t
}

// leaf is the value a literal token must have.
func (r *crun) leaf(tok string, lex []CV) Val {
	base, _ := sizedTok(tok)
	switch base {
	case "true":
		return cBool(true)
	case "false":
		return cBool(false)
	case "STRING":
		return r.ci.textVal(lex[1 : len(lex)-1])
	case "NUMBER":
		f, _ := r.ci.strtod(CV{k: cvPtr, o: r.ci.newText('s', "number", lex)})
		return r.ci.toGo(CV{k: cvFlt, f: f}, nil)
	case "DATE", "RFC3339":
		s := r.ci.textVal(lex)
		l := r.in.timeParse(cStr("2006-01-02T15:04:05Z07:00"), s, token.NoPos)
		if isNilVal(l[1]) {
			return l[0]
		}
		return s
	}
	return r.ci.textVal(lex)
}

// sameTree compares the tree the parser gave with the one the grammar gives.
func (r *crun) sameTree(t *ctree, w *rnode, toks []string, lex [][]CV) string {
	if t == nil {
		return "a node is missing"
	}
	if t.kind != w.kind || t.op != w.op {
		return fmt.Sprintf("a %s %s stands where %s %s belongs", t.kind, t.op, w.kind, w.op)
	}
	if len(t.kids) != len(w.kids) {
		return fmt.Sprintf("a %s has %d parts instead of %d", t.kind, len(t.kids), len(w.kids))
	}
	for i := range t.kids {
		if s := r.sameTree(t.kids[i], w.kids[i], toks, lex); s != "" {
			return s
		}
	}
	if len(w.kids) == 0 && w.kind != "ArrayLiteral" && w.kind != "NullLiteral" && w.tok >= 0 {
		if want := r.leaf(toks[w.tok], lex[w.tok]); key(t.val) != key(want) {
			return fmt.Sprintf("token %d (%s) has value %s instead of %s", w.tok, toks[w.tok], key(t.val), key(want))
		}
	}
	return ""
}

// --- memory -------------------------------------------------------------------

// cReach is the C memory reachable from an object.
func cReach(o *CObj, out map[*CObj]bool) {
	if o == nil || out[o] {
		return
	}
	out[o] = true
	var offs []int64
	for k := range o.cells {
		offs = append(offs, k)
	}
	sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
	for _, k := range offs {
		if v := o.cells[k].v; v.k == cvPtr && v.o != nil {
			cReach(v.o, out)
		}
	}
}

// nodeObj is the C memory behind a Go node.
func (r *crun) nodeObj(node Val) *CObj {
	p, ok := node.(VPtr)
	if !ok {
		return nil
	}
	s, ok := r.in.load(p, nil, token.NoPos).(VStruct)
	if !ok {
		return nil
	}
	for _, f := range s.f {
		if q, ok := f.(VPtr); ok && q.obj.cobj != nil {
			return q.obj.cobj
		}
	}
	return nil
}

// live lists allocated blocks that are not part of the given trees.
func (r *crun) live(trees ...Val) (rest []*CObj, freed *CObj) {
	in := map[*CObj]bool{}
	for _, t := range trees {
		m := map[*CObj]bool{}
		cReach(r.nodeObj(t), m)
		for o := range m {
			if o.freed {
				freed = o
			}
			in[o] = true
		}
	}
	for _, h := range r.ci.heap {
		if !h.freed && !in[h] {
			rest = append(rest, h)
		}
	}
	return
}

// kept is the sizes of the blocks that outlive a parse and are not in a tree.
func (r *crun) kept(trees ...Val) (sizes []int64, what string) {
	rest, freed := r.live(trees...)
	if freed != nil {
		return nil, fmt.Sprintf("the returned tree uses %s (allocated in %s), which was released in %s", freed.name, freed.where, freed.freeW)
	}
	for _, o := range rest {
		sizes = append(sizes, o.size)
		what += fmt.Sprintf("%s (%d bytes, allocated in %s) ", o.name, o.size, o.where)
	}
	sort.Slice(sizes, func(i, j int) bool { return sizes[i] < sizes[j] })
	return
}

// --- token sequences -----------------------------------------------------------

// shortest terminal string of every symbol of the grammar.
func (k *core) shortest() map[string][]string {
	out := map[string][]string{}
	for changed := true; changed; {
		changed = false
	next:
		for _, p := range k.lr.prods[1:] {
			var l []string
			for _, s := range p.rhs {
				if !k.lr.nonterm[s] {
					l = append(l, s)
					continue
				}
				w, ok := out[s]
				if !ok {
					continue next
				}
				l = append(l, w...)
			}
			if w, ok := out[p.lhs]; !ok || len(l) < len(w) {
				out[p.lhs] = l
				changed = true
			}
		}
	}
	return out
}

// access gives for every state of the grammar's automaton a token sequence
// that leads to it.
func (k *core) access() [][]string {
	sh := k.shortest()
	out := make([][]string, len(k.lr.states))
	seen := make([]bool, len(k.lr.states))
	seen[0] = true
	work := []int{0}
	for len(work) > 0 {
		sort.SliceStable(work, func(i, j int) bool { return len(out[work[i]]) < len(out[work[j]]) })
		s := work[0]
		work = work[1:]
		var syms []string
		for x := range k.lr.states[s].shift {
			syms = append(syms, x)
		}
		sort.Strings(syms)
		for _, x := range syms {
			n := k.lr.states[s].shift[x]
			if x == lrEnd || seen[n] {
				continue
			}
			seen[n] = true
			l := append([]string(nil), out[s]...)
			if k.lr.nonterm[x] {
				l = append(l, sh[x]...)
			} else {
				l = append(l, x)
			}
			out[n] = l
			work = append(work, n)
		}
	}
	return out
}

// complete gives a shortest continuation that makes a viable prefix a
// sentence; ok is false if the prefix is not viable.
func (k *core) complete(pre []string) (rest []string, ok bool) {
	if n, _ := k.lr.parse(pre); n != nil {
		return nil, true
	}
	if _, n := k.lr.parse(pre); n < len(pre) {
		return nil, false
	}
	type ent struct{ l []string }
	work := []ent{{nil}}
	for depth := 0; depth < 7; depth++ {
		var next []ent
		for _, e := range work {
			for _, t := range []string{"NUMBER", ")", "]", "and", "null", "in"} {
				l := append(append([]string(nil), e.l...), t)
				full := append(append([]string(nil), pre...), l...)
				n, at := k.lr.parse(full)
				if n != nil {
					return l, true
				}
				if at == len(full) {
					next = append(next, ent{l})
				}
			}
		}
		if len(next) > 400 {
			next = next[:400]
		}
		work = next
	}
	return nil, false
}

// sentences lists the token sequences the parser is analysed on, by rule.
func (k *core) sentences() map[string][][]string {
	out := map[string][][]string{}
	seen := map[string]bool{}
	add := func(rule string, l []string) {
		s := strings.Join(l, " ")
		if !seen[s] {
			seen[s] = true
			out[rule] = append(out[rule], append([]string(nil), l...))
		}
	}
	add("state", nil)
	for _, a := range k.access() {
		for _, t := range k.lr.terms {
			if t == lrEnd {
				add("state", a)
				continue
			}
			l := append(append([]string(nil), a...), t)
			if rest, ok := k.complete(l); ok {
				add("state", append(l, rest...))
			} else {
				add("state", l)
				add("state", append(l, "IDENT"))
			}
		}
	}
	infix := [][]string{{"="}, {"!="}, {"<"}, {"<="}, {">"}, {">="}, {"~="}, {"~!"}, {"like"}, {"ilike"}, {"in"}, {"not", "like"}, {"not", "ilike"}, {"not", "in"}, {"and"}, {"or"}, {"+"}, {"-"}, {"*"}, {"/"}, {"%"}, {"between", "STRING", "and"}, {"not", "between", "DATE", "and"}}
	prefix := [][]string{{"not"}, {"len"}, {"any"}, {"all"}, {"sum"}, {"-"}, {"+"}}
	post := [][]string{{"is", "null"}, {"is", "not", "null"}}
	cat := func(ls ...[]string) []string {
		var o []string
		for _, l := range ls {
			o = append(o, l...)
		}
		return o
	}
	id, num, str := []string{"IDENT"}, []string{"NUMBER"}, []string{"STRING"}
	open, shut := []string{"("}, []string{")"}
	for _, a := range infix {
		add("operators", cat(id, a, num))
		for _, b := range infix {
			add("operators", cat(id, a, num, b, str))
			add("operators", cat(open, id, a, num, shut, b, str))
			add("operators", cat(id, a, open, num, b, str, shut))
		}
		for _, b := range post {
			add("operators", cat(id, a, num, b))
			add("operators", cat(id, b, a, num))
			add("operators", cat(id, a, open, num, b, shut))
		}
		for _, b := range prefix {
			add("operators", cat(b, id, a, num))
			add("operators", cat(id, a, b, num))
			add("operators", cat(b, open, id, a, num, shut))
		}
	}
	for _, a := range prefix {
		for _, b := range prefix {
			add("operators", cat(a, b, id))
			add("operators", cat(a, b, open, id, shut))
			for _, e := range post {
				add("operators", cat(a, b, id, e))
			}
		}
	}
	for _, a := range post {
		for _, b := range post {
			add("operators", cat(id, a, b))
		}
	}
	for n := 0; n <= 6; n++ {
		for _, tail := range []bool{false, true} {
			l := []string{"["}
			for i := 0; i < n; i++ {
				if i > 0 {
					l = append(l, ",")
				}
				l = append(l, []string{"IDENT", "NUMBER", "STRING", "true", "DATE", "RFC3339"}[i%6])
			}
			if tail {
				l = append(l, ",")
			}
			l = append(l, "]")
			add("arrays", l)
			add("arrays", cat(id, []string{"in"}, l))
			add("arrays", cat([]string{"[", "NUMBER", ","}, l, []string{",", "IDENT", "]"}))
		}
	}
	lit := []string{"IDENT", "NUMBER", "STRING", "true", "false", "DATE", "RFC3339"}
	for _, a := range lit {
		add("arrays", []string{a})
		for _, b := range lit {
			add("arrays", []string{"[", a, ",", b, "]"})
			add("arrays", []string{a, "=", b})
			add("arrays", []string{"[", a, b, "]"})
		}
	}
	// elements that are expressions
	for _, e := range [][]string{{"NUMBER", "+", "NUMBER"}, {"not", "IDENT"}, {"-", "NUMBER"}, {"(", "IDENT", "or", "IDENT", ")"}, {"IDENT", "is", "not", "null"}, {"IDENT", "not", "between", "NUMBER", "and", "NUMBER"}, {"IDENT", "and", "[", "]"}} {
		add("arrays", cat([]string{"["}, e, []string{"]"}))
		add("arrays", cat([]string{"["}, e, []string{",", "NUMBER", "]"}))
		add("arrays", cat([]string{"[", "STRING", ","}, e, []string{",", "IDENT", ",", "]"}))
	}
	// texts of many lengths
	for _, n := range []int{0, 1, 3, 7, 8, 9, 16, 31, 33, 64, 130, 260} {
		str := fmt.Sprintf("STRING#%d", n)
		add("texts", []string{str})
		add("texts", []string{"[", str, ",", "IDENT", ",", str, "]"})
		add("texts", []string{"not", str})
		for _, op := range []string{"=", "like", "~=", "+", "and"} {
			add("texts", []string{"IDENT", op, str})
			add("texts", []string{str, op, "NUMBER"})
		}
		if n > 0 {
			name := fmt.Sprintf("IDENT#%d", n)
			add("texts", []string{name})
			add("texts", []string{name, "=", str})
			add("texts", []string{"[", str, ",", name, ",", "NUMBER", "]"})
			add("texts", []string{name, "is", "null"})
		}
	}
	// three operators of different rank, in every order
	rank := [][]string{{"or"}, {"and"}, {"="}, {"-"}, {"/"}, {"not", "in"}, {"between", "NUMBER", "and"}}
	for _, a := range rank {
		for _, b := range rank {
			for _, c := range rank {
				add("nesting", cat(id, a, num, b, str, c, id))
				add("nesting", cat([]string{"not"}, id, a, []string{"-"}, num, b, open, str, c, id, shut))
			}
		}
	}
	for d := 1; d <= 6; d++ {
		for _, o := range [][2]string{{"(", ")"}, {"[", "]"}} {
			var l []string
			for i := 0; i < d; i++ {
				l = append(l, o[0])
			}
			l = append(l, "IDENT")
			short := append([]string(nil), l...)
			for i := 0; i < d; i++ {
				l = append(l, o[1])
				if i < d-1 {
					short = append(short, o[1])
				}
			}
			add("nesting", l)
			add("nesting", short)
			add("nesting", append(append([]string(nil), l...), o[1]))
		}
	}
	// long lists and deep nesting, beyond the parser's first stack
	rep := func(n int, l ...string) []string {
		var o []string
		for i := 0; i < n; i++ {
			o = append(o, l...)
		}
		return o
	}
	for _, n := range []int{30, 90} {
		add("long", cat(id, []string{"in", "["}, rep(n, "STRING", ","), []string{"NUMBER", "]"}))
		add("long", cat([]string{"["}, rep(n, "IDENT", ","), []string{"]"}))
		add("long", cat(rep(n, "("), id, rep(n, ")")))
		add("long", cat(rep(n, "("), id, rep(n-1, ")")))
		add("long", cat(rep(n, "["), id, rep(n, "]")))
		for _, a := range infix {
			a = append([]string(nil), a...)
			for i := range a {
				if a[i] == "DATE" {
					a[i] = "NUMBER" // a date may be valid or not
				}
			}
			add("long", cat(id, rep(n, append(append([]string(nil), a...), "IDENT")...)))
			add("long", cat(rep(n, append(append([]string{"IDENT"}, a...), "(")...), id, rep(n, ")")))
		}
		for _, a := range prefix {
			add("long", cat(rep(n, a...), id))
		}
		for _, a := range post {
			add("long", cat(id, rep(n, a...)))
		}
	}
	return out
}
