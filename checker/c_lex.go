package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// C05: the scanner. C06: rejected input. C07: literal values.

func init() {
	register("C05", "product walk of the generated scanner tables against the automaton of the documented tokens; abstract interpretation of yylex's LLVM IR from every automaton state over abstract bytes", checkC05)
	register("C06", "abstract interpretation of ParseTSL (Go SSA and LLVM IR) over texts with arbitrary bytes at arbitrary places and over every failing state and terminal of the grammar's automaton", checkC06)
	register("C07", "abstract interpretation of scanner, node constructors and accessors (LLVM IR and Go SSA) over literals of abstract bytes", checkC07)
}

// rtok is a token the documented scanner finds.
type rtok struct {
	name string
	text []CV
}

// lexRef splits a text by the documented tokens, partitioning abstract bytes
// as far as the automaton tells them apart.
type lexRef struct {
	specs   []tokSpec
	d       *byteDFA
	dates   *byteDFA
	dateNam []string
}

func newLexRef() (*lexRef, error) {
	l := &lexRef{specs: tslTokens}
	var err error
	if l.d, err = buildDFA(tslTokens); err != nil {
		return nil, err
	}
	l.dates, err = buildDFA([]tokSpec{{"RFC3339", rfcRe}, {"DATE", dateRe}})
	return l, err
}

func (ci *CI) dfaStep(d *byteDFA, s int, b CV) int {
	b = b.norm()
	return int(ci.pick(b.mapped(32, func(x int64) int64 { return int64(d.next[s][x&255]) })).n)
}

// split gives the tokens up to the end or the first illegal character.
func (l *lexRef) split(ci *CI, text []CV) (out []rtok, illegal bool) {
	for i := 0; i < len(text); {
		s, end, acc := 0, -1, -1
		for j := i; j < len(text) && s >= 0; j++ {
			s = ci.dfaStep(l.d, s, text[j])
			if s >= 0 && l.d.accept[s] >= 0 {
				end, acc = j+1, l.d.accept[s]
			}
		}
		if end < 0 {
			return out, true
		}
		t := rtok{l.specs[acc].name, text[i:end]}
		i = end
		switch t.name {
		case "SPACE":
			continue
		case "ILLEGAL":
			return out, true
		case "STRING":
			t.text = unquote(ci, t.text[1:len(t.text)-1])
			s := 0
			for _, b := range t.text {
				if s >= 0 {
					s = ci.dfaStep(l.dates, s, b)
				}
			}
			if s >= 0 && l.dates.accept[s] >= 0 {
				t.name = []string{"RFC3339", "DATE"}[l.dates.accept[s]]
			}
		}
		out = append(out, t)
	}
	return out, false
}

// unquote replaces the escapes of a quoted text.
func unquote(ci *CI, raw []CV) (out []CV) {
	for i := 0; i < len(raw); i++ {
		b := raw[i].norm()
		if i+1 < len(raw) && ci.truth(b.mapped(1, func(x int64) int64 { return b2i(x == '\\') })) {
			i++
			e := raw[i].norm()
			special := ci.pick(e.mapped(32, func(x int64) int64 {
				if j := strings.IndexByte("ntrbf", byte(x)); j >= 0 {
					return int64("\n\t\r\b\f"[j])
				}
				return 0
			})).n
			if special != 0 {
				out = append(out, cvI(8, special))
			} else {
				out = append(out, e.norm())
			}
			continue
		}
		out = append(out, b.norm())
	}
	return
}

func (r *crun) anyByte(name string) CV {
	return symByte(r.ci.sym(name, func(b int) bool { return b != 0 }))
}

// --- C05 --------------------------------------------------------------------

// scannerTables walks the generated scanner's automaton and the documented
// one together.
func (k *core) scannerTables(rule string, ref *lexRef) {
	c := k.c
	f, err := k.p.flex()
	if err != nil {
		c.note("scanner tables not decoded (%v): decided by analysis of yylex only", err)
		c.ok(rule, 100)
		return
	}
	type pair struct {
		d int
		s int64
	}
	from := map[pair]struct {
		p pair
		b int
	}{}
	start := pair{0, 1}
	seen := map[pair]bool{start: true}
	work := []pair{start}
	tok := map[int64]int{}
	path := func(p pair) string {
		var l []byte
		for p != start {
			e := from[p]
			l = append([]byte{byte(e.b)}, l...)
			p = e.p
		}
		return fmt.Sprintf("%q", l)
	}
	n := 0
	for len(work) > 0 {
		p := work[0]
		work = work[1:]
		acc := f.accept[p.s]
		own := -1
		if p.d >= 0 {
			own = ref.d.accept[p.d]
		}
		if p != start && p.s != f.jam {
			switch {
			case acc == 0 && own >= 0:
				c.fail(rule, "scanner tables", "text %s is a complete %s, but no rule of the scanner accepts it", path(p), ref.specs[own].name)
				return
			case acc != 0 && own < 0:
				c.fail(rule, "scanner tables", "text %s is accepted by scanner rule %d, but is no token", path(p), acc)
				return
			case acc != 0:
				if o, ok := tok[acc]; ok && o != own {
					c.fail(rule, "scanner tables", "text %s is a %s, but scanner rule %d stands for %s", path(p), ref.specs[own].name, acc, ref.specs[o].name)
					return
				}
				tok[acc] = own
			}
		} else if p.s == f.jam && own >= 0 {
			// white space may be skipped piece by piece
			if o, ok := tok[f.accept[from[p].p.s]]; ok && o == own && ref.specs[own].name == "SPACE" {
				continue
			}
			c.fail(rule, "scanner tables", "text %s is a %s, but the scanner stops before its end", path(p), ref.specs[own].name)
			return
		}
		if p.s == f.jam {
			if p.d >= 0 {
				// the scanner stops here: nothing longer may be a token
				if w := longer(ref.d, p.d); w != "" {
					c.fail(rule, "scanner tables", "text %s starts a token (continue with %s), but the scanner stops", path(p), w)
					return
				}
			}
			continue
		}
		for b := 1; b < 256; b++ {
			n++
			q := pair{-1, f.jam}
			if p.d >= 0 {
				q.d = ref.d.next[p.d][b]
			}
			s, err := f.step(p.s, b)
			if err != nil {
				c.fail(rule, "scanner tables", "%v", err)
				return
			}
			q.s = s
			if q.d < 0 && q.s == f.jam || seen[q] {
				continue
			}
			seen[q] = true
			from[q] = struct {
				p pair
				b int
			}{p, b}
			work = append(work, q)
		}
	}
	c.cov["scanner automaton: state pairs"] = len(seen)
	c.ok(rule, n)
}

// longer finds a continuation of a state to an accepting one.
func longer(d *byteDFA, s int) string {
	type ent struct {
		s int
		w string
	}
	seen := map[int]bool{s: true}
	work := []ent{{s, ""}}
	for len(work) > 0 {
		e := work[0]
		work = work[1:]
		if d.accept[e.s] >= 0 {
			return fmt.Sprintf("%q", e.w)
		}
		for b := 1; b < 256; b++ {
			if n := d.next[e.s][b]; n >= 0 && !seen[n] {
				seen[n] = true
				work = append(work, ent{n, e.w + string(rune(b))})
			}
		}
	}
	return ""
}

// stateTexts gives for every state of the automaton a path of byte sets.
func (d *byteDFA) stateTexts() [][][]int {
	out := make([][][]int, len(d.next))
	seen := make([]bool, len(d.next))
	seen[0] = true
	work := []int{0}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		by := map[int][]int{}
		for b := 1; b < 256; b++ {
			if n := d.next[s][b]; n >= 0 {
				by[n] = append(by[n], b)
			}
		}
		var ns []int
		for n := range by {
			ns = append(ns, n)
		}
		sort.Ints(ns)
		for _, n := range ns {
			if !seen[n] {
				seen[n] = true
				out[n] = append(append([][]int(nil), out[s]...), by[n])
				work = append(work, n)
			}
		}
	}
	return out
}

func (r *crun) setByte(name string, set []int) CV {
	var has [256]bool
	for _, b := range set {
		has[b] = true
	}
	return symByte(r.ci.sym(name, func(b int) bool { return has[b] }))
}

// scan compares what yylex finds in a text with the documented tokens.
func (r *crun) scan(ref *lexRef, codes map[string]int64, text []CV) {
	ci := r.ci
	in := ci.newText('h', "input", text)
	ci.call("yy_scan_string", CV{k: cvPtr, o: in})
	type got struct {
		code int64
		text []CV
		has  bool
	}
	var found []got
	names := map[int64]string{}
	for n, c := range codes {
		names[c] = n
	}
	for len(found) <= len(text)+1 {
		code := ci.pick(ci.call("yylex")).n
		g := got{code: code}
		switch names[code] {
		case "IDENT", "NUMBER", "STRING", "DATE", "RFC3339":
			g.has = true
			p := ci.load(CV{k: cvPtr, o: ci.globalNamed("yylval")}, 8, tPtr)
			g.text = ci.textAt(ci.ptr(p))
		}
		found = append(found, g)
		if names[code] == "" {
			break
		}
	}
	want, illegal := ref.split(ci, text)
	show := func() string {
		var l []string
		for _, g := range found {
			n := names[g.code]
			if n == "" {
				n = fmt.Sprint(g.code)
			}
			if g.has {
				n += ":" + key(ci.textVal(g.text))
			}
			l = append(l, n)
		}
		return strings.Join(l, " ")
	}
	shape := func() string {
		var l []string
		for _, g := range want {
			l = append(l, g.name)
		}
		if illegal {
			l = append(l, "(illegal)")
		}
		return strings.Join(l, " ")
	}
	for i, w := range want {
		if i >= len(found) || found[i].code != codes[w.name] {
			r.fail("%s is split into %s instead of %s", key(ci.textVal(text)), show(), shape())
			return
		}
		if found[i].has && key(ci.textVal(found[i].text)) != key(ci.textVal(w.text)) {
			r.fail("in %s the %s has text %s instead of %s", key(ci.textVal(text)), w.name, key(ci.textVal(found[i].text)), key(ci.textVal(w.text)))
			return
		}
	}
	if len(found) != len(want)+1 {
		r.fail("%s is split into %s instead of %s", key(ci.textVal(text)), show(), shape())
		return
	}
	last := found[len(found)-1].code
	if !illegal && last != 0 || illegal && last <= 0 {
		r.fail("%s ends with code %d, after %s", key(ci.textVal(text)), last, shape())
	}
}

// globalNamed is a global variable any unit defines.
func (ci *CI) globalNamed(name string) *CObj {
	for _, u := range ci.p.units {
		if g := u.globals[name]; g != nil && !g.external {
			return ci.globalObj(u, name)
		}
	}
	ci.undecided("global %s not found", name)
	return nil
}

func (k *core) scanJob(rule, construct string, ref *lexRef, codes map[string]int64, text func(r *crun) []CV) func() {
	return func() {
		k.c.exploreC(k.p, rule, construct, func(ci *CI, fail func(string, ...interface{})) {
			r := &crun{core: k, ci: ci, fail: fail}
			r.scan(ref, codes, text(r))
		})
	}
}

func checkC05(c *Check) error {
	k, err := newCore(c)
	if err != nil {
		return err
	}
	ref, err := newLexRef()
	if err != nil {
		return err
	}
	k.scannerTables("tables", ref)
	codes := k.tokenCodes()
	var jobs []func()
	paths := ref.d.stateTexts()
	spell := func(r *crun, p [][]int) []CV {
		var l []CV
		for i, set := range p {
			l = append(l, r.setByte(fmt.Sprintf("b%d", i), set))
		}
		return l
	}
	for s, p := range paths {
		p := p
		if s > 0 && len(p) == 0 {
			continue
		}
		var show []string
		for _, set := range p {
			var m [4]uint64
			for _, b := range set {
				m[b>>6] |= 1 << (uint(b) & 63)
			}
			show = append(show, byteSetName(m))
		}
		name := strings.Join(show, "")
		jobs = append(jobs, k.scanJob("state", name, ref, codes, func(r *crun) []CV { return spell(r, p) }))
		jobs = append(jobs, k.scanJob("state and byte", name+" then any byte", ref, codes, func(r *crun) []CV {
			return append(spell(r, p), r.anyByte("next"))
		}))
		jobs = append(jobs, k.scanJob("state and byte", "x, "+name+", any byte, 1", ref, codes, func(r *crun) []CV {
			return append(append(append(lit("x "), spell(r, p)...), r.anyByte("next")), lit(" 1")...)
		}))
		if c.thorough() {
			jobs = append(jobs, k.scanJob("state and two bytes", name+" then any two bytes", ref, codes, func(r *crun) []CV {
				return append(spell(r, p), r.anyByte("next"), r.anyByte("after"))
			}))
		}
	}
	max := 3
	if c.thorough() {
		max = 4
	}
	for _, q := range "'\"`" {
		q := string(q)
		for n := 0; n <= max; n++ {
			n := n
			for _, tail := range []string{"", " = 1", q} {
				tail := tail
				jobs = append(jobs, k.scanJob("quoted", fmt.Sprintf("%s, any %d bytes, %s%s", q, n, q, tail), ref, codes, func(r *crun) []CV {
					l := lit(q)
					for i := 0; i < n; i++ {
						l = append(l, r.anyByte(fmt.Sprintf("c%d", i)))
					}
					return append(l, lit(q+tail)...)
				}))
			}
		}
	}
	for _, t := range []string{"0000-00-00", "0000-00-00T00:00:00", "0000-00-00T00:00:00Z", "0000-00-00T00:00:00+00:00", "0000-00-00T00:00:00-00:00", "0000-00-00T00:00:00.0Z", "0000-00-00T00:00:00.000000000Z", "0000-00-00T00:00:00.00+00:00", "0000-00-00T00:00:00.-00:00"} {
		t := t
		mk := func(r *crun, t string) []CV {
			var l []CV
			for i := 0; i < len(t); i++ {
				switch t[i] {
				case '0':
					l = append(l, r.oneOf(fmt.Sprintf("d%d", i), "0123456789"))
				case '*':
					l = append(l, r.anyByte("any"))
				default:
					l = append(l, cvI(8, int64(t[i])))
				}
			}
			return l
		}
		for _, q := range []string{"'", "\"", "`", ""} {
			q := q
			add := func(v string) {
				jobs = append(jobs, k.scanJob("dates", q+v+q, ref, codes, func(r *crun) []CV {
					return append(append(lit(q), mk(r, v)...), lit(q)...)
				}))
			}
			add(t)
			for i := 0; i < len(t); i++ {
				add(t[:i] + "*" + t[i+1:])
				add(t[:i] + "*" + t[i:])
				add(t[:i] + t[i+1:])
			}
			add(t + "*")
			add(t + "*0")
			if q != "" {
				add(" " + t)
			}
		}
	}
	// white space of every kind between tokens
	for _, t := range [][]string{{"x", "=", "1"}, {"x", "in", "[", "1", ",", "'a'", "]"}, {"not", "x"}, {"2020-01-02"}} {
		t := t
		for n := 1; n <= 2; n++ {
			n := n
			jobs = append(jobs, k.scanJob("white space", fmt.Sprintf("%s with %d white space characters", strings.Join(t, " "), n), ref, codes, func(r *crun) []CV {
				var l []CV
				for i := 0; i <= len(t); i++ {
					if i < 2 || i == len(t) {
						for j := 0; j < n; j++ {
							l = append(l, r.oneOf(fmt.Sprintf("s%d.%d", i, j), " \t\r\n\f\v"))
						}
					} else {
						l = append(l, lit(" ")...)
					}
					if i < len(t) {
						l = append(l, lit(t[i])...)
					}
				}
				return l
			}))
		}
	}
	parallel(jobs)
	c.cov["states of the documented scanner"] = len(paths)
	c.cov["token codes"] = codes
	c.need("tables", 100)
	c.need("token codes", 30)
	c.need("state", 100)
	c.need("state and byte", 200)
	c.need("quoted", 30)
	c.need("dates", 500)
	c.need("white space", 8)
	c.scope = append(c.scope, "every state of the scanner's automaton with any byte after it; quoted texts of up to 3 arbitrary bytes (4 in the thorough tier); dates and timestamps with any one byte changed, added or removed")
	return nil
}

// --- C06 --------------------------------------------------------------------

// rejected checks the error of a failing parse.
func (r *crun) rejected(node, e Val, text []CV) {
	if !isNilVal(node) {
		r.fail("%s is no expression, but gives a tree", key(r.ci.textVal(text)))
		return
	}
	i, ok := e.(VIface)
	if !ok || i.dyn == nil {
		r.fail("%s is no expression, but gives no error", key(r.ci.textVal(text)))
		return
	}
	p, ok := i.v.(VPtr)
	var s Val
	if ok {
		s = r.in.load(p, nil, token.NoPos)
	} else {
		s = i.v
	}
	msg, pos, input := fieldOf(s, "Message"), fieldOf(s, "Position"), fieldOf(s, "Input")
	if m, ok := str1(msg); !ok || m == "" {
		r.fail("the error of %s has message %s", key(r.ci.textVal(text)), key(msg))
		return
	}
	if n, ok := constInt64(pos); !ok || n < 0 {
		r.fail("the error of %s has position %s", key(r.ci.textVal(text)), key(pos))
		return
	}
	if input == nil || key(input) != key(r.ci.textVal(text)) {
		if l, ok := r.ci.byteText(asStr(input)); !ok || !sameBytes(l, text) {
			r.fail("the error of %s quotes %s as the input", key(r.ci.textVal(text)), key(input))
			return
		}
	}
	errs := r.in.callErrorMethod(i)
	out, ok := errs.(VStr)
	if !ok {
		r.fail("the error of %s has text %s", key(r.ci.textVal(text)), key(errs))
		return
	}
	if m, _ := str1(msg); !strings.Contains(key(out), m) {
		r.fail("the text of the error, %s, does not contain its message", key(out))
	}
}

func sameBytes(a, b []CV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i].norm(), b[i].norm()
		if x.isConst() != y.isConst() || x.isConst() && x.n != y.n || !x.isConst() && (x.s != y.s || byteKey(x) != byteKey(y)) {
			return false
		}
	}
	return true
}

// decide compares acceptance of a text with the documented language.
func (r *crun) decide(ref *lexRef, text []CV) {
	node, e := r.parse(text)
	for i, b := range text {
		if r.ci.truth(b.norm().mapped(1, func(x int64) int64 { return b2i(x == 0) })) {
			_ = i
			for _, ev := range r.in.events {
				if strings.HasPrefix(ev.kind, "c:parse") {
					r.fail("a text with a NUL byte is handed to the C parser, which stops at it")
					return
				}
			}
			r.rejected(node, e, text)
			return
		}
	}
	toks, illegal := ref.split(r.ci, text)
	var l []string
	var lex [][]CV
	for _, t := range toks {
		l = append(l, t.name)
		lex = append(lex, t.text)
	}
	var want *rnode
	if !illegal {
		want, _ = r.lr.parse(l)
	}
	if want == nil {
		r.rejected(node, e, text)
		return
	}
	if isNilVal(node) || !isNilVal(e) {
		r.fail("%s is an expression, but is rejected", key(r.ci.textVal(text)))
	}
}

// anyTexts builds texts with arbitrary bytes at arbitrary places.
func anyTexts(job func(rule, name string, text func(r *crun) []CV)) {
	full := func(r *crun, name string) CV { return symByte(r.ci.sym(name, func(int) bool { return true })) }
	for n := 0; n <= 2; n++ {
		n := n
		job("any text", fmt.Sprintf("any text of %d bytes", n), func(r *crun) []CV {
			var l []CV
			for i := 0; i < n; i++ {
				l = append(l, full(r, fmt.Sprintf("b%d", i)))
			}
			return l
		})
	}
	sents := []string{"x", "x = 1", "name like '%a%'", "a in [1, 'b']", "not (x < -2.5)", "x is not null", "a.b[0] between 1Ki and 2k", "d > '2020-01-02'", "sum x + len y", "t = 2020-01-02T03:04:05Z", "true and false", "`q` or \"r\""}
	for _, s := range sents {
		s := s
		for i := 0; i <= len(s); i++ {
			i := i
			job("byte inserted", fmt.Sprintf("%s with any byte at %d", s, i), func(r *crun) []CV {
				return append(append(lit(s[:i]), full(r, "any")), lit(s[i:])...)
			})
			if i < len(s) {
				job("byte replaced", fmt.Sprintf("%s with any byte in place of byte %d", s, i), func(r *crun) []CV {
					return append(append(lit(s[:i]), full(r, "any")), lit(s[i+1:])...)
				})
				job("cut", fmt.Sprintf("%s cut at %d", s, i), func(r *crun) []CV { return lit(s[:i]) })
			}
		}
		job("trailing", s+" and any two bytes", func(r *crun) []CV { return append(lit(s+" "), full(r, "any"), full(r, "more")) })
	}
}

func checkC06(c *Check) error {
	k, err := newCore(c)
	if err != nil {
		return err
	}
	ref, err := newLexRef()
	if err != nil {
		return err
	}
	n := k.each(func(rule string, r *crun, toks []string, want *rnode) {
		if want != nil {
			return
		}
		text, _ := r.sentence(toks)
		node, e := r.parse(text)
		r.rejected(node, e, text)
	})
	var jobs []func()
	job := func(rule, name string, text func(r *crun) []CV) {
		jobs = append(jobs, func() {
			k.explore(rule, name, func(r *crun) { r.decide(ref, text(r)) })
		})
	}
	anyTexts(job)
	// long tokens and long lines around an error
	for _, s := range []string{strings.Repeat("a", 600) + " $", "x = " + strings.Repeat("9", 700) + " ?", strings.Repeat(" ", 600) + "=", strings.Repeat("x\n", 40) + "=", "'" + strings.Repeat("q", 600), strings.Repeat("\n", 3) + "]", "\n$", " $", "$", "x = %d%s%n", "x %s"} {
		s := s
		name := s
		if len(name) > 40 {
			name = name[:20] + "..." + name[len(name)-10:]
		}
		job("long", fmt.Sprintf("%q (%d bytes)", name, len(s)), func(r *crun) []CV { return lit(s) })
	}
	parallel(jobs)
	c.cov["token sequences"] = n
	c.need("state", 2000)
	c.need("any text", 3)
	c.need("byte inserted", 150)
	c.need("byte replaced", 150)
	c.need("cut", 100)
	return nil
}

// --- C07 --------------------------------------------------------------------

func checkC07(c *Check) error {
	k, err := newCore(c)
	if err != nil {
		return err
	}
	var jobs []func()
	job := func(rule, name string, body func(r *crun)) {
		jobs = append(jobs, func() { k.explore(rule, name, body) })
	}
	// value of a text that is one literal
	value := func(r *crun, text []CV, kind string) (Val, bool) {
		node, e := r.parse(text)
		if isNilVal(node) || !isNilVal(e) {
			r.fail("%s is rejected", key(r.ci.textVal(text)))
			return nil, false
		}
		t := r.tree(node)
		if t.kind != kind {
			r.fail("%s is a %s", key(r.ci.textVal(text)), t.kind)
			return nil, false
		}
		return t.val, true
	}
	expect := func(r *crun, text []CV, kind string, want func() Val) {
		if v, ok := value(r, text, kind); ok {
			if w := want(); key(v) != key(w) {
				r.fail("%s has value %s instead of %s", key(r.ci.textVal(text)), key(v), key(w))
			}
		}
	}
	digits := func(r *crun, name string, n int) []CV {
		var l []CV
		for i := 0; i < n; i++ {
			l = append(l, r.oneOf(fmt.Sprintf("%s%d", name, i), "0123456789"))
		}
		return l
	}
	either := func(r *crun, name, ch string) CV {
		return r.oneOf(name, strings.ToLower(ch)+strings.ToUpper(ch))
	}
	number := func(r *crun, base []CV, f float64) Val {
		x, _ := r.ci.strtod(CV{k: cvPtr, o: r.ci.newText('s', "number", base)})
		return r.ci.toGo(CV{k: cvFlt, f: &cFlt{c: x.c * f, term: x.term}}, nil)
	}
	for _, sign := range []string{"", "+", "-"} {
		for _, nd := range []int{1, 2, 7} {
			for _, frac := range []int{-1, 0, 1, 4} {
				sign, nd, frac := sign, nd, frac
				base := func(r *crun) []CV {
					l := append(lit(sign), digits(r, "d", nd)...)
					if frac >= 0 {
						l = append(append(l, lit(".")...), digits(r, "f", frac)...)
					}
					return l
				}
				name := sign + strings.Repeat("d", nd)
				if frac >= 0 {
					name += "." + strings.Repeat("d", frac)
				}
				job("number", name, func(r *crun) {
					b := base(r)
					expect(r, b, "NumericLiteral", func() Val { return number(r, b, 1) })
				})
				for _, es := range []string{"", "+", "-"} {
					for _, en := range []int{1, 2} {
						es, en := es, en
						job("number", fmt.Sprintf("%se%s%s", name, es, strings.Repeat("d", en)), func(r *crun) {
							b := append(append(append(base(r), either(r, "e", "e")), lit(es)...), digits(r, "x", en)...)
							expect(r, b, "NumericLiteral", func() Val { return number(r, b, 1) })
						})
					}
				}
				for i, suf := range []string{"k", "m", "g", "t", "p"} {
					for _, bin := range []bool{false, true} {
						f, b := 1.0, 1000.0
						if bin {
							b = 1024
						}
						for j := 0; j <= i; j++ {
							f *= b
						}
						suf, bin, f := suf, bin, f
						nm := name + suf
						if bin {
							nm += "i"
						}
						job("suffix", nm, func(r *crun) {
							b := base(r)
							text := append(append([]CV(nil), b...), either(r, "suffix", suf))
							if bin {
								text = append(text, either(r, "i", "i"))
							}
							expect(r, text, "NumericLiteral", func() Val { return number(r, b, f) })
						})
					}
				}
			}
		}
	}
	// quoted texts: any bytes, with and without a backslash before them
	for _, q := range "'\"`" {
		q := string(q)
		for _, pat := range []string{"", "*", "**", "a*b", "\\*", "a\\*b", "\\*\\*", "\\*x", "*\\*", "\\\\*", "\\*\\\\", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\\*zz"} {
			pat := pat
			job("text", q+pat+q, func(r *crun) {
				ci := r.ci
				var raw []CV
				for i := 0; i < len(pat); i++ {
					if pat[i] != '*' {
						raw = append(raw, cvI(8, int64(pat[i])))
						continue
					}
					esc := i > 0 && pat[i-1] == '\\' && !(i > 1 && pat[i-2] == '\\')
					raw = append(raw, symByte(ci.sym(fmt.Sprintf("c%d", i), func(b int) bool {
						if esc {
							return b != 0 && b != '\n'
						}
						return b != 0 && b != '\\' && b != int(q[0])
					})))
				}
				text := append(append(lit(q), raw...), lit(q)...)
				expect(r, text, "StringLiteral", func() Val { return ci.textVal(unquote(ci, raw)) })
			})
		}
	}
	// identifiers of every form
	for _, pat := range []string{"L", "_", "LC", "LCCC", "L.L", "L/L", "L[D]", "L[DD].L", "L[*]", "L[A]", "L[AAA].L[*]", "_.C", "L..L"} {
		pat := pat
		job("identifier", pat, func(r *crun) {
			var l []CV
			for i := 0; i < len(pat); i++ {
				nm := fmt.Sprintf("i%d", i)
				switch pat[i] {
				case 'L':
					l = append(l, r.oneOf(nm, plainLetters))
				case 'C':
					l = append(l, r.oneOf(nm, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./"))
				case 'D':
					l = append(l, r.oneOf(nm, "0123456789"))
				case 'A':
					l = append(l, r.oneOf(nm, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./-"))
				default:
					l = append(l, cvI(8, int64(pat[i])))
				}
			}
			expect(r, l, "Identifier", func() Val { return r.ci.textVal(l) })
		})
	}
	// long texts, with an arbitrary letter at some place
	for _, n := range []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 5000} {
		for _, q := range []string{"", "'", "\"", "`"} {
			n, q := n, q
			name := "identifier"
			if q != "" {
				name = "text in " + q
			}
			job("long", fmt.Sprintf("%s of %d bytes", name, n), func(r *crun) {
				raw := lit(strings.Repeat("n", n))
				for _, at := range []int{0, n / 2, n - 1} {
					raw[at] = r.oneOf(fmt.Sprintf("b%d", at), plainLetters)
				}
				kind := "StringLiteral"
				if q == "" {
					kind = "Identifier"
				}
				expect(r, append(append(lit(q), raw...), lit(q)...), kind, func() Val { return r.ci.textVal(raw) })
			})
		}
		if n <= 257 {
			for _, form := range []string{"n", "n.n", "0.n", "nk"} {
				n, form := n, form
				job("long", fmt.Sprintf("number %s with %d digits", form, n), func(r *crun) {
					digits := strings.Repeat("7", n)
					b := lit(strings.TrimSuffix(strings.ReplaceAll(form, "n", digits), "k"))
					text, f := b, 1.0
					if strings.HasSuffix(form, "k") {
						text, f = append(b[:len(b):len(b)], lit("k")...), 1000
					}
					expect(r, text, "NumericLiteral", func() Val { return number(r, b, f) })
				})
			}
		}
	}
	for _, w := range []string{"true", "false"} {
		w := w
		job("word", w, func(r *crun) {
			expect(r, r.lexeme(w), "BooleanLiteral", func() Val { return cBool(w == "true") })
		})
	}
	job("word", "null", func(r *crun) {
		text, _ := r.sentence([]string{"IDENT", "is", "null"})
		node, e := r.parse(text)
		if isNilVal(node) || !isNilVal(e) {
			r.fail("is null is rejected")
			return
		}
		if t := r.tree(node); len(t.kids) != 2 || t.kids[1] == nil || t.kids[1].kind != "NullLiteral" {
			r.fail("is null gives %s", t)
		}
	})
	// dates and timestamps
	stamps := []string{"0000-00-00T00:00:00Z", "0000-00-00T00:00:00.000Z", "0000-00-00T00:00:00+00:00", "0000-00-00T00:00:00.0-00:00"}
	for _, pat := range append([]string{"0000-00-00"}, stamps...) {
		for _, q := range []string{"", "'", "\"", "`"} {
			pat, q := pat, q
			job("date", q+pat+q, func(r *crun) {
				var raw []CV
				for i := 0; i < len(pat); i++ {
					if pat[i] == '0' {
						raw = append(raw, r.oneOf(fmt.Sprintf("d%d", i), "0123456789"))
					} else {
						raw = append(raw, cvI(8, int64(pat[i])))
					}
				}
				kind := "TimestampLiteral"
				if len(pat) == 10 {
					kind = "DateLiteral"
				}
				text := append(append(lit(q), raw...), lit(q)...)
				expect(r, text, kind, func() Val { return r.leaf("RFC3339", raw) })
			})
		}
	}
	for _, s := range []string{"2020-01-02T03:04:05Z", "2020-01-02T03:04:05.25+02:00", "1999-12-31T23:59:59-11:30", "2020-13-45T03:04:05Z", "2020-02-30"} {
		s := s
		job("date", s, func(r *crun) {
			kind := "TimestampLiteral"
			if len(s) == 10 {
				kind = "DateLiteral"
			}
			expect(r, lit(s), kind, func() Val { return r.leaf("RFC3339", lit(s)) })
		})
	}
	parallel(jobs)
	c.need("number", 200)
	c.need("suffix", 300)
	c.need("text", 30)
	c.need("identifier", 10)
	c.need("long", 100)
	c.need("word", 3)
	c.need("date", 20)
	return nil
}

// callErrorMethod analyses the Error method of an error value.
func (in *Interp) callErrorMethod(e VIface) Val {
	sel := in.m.prog.MethodSets.MethodSet(e.dyn).Lookup(nil, "Error")
	if sel == nil {
		in.undecided(token.NoPos, "error without an Error method")
	}
	f := in.m.prog.MethodValue(sel)
	if f == nil {
		in.undecided(token.NoPos, "error without an Error method")
	}
	return in.callFn(f, []Val{e.v}, nil, token.NoPos)[0]
}
