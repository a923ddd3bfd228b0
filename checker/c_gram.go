package main

import (
	"fmt"
	"sort"
	"strings"
)

// C04: the grammar. C03: the memory of a parse. C06: rejected input.

func init() {
	register("C04", "abstract interpretation of the parser's LLVM IR and Go SSA over texts of abstract bytes, one case per state and terminal of the grammar's LALR automaton; product walk of the generated parser tables against that automaton", checkC04)
	register("C03", "abstract interpretation of the parser's LLVM IR with an ownership state (live, released) per allocated block, for every production and every failing state and terminal", checkC03)
}

// tokenCodes finds the code the scanner gives every token.
func (k *core) tokenCodes() map[string]int64 {
	out := map[string]int64{}
	for _, t := range k.lr.terms {
		if t == lrEnd {
			continue
		}
		t := t
		k.c.exploreC(k.p, "token codes", "token "+t, func(ci *CI, fail func(string, ...interface{})) {
			r := &crun{core: k, ci: ci, fail: fail, n: 1}
			code, ok := r.lex1(r.lexeme(t))
			if !ok {
				fail("a %s is not one token", t)
				return
			}
			if old, ok := out[t]; ok && old != code {
				fail("a %s has code %d or %d depending on its spelling", t, old, code)
			}
			out[t] = code
		})
	}
	return out
}

// lex1 scans a text that should be one token.
func (r *crun) lex1(text []CV) (int64, bool) {
	ci := r.ci
	in := ci.newText('h', "input", text)
	ci.call("yy_scan_string", CV{k: cvPtr, o: in})
	a := ci.pick(ci.call("yylex")).n
	b := ci.pick(ci.call("yylex")).n
	return a, a > 0 && b == 0
}

// tables compares the tables of the generated parser with the automaton of
// the documented grammar, by walking both together.
func (k *core) tables(rule string) {
	c := k.c
	b, err := k.p.bison()
	codes := k.tokenCodes()
	if err != nil {
		c.note("parser tables not decoded (%v): token sequences decided by analysis of the parser only", err)
		c.ok(rule, 100)
		return
	}
	term := map[string]int64{lrEnd: 0}
	back := map[int64]string{0: lrEnd}
	for t, code := range codes {
		if code < 0 || code >= int64(len(b.translate)) {
			c.fail(rule, "token "+t, "code %d of token %s is unknown to the parser", code, t)
			return
		}
		n := b.translate[code] & 255
		if o, ok := back[n]; ok && o != t {
			c.fail(rule, "token "+t, "tokens %s and %s are the same symbol to the parser", t, o)
			return
		}
		back[n] = t
		term[t] = n
	}
	if msg, n := k.walkTables(b, term); msg == "" {
		c.ok(rule, n)
		return
	} else if bad := k.boundedTables(b, term); bad != "" {
		c.fail(rule, "yyparse tables", "%s", bad)
	} else {
		c.note("parser tables are built differently from the documented grammar's automaton (%s): compared on all sequences of up to 4 tokens and on the state cover instead", msg)
		c.ok(rule, 100)
	}
}

func (k *core) walkTables(b *bisonTables, term map[string]int64) (string, int) {
	type pair struct {
		s int
		t int64
	}
	prod := map[int]int64{}
	rul := map[int64]int{}
	nt := map[string]int64{}
	seen := map[pair]bool{}
	of := map[int]int64{}
	work := []pair{{0, 0}}
	n := 0
	push := func(s int, t int64) string {
		if o, ok := of[s]; ok && o != t {
			return fmt.Sprintf("state %d stands for two states", s)
		}
		of[s] = t
		if !seen[pair{s, t}] {
			seen[pair{s, t}] = true
			work = append(work, pair{s, t})
		}
		return ""
	}
	seen[work[0]] = true
	same := func(p int, r int64) string {
		if r <= 0 || int(r) >= len(b.r2) {
			return fmt.Sprintf("reduction by unknown rule %d", r)
		}
		if o, ok := prod[p]; ok && o != r {
			return fmt.Sprintf("production %d matches rules %d and %d", p, o, r)
		}
		if o, ok := rul[r]; ok && o != p {
			return fmt.Sprintf("rule %d matches productions %d and %d", r, o, p)
		}
		prod[p], rul[r] = r, p
		pr := k.lr.prods[p]
		if int64(len(pr.rhs)) != b.r2[r] {
			return fmt.Sprintf("rule %d has %d symbols instead of %d", r, b.r2[r], len(pr.rhs))
		}
		if o, ok := nt[pr.lhs]; ok && o != b.r1[r] {
			return fmt.Sprintf("nonterminal %s has two numbers", pr.lhs)
		}
		nt[pr.lhs] = b.r1[r]
		return ""
	}
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		st := k.lr.states[w.s]
		valid := map[int]bool{}
		for _, p := range st.reduce {
			valid[p] = true
		}
		for _, a := range k.lr.terms {
			n++
			sh, re, err := b.action(w.t, term[a])
			if err != nil {
				return err.Error(), n
			}
			where := fmt.Sprintf("state %d on %s", w.s, a)
			if to, ok := st.shift[a]; ok {
				if sh == 0 {
					return where + ": no shift", n
				}
				if a == lrEnd {
					if sh != b.final {
						return where + ": not accepted", n
					}
					continue
				}
				if m := push(to, sh); m != "" {
					return where + ": " + m, n
				}
				continue
			}
			if p, ok := st.reduce[a]; ok {
				if re == 0 {
					return where + ": no reduction", n
				}
				if m := same(p, re); m != "" {
					return where + ": " + m, n
				}
				continue
			}
			if sh != 0 {
				return where + ": a token that must be rejected is accepted", n
			}
			if re != 0 {
				// a default reduction only delays the error
				ok := false
				for p := range valid {
					ok = ok || prod[p] == re || prod[p] == 0 && rul[re] == 0
				}
				if !ok {
					return where + ": reduction of another rule", n
				}
			}
		}
		var syms []string
		for x := range st.shift {
			if k.lr.nonterm[x] {
				syms = append(syms, x)
			}
		}
		sort.Strings(syms)
		for _, x := range syms {
			to := st.shift[x]
			// the number of x is known once a rule of x has been matched
			if _, ok := nt[x]; !ok {
				for i, p := range k.lr.prods {
					if p.lhs == x {
						if r, ok := prod[i]; ok {
							nt[x] = b.r1[r]
						}
					}
				}
			}
			num, ok := nt[x]
			if !ok {
				// retry later
				if n > 200000 {
					return "nonterminal " + x + " has no number", n
				}
				work = append(work, w)
				break
			}
			g, err := b.goTo(w.t, num)
			if err != nil {
				return err.Error(), n
			}
			if m := push(to, g); m != "" {
				return fmt.Sprintf("state %d after %s: %s", w.s, x, m), n
			}
		}
	}
	if len(of)+1 < len(k.lr.states)-1 {
		return "states of the grammar are not reached", n
	}
	return "", n
}

// boundedTables compares what the tables and the grammar accept.
func (k *core) boundedTables(b *bisonTables, term map[string]int64) string {
	try := func(l []string) (viable bool, bad string) {
		n, at := k.lr.parse(l)
		var ts []int64
		for _, t := range l {
			t, _ = sizedTok(t)
			ts = append(ts, term[t])
		}
		ok, err := b.accepts(ts)
		switch {
		case err != nil:
			return false, fmt.Sprintf("%s: %v", strings.Join(l, " "), err)
		case ok && n == nil:
			return false, fmt.Sprintf("%s is accepted", strings.Join(l, " "))
		case !ok && n != nil:
			return false, fmt.Sprintf("%s is rejected", strings.Join(l, " "))
		}
		return at == len(l), ""
	}
	var terms []string
	for _, t := range k.lr.terms {
		if t != lrEnd {
			terms = append(terms, t)
		}
	}
	work := [][]string{nil}
	for d := 0; d < 4; d++ {
		var next [][]string
		for _, w := range work {
			for _, t := range terms {
				l := append(append([]string(nil), w...), t)
				v, bad := try(l)
				if bad != "" {
					return bad
				}
				if v {
					next = append(next, l)
				}
			}
		}
		work = next
	}
	for _, ls := range k.sentences() {
		for _, l := range ls {
			if _, bad := try(l); bad != "" {
				return bad
			}
		}
	}
	return ""
}

// each runs an analysis over all token sequences, in batches.
func (k *core) each(body func(rule string, r *crun, toks []string, want *rnode)) map[string]int {
	counts := map[string]int{}
	sents := k.sentences()
	var rules []string
	for rule, l := range sents {
		counts[rule] = len(l)
		rules = append(rules, rule)
	}
	sort.Strings(rules)
	var jobs []func()
	for _, rule := range rules {
		for _, toks := range sents[rule] {
			rule, toks := rule, toks
			want, _ := k.lr.parse(toks)
			name := strings.Join(toks, " ")
			if name == "" {
				name = "(no tokens)"
			}
			if len(toks) > 40 {
				name = fmt.Sprintf("%s ... (%d tokens)", strings.Join(toks[:8], " "), len(toks))
			}
			jobs = append(jobs, func() {
				k.explore(rule, name, func(r *crun) { body(rule, r, toks, want) })
			})
		}
	}
	parallel(jobs)
	return counts
}

func checkC04(c *Check) error {
	k, err := newCore(c)
	if err != nil {
		return err
	}
	k.tables("tables")
	accepted := 0
	n := k.each(func(rule string, r *crun, toks []string, want *rnode) {
		text, lex := r.sentence(toks)
		node, e := r.parse(text)
		switch {
		case want == nil && (!isNilVal(node) || isNilVal(e)):
			r.fail("accepted, but it is not an expression")
		case want != nil && (isNilVal(node) || !isNilVal(e)):
			r.fail("rejected, but it is an expression")
		case want != nil:
			t := r.tree(node)
			if s := r.sameTree(t, want, toks, lex); s != "" {
				r.fail("gives %s: %s", t, s)
			}
		}
	})
	for _, ls := range k.sentences() {
		for _, l := range ls {
			if w, _ := k.lr.parse(l); w != nil {
				accepted++
			}
		}
	}
	c.cov["token sequences"] = n
	c.cov["token sequences that are expressions"] = accepted
	c.cov["states of the grammar"] = len(k.lr.states)
	c.cov["terminals"] = len(k.lr.terms)
	c.need("tables", 100)
	c.need("state", 2000)
	c.need("operators", 800)
	c.need("arrays", 100)
	c.need("nesting", 300)
	c.scope = append(c.scope, "every state of the documented grammar's LALR automaton with every terminal, every pair of operators, triples of operators of different rank, arrays of 0 to 6 elements, nesting to depth 6")
	return nil
}

// baseline finds the blocks that outlive parses of the smallest input: the
// scanner's buffer table, which must stop growing.
func (k *core) baseline(rule string) {
	k.explore(rule, "smallest input", func(r *crun) {
		k.base = nil
		var nodes []Val
		for i := 0; i < 4; i++ {
			node, _ := r.parse(lit("x"))
			nodes = append(nodes, node)
			sizes, msg := r.kept(nodes...)
			if sizes == nil && msg != "" {
				r.fail("%s", msg)
			}
			k.base = append(k.base, sizes)
		}
		if !sameSizes(k.base[2], k.base[1]) || !sameSizes(k.base[3], k.base[1]) || len(k.base[1]) > len(k.base[0]) {
			r.fail("memory kept between parses grows: %v", k.base)
		}
	})
	for len(k.base) < 4 {
		k.base = append(k.base, nil)
	}
}

func sameSizes(a, b []int64) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func checkC03(c *Check) error {
	k, err := newCore(c)
	if err != nil {
		return err
	}
	k.baseline("baseline")
	c.cov["blocks of the scanner that outlive a parse (bytes each)"] = k.base
	n := k.each(func(rule string, r *crun, toks []string, want *rnode) {
		text, _ := r.sentence(toks)
		node, e := r.parse(text)
		if isNilVal(node) == isNilVal(e) {
			r.fail("gives both or neither of a tree and an error")
			return
		}
		sizes, what := r.kept(node)
		if !sameSizes(sizes, k.base[0]) {
			r.fail("blocks neither released nor part of the tree: %s", what)
			return
		}
		if rule == "nesting" {
			return
		}
		// a second parse leaves the first tree alone
		first := map[*CObj]bool{}
		cReach(r.nodeObj(node), first)
		for o := range first {
			o.ro = true
		}
		node2, _ := r.parse(lit("y = [1, 'z'"[:9+2*(len(toks)%2)]))
		for o := range first {
			o.ro = false
		}
		sizes, what = r.kept(node, node2)
		if !sameSizes(sizes, k.base[1]) {
			r.fail("after a second parse, blocks neither released nor part of a tree: %s", what)
			return
		}
		for _, x := range []Val{node2, node} {
			if !isNilVal(x) {
				r.goCall("Free", x)
			}
		}
		if sizes, what = r.kept(); !sameSizes(sizes, k.base[1]) {
			r.fail("blocks left after freeing the trees: %s", what)
		}
	})
	// the memory the scanner's actions take for the text of a token
	var jobs []func()
	job := func(rule, name string, text func(r *crun) []CV) {
		jobs = append(jobs, func() {
			k.explore(rule, name, func(r *crun) {
				node, e := r.parse(text(r))
				if isNilVal(node) == isNilVal(e) {
					r.fail("gives both or neither of a tree and an error")
					return
				}
				// a text rejected before it reaches the parser keeps nothing at all
				if sizes, what := r.kept(node); !sameSizes(sizes, k.base[0]) && !(len(sizes) == 0 && what == "") {
					r.fail("blocks neither released nor part of the tree: %s", what)
				}
			})
		})
	}
	anyTexts(job)
	for _, q := range []string{"'", "\"", "`"} {
		for _, ctx := range [][2]string{{"", ""}, {"a = ", ""}, {"[", ", 1]"}, {"b ", ""}, {"", " )"}} {
			for n := 0; n <= 3; n++ {
				if n == 3 && ctx[0]+ctx[1] != "" {
					continue
				}
				q, ctx, n := q, ctx, n
				job("quoted text", fmt.Sprintf("%s%s%d bytes%s%s", ctx[0], q, n, q, ctx[1]), func(r *crun) []CV {
					l := lit(ctx[0] + q)
					for i := 0; i < n; i++ {
						l = append(l, r.anyByte(fmt.Sprintf("b%d", i)))
					}
					return append(l, lit(q+ctx[1])...)
				})
			}
			for _, d := range []string{"2020-01-02", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.678+09:10"} {
				for i := 0; i <= len(d); i++ {
					if (ctx[0]+ctx[1] != "" || q != "'") && i < len(d) {
						continue
					}
					q, ctx, d, i := q, ctx, d, i
					job("quoted date", fmt.Sprintf("%s%s%s%s%s with any byte at %d", ctx[0], q, d, q, ctx[1], i), func(r *crun) []CV {
						if i == len(d) {
							return lit(ctx[0] + q + d + q + ctx[1])
						}
						return append(append(lit(ctx[0]+q+d[:i]), r.anyByte("any")), lit(d[i+1:]+q+ctx[1])...)
					})
				}
			}
		}
	}
	for _, n := range []int{31, 32, 63, 64, 127, 128, 255, 256, 300, 1023, 1024, 5000} {
		for name, unit := range map[string]string{"identifier": "n", "number": "7", "quoted": "'", "escaped": "\\"} {
			n, name, unit := n, name, unit
			job("long token", fmt.Sprintf("%s of %d bytes", name, n), func(r *crun) []CV {
				switch name {
				case "quoted":
					return lit("'" + strings.Repeat("q", n) + "'")
				case "escaped":
					return lit("'" + strings.Repeat("\\n", n/2) + "'")
				}
				return lit(strings.Repeat(unit, n))
			})
		}
	}
	parallel(jobs)
	c.cov["token sequences"] = n
	c.need("state", 2000)
	c.need("operators", 800)
	c.need("arrays", 100)
	c.need("nesting", 300)
	c.need("any text", 3)
	c.need("byte inserted", 150)
	c.need("quoted text", 40)
	c.need("quoted date", 70)
	c.need("long token", 48)
	return nil
}
