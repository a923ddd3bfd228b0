package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: like, ilike and regular expressions of the three evaluators.

// likePatterns are the analysed patterns: every sequence of up to three
// characters of the alphabet (each class of character a translation may treat
// specially), and some longer ones.
func likePatterns(deep bool) []string {
	full := []string{"%", "_", ".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "^", "$", "|", "\\", "a", "Z", "E", "Q", "1", "-", "'", "/", " ", "\n", "é", "İ", "k"}
	small := []string{"%", "_", ".", "\\", "a", "[", "^", "\n"}
	if deep {
		small = append(small, "$", "*", "?", "E", "Q", "(", ")", "|", "é", "+", "k")
	}
	l := []string{""}
	for _, a := range full {
		l = append(l, a)
		for _, b := range full {
			l = append(l, a+b)
		}
	}
	for _, a := range small {
		for _, b := range small {
			for _, c := range small {
				l = append(l, a+b+c)
			}
		}
	}
	return append(l, "%joe%", "a%b_c.d", "\\E.*\\Q", "100\\%", "a__b%%c", "{1,2}", "(?i)a", "[a-z]%", "^a$", "a|b", "\\d+", "\\Qa\\E", "%.%")
}

type likeTarget struct {
	c   *Check
	m   *module
	ver string
	// run evaluates "subject op pattern" and returns the result
	run func(in *Interp, op string, subj, pat Val) outcome
}

// matchResult: the evaluation ended with a value; it is the boolean res.
func (t *likeTarget) result(o outcome, in *Interp) (Val, bool) {
	if _, ok := o.res[1].(VNil); !ok {
		return nil, false
	}
	v := o.res[0]
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	return v, true
}

func (t *likeTarget) probe(rule, label string, body func(in *Interp, fail func(string, ...interface{}))) *Check {
	tmp := newCheck(t.c.id, t.c.tier)
	tmp.trial = true
	tmp.explore(t.m, rule, label, body)
	return tmp
}

func (c *Check) merge(o *Check) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for k, v := range o.oblig {
		c.oblig[k] += v
	}
	c.parts += o.parts
	for k, n := range o.samples {
		if c.samples == nil {
			c.samples = map[string]int{}
		}
		c.samples[k] += n
	}
	for k := range o.funcs {
		c.funcs[k] = true
	}
	for k := range o.ext {
		c.ext[k] = true
	}
	for _, id := range o.order {
		if _, ok := c.findings[id]; !ok {
			c.findings[id] = o.findings[id]
			c.order = append(c.order, id)
		}
	}
}

func (c *Check) onlyUndecided() bool {
	if len(c.order) == 0 {
		return false
	}
	for _, f := range c.findings {
		if !strings.HasPrefix(f.msg, "undecided") {
			return false
		}
	}
	return true
}

func (t *likeTarget) like(op, pattern string) {
	fold := op == "ILike"
	rule := t.ver + ":" + op
	label := fmt.Sprintf("%s %q", strings.ToLower(op), pattern)
	tmp := t.probe(rule, label, func(in *Interp, fail func(string, ...interface{})) {
		subj := atomStr(mkTerm(tString, "subject"))
		notADate(in, key(subj))
		o := t.run(in, op, subj, cStr(pattern))
		if in.state {
			// the package keeps something: match it after the other operator
			other := map[string]string{"Like": "ILike", "ILike": "Like"}[op]
			in.globals, in.inited = map[*ssa.Global]*Obj{}, map[*ssa.Package]bool{}
			before := atomStr(mkTerm(tString, "text before"))
			notADate(in, key(before))
			t.run(in, other, before, cStr(pattern))
			in.events = nil
			o = t.run(in, op, subj, cStr(pattern))
		}
		if o.crash != nil {
			fail("may crash: %s in %s (%s)", o.crash.what, o.crash.fn, in.position(o.crash.pos))
			return
		}
		v, ok := t.result(o, in)
		if !ok {
			fail("gives an error")
			return
		}
		var ev []Event
		for _, e := range in.events {
			if e.kind == "match" {
				ev = append(ev, e)
			}
		}
		if len(ev) == 0 {
			in.undecided(token.NoPos, "decided without a regular expression")
		}
		e := ev[len(ev)-1]
		src, isC := e.args[0].(VStr).isConst()
		if !isC {
			in.undecided(token.NoPos, "regular expression %s of a known pattern is not known", key(e.args[0]))
		}
		want := in.truth(in.chosenMatch(e), token.NoPos)
		if in.truth(v, token.NoPos) != want {
			fail("the result is not the outcome of the match with %q", src)
			return
		}
		p, f := pattern, fold
		lower := key(mkTerm(tString, "strings.ToLower", subj))
		upper := key(mkTerm(tString, "strings.ToUpper", subj))
		switch key(e.args[1]) {
		case key(subj):
		case lower:
			if !fold {
				fail("the text is changed to lower case before the match")
				return
			}
			p, f = strings.ToLower(pattern), strings.HasPrefix(src, "(?i")
		case upper:
			if !fold {
				fail("the text is changed to upper case before the match")
				return
			}
			p, f = strings.ToUpper(pattern), strings.HasPrefix(src, "(?i")
		default:
			fail("the text matched is %s", key(e.args[1]))
			return
		}
		text, diff, err := likeLanguageDiffers(src, p, f)
		if err != nil {
			in.undecided(token.NoPos, "regular expression %q: %v", src, err)
		}
		if diff {
			fail("pattern %q is translated to %q, which treats the text %q differently", pattern, src, text)
		}
	})
	if tmp.onlyUndecided() {
		// not translated to a regular expression: decide on known short texts
		alt := newCheck(t.c.id, t.c.tier)
		alt.trial = true
		for _, s := range shortTexts(pattern) {
			s := s
			if alt.hasFinding(rule) {
				break
			}
			alt.explore(t.m, rule, label, func(in *Interp, fail func(string, ...interface{})) {
				o := t.run(in, op, cStr(s), cStr(pattern))
				if o.crash != nil {
					fail("may crash: %s in %s (%s)", o.crash.what, o.crash.fn, in.position(o.crash.pos))
					return
				}
				v, ok := t.result(o, in)
				if !ok {
					fail("gives an error on the text %q", s)
					return
				}
				if in.truth(v, token.NoPos) != likeMatch([]rune(pattern), []rune(s), fold) {
					fail("pattern %q treats the text %q wrongly", pattern, s)
				}
			})
		}
		if alt.hasFinding(rule) {
			t.c.merge(alt)
			return
		}
		alt.oblig = map[string]int{rule: 1}
		t.c.merge(alt)
		return
	}
	t.c.merge(tmp)
}

func (in *Interp) chosenMatch(e Event) Val {
	return cBool(in.choose("match:"+key(e.args[0])+"~"+key(e.args[1]), 2) == 1)
}

func notADate(in *Interp, k string) {
	in.facts["parse:"+layoutFull+":"+k] = 0
	in.facts["parse:"+layoutShort+":"+k] = 0
}

func likeMatch(p, s []rune, fold bool) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if likeMatch(p[1:], s[i:], fold) {
				return true
			}
		}
		return false
	case '_':
		return len(s) > 0 && likeMatch(p[1:], s[1:], fold)
	}
	if len(s) == 0 {
		return false
	}
	if s[0] != p[0] && !(fold && strings.EqualFold(string(s[0]), string(p[0]))) {
		return false
	}
	return likeMatch(p[1:], s[1:], fold)
}

func shortTexts(pattern string) []string {
	al := []string{"\n", "x"}
	for _, r := range pattern {
		al = append(al, string(r), strings.ToUpper(string(r)), strings.ToLower(string(r)))
	}
	seen := map[string]bool{}
	var u []string
	for _, a := range al {
		if !seen[a] {
			seen[a] = true
			u = append(u, a)
		}
	}
	if len(u) > 8 {
		u = u[:8]
	}
	out := []string{"", pattern}
	for _, a := range u {
		out = append(out, a)
		for _, b := range u {
			out = append(out, a+b)
			for _, c := range u {
				out = append(out, a+b+c)
			}
		}
	}
	return out
}

func (t *likeTarget) regex(op string, neg bool) {
	t.c.explore(t.m, t.ver+":"+op, op+" with any pattern", func(in *Interp, fail func(string, ...interface{})) {
		subj := atomStr(mkTerm(tString, "subject"))
		pat := atomStr(mkTerm(tString, "pattern"))
		notADate(in, key(subj))
		notADate(in, key(pat))
		o := t.run(in, op, subj, pat)
		if in.state {
			// the package keeps something: match it again, after another
			// pattern and on another text
			in.globals, in.inited = map[*ssa.Global]*Obj{}, map[*ssa.Package]bool{}
			first := atomStr(mkTerm(tString, "pattern before"))
			if in.equals(first, pat, false) {
				panic(pruned{})
			}
			for i, p := range []Val{first, pat} {
				s := atomStr(mkTerm(tString, fmt.Sprintf("text before %d", i)))
				notADate(in, key(s))
				notADate(in, key(p))
				t.run(in, op, s, p)
			}
			o = t.run(in, op, subj, pat)
		}
		if o.crash != nil {
			fail("may crash: %s in %s (%s)", o.crash.what, o.crash.fn, in.position(o.crash.pos))
			return
		}
		bad, asked := in.known("err:regexp:" + key(pat))
		v, ok := t.result(o, in)
		if !asked {
			fail("the pattern is not used as a regular expression")
			return
		}
		if (bad == 1) == ok {
			if ok {
				fail("an invalid regular expression gives a value")
			} else {
				fail("a valid regular expression gives an error")
			}
			return
		}
		if !ok {
			return
		}
		m, asked := in.known("match:" + key(pat) + "~" + key(subj))
		if !asked {
			fail("the text is not matched with the regular expression")
			return
		}
		if in.truth(v, token.NoPos) != ((m == 1) != neg) {
			fail("the result is not that of the match")
		}
	})
}

func init() {
	register("C12", "abstract interpretation of the SSA of the v6, v5 and v4 evaluators on constant patterns with an opaque text; the language of the regular expression each pattern is translated to is compared with that of the pattern by an automaton product", func(c *Check) error {
		e, err := newSem6(c)
		if err != nil {
			return err
		}
		var targets []*likeTarget
		targets = append(targets, &likeTarget{c, e.m, "v6", func(in *Interp, op string, subj, pat Val) outcome {
			s := in.newStore(e.k)
			l, r := s.node("Identifier", "input"), s.node("StringLiteral", "input")
			l.str, r.str = cStr("field"), pat
			root := s.binary(op, l, r)
			cb := VFunc{name: "eval", native: func(in *Interp, args []Val) []Val { return []Val{iface(tString, subj), cBool(true)} }}
			return in.tryCall(e.walk, []Val{s.wrap(root), cb})
		}})
		for _, ver := range []string{"v5", "v4"} {
			g, err := loadLegacy(c, ver)
			if err != nil {
				return err
			}
			p := g.m.byDir["pkg/walkers/semantics"]
			if p == nil || p.Func("Walk") == nil {
				return fmt.Errorf("%s semantics.Walk not found", ver)
			}
			walk := p.Func("Walk")
			c.scope = append(c.scope, ver+"/pkg/walkers/semantics")
			targets = append(targets, &likeTarget{c, g.m, ver, likeRun45(g, walk)})
		}
		var jobs []func()
		pats := likePatterns(c.thorough())
		for _, t := range targets {
			for _, op := range []string{"Like", "ILike"} {
				for _, p := range pats {
					t, op, p := t, op, p
					jobs = append(jobs, func() { t.like(op, p) })
				}
				c.need(t.ver+":"+op, len(pats))
			}
			t := t
			req, rne := "REQ", "RNE"
			if t.ver != "v6" {
				req, rne = "Regex", "NotRegex"
			}
			jobs = append(jobs, func() { t.regex(req, false); t.regex(rne, true) })
			c.need(t.ver+":"+req, 1)
			c.need(t.ver+":"+rne, 1)
		}
		ops := []string{"Like", "ILike", "REQ", "RNE"}
		jobs = append(jobs, e.binaryOps(ops, sem6Operands, sem6Operands)...)
		jobs = append(jobs, e.longJobs(ops, nil, agree)...)
		for _, o := range ops {
			c.need(o, 200)
		}
		c.cov["patterns"] = len(pats)
		parallel(jobs)
		return nil
	})
}

func likeRun45(g *legacy, walk *ssa.Function) func(in *Interp, op string, subj, pat Val) outcome {
	return func(in *Interp, op string, subj, pat Val) outcome {
		root := lop(op, &lnode{op: "Ident", val: cStr("field")}, &lnode{op: "String", val: pat})
		cb := VFunc{name: "eval", native: func(in *Interp, args []Val) []Val { return []Val{iface(tString, subj), cBool(true)} }}
		return in.tryCall(walk, []Val{g.value(in, root), cb})
	}
}
