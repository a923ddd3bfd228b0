package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: Graphviz drawings of v6, v5 and v4.

// strOf analyses the String method of a constant of package tsl.
func (in *Interp) strOf(typ string, code int) string {
	p := in.m.byDir["pkg/tsl"]
	t := p.Type(typ)
	if t == nil {
		in.undecided(token.NoPos, "type tsl.%s not found", typ)
	}
	sel := in.m.prog.MethodSets.MethodSet(t.Type()).Lookup(nil, "String")
	if sel == nil {
		in.undecided(token.NoPos, "tsl.%s has no String method", typ)
	}
	r := in.callFn(in.m.prog.MethodValue(sel), []Val{cInt(int64(code))}, nil, token.NoPos)
	s, ok := str1(r[0])
	if !ok {
		in.undecided(token.NoPos, "name of tsl.%s(%d) is not a constant", typ, code)
	}
	return s
}

func gnode6(in *Interp, s *cstore, n *CNode) *gnode {
	g := &gnode{}
	switch {
	case s.is(n, "BinaryExpr", "UnaryExpr"):
		g.name = in.strOf("Operator", n.op)
	default:
		g.name = in.strOf("Kind", n.kind)
	}
	switch {
	case s.is(n, "Identifier", "StringLiteral"):
		g.leaf, g.form, g.val = true, "text", n.str
	case s.is(n, "NumericLiteral"):
		g.leaf, g.form, g.val = true, "number", n.num
	case s.is(n, "BooleanLiteral"):
		g.leaf, g.form, g.val = true, "bool", n.b
	case s.is(n, "NullLiteral"):
		g.leaf, g.form, g.val = true, "null", cStr("NULL")
	case s.is(n, "DateLiteral", "TimestampLiteral"):
		g.leaf, g.form, g.val = true, "date", n.str
	}
	for _, k := range n.kids {
		if k != nil {
			g.kids = append(g.kids, gnode6(in, s, k))
		}
	}
	return g
}

func gnode45(g *legacy, n *lnode) *gnode {
	o := &gnode{name: g.ops[n.op]}
	if o.name == "" {
		o.name = n.op
	}
	if n.isLeaf() {
		o.leaf, o.val = true, n.val
		o.form = map[string]string{"Ident": "text", "String": "text", "Number": "number", "Boolean": "bool", "Date": "date"}[n.op]
	}
	for _, k := range append([]*lnode{n.l, n.r}, n.list...) {
		if k != nil {
			o.kids = append(o.kids, gnode45(g, k))
		}
	}
	return o
}

// texts with characters that mean something in drawings and listings.
var oddTexts = []string{"", "\"", "\\", "a\"b", "\\\"", "a\\", "{x}", "a|b", "<p>", "x\" ]\ny -> { z", "it's", "100%d %s%%", "\\n", "caf\u00e9", "[a]", "{", "|", "<", ">", "a,b;c", " x ", "\tx\n", "Ab"}

// constText replaces every text of a tree by constants, so that code that
// looks at single characters can be followed.
func (s *cstore) constTexts(n *CNode, text string) {
	i := 0
	preorder(n, 0, func(n *CNode, _ int) {
		i++
		if s.is(n, "StringLiteral") {
			n.str = cStr(text)
		}
		if s.is(n, "Identifier") {
			n.str = cStr(fmt.Sprintf("id%d.x", i))
		}
	})
}

func (n *lnode) constTexts(text string) {
	if n == nil {
		return
	}
	if n.op == "String" || n.op == "Ident" {
		n.val = cStr(text)
	}
	n.l.constTexts(text)
	n.r.constTexts(text)
	for _, k := range n.list {
		k.constTexts(text)
	}
}

// decide runs an obligation with unknown texts, and with constant texts when
// the code looks at single characters.
func (c *Check) decide(m *module, rule, label string, body func(in *Interp, text string, fail func(string, ...interface{}))) {
	const unknown = "\x00"
	fresh := func() *Check {
		t := newCheck(c.id, c.tier)
		t.trial = true
		t.effects, t.prefix = c.effects, c.prefix
		return t
	}
	tmp := fresh()
	tmp.explore(m, rule, label, func(in *Interp, fail func(string, ...interface{})) { body(in, unknown, fail) })
	if tmp.onlyUndecided() {
		tmp = fresh()
		for _, x := range []string{"abc", "x y", "\"", ""} {
			x := x
			tmp.explore(m, rule, label, func(in *Interp, fail func(string, ...interface{})) { body(in, x, fail) })
		}
		if len(tmp.order) == 0 {
			tmp.oblig[c.prefix+rule] = 1
		}
	}
	c.merge(tmp)
}

// drawArgs judges a drawing that continues a text and names its root.
func drawArgs(in *Interp, show string, o outcome, want *gnode, fail func(string, ...interface{})) {
	if o.crash == nil {
		t, ok := o.res[0].(VStr)
		if !ok || len(t.parts) == 0 || t.parts[0].atom != nil || !strings.HasPrefix(t.parts[0].s, drawHead) {
			fail("%s: %s does not begin with the text that was passed", show, key(o.res[0]))
			return
		}
		rest := VStr{parts: append([]Part(nil), t.parts...)}
		rest.parts[0].s = strings.TrimPrefix(rest.parts[0].s, drawHead)
		o.res = append([]Val{rest}, o.res[1:]...)
		if g, err := parseDot(rest); err == nil {
			named := false
			for _, v := range g.v {
				named = named || dkey(v.id) == drawRoot
			}
			if !named {
				fail("%s: no vertex has the name that was passed", show)
				return
			}
			for _, l := range g.edges {
				for _, k := range l {
					if dkey(k) == drawRoot {
						fail("%s: an edge leads to the vertex with the root's name", show)
						return
					}
				}
			}
		}
	}
	drawJudge(in, show, o, want, fail)
}

const drawHead, drawRoot = "digraph {\n\tx [label=\"\\N | {a}\"];", "top"

func drawJudge(in *Interp, show string, o outcome, want *gnode, fail func(string, ...interface{})) {
	if o.crash != nil {
		fail("%s: may crash: %s in %s (%s)", show, o.crash.what, o.crash.fn, in.position(o.crash.pos))
		return
	}
	if _, ok := o.res[1].(VNil); !ok {
		fail("%s: gives an error", show)
		return
	}
	g, err := parseDot(asStr(o.res[0]))
	if err != nil {
		fail("%s: %s is not a list of vertices and edges: %v", show, key(o.res[0]), err)
		return
	}
	if err := drawn(g, want); err != nil {
		fail("%s: %v", show, err)
	}
}

func init() {
	register("C18", "abstract interpretation of the SSA of graphviz.Walk (v6, v5, v4) on trees of every operator and operand kind; the resulting text is read back as a graph and compared with the tree, vertex names proved distinct for every choice of the random characters", func(c *Check) error {
		m, k, walk, err := newV6Walker(c, "pkg/walkers/graphviz", "Walk")
		if err != nil {
			return err
		}
		var jobs []func()
		run6 := func(rule string, t operand, text string) {
			jobs = append(jobs, func() {
				body := func(in *Interp, text string, fail func(string, ...interface{})) {
					s := in.newStore(k)
					root := t.mk(s, "x")
					if text != "\x00" {
						s.constTexts(root, text)
					}
					want := gnode6(in, s, root)
					if rule == "arguments" {
						o := in.tryCall(walk, []Val{cStr(drawHead), s.wrap(root), cStr(drawRoot)})
						drawArgs(in, s.show(root), o, want, fail)
						return
					}
					o := in.tryCall(walk, []Val{cStr(""), s.wrap(root), cStr("")})
					drawJudge(in, s.show(root), o, want, fail)
				}
				if text == "\x00" {
					c.decide(m, "v6:"+rule, t.label, body)
				} else {
					c.explore(m, "v6:"+rule, fmt.Sprintf("%s %q", t.label, text), func(in *Interp, fail func(string, ...interface{})) { body(in, text, fail) })
				}
			})
		}
		for rule, trees := range walkTrees(c.thorough(), []int{40}, []int{12, 112}) {
			for i, t := range trees {
				run6(rule, t, "\x00")
				if i%3 == 0 || rule == "leaf" {
					run6("arguments", t, "\x00")
				}
			}
		}
		for _, x := range oddTexts {
			run6("characters", opStr, x)
			run6("characters", binOf("EQ", opIdent, opStr), x)
			run6("characters", arrOf(opStr, opNum, opStr), x)
		}
		for _, ver := range []string{"v5", "v4"} {
			g, err := loadLegacy(c, ver)
			if err != nil {
				return err
			}
			p := g.m.byDir["pkg/walkers/graphviz"]
			if p == nil || p.Func("Walk") == nil {
				return fmt.Errorf("%s graphviz.Walk not found", ver)
			}
			c.scope = append(c.scope, ver+"/pkg/walkers/graphviz")
			jobs = append(jobs, g.drawJobs(c, p.Func("Walk"))...)
		}
		parallel(jobs)
		c.need("v6:operands", 1300)
		c.need("v6:nesting", 1900)
		c.need("v5:condition", 400)
		c.need("v4:condition", 200)
		c.need("v5:nesting", 400)
		c.need("v6:characters", 50)
		for _, v := range []string{"v4", "v5", "v6"} {
			c.need(v+":arguments", 50)
		}
		return nil
	})
}

// trees of the grammar of v4 and v5, by rule.
func (g *legacy) trees() map[string][]lgen {
	out := map[string][]lgen{"operand": g.columns(), "condition": g.conditions(), "nesting": g.combos()}
	for _, k := range g.litKinds() {
		out["operand"] = append(out["operand"], g.leafGen(k))
	}
	return out
}

func (g *legacy) drawJobs(c *Check, walk *ssa.Function) []func() {
	var jobs []func()
	run := func(rule string, t lgen, text string) {
		jobs = append(jobs, func() {
			body := func(in *Interp, text string, fail func(string, ...interface{})) {
				root := t.mk(in, "x")
				if text != "\x00" {
					root.constTexts(text)
				}
				if strings.HasSuffix(rule, "arguments") {
					o := in.tryCall(walk, []Val{cStr(drawHead), g.value(in, root), cStr(drawRoot)})
					drawArgs(in, root.String(), o, gnode45(g, root), fail)
					return
				}
				o := in.tryCall(walk, []Val{cStr(""), g.value(in, root), cStr("")})
				drawJudge(in, root.String(), o, gnode45(g, root), fail)
			}
			if text == "\x00" {
				c.decide(g.m, g.ver+":"+rule, t.label, body)
			} else {
				c.explore(g.m, g.ver+":"+rule, fmt.Sprintf("%s %q", t.label, text), func(in *Interp, fail func(string, ...interface{})) { body(in, text, fail) })
			}
		})
	}
	for rule, ts := range g.trees() {
		for i, t := range ts {
			run(rule, t, "\x00")
			if i%3 == 0 || rule == "operand" {
				run("arguments", t, "\x00")
			}
			if rule == "condition" {
				t := t
				run("arguments", lgen{"right of " + t.label, func(in *Interp, x string) *lnode {
					n := t.mk(in, x)
					if n.r != nil {
						n = n.r
					}
					return n
				}}, "\x00")
			}
		}
	}
	for _, k := range g.litKinds() {
		run("arguments", g.leafGen(k), "\x00")
	}
	run("arguments", g.leafGen("Ident"), "\x00")
	for _, x := range oddTexts {
		run("characters", g.leafGen("String"), x)
		run("characters", g.leafGen("Ident"), x)
		for _, t := range g.plainConditions() {
			if strings.HasPrefix(t.label, "Like") || t.label == "In" {
				run("characters", t, x)
			}
		}
	}
	return jobs
}
