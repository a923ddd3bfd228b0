package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: ownership of tree nodes. C08: kinds, operators and accessors.
// C01: the lock around the parser.

func init() {
	register("C02", "abstract interpretation of the tree operations (Go SSA and the LLVM IR of the C core) with an ownership state per block, for every operation on every kind of node and every occupancy of its slots", checkC02)
	register("C08", "abstract interpretation of parser, accessors and name methods (Go SSA and LLVM IR) for every kind and operator; comparison with the constants of the type-checked package", checkC08)
	register("C01", "lock-set analysis: abstract interpretation of ParseTSL and the tree operations records every access to C globals, Go package variables and parser memory with the locks held; effect analysis of the C call graph for every call site", checkC01)
}

// treeTexts are expressions that cover every kind of node with every kind of
// child.
func (k *core) treeSentences() [][]string {
	all := k.sentences()
	var out [][]string
	for _, rule := range []string{"arrays", "operators", "nesting", "state", "texts"} {
		for _, l := range all[rule] {
			if w, _ := k.lr.parse(l); w != nil {
				out = append(out, l)
			}
		}
	}
	return out
}

// printedNames are the documented names of kinds and operators.
var printedNames = map[string]string{
	"KindNumericLiteral": "NUMBER", "KindStringLiteral": "STRING", "KindIdentifier": "IDENTIFIER", "KindBinaryExpr": "BINARY_EXP",
	"KindUnaryExpr": "UNARY_EXP", "KindDateLiteral": "DATE", "KindTimestampLiteral": "TIMESTAMP", "KindArrayLiteral": "ARRAY",
	"KindBooleanLiteral": "BOOLEAN", "KindNullLiteral": "NULL",
	"OpEQ": "EQ", "OpNE": "NE", "OpLT": "LT", "OpLE": "LE", "OpGT": "GT", "OpGE": "GE", "OpREQ": "REQ", "OpRNE": "RNE",
	"OpAnd": "AND", "OpOr": "OR", "OpNot": "NOT", "OpLike": "LIKE", "OpILike": "ILIKE", "OpIn": "IN", "OpBetween": "BETWEEN", "OpIs": "IS",
	"OpPlus": "ADD", "OpMinus": "SUB", "OpStar": "MUL", "OpSlash": "DIV", "OpPercent": "MOD", "OpUMinus": "NEG",
	"OpLen": "LEN", "OpAny": "ANY", "OpAll": "ALL", "OpSum": "SUM",
}

// snapshot is the content of a set of blocks.
func snapshot(objs map[*CObj]bool) map[*CObj]string {
	out := map[*CObj]string{}
	for o := range objs {
		var offs []int64
		for k := range o.cells {
			offs = append(offs, k)
		}
		sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
		var b strings.Builder
		for _, k := range offs {
			c := o.cells[k]
			fmt.Fprintf(&b, "%d/%d:%s", k, c.w, c.v)
			if c.v.o != nil {
				b.WriteString("@" + c.v.o.name)
			}
			b.WriteString(";")
		}
		fmt.Fprint(&b, o.freed)
		out[o] = b.String()
	}
	return out
}

func (r *crun) blocks(nodes ...Val) map[*CObj]bool {
	m := map[*CObj]bool{}
	for _, n := range nodes {
		if n != nil && !isNilVal(n) {
			cReach(r.nodeObj(n), m)
		}
	}
	return m
}

// mustParse gives the tree of a sentence.
func (r *crun) mustParse(toks []string) Val {
	text, _ := r.sentence(toks)
	node, e := r.parse(text)
	if isNilVal(node) || !isNilVal(e) {
		r.fail("%s is rejected", strings.Join(toks, " "))
		return nil
	}
	return node
}

// nothingElse checks that all memory except the scanner's is in the given trees.
func (r *crun) nothingElse(parses int, what string, nodes ...Val) bool {
	want := r.base[1]
	if parses == 1 {
		want = r.base[0]
	}
	sizes, msg := r.kept(nodes...)
	if !sameSizes(sizes, want) {
		r.fail("%s: blocks neither released nor part of a tree: %s", what, msg)
		return false
	}
	return true
}

func (r *crun) isTrue(v Val) bool {
	c, ok := v.(VConst)
	return ok && c.c.Kind() == constant.Bool && constant.BoolVal(c.c)
}

// cloned clones a tree and frees both.
func (r *crun) cloned(parses int, node Val) {
	before := r.tree(node).String()
	orig := r.blocks(node)
	snap := snapshot(orig)
	for o := range orig {
		o.ro = true
	}
	cl := r.goCall("Clone", node)[0]
	for o := range orig {
		o.ro = false
	}
	if isNilVal(cl) {
		r.fail("the clone of %s is nil", before)
		return
	}
	if s := r.tree(cl).String(); s != before {
		r.fail("the clone of %s is %s", before, s)
		return
	}
	for o := range r.blocks(cl) {
		if orig[o] {
			r.fail("clone and original share %s (allocated in %s)", o.name, o.where)
			return
		}
	}
	for o, s := range snapshot(orig) {
		if snap[o] != s {
			r.fail("cloning changes the original")
			return
		}
	}
	if !r.nothingElse(parses, "after Clone", node, cl) {
		return
	}
	// each can be freed without the other
	r.goCall("Free", node)
	for o := range orig {
		if !o.freed {
			r.fail("Free leaves %s (allocated in %s)", o.name, o.where)
			return
		}
	}
	if s := r.tree(cl).String(); s != before {
		r.fail("after freeing the original the clone is %s instead of %s", s, before)
		return
	}
	r.goCall("Free", cl)
	r.goCall("Free", cl) // nothing left to free
	r.nothingElse(parses, "after freeing both")
}

func checkC02(c *Check) error {
	k, err := newCore(c)
	if err != nil {
		return err
	}
	k.baseline("baseline")
	sents := k.treeSentences()
	var jobs []func()
	job := func(rule, name string, body func(r *crun)) {
		jobs = append(jobs, func() { k.explore(rule, name, body) })
	}
	for _, toks := range sents {
		toks := toks
		job("clone", strings.Join(toks, " "), func(r *crun) {
			if node := r.mustParse(toks); node != nil {
				r.cloned(1, node)
			}
		})
	}
	// children of every kind
	kids := [][]string{{"IDENT"}, {"NUMBER"}, {"STRING"}, {"true"}, {"DATE"}, {"RFC3339"}, {"STRING#0"}, {"STRING#40"}, {"(", "IDENT", "=", "NUMBER", ")"}, {"(", "not", "IDENT", ")"}, {"(", "IDENT", "is", "null", ")"}, {"[", "IDENT", ",", "NUMBER", "]"}, {"[", "]"}, {"(", "-", "(", "IDENT", "+", "STRING", ")", ")"}}
	cat := func(ls ...[]string) []string {
		var o []string
		for _, l := range ls {
			o = append(o, l...)
		}
		return o
	}
	// slots: how to reach a child of a parsed node
	type slot struct {
		name           string
		detach, attach string
		n, i           int // children, index of the slot
		mk             func(kids ...[]string) []string
	}
	var slots []slot
	for _, op := range []string{"=", "and", "+", "in", "like"} {
		op := op
		mk := func(kids ...[]string) []string { return cat(kids[0], []string{op}, kids[1]) }
		slots = append(slots, slot{"left of " + op, "DetachLeft", "AttachLeft", 2, 0, mk}, slot{"right of " + op, "DetachRight", "AttachRight", 2, 1, mk})
	}
	for _, op := range []string{"not", "-", "len"} {
		op := op
		slots = append(slots, slot{"child of " + op, "DetachChild", "AttachChild", 1, 0, func(kids ...[]string) []string {
			return cat([]string{op, "("}, kids[0], []string{")"})
		}})
	}
	for n := 1; n <= 3; n++ {
		for i := 0; i < n; i++ {
			n, i := n, i
			slots = append(slots, slot{fmt.Sprintf("element %d of %d", i, n), "", "AttachElement", n, i, func(kids ...[]string) []string {
				l := []string{"["}
				for j := 0; j < n; j++ {
					if j > 0 {
						l = append(l, ",")
					}
					l = append(l, kids[j]...)
				}
				return append(l, "]")
			}})
		}
	}
	fill := func(s slot, kid, rest []string) []string {
		var l [][]string
		for j := 0; j < s.n; j++ {
			if j == s.i {
				l = append(l, kid)
			} else {
				l = append(l, rest)
			}
		}
		return s.mk(l...)
	}
	attachArgs := func(s slot, node, child Val) []Val {
		if s.attach == "AttachElement" {
			return []Val{node, cInt(int64(s.i)), child}
		}
		return []Val{node, child}
	}
	for _, s := range slots {
		for ki, kid := range kids {
			s, kid := s, kid
			rest := kids[(ki+1)%len(kids)]
			name := s.name + " holding " + strings.Join(kid, " ")
			if s.detach != "" {
				job("detach", name, func(r *crun) {
					node := r.mustParse(fill(s, kid, rest))
					if node == nil {
						return
					}
					t := r.tree(node)
					ch := r.goCall(s.detach, node)[0]
					if isNilVal(ch) {
						r.fail("%s of %s gives nothing", s.detach, t)
						return
					}
					if got := r.tree(ch).String(); got != t.kids[s.i].String() {
						r.fail("%s of %s gives %s", s.detach, t, got)
						return
					}
					after := r.tree(node)
					for j := range t.kids {
						want := t.kids[j].String()
						if j == s.i {
							want = "nothing"
						}
						if after.kids[j].String() != want {
							r.fail("after %s, %s is %s", s.detach, t, after)
							return
						}
					}
					if !isNilVal(r.goCall(s.detach, node)[0]) {
						r.fail("%s on an empty slot gives a node", s.detach)
						return
					}
					both := r.blocks(node)
					for o := range r.blocks(ch) {
						if both[o] {
							r.fail("after %s parent and child share %s", s.detach, o.name)
							return
						}
					}
					cl := r.goCall("Clone", node)[0]
					if got := r.tree(cl).String(); got != after.String() {
						r.fail("the clone of %s is %s", after, got)
						return
					}
					r.goCall("Free", cl)
					if !r.nothingElse(1, "after "+s.detach, node, ch) {
						return
					}
					r.goCall("Free", node)
					if got := r.tree(ch).String(); got != t.kids[s.i].String() {
						r.fail("freeing the parent changes the detached child")
						return
					}
					r.goCall("Free", ch)
					r.nothingElse(1, "after freeing both")
				})
			}
			for _, empty := range []bool{false, true} {
				empty := empty
				if empty && s.detach == "" {
					continue
				}
				nm := name
				if empty {
					nm = s.name + ", empty, given " + strings.Join(kid, " ")
				}
				job("attach", nm, func(r *crun) {
					first := kid
					if empty {
						first = rest
					}
					node := r.mustParse(fill(s, first, rest))
					sub := kid
					if !empty {
						sub = rest
					}
					child := r.mustParse(sub)
					if node == nil || child == nil {
						return
					}
					if empty {
						old := r.goCall(s.detach, node)[0]
						r.goCall("Free", old)
					}
					t, ct := r.tree(node), r.tree(child)
					cb := r.blocks(child)
					snap := snapshot(cb)
					keep := map[*CObj]bool{}
					for o := range cb {
						keep[o] = true
					}
					res := r.goCall(s.attach, attachArgs(s, node, child)...)
					if !r.isTrue(res[0]) {
						r.fail("%s on %s fails", s.attach, t)
						return
					}
					after := r.tree(node)
					if after.kind != t.kind || after.op != t.op || len(after.kids) != len(t.kids) {
						r.fail("%s of %s to %s gives %s", s.attach, ct, t, after)
						return
					}
					for j := range t.kids {
						want := t.kids[j].String()
						if j == s.i {
							want = ct.String()
						}
						if after.kids[j].String() != want {
							r.fail("%s of %s to %s gives %s", s.attach, ct, t, after)
							return
						}
					}
					for o, x := range snapshot(keep) {
						if x != snap[o] || !r.blocks(node)[o] {
							r.fail("%s changes or copies the child", s.attach)
							return
						}
					}
					if !r.nothingElse(2, "after "+s.attach, node) {
						return
					}
					r.goCall("Free", node)
					r.nothingElse(2, "after freeing the parent")
				})
			}
		}
	}
	// clones of trees the grammar does not build: any node, the null literal
	// too, in any slot
	for _, s := range slots {
		for _, kid := range append([][]string{nil}, kids...) {
			s, kid := s, kid
			name := "null"
			if kid != nil {
				name = strings.Join(kid, " ")
			}
			job("clone", s.name+" given "+name, func(r *crun) {
				node := r.mustParse(fill(s, kids[0], kids[1]))
				from := kid
				if kid == nil {
					from = []string{"IDENT", "is", "null"}
				}
				child := r.mustParse(from)
				if node == nil || child == nil {
					return
				}
				if kid == nil {
					is := child
					child = r.goCall("DetachRight", is)[0]
					r.goCall("Free", is)
				}
				if !r.isTrue(r.goCall(s.attach, attachArgs(s, node, child)...)[0]) {
					r.fail("%s fails", s.attach)
					return
				}
				r.cloned(2, node)
			})
		}
	}
	// operations on nodes of the wrong kind, on nothing, outside the array
	all := append([][]string{}, kids...)
	for _, toks := range all {
		for _, op := range []string{"DetachLeft", "DetachRight", "DetachChild", "AttachLeft", "AttachRight", "AttachChild", "AttachElement"} {
			toks, op := toks, op
			for _, idx := range []int64{-1, 0, 1, 2, 3, 1 << 31, 1 << 32, 1<<32 + 1, -1 << 63} {
				idx := idx
				if op != "AttachElement" && idx != 0 {
					continue
				}
				nm := op + " on " + strings.Join(toks, " ")
				if op == "AttachElement" {
					nm += fmt.Sprintf(" at %d", idx)
				}
				job("refused", nm, func(r *crun) {
					node := r.mustParse(toks)
					child := r.mustParse([]string{"IDENT"})
					if node == nil || child == nil {
						return
					}
					t := r.tree(node)
					right := map[string]string{"DetachLeft": "BinaryExpr", "AttachLeft": "BinaryExpr", "DetachRight": "BinaryExpr", "AttachRight": "BinaryExpr", "DetachChild": "UnaryExpr", "AttachChild": "UnaryExpr", "AttachElement": "ArrayLiteral"}[op]
					if t.kind == right && (op != "AttachElement" || idx >= 0 && idx < int64(len(t.kids))) {
						return
					}
					bl := r.blocks(node, child)
					for o := range bl {
						o.ro = true
					}
					var res Val
					switch {
					case strings.HasPrefix(op, "Detach"):
						res = r.goCall(op, node)[0]
						if !isNilVal(res) {
							r.fail("%s of %s gives a node", op, t)
						}
					case op == "AttachElement":
						res = r.goCall(op, node, cInt(idx), child)[0]
					default:
						res = r.goCall(op, node, child)[0]
					}
					if strings.HasPrefix(op, "Attach") && r.isTrue(res) {
						r.fail("%s to %s succeeds", op, t)
					}
					for o := range bl {
						o.ro = false
					}
					if got := r.tree(node).String(); got != t.String() {
						r.fail("a refused %s changes %s to %s", op, t, got)
						return
					}
					if r.nothingElse(2, "after a refused "+op, node, child) {
						r.goCall("Free", node)
						r.goCall("Free", child)
						r.nothingElse(2, "after freeing both")
					}
				})
			}
		}
	}
	for _, op := range []string{"DetachLeft", "DetachRight", "DetachChild", "AttachLeft", "AttachRight", "AttachChild", "AttachElement", "Clone"} {
		op := op
		job("nothing", op+" on a nil node", func(r *crun) {
			child := r.mustParse([]string{"IDENT"})
			switch {
			case op == "Clone" || strings.HasPrefix(op, "Detach"):
				if !isNilVal(r.goCall(op, VNil{})[0]) {
					r.fail("%s of nil gives a node", op)
				}
			case op == "AttachElement":
				if r.isTrue(r.goCall(op, VNil{}, cInt(0), child)[0]) {
					r.fail("%s to nil succeeds", op)
				}
			default:
				if r.isTrue(r.goCall(op, VNil{}, child)[0]) {
					r.fail("%s to nil succeeds", op)
				}
			}
			r.nothingElse(1, "after "+op, child)
		})
		if strings.HasPrefix(op, "Attach") {
			job("nothing", op+" of a nil node", func(r *crun) {
				toks := map[string][]string{"AttachLeft": {"IDENT", "=", "NUMBER"}, "AttachRight": {"IDENT", "=", "NUMBER"}, "AttachChild": {"not", "IDENT"}, "AttachElement": {"[", "IDENT", "]"}}[op]
				node := r.mustParse(toks)
				t := r.tree(node).String()
				var res Val
				if op == "AttachElement" {
					res = r.goCall(op, node, cInt(0), VNil{})[0]
				} else {
					res = r.goCall(op, node, VNil{})[0]
				}
				if r.isTrue(res) {
					r.fail("%s of nil succeeds", op)
				}
				if got := r.tree(node).String(); got != t {
					r.fail("%s of nil changes %s to %s", op, t, got)
				}
			})
		}
	}
	parallel(jobs)
	c.cov["trees"] = len(sents)
	c.need("clone", 500)
	c.need("detach", 100)
	c.need("attach", 200)
	c.need("refused", 100)
	c.need("nothing", 10)
	return nil
}

// --- C08 --------------------------------------------------------------------

func checkC08(c *Check) error {
	k, err := newCore(c)
	if err != nil {
		return err
	}
	// codes and names
	pkg := k.m.byDir["pkg/tsl"]
	for _, typ := range []string{"Kind", "Operator"} {
		typ := typ
		codes := map[string]int{}
		prefix := map[string]string{"Kind": "Kind", "Operator": "Op"}[typ]
		for _, n := range pkg.Pkg.Scope().Names() {
			o, ok := pkg.Pkg.Scope().Lookup(n).(*types.Const)
			if !ok || !strings.HasPrefix(n, prefix) {
				continue
			}
			if nt, ok := o.Type().(*types.Named); !ok || nt.Obj().Name() != typ {
				continue
			}
			v, _ := constant.Int64Val(constant.ToInt(o.Val()))
			codes[n] = int(v)
		}
		byCode, byName := map[int]string{}, map[string]string{}
		for _, n := range sortedInts(codes) {
			n := n
			if o, ok := byCode[codes[n]]; ok {
				c.fail("codes", typ+" "+n, "%s and %s have the same code %d", o, n, codes[n])
			}
			byCode[codes[n]] = n
			c.explore(k.m, "names", typ+" "+n, func(in *Interp, fail func(string, ...interface{})) {
				s := in.strOf(typ, codes[n])
				if s == "" {
					fail("%s has an empty name", n)
				}
				if o, ok := byName[s]; ok && o != n {
					fail("%s and %s are both printed as %q", o, n, s)
				}
				byName[s] = n
				if w := printedNames[n]; w != "" && s != w {
					fail("%s is printed as %q instead of %q", n, s, w)
				}
				if u := in.strOf(typ, -7); u == s {
					fail("%s is printed like an unknown code, %q", n, s)
				}
			})
			c.ok("codes", 1)
		}
	}
	// every kind and operator as the parser builds it and the Go side reads it
	type form struct {
		toks []string
	}
	var forms []form
	lits := []string{"IDENT", "NUMBER", "STRING", "true", "false", "DATE", "RFC3339"}
	for _, l := range lits {
		forms = append(forms, form{[]string{l}})
	}
	infix := []string{"=", "!=", "<", "<=", ">", ">=", "~=", "~!", "like", "ilike", "in", "and", "or", "+", "-", "*", "/", "%"}
	for _, op := range infix {
		for i, a := range lits {
			forms = append(forms, form{[]string{a, op, lits[(i+1)%len(lits)]}})
			forms = append(forms, form{[]string{a, op, "(", "not", lits[(i+2)%len(lits)], ")"}})
			forms = append(forms, form{[]string{"(", a, "=", lits[(i+3)%len(lits)], ")", op, "[", "IDENT", ",", "NUMBER", "]"}})
		}
	}
	for _, op := range []string{"not", "len", "any", "all", "sum", "-"} {
		for _, a := range lits {
			forms = append(forms, form{[]string{op, a}}, form{[]string{op, "(", a, "=", "STRING", ")"}}, form{[]string{op, "[", a, "]"}})
		}
	}
	forms = append(forms, form{[]string{"IDENT", "is", "null"}}, form{[]string{"IDENT", "is", "not", "null"}}, form{[]string{"IDENT", "between", "NUMBER", "and", "DATE"}})
	forms = append(forms, form{[]string{"STRING#0", "=", "IDENT#1"}}, form{[]string{"IDENT", "like", "STRING#1"}}, form{[]string{"[", "STRING#0", ",", "STRING#300", ",", "IDENT#300", "]"}})
	for n := 0; n <= 1030; n++ {
		if near := n&(n-1) == 0 || n&(n+1) == 0 || (n-1)&(n-2) == 0; n > 12 && (!near) {
			continue // beside the powers of two
		}
		l := []string{"["}
		for i := 0; i < n; i++ {
			if i > 0 {
				l = append(l, ",")
			}
			if n > 12 {
				l = append(l, lits[i%5]) // a date may be valid or not
			} else {
				l = append(l, lits[i%len(lits)])
			}
		}
		forms = append(forms, form{append(l, "]")})
	}
	kinds, ops := map[string]bool{}, map[string]bool{}
	var jobs []func()
	var walk func(t *ctree)
	walk = func(t *ctree) {
		if t == nil {
			return
		}
		kinds[t.kind] = true
		if t.op != "" {
			ops[t.op] = true
		}
		for _, x := range t.kids {
			walk(x)
		}
	}
	for _, f := range forms {
		f := f
		want, _ := k.lr.parse(f.toks)
		jobs = append(jobs, func() {
			name := strings.Join(f.toks, " ")
			if len(f.toks) > 40 {
				name = fmt.Sprintf("%s ... (%d tokens)", strings.Join(f.toks[:8], " "), len(f.toks))
			}
			k.explore("forms", name, func(r *crun) {
				if len(f.toks) > 500 {
					r.ci.maxSteps *= 20 // the parser copies a list for every element
				}
				text, lex := r.sentence(f.toks)
				node, e := r.parse(text)
				if isNilVal(node) || !isNilVal(e) {
					r.fail("rejected")
					return
				}
				t := r.tree(node)
				if s := r.sameTree(t, want, f.toks, lex); s != "" {
					r.fail("gives %s: %s", t, s)
					return
				}
				c.mu.Lock()
				walk(t)
				c.mu.Unlock()
				// a missing operand reads as absent
				for _, d := range map[string][]string{"BinaryExpr": {"DetachLeft", "DetachRight"}, "UnaryExpr": {"DetachChild"}}[t.kind] {
					r.goCall(d, node)
					after := r.tree(node)
					i := 0
					if d == "DetachRight" {
						i = 1
					}
					if after.kids[i] != nil {
						r.fail("after %s the operand reads as %s", d, after.kids[i])
					}
				}
			})
		})
	}
	parallel(jobs)
	for _, n := range sortedInts(k.k.kind) {
		if !kinds[n] {
			c.fail("coverage", "Kind"+n, "no expression gives a node of kind %s (code %d)", n, k.k.kind[n])
		} else {
			c.ok("coverage", 1)
		}
	}
	for _, n := range sortedInts(k.k.op) {
		if !ops[n] {
			c.fail("coverage", "Op"+n, "no expression gives operator %s (code %d)", n, k.k.op[n])
		} else {
			c.ok("coverage", 1)
		}
	}
	c.cov["kinds"] = len(k.k.kind)
	c.cov["operators"] = len(k.k.op)
	c.need("names", 30)
	c.need("codes", 30)
	c.need("forms", 300)
	c.need("coverage", 30)
	return nil
}

func sortedInts(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// --- C01 --------------------------------------------------------------------

// cEffects finds the mutable globals each C function may touch, itself or
// through the functions it calls.
func (p *cProgram) effects() map[*cFunc]map[string]bool {
	eff := map[*cFunc]map[string]bool{}
	calls := map[*cFunc][]*cFunc{}
	for _, u := range p.units {
		for _, f := range u.funcs {
			m := map[string]bool{}
			var op func(o cOperand)
			op = func(o cOperand) {
				if o.k == 'g' {
					g := p.global(f.mod, o.glob)
					switch {
					case g == nil:
						if h := p.resolve(f.mod, o.glob); h != nil {
							calls[f] = append(calls[f], h)
						}
					case g.constant, g.external && (g.name == "stderr" || g.name == "stdout" || g.name == "stdin"):
					default:
						m[g.name] = true
					}
				}
				if o.x != nil {
					for _, a := range o.x.args {
						op(a)
					}
				}
				for _, a := range o.agg {
					op(a)
				}
			}
			for _, b := range f.blocks {
				for _, l := range [][]*cInstr{b.phis, b.instr} {
					for _, in := range l {
						for _, a := range in.args {
							op(a)
						}
						if in.op == "call" && in.name != "" {
							if h := p.resolve(f.mod, in.name); h != nil {
								calls[f] = append(calls[f], h)
							}
						}
					}
				}
			}
			eff[f] = m
		}
	}
	for changed := true; changed; {
		changed = false
		for f, l := range calls {
			for _, h := range l {
				for g := range eff[h] {
					if !eff[f][g] {
						eff[f][g] = true
						changed = true
					}
				}
			}
		}
	}
	return eff
}

// lockRun watches one abstract run for accesses to shared state.
type lockRun struct {
	r      *crun
	held   map[string]int
	common map[string]bool // locks held at every access so far; nil before the first
	under  map[*CObj]bool  // blocks allocated while a lock was held
	region int             // locked regions with accesses to shared state
	in     bool
	late   []struct {
		o     *CObj
		where string
	}
	nheap  int
	bad    string
	goRead map[string]string // package variables read without the lock
	goWr   map[string]string
	acc    int
}

func (l *lockRun) fail(format string, a ...interface{}) {
	if l.bad == "" {
		l.bad = fmt.Sprintf(format, a...)
	}
}

func (l *lockRun) locks() (n int) {
	for _, v := range l.held {
		if v > 0 {
			n++
		}
	}
	return
}

func (l *lockRun) newBlocks() {
	h := l.r.ci.heap
	for ; l.nheap < len(h); l.nheap++ {
		if l.locks() > 0 {
			l.under[h[l.nheap]] = true
		}
	}
}

func (l *lockRun) shared(what string) {
	l.acc++
	if l.locks() == 0 {
		l.fail("%s without a lock", what)
		return
	}
	if !l.in {
		l.in = true
		l.region++
		if l.region > 1 {
			l.fail("%s in a second locked region: another parse may run between the two", what)
		}
	}
	if l.common == nil {
		l.common = map[string]bool{}
		for k, v := range l.held {
			if v > 0 {
				l.common[k] = true
			}
		}
	}
	for k := range l.common {
		if l.held[k] <= 0 {
			delete(l.common, k)
		}
	}
	if len(l.common) == 0 {
		l.fail("%s under another lock than before", what)
	}
}

func (k *core) watch(r *crun) *lockRun {
	l := &lockRun{r: r, held: map[string]int{}, under: map[*CObj]bool{}, goRead: map[string]string{}, goWr: map[string]string{}}
	r.in.onLock = func(op string, mutex Val, pos token.Pos) {
		l.newBlocks()
		p, ok := mutex.(VPtr)
		if !ok {
			r.in.undecided(pos, "lock %s", key(mutex))
		}
		name := fmt.Sprint(p.obj.name, p.path)
		if !p.obj.global {
			name = "" // a lock of this call only protects nothing
		}
		switch op {
		case "Lock":
			if name != "" {
				if l.held[name] > 0 {
					l.fail("%s is locked again while it is held", name)
				}
				l.held[name]++
			}
		case "Unlock":
			if name != "" {
				l.held[name]--
				if l.held[name] < 0 {
					l.fail("%s is unlocked without being locked", name)
				}
				l.in = false
			}
		case "RLock", "RUnlock":
			// a shared lock does not exclude other parses
		default:
			r.in.undecided(pos, "lock operation %s", op)
		}
	}
	r.ci.onAccess = func(o *CObj, off int64, write bool) {
		l.newBlocks()
		switch {
		case o.kind == 'c' || o.kind == 's':
		case o.kind == 'g':
			what := "reads"
			if write {
				what = "writes"
			}
			l.shared(fmt.Sprintf("%s %s the variable %s", r.ci.fnName(), what, o.name))
		case l.locks() == 0:
			l.late = append(l.late, struct {
				o     *CObj
				where string
			}{o, r.ci.fnName()})
		}
	}
	r.in.onGlobal = func(name string, write bool, pos token.Pos) {
		if strings.HasSuffix(name, "Mutex") || l.held[name+"[]"] > 0 {
			return
		}
		if l.locks() == 0 {
			if l.goRead[name] == "" {
				l.goRead[name] = r.in.where(pos)
			}
			if write {
				l.fail("package variable %s is written without a lock in %s", name, r.in.where(pos))
			}
		}
		if write {
			l.goWr[name] = r.in.where(pos)
		}
	}
	return l
}

// finish decides the unlocked accesses to memory allocated under the lock.
func (l *lockRun) finish(own map[*CObj]bool) string {
	l.newBlocks()
	if l.bad == "" && l.locks() > 0 {
		l.fail("returns while the lock is held")
	}
	for _, e := range l.late {
		if l.under[e.o] && !own[e.o] {
			l.fail("%s touches %s (allocated in %s), which belongs to the parser, without a lock", e.where, e.o.name, e.o.where)
		}
	}
	for n, w := range l.goWr {
		if rd := l.goRead[n]; rd != "" {
			l.fail("package variable %s is written in %s and read without a lock in %s", n, w, rd)
		}
	}
	return l.bad
}

// outcome describes what a parse gives: its tree or its error.
func (r *crun) outcome(node, e Val) string {
	if !isNilVal(node) {
		s := r.tree(node).String()
		if !isNilVal(e) {
			s += " and an error"
		}
		return s
	}
	i, ok := e.(VIface)
	if !ok || i.dyn == nil {
		return "neither a tree nor an error"
	}
	v := i.v
	if p, ok := v.(VPtr); ok {
		v = r.in.load(p, nil, token.NoPos)
	}
	return "error " + key(v)
}

func checkC01(c *Check) error {
	k, err := newCore(c)
	if err != nil {
		return err
	}
	sents := k.sentences()
	var all [][]string
	for _, rule := range []string{"arrays", "state"} {
		all = append(all, sents[rule]...)
	}
	common := map[string]int{}
	runs, accesses := 0, 0
	seenCalls := map[token.Pos]bool{}
	var jobs []func()
	record := func(l *lockRun) {
		c.mu.Lock()
		runs++
		accesses += l.acc
		for n := range l.common {
			common[n]++
		}
		c.mu.Unlock()
	}
	parse := func(rule, name string, text func(r *crun) []CV) {
		jobs = append(jobs, func() {
			k.explore(rule, name, func(r *crun) {
				l := k.watch(r)
				node, _ := r.parse(text(r))
				for _, ev := range r.in.events {
					if strings.HasPrefix(ev.kind, "c:") {
						c.mu.Lock()
						seenCalls[ev.pos] = true
						c.mu.Unlock()
					}
				}
				if s := l.finish(r.blocks(node)); s != "" {
					r.fail("%s", s)
				}
				if l.acc == 0 {
					// the text was refused before the parser was entered
					return
				}
				record(l)
			})
		})
	}
	for _, toks := range all {
		toks := toks
		parse("parse", strings.Join(toks, " "), func(r *crun) []CV {
			t, _ := r.sentence(toks)
			return t
		})
	}
	for n := 0; n <= 2; n++ {
		n := n
		parse("any text", fmt.Sprintf("any text of %d bytes", n), func(r *crun) []CV {
			var l []CV
			for i := 0; i < n; i++ {
				l = append(l, symByte(r.ci.sym(fmt.Sprintf("b%d", i), func(int) bool { return true })))
			}
			return l
		})
	}
	// tree operations touch nothing shared
	for i, toks := range k.treeSentences() {
		if i%3 != 0 && len(toks) > 7 {
			continue
		}
		toks := toks
		jobs = append(jobs, func() {
			k.explore("tree operations", strings.Join(toks, " "), func(r *crun) {
				node := r.mustParse(toks)
				if node == nil {
					return
				}
				other := r.mustParse([]string{"[", "IDENT", "]"})
				if other == nil {
					return
				}
				own := r.blocks(node)
				cap := len(r.ci.heap)
				what := ""
				r.ci.onAccess = func(o *CObj, off int64, write bool) {
					if what != "" || o.kind == 'c' || o.kind == 's' {
						return
					}
					if o.kind == 'h' {
						if own[o] {
							return
						}
						for i := cap; i < len(r.ci.heap); i++ {
							if r.ci.heap[i] == o {
								return
							}
						}
					}
					what = fmt.Sprintf("%s touches %s, which is shared with other trees or the parser", r.ci.fnName(), o.name)
				}
				r.in.onGlobal = func(name string, write bool, pos token.Pos) {
					if write && what == "" {
						what = fmt.Sprintf("package variable %s is written in %s", name, r.in.where(pos))
					}
				}
				r.tree(node)
				cl := r.goCall("Clone", node)[0]
				r.tree(cl)
				for _, op := range [][2]string{{"DetachLeft", "AttachLeft"}, {"DetachRight", "AttachRight"}, {"DetachChild", "AttachChild"}} {
					if ch := r.goCall(op[0], node)[0]; !isNilVal(ch) {
						r.goCall(op[1], cl, ch)
						r.goCall(op[1], node, r.goCall("Clone", cl)[0])
					}
				}
				r.goCall("AttachElement", node, cInt(0), r.goCall("Clone", cl)[0])
				r.goCall("Free", cl)
				if what != "" {
					r.fail("%s", what)
				}
			})
		})
	}
	// what a parse gives does not depend on the parses before it
	probes := []string{"x = 1", "a and (b", "x = [1, 'z'", "'x", "", "1 $", "a between 1 and 2k", "a.b[0] in ['u', '2020-01-01'] or not c like '%'", "\n\n  a\n = )", "a b c d e f"}
	alone := make([]string, len(probes))
	for i, p := range probes {
		i, p := i, p
		k.explore("alone", fmt.Sprintf("%q", p), func(r *crun) { alone[i] = r.outcome(r.parse(lit(p))) })
	}
	var before [][]string
	for _, rule := range []string{"state", "arrays"} {
		before = append(before, sents[rule]...)
	}
	odd := []string{"'abc", "x = \"u", "a = $", "\x01", "a = '2020-99-99'", "`", "x in ['", "\n\n\n(", "a = 1x", "12345678901234567890123456789 = )"}
	for i, toks := range before {
		toks, p := toks, i%len(probes)
		jobs = append(jobs, func() {
			k.explore("history", fmt.Sprintf("%s, then %q", strings.Join(toks, " "), probes[p]), func(r *crun) {
				text, _ := r.sentence(toks)
				node, _ := r.parse(text)
				if !isNilVal(node) && len(toks)%2 == 0 {
					r.goCall("Free", node)
				}
				if got := r.outcome(r.parse(lit(probes[p]))); got != alone[p] {
					r.fail("gives %s instead of %s", got, alone[p])
				}
			})
		})
	}
	for _, o := range odd {
		for p := range probes {
			o, p := o, p
			jobs = append(jobs, func() {
				k.explore("history", fmt.Sprintf("%q, then %q", o, probes[p]), func(r *crun) {
					r.parse(lit(o))
					if got := r.outcome(r.parse(lit(probes[p]))); got != alone[p] {
						r.fail("gives %s instead of %s", got, alone[p])
					}
				})
			})
		}
	}
	parallel(jobs)
	// one lock for all
	full := 0
	for _, n := range common {
		if n == runs {
			full++
		}
	}
	if full == 0 {
		c.fail("one lock", "ParseTSL", "no lock is held in all %d analysed parses: %v", runs, common)
	} else {
		c.ok("one lock", 1)
	}
	// every call site of a C function that touches shared state
	eff := k.p.effects()
	sites := 0
	for fn := range k.m.allFunctions("pkg/tsl") {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := call.Common().StaticCallee()
				if cal == nil || !strings.HasPrefix(cal.Name(), "_Cfunc_") {
					continue
				}
				f := k.p.fn(strings.TrimPrefix(cal.Name(), "_Cfunc_"))
				if f == nil {
					continue
				}
				sites++
				if len(eff[f]) == 0 {
					c.ok("call sites", 1)
					continue
				}
				if fn.Parent() == nil && strings.HasPrefix(fn.Name(), "_C") {
					continue
				}
				if !seenCalls[call.Pos()] {
					c.fail("call sites", fn.String(), "calls the C function %s, which touches the shared variables %s, outside the analysed parse", f.name, strings.Join(sortedKeys(eff[f]), ", "))
				} else {
					c.ok("call sites", 1)
				}
			}
		}
	}
	c.cov["parses analysed"] = runs
	c.cov["accesses to parser state checked"] = accesses
	c.cov["call sites of C functions"] = sites
	c.cov["locks held in every parse"] = common
	c.need("parse", 2000)
	c.need("any text", 3)
	c.need("history", 2000)
	c.need("tree operations", 300)
	c.need("call sites", 10)
	return nil
}
