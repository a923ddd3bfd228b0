package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C16: v6 identifier walker.

func newV6Walker(c *Check, pkg, fn string) (*module, *v6consts, *ssa.Function, error) {
	m, err := loadModule("v6", "./pkg/...")
	if err != nil {
		return nil, nil, nil, err
	}
	k, err := v6Consts(m)
	if err != nil {
		return nil, nil, nil, err
	}
	p := m.byDir[pkg]
	if p == nil || p.Func(fn) == nil {
		return nil, nil, nil, fmt.Errorf("v6 %s.%s not found", pkg, fn)
	}
	c.scope = append(c.scope, "v6/"+pkg, "v6/pkg/tsl (Go side)")
	c.assume = append(c.assume, "the C accessor functions return the stored data and ast_free, ast_clone, attach and detach move ownership as documented (decided by C02 and C08)")
	return m, k, p.Func(fn), nil
}

// reach marks the nodes of a tree.
func reach(n *CNode, seen map[*CNode]bool) {
	if n == nil || seen[n] {
		return
	}
	seen[n] = true
	for _, k := range n.kids {
		reach(k, seen)
	}
}

func init() {
	register("C16", "abstract interpretation of the SSA of ident.Walk with ownership tracking of every tree node; all partitions of the check callback accepting, rejecting or returning unparsable text", func(c *Check) error {
		m, k, walk, err := newV6Walker(c, "pkg/walkers/ident", "Walk")
		if err != nil {
			return err
		}
		var jobs []func()
		for rule, trees := range walkTrees(c.thorough(), []int{34, 140}, []int{12, 112, 1100}) {
			for _, t := range trees {
				rule, t := rule, t
				jobs = append(jobs, func() {
					c.explore(m, rule, t.label, func(in *Interp, fail func(string, ...interface{})) {
						identRun(in, k, walk, t, fail)
					})
				})
			}
		}
		jobs = append(jobs, func() {
			c.explore(m, "nil", "nil tree", func(in *Interp, fail func(string, ...interface{})) {
				in.newStore(k)
				o := in.tryCall(walk, []Val{VNil{}, VFunc{name: "check", native: func(in *Interp, args []Val) []Val { return []Val{args[0], VNil{}} }}})
				if o.crash != nil {
					fail("may crash on a nil tree: %s", o.crash.what)
				}
			})
		})
		parallel(jobs)
		c.need("leaf", 7)
		c.need("operands", 1300)
		c.need("nesting", 1900)
		c.need("depth", 270)
		return nil
	})
}

func identRun(in *Interp, k *v6consts, walk *ssa.Function, t operand, fail func(string, ...interface{})) {
	s := in.newStore(k)
	root := t.mk(s, "x")
	want := map[string]int{}
	preorder(root, 0, func(n *CNode, _ int) {
		if s.is(n, "Identifier") {
			want[key(n.str)]++
		}
	})
	total := 0
	for _, n := range want {
		total += n
	}
	// In large trees the failures are placed at the ends and in the middle
	mayFail := func(i int) bool { return total < 40 || i <= 1 || i == total/2 || i >= total-1 }
	calls, ncalls := map[string]int{}, 0
	repl := map[string]string{} // replacement text key -> identifier
	rejected := 0
	parsedFor := map[*CNode]string{}
	check := VFunc{name: "check", native: func(in *Interp, args []Val) []Val {
		id := key(args[0])
		calls[id]++
		ncalls++
		text := atomStr(mkTerm(tString, "renamed", args[0]))
		repl[key(text)] = id
		if mayFail(ncalls) && in.choose(fmt.Sprintf("reject:%s/%d", id, calls[id]), 2) == 1 {
			rejected++
			// the text that comes with an error is not to be used
			return []Val{text, VIface{v: mkTerm(types.Universe.Lookup("error").Type(), "rejected:"+id)}}
		}
		return []Val{text, VNil{}}
	}}
	nparse := 0
	in.hook = func(in *Interp, fn *ssa.Function, args []Val) ([]Val, bool) {
		if fn.Name() != "ParseTSL" || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "tsl" {
			return nil, false
		}
		nparse++
		if mayFail(nparse) && in.choose(fmt.Sprintf("badtext:%s/%d", key(args[0]), nparse), 2) == 1 {
			rejected++
			return []Val{VNil{}, VIface{v: mkTerm(types.Universe.Lookup("error").Type(), "unparsable:"+key(args[0]))}}, true
		}
		var n *CNode
		if len(repl) == 1 && in.choose("expr:"+key(args[0]), 2) == 1 {
			// the replacement may be any expression, with identifiers of its own
			x, y := s.node("Identifier", "parsed"), s.node("NumericLiteral", "parsed")
			x.str, y.num, x.owned, y.owned = atomStr(mkTerm(tString, "inner", args[0])), cInt(1), true, true
			n = s.node("BinaryExpr", "parsed")
			n.op, n.kids = k.op["Plus"], []*CNode{x, y}
		} else {
			n = s.node("Identifier", "parsed")
			n.str = args[0]
		}
		parsedFor[n] = key(args[0])
		return []Val{s.wrap(n), VNil{}}, true
	}
	text := s.show(root)
	o := in.tryCall(walk, []Val{s.wrap(root), check})
	if o.crash != nil {
		fail("%s: may crash: %s in %s (%s)", text, o.crash.what, o.crash.fn, in.position(o.crash.pos))
		return
	}
	for _, w := range in.writes {
		fail("%s: the walk changes what it was given: %s", text, w)
		return
	}
	// ownership of the nodes made on the way
	live := map[*CNode]bool{}
	_, noErr := o.res[1].(VNil)
	var res *CNode
	if _, isNil := o.res[0].(VNil); !isNil {
		r, ok := s.unwrap(o.res[0])
		if !ok {
			in.undecided(0, "result of the walk is %T", o.res[0])
		}
		res = r
		reach(res, live)
	}
	for n := range live {
		if n.freed {
			fail("%s: the returned tree holds a released node (%s)", text, s.show(n))
			return
		}
		if n.origin == "input" {
			fail("%s: the returned tree shares the node %s with the input", text, s.show(n))
			return
		}
	}
	for _, n := range s.nodes {
		if n.origin != "input" && !n.freed && !live[n] {
			fail("%s: node %s (%s) is neither returned nor released", text, s.show(n), n.origin)
			return
		}
	}
	if rejected > 0 {
		if noErr {
			fail("%s: an identifier is rejected but the walk gives no error", text)
		} else if res != nil {
			fail("%s: an error comes with a tree", text)
		} else {
			for id := range calls {
				if want[id] == 0 {
					fail("%s: %s is checked but is not an identifier of the tree", text, id)
				}
			}
		}
		return
	}
	if !noErr {
		fail("%s: gives an error though every identifier is accepted", text)
		return
	}
	if res == nil {
		fail("%s: gives neither a tree nor an error", text)
		return
	}
	for id, n := range want {
		if calls[id] != n && (n == 1 || calls[id] == 0 || calls[id] > n) {
			fail("%s: %s is checked %d times", text, id, calls[id])
			return
		}
	}
	for id := range calls {
		if want[id] == 0 {
			fail("%s: %s is checked but is not an identifier of the tree", text, id)
			return
		}
	}
	var same func(w, g *CNode) string
	same = func(w, g *CNode) string {
		switch {
		case w == nil && g == nil:
			return ""
		case w == nil || g == nil:
			return fmt.Sprintf("%s in place of %s", s.show(g), s.show(w))
		case s.is(w, "Identifier"):
			if p, ok := parsedFor[g]; ok && repl[p] == key(w.str) {
				return ""
			}
			return fmt.Sprintf("%s is not the replacement of %s", s.show(g), s.show(w))
		case w.kind != g.kind || w.op != g.op || len(w.kids) != len(g.kids) || key(w.str) != key(g.str) || key(w.num) != key(g.num) || key(w.b) != key(g.b):
			return fmt.Sprintf("%s in place of %s", s.show(g), s.show(w))
		}
		for i := range w.kids {
			if r := same(w.kids[i], g.kids[i]); r != "" {
				return r
			}
		}
		return ""
	}
	if r := same(root, res); r != "" {
		fail("%s: the returned tree differs: %s", text, r)
	}
}
