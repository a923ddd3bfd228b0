package main

import (
	"fmt"
)

// C26: v5 and v4 identifier walkers.

// from reads a tsl.Node value back as a reference tree.
func (g *legacy) from(in *Interp, v Val) (*lnode, error) {
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	s, ok := v.(VStruct)
	if !ok {
		return nil, fmt.Errorf("%s is not a node", key(v))
	}
	var f string
	var left, right Val
	st := structOf(s.typ)
	if st == nil {
		return nil, fmt.Errorf("%s is not a node", key(v))
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Func":
			c, ok := str1(s.f[i])
			if !ok {
				return nil, fmt.Errorf("operator %s is not a constant", key(s.f[i]))
			}
			f = c
		case "Left":
			left = s.f[i]
		case "Right":
			right = s.f[i]
		}
	}
	n := &lnode{op: "$?" + f}
	for name, code := range g.ops {
		if code == f {
			n.op = name
		}
	}
	_, noL := left.(VNil)
	_, noR := right.(VNil)
	switch n.op {
	case "Ident", "String", "Number", "Boolean", "Date":
		i, ok := left.(VIface)
		if !ok {
			return nil, fmt.Errorf("%s node without a value", n.op)
		}
		if !noR {
			return nil, fmt.Errorf("%s node with a right operand", n.op)
		}
		n.val = i.v
		return n, nil
	case "Array":
		if !noL {
			return nil, fmt.Errorf("array with a left operand %s", key(left))
		}
		if noR {
			return n, nil
		}
		i, ok := right.(VIface)
		if !ok {
			return nil, fmt.Errorf("array of %s", key(right))
		}
		e, ok := in.elems(i.v, 0)
		if !ok {
			return nil, fmt.Errorf("array of %s", key(right))
		}
		for _, x := range e {
			k, err := g.from(in, x)
			if err != nil {
				return nil, err
			}
			n.list = append(n.list, k)
		}
		return n, nil
	}
	var err error
	if !noL {
		if n.l, err = g.from(in, left); err != nil {
			return nil, err
		}
	}
	if !noR {
		if n.r, err = g.from(in, right); err != nil {
			return nil, err
		}
	}
	return n, nil
}

// sameTree compares two trees; leaf decides leaves.
func sameTree(want, got *lnode, leaf func(w, g *lnode) string) string {
	switch {
	case want == nil && got == nil:
		return ""
	case want == nil || got == nil:
		return fmt.Sprintf("%s in place of %s", got, want)
	case want.isLeaf() && got.isLeaf():
		return leaf(want, got)
	case want.op != got.op || want.isLeaf() != got.isLeaf() || len(want.list) != len(got.list):
		return fmt.Sprintf("%s in place of %s", got, want)
	}
	if r := sameTree(want.l, got.l, leaf); r != "" {
		return r
	}
	if r := sameTree(want.r, got.r, leaf); r != "" {
		return r
	}
	for i := range want.list {
		if r := sameTree(want.list[i], got.list[i], leaf); r != "" {
			return r
		}
	}
	return ""
}

func (n *lnode) each(f func(n *lnode)) {
	if n == nil {
		return
	}
	f(n)
	n.l.each(f)
	n.r.each(f)
	for _, k := range n.list {
		k.each(f)
	}
}

func init() {
	register("C26", "abstract interpretation of the SSA of ident.Walk (v5, v4) on trees of every operator and operand kind, over all partitions of the check callback", func(c *Check) error {
		var jobs []func()
		for _, ver := range []string{"v5", "v4"} {
			g, err := loadLegacy(c, ver)
			if err != nil {
				return err
			}
			p := g.m.byDir["pkg/walkers/ident"]
			if p == nil || p.Func("Walk") == nil {
				return fmt.Errorf("%s ident.Walk not found", ver)
			}
			walk := p.Func("Walk")
			c.scope = append(c.scope, ver+"/pkg/walkers/ident")
			run := func(rule string, t lgen) {
				jobs = append(jobs, func() {
					c.explore(g.m, ver+":"+rule, t.label, func(in *Interp, fail func(string, ...interface{})) {
						root := t.mk(in, "x")
						want := map[string]int{}
						root.each(func(n *lnode) {
							if n.op == "Ident" {
								want[key(n.val)]++
							}
						})
						calls := map[string]int{}
						rejected := ""
						check := VFunc{name: "check", native: func(in *Interp, args []Val) []Val {
							id := key(args[0])
							calls[id]++
							text := atomStr(mkTerm(tString, "renamed", args[0]))
							if in.choose(fmt.Sprintf("reject:%s/%d", id, calls[id]), 2) == 1 {
								rejected = id
								return []Val{text, errorVal("rejected:" + id)}
							}
							return []Val{text, VNil{}}
						}}
						tree := g.value(in, root)
						before := key(tree)
						o := in.tryCall(walk, []Val{tree, check})
						if o.crash != nil {
							fail("%s: may crash: %s in %s (%s)", root, o.crash.what, o.crash.fn, in.position(o.crash.pos))
							return
						}
						if key(tree) != before {
							fail("%s: the walk changes what it was given", root)
						}
						for id := range calls {
							if want[id] == 0 {
								fail("%s: %s is checked but is not an identifier of the tree", root, id)
								return
							}
						}
						e, isErr := o.res[1].(VIface)
						if rejected != "" {
							if !isErr {
								fail("%s: %s is rejected but the walk gives no error", root, rejected)
							} else if t, ok := e.v.(*VTerm); !ok || t.key != "rejected:"+rejected {
								if !mentions(e.v, "rejected:"+rejected) {
									fail("%s: the error of the check is not the one returned", root)
								}
							}
							return
						}
						if isErr {
							fail("%s: gives an error though every identifier is accepted", root)
							return
						}
						for id := range want {
							if calls[id] == 0 {
								fail("%s: %s is not checked", root, id)
								return
							}
						}
						got, err := g.from(in, o.res[0])
						if err != nil {
							fail("%s: the returned tree is not well-formed: %v", root, err)
							return
						}
						if w := sameTree(root, got, func(w, g *lnode) string {
							v := key(w.val)
							if w.op == "Ident" {
								v = "renamed(" + v + ")"
							}
							if g.op != w.op || key(g.val) != v {
								return fmt.Sprintf("%s where %s %s is expected", g, w.op, v)
							}
							return ""
						}); w != "" {
							fail("%s: the returned tree differs: %s", root, w)
						}
					})
				})
			}
			for rule, ts := range g.trees() {
				for _, t := range ts {
					run(rule, t)
				}
			}
			same := lgen{"same", func(in *Interp, side string) *lnode { return g.leaf(in, "Ident", "same") }}
			for _, op := range append(append([]string{}, legacyCmp...), legacyMath...) {
				run("same name", g.mathGen(op, same, same))
			}
		}
		parallel(jobs)
		c.need("v5:condition", 400)
		c.need("v4:condition", 200)
		c.need("v5:nesting", 300)
		c.need("v4:nesting", 300)
		return nil
	})
}

// mentions: an error value wraps the given one.
func mentions(v Val, k string) bool {
	switch v := v.(type) {
	case *VTerm:
		if v.key == k {
			return true
		}
		for _, a := range v.args {
			if mentions(a, k) {
				return true
			}
		}
	case VIface:
		return mentions(v.v, k)
	case VStruct:
		for _, f := range v.f {
			if mentions(f, k) {
				return true
			}
		}
	case VPtr:
		return v.obj.v != nil && mentions(v.obj.v, k)
	case VStr:
		for _, p := range v.parts {
			if p.atom != nil && mentions(p.atom, k) {
				return true
			}
		}
	}
	return false
}
