package main

import (
	"fmt"
	"strings"
)

// Trees of v6 for the walkers that treat every node alike: every operator with
// every kind of operand, and nestings of representative subtrees.

var opTrees = []operand{
	opNone, opIdent, opStr, opNum, opBool, opNull, opDate, opStamp,
}

func binOf(op string, l, r operand) operand {
	return operand{"(" + l.label + " " + op + " " + r.label + ")", func(s *cstore, side string) *CNode {
		a := l.mk(s, side+"l")
		b := r.mk(s, side+"r")
		return s.binary(op, a, b)
	}}
}

func unOf(op string, x operand) operand {
	return operand{op + "(" + x.label + ")", func(s *cstore, side string) *CNode { return s.unary(op, x.mk(s, side+"u")) }}
}

func arrOf(e ...operand) operand {
	var l []string
	for _, x := range e {
		l = append(l, x.label)
	}
	return operand{"[" + strings.Join(l, ",") + "]", func(s *cstore, side string) *CNode {
		var k []*CNode
		for i, x := range e {
			k = append(k, x.mk(s, fmt.Sprintf("%se%d", side, i)))
		}
		return s.array(k...)
	}}
}

// walkTrees lists the trees by rule: leaf, operands, nesting, depth.
func walkTrees(deep bool, chains, lists []int) map[string][]operand {
	out := map[string][]operand{}
	for _, l := range opTrees[1:] {
		out["leaf"] = append(out["leaf"], l)
	}
	add := func(rule string, o operand) { out[rule] = append(out[rule], o) }
	for _, op := range v6binary {
		for _, l := range opTrees {
			for _, r := range opTrees {
				add("operands", binOf(op, l, r))
			}
		}
	}
	for _, op := range v6unary {
		for _, l := range opTrees {
			add("operands", unOf(op, l))
		}
	}
	add("operands", arrOf())
	for _, l := range opTrees {
		add("operands", arrOf(l))
		for _, r := range opTrees {
			add("operands", arrOf(l, r))
		}
	}
	three := []operand{opIdent, opNum, opNone, opStr}
	for _, a := range three {
		for _, b := range three {
			for _, c := range three {
				add("operands", arrOf(a, b, c))
			}
		}
	}
	add("operands", arrOf(opIdent, opIdent, opIdent, opIdent, opIdent))
	reps := []operand{opIdent, opNum, opNone, binOf("EQ", opIdent, opNum), binOf("And", opNum, opIdent), binOf("Plus", opIdent, opIdent), unOf("Not", opIdent), unOf("UMinus", opNum), arrOf(opIdent, opStr), arrOf()}
	var d2 []operand
	for _, op := range v6binary {
		for _, l := range reps {
			for _, r := range reps {
				if l.label == r.label && len(l.label) < 12 && l.label != "[]" {
					continue // both leaves: done above
				}
				d2 = append(d2, binOf(op, l, r))
			}
		}
	}
	for _, op := range v6unary {
		for _, l := range reps {
			d2 = append(d2, unOf(op, l))
		}
	}
	for _, l := range reps {
		for _, r := range reps {
			d2 = append(d2, arrOf(l, r))
		}
	}
	out["nesting"] = d2
	d3reps := []operand{binOf("Or", binOf("Between", opIdent, arrOf(opIdent, opNum)), unOf("Not", binOf("In", opIdent, arrOf(opIdent, opStr)))),
		unOf("Not", unOf("Len", opIdent)), arrOf(arrOf(opIdent), arrOf(opNum, opIdent)), arrOf(binOf("Minus", opIdent, opIdent), unOf("UMinus", opIdent)),
		binOf("Is", opIdent, opNull), binOf("Star", binOf("Plus", opIdent, opNum), unOf("UMinus", opIdent))}
	for _, op := range v6binary {
		for _, d := range d3reps {
			add("depth", binOf(op, d, opIdent))
			add("depth", binOf(op, opIdent, d))
		}
	}
	for _, op := range v6unary {
		for _, d := range d3reps {
			add("depth", unOf(op, d))
		}
	}
	for _, d := range d3reps {
		add("depth", arrOf(opIdent, d, opIdent))
	}
	// Long chains of one operator, as the parser builds for a and b and c ...
	for _, n := range chains {
		chain := func(name string, step func(o operand) operand) {
			o := opIdent
			for i := 0; i < n; i++ {
				o = step(o)
				o.label = "chain"
			}
			o.label = fmt.Sprintf("%d levels of %s", n, name)
			add("chain", o)
		}
		for _, op := range v6binary {
			chain(op+" on the left", func(o operand) operand { return binOf(op, o, opNum) })
			chain(op+" on the right", func(o operand) operand { return binOf(op, opIdent, o) })
		}
		for _, op := range v6unary {
			chain(op, func(o operand) operand { return unOf(op, o) })
		}
		chain("arrays", func(o operand) operand { return arrOf(o, opStr) })
		chain("binary and unary operators", func(o operand) operand { return binOf("Or", unOf("Not", o), arrOf(opIdent)) })
	}
	for _, n := range lists {
		e := make([]operand, n)
		for i := range e {
			e[i] = unOf("Not", opIdent)
		}
		long := arrOf(e...)
		long.label = fmt.Sprintf("[%d elements]", n)
		add("long", long)
		add("long", binOf("In", opIdent, long))
	}
	same := operand{"same", func(s *cstore, side string) *CNode { return opIdent.mk(s, "same") }}
	for _, op := range v6binary {
		add("same name", binOf(op, same, same))
		add("same name", binOf(op, arrOf(same, opNum), unOf("Not", same)))
	}
	add("same name", arrOf(same, same, same))
	if deep {
		for _, a := range d3reps {
			for _, b := range d3reps {
				for _, op := range v6binary {
					add("depth", binOf(op, a, b))
				}
				add("depth", arrOf(a, b))
			}
		}
	}
	return out
}

// preorder lists the nodes of a tree, absent ones left out.
func preorder(n *CNode, depth int, visit func(n *CNode, depth int)) {
	if n == nil {
		return
	}
	visit(n, depth)
	for _, k := range n.kids {
		preorder(k, depth+1, visit)
	}
}
