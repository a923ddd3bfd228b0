package main

import (
	"fmt"
	"math"
)

// Numbers outside the range the reference semantics reasons about: a NaN held
// by a record, and numbers too large for an integer type.

const nanKey = "NaN"

func isNaN(v Val) bool {
	t, ok := v.(*VTerm)
	return ok && t.key == nanKey
}

// infinite is the number a conversion gives along with an out-of-range error.
func infinite(neg bool) Val {
	if neg {
		return mkTerm(tFloat, "-Inf")
	}
	return mkTerm(tFloat, "+Inf")
}

func isInf(v Val) (sign int) {
	if t, ok := v.(*VTerm); ok && t.key == "+Inf" {
		return 1
	} else if ok && t.key == "-Inf" {
		return -1
	}
	return 0
}

var nanClass = recClass{"NaN", func(in *Interp, n string) Val { return iface(tFloat, mkTerm(tFloat, nanKey)) }}

// nanTruth evaluates a tree and gives its truth value.
func nanTruth(in *Interp, o outcome, what string, fail func(string, ...interface{})) (val, ok bool) {
	if o.crash != nil {
		fail("%s: may crash: %s", what, o.crash.what)
		return false, false
	}
	if _, noErr := o.res[1].(VNil); !noErr {
		fail("%s: gives an error", what)
		return false, false
	}
	v := o.res[0]
	if i, isI := v.(VIface); isI {
		v = i.v
	}
	return in.truth(v, 0), true
}

// nan decides the operators on a NaN: nothing holds of it but !=, and each
// negated form stays the opposite of its positive form.
func (e *sem45) nan() {
	shapes := []struct {
		label    string
		pos, neg string
		rhs      func(in *Interp) *lnode
	}{
		{"number", "Eq", "NotEq", func(in *Interp) *lnode { return e.g.leaf(in, "Number", "a") }},
		{"list", "In", "NotIn", func(in *Interp) *lnode {
			return larr(e.g.leaf(in, "Number", "a"), e.g.leaf(in, "Number", "b"), e.g.leaf(in, "Number", "c"))
		}},
		{"range", "Between", "NotBetween", func(in *Interp) *lnode { return larr(e.g.leaf(in, "Number", "a"), e.g.leaf(in, "Number", "b")) }},
	}
	for _, s := range shapes {
		s := s
		for _, op := range []string{s.pos, s.neg} {
			op := op
			e.c.explore(e.g.m, e.g.ver+":nan", op+" of a NaN and a "+s.label, func(in *Interp, fail func(string, ...interface{})) {
				r := &semRun{in: in, classes: []recClass{nanClass}, memo: map[string]Val{}}
				root := lop(op, e.g.leaf(in, "Ident", "x"), s.rhs(in))
				got, ok := nanTruth(in, in.tryCall(e.walk, []Val{e.g.value(in, root), r.callback()}), op, fail)
				if ok && got != (op == s.neg) {
					fail("%s of a NaN and any %s is %v", op, s.label, got)
				}
			})
		}
	}
	e.c.need(e.g.ver+":nan", 6)
}

func (e *sem6) nan(ops ...string) {
	num := func(s *cstore, n string) *CNode { return s.leaf("NumericLiteral", n) }
	rhs := map[string]func(s *cstore) *CNode{
		"EQ":      func(s *cstore) *CNode { return num(s, "a") },
		"NE":      func(s *cstore) *CNode { return num(s, "a") },
		"In":      func(s *cstore) *CNode { return s.array(num(s, "a"), num(s, "b"), num(s, "c")) },
		"Between": func(s *cstore) *CNode { return s.array(num(s, "a"), num(s, "b")) },
	}
	for _, op := range ops {
		op := op
		e.c.explore(e.m, "nan", op+" of a NaN", func(in *Interp, fail func(string, ...interface{})) {
			s := in.newStore(e.k)
			r := &semRun{in: in, s: s, classes: []recClass{nanClass}, memo: map[string]Val{}}
			root := s.binary(op, s.leaf("Identifier", "x"), rhs[op](s))
			got, ok := nanTruth(in, in.tryCall(e.walk, []Val{s.wrap(root), r.callback()}), op, fail)
			if ok && got != (op == "NE") {
				fail("%s of a NaN is %v", op, got)
			}
		})
	}
	e.c.need("nan", len(ops))
}

// remainders decides % on known numbers, among them such that no integer type
// holds: the result is the remainder of the integer parts.
func (e *sem6) remainders() {
	nums := []float64{0, 0.5, -0.25, 1, -1, 2.5, -7.9, 10, 1 << 31, 1<<53 - 1, -(1 << 62), 1 << 63, 1e19, -1e19, 3e30, 1.5e300}
	for _, a := range nums {
		for _, b := range nums {
			a, b := a, b
			e.c.explore(e.m, "remainder", fmt.Sprintf("%v %% %v", a, b), func(in *Interp, fail func(string, ...interface{})) {
				s := in.newStore(e.k)
				l, r := s.leaf("NumericLiteral", "l"), s.leaf("NumericLiteral", "r")
				l.num, r.num = cFloat(a), cFloat(b)
				o := in.tryCall(e.walk, []Val{s.wrap(s.binary("Percent", l, r)), VNil{}})
				if o.crash != nil {
					fail("may crash: %s", o.crash.what)
					return
				}
				_, noErr := o.res[1].(VNil)
				if math.Trunc(b) == 0 {
					if noErr {
						fail("gives %s, expected an error", show(o.res[0]))
					}
					return
				}
				want := math.Mod(math.Trunc(a), math.Trunc(b))
				if !noErr {
					fail("gives an error, expected %v", want)
					return
				}
				i, ok := o.res[0].(VIface)
				if !ok {
					fail("gives %s, expected %v", show(o.res[0]), want)
					return
				}
				if got, ok := in.floatOf(i.v); !ok || got != want {
					fail("gives %s, expected %v", show(o.res[0]), want)
				}
			})
		}
	}
	e.c.need("remainder", len(nums)*len(nums))
}
