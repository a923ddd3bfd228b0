package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Reference semantics of the v6 evaluator (properties C09-C13), compared with
// what the abstract interpretation of semantics.Walk computes.

var (
	tAny    = types.NewInterfaceType(nil, nil)
	tAnySl  = types.NewSlice(tAny)
	tFloat  = types.Typ[types.Float64]
	tString = types.Typ[types.String]
	tBool   = types.Typ[types.Bool]
	tMap    = types.NewMap(tString, tAny)
)

// numeric Go types a record may hold.
var numKinds = []types.BasicKind{types.Float64, types.Float32, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64}

type recClass struct {
	name string
	mk   func(in *Interp, name string) Val
}

func iface(t types.Type, v Val) Val { return VIface{dyn: t, v: v} }

func numClass(k types.BasicKind) recClass {
	t := types.Typ[k]
	return recClass{t.Name(), func(in *Interp, n string) Val {
		v := mkTerm(t, t.Name()+":"+n)
		return iface(t, v)
	}}
}

func scalarElem(in *Interp, n string) Val {
	switch in.choose("elem:"+n, 6) {
	case 0:
		return iface(tFloat, mkTerm(tFloat, "float64:"+n))
	case 1:
		return iface(types.Typ[types.Int], mkTerm(types.Typ[types.Int], "int:"+n))
	case 2:
		return iface(tString, in.leafText("text:"+n))
	case 3:
		return iface(tBool, cBool(in.choose("val:"+n, 2) == 1))
	case 4:
		return iface(in.timeType(), mkTerm(in.timeType(), "time:"+n))
	}
	return VNil{}
}

func recordClasses() []recClass {
	var l []recClass
	for _, k := range numKinds {
		l = append(l, numClass(k))
	}
	l = append(l,
		recClass{"string", func(in *Interp, n string) Val { return iface(tString, in.leafText("text:"+n)) }},
		recClass{"bool", func(in *Interp, n string) Val { return iface(tBool, cBool(in.choose("val:"+n, 2) == 1)) }},
		recClass{"time", func(in *Interp, n string) Val { return iface(in.timeType(), mkTerm(in.timeType(), "time:"+n)) }},
		recClass{"nil", func(in *Interp, n string) Val { return VNil{} }},
		recClass{"array0", func(in *Interp, n string) Val { return iface(tAnySl, in.mkSlice(nil)) }},
		recClass{"array1", func(in *Interp, n string) Val { return iface(tAnySl, in.mkSlice([]Val{scalarElem(in, n+"0")})) }},
		recClass{"map", func(in *Interp, n string) Val { return iface(tMap, VMap{&MapObj{name: "map:" + n}}) }},
		recClass{"uintptr", func(in *Interp, n string) Val {
			return iface(types.Typ[types.Complex128], mkTerm(types.Typ[types.Complex128], "complex:"+n))
		}},
		recClass{"missing", nil},
	)
	return l
}

func smallClasses() []recClass {
	var l []recClass
	for _, c := range recordClasses() {
		switch c.name {
		case "float64", "int32", "string", "bool", "nil", "map", "missing", "time", "array1":
			l = append(l, c)
		}
	}
	return l
}

var recordArray2 = recClass{"array2", func(in *Interp, n string) Val {
	return iface(tAnySl, in.mkSlice([]Val{scalarElem(in, n+"0"), scalarElem(in, n+"1")}))
}}

var recordNested = recClass{"nested", func(in *Interp, n string) Val {
	inner := iface(tAnySl, in.mkSlice([]Val{scalarElem(in, n+"0")}))
	return iface(tAnySl, in.mkSlice([]Val{inner, iface(tMap, VMap{&MapObj{name: "map:" + n}})}))
}}

type semRun struct {
	in      *Interp
	s       *cstore
	classes []recClass
	memo    map[string]Val
}

// record is the abstract evaluation callback.
func (r *semRun) record(name Val) (Val, bool) {
	k := key(name)
	c := r.classes[r.in.choose("record["+k+"]", len(r.classes))]
	if c.mk == nil {
		if r.in.choose("default:"+k, 2) == 1 {
			return iface(tFloat, mkTerm(tFloat, "default:"+k)), false
		}
		return VNil{}, false
	}
	if v, ok := r.memo[k]; ok {
		return v, true
	}
	v := c.mk(r.in, k)
	markInput(v, "the record's value of "+k, map[interface{}]bool{})
	r.memo[k] = v
	r.in.trace = append(r.in.trace, k+" is "+c.name)
	return v, true
}

func (r *semRun) callback() Val {
	return VFunc{name: "eval", native: func(in *Interp, args []Val) []Val {
		v, ok := r.record(args[0])
		if _, bad := args[0].(VStr); !bad {
			in.undecided(token.NoPos, "evaluation callback called with %T", args[0])
		}
		return []Val{v, cBool(ok)}
	}}
}

// ---- reference semantics ----

type specErr struct{ why string }

func throw(why string) { panic(specErr{why}) }

func (r *semRun) spec(n *CNode) (v Val, err *specErr) {
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(specErr); ok {
				err = &e
				return
			}
			panic(p)
		}
	}()
	return r.ev(n), nil
}

func (r *semRun) norm(v Val) Val {
	i, ok := v.(VIface)
	if !ok {
		return v
	}
	switch {
	case isNumType(i.dyn):
		return iface(tFloat, i.v)
	case isString(i.dyn):
		if t, ok := r.textDate(i.v); ok {
			return iface(r.in.timeType(), t)
		}
	case types.Identical(i.dyn, tAnySl):
		e, _ := r.in.elems(i.v, token.NoPos)
		var out []Val
		for _, x := range e {
			out = append(out, r.norm(x))
		}
		return iface(tAnySl, r.in.mkSlice(out))
	}
	return v
}

func isNumType(t types.Type) bool {
	b, ok := t.(*types.Basic)
	if !ok {
		return false
	}
	for _, k := range numKinds {
		if b.Kind() == k {
			return true
		}
	}
	return false
}

const (
	layoutFull  = "2006-01-02T15:04:05Z07:00"
	layoutShort = "2006-01-02"
)

func (r *semRun) textDate(s Val) (Val, bool) {
	if r.in.parses(layoutFull, s) || r.in.parses(layoutShort, s) {
		return mkTerm(r.in.timeType(), "parsed", s), true
	}
	return nil, false
}

func (r *semRun) num(v Val) (Val, bool) {
	i, ok := v.(VIface)
	if ok && i.dyn != nil && isNumType(i.dyn) {
		return i.v, true
	}
	return nil, false
}

func (r *semRun) date(v Val) (Val, bool) {
	i, ok := v.(VIface)
	if !ok || i.dyn == nil {
		return nil, false
	}
	if isTime(i.dyn) {
		return instant(i.v), true
	}
	if isString(i.dyn) {
		return r.textDate(i.v)
	}
	return nil, false
}

func (r *semRun) arr(v Val) ([]Val, bool) {
	i, ok := v.(VIface)
	if !ok || i.dyn == nil || !types.Identical(i.dyn, tAnySl) {
		return nil, false
	}
	e, ok := r.in.elems(i.v, token.NoPos)
	return e, ok
}

func (r *semRun) boolean(v Val) (bool, bool) {
	i, ok := v.(VIface)
	if !ok || i.dyn == nil || !types.Identical(i.dyn, tBool) {
		return false, false
	}
	return r.in.truth(i.v, token.NoPos), true
}

func (r *semRun) text(v Val) (Val, bool) {
	i, ok := v.(VIface)
	if !ok || i.dyn == nil || !types.Identical(i.dyn, tString) {
		return nil, false
	}
	return i.v, true
}

func b2(b bool) Val { return iface(tBool, cBool(b)) }

func (r *semRun) array(e []Val) Val { return iface(tAnySl, r.in.mkSlice(e)) }

func (r *semRun) ev(n *CNode) Val {
	if n == nil {
		return VNil{}
	}
	s := r.s
	switch {
	case s.is(n, "Identifier"):
		v, ok := r.record(n.str)
		if !ok {
			throw("no such key")
		}
		return r.norm(v)
	case s.is(n, "NumericLiteral"):
		return iface(tFloat, n.num)
	case s.is(n, "BooleanLiteral"):
		return iface(tBool, n.b)
	case s.is(n, "StringLiteral"):
		return iface(tString, n.str)
	case s.is(n, "DateLiteral", "TimestampLiteral"):
		if t, ok := r.textDate(n.str); ok {
			return iface(r.in.timeType(), t)
		}
		return iface(tString, n.str)
	case s.is(n, "NullLiteral"):
		return VNil{}
	case s.is(n, "ArrayLiteral"):
		var e []Val
		for _, k := range n.kids {
			e = append(e, r.ev(k))
		}
		return r.array(e)
	case s.is(n, "UnaryExpr"):
		return r.unary(s.c.on[n.op], r.ev(n.kids[0]))
	case s.is(n, "BinaryExpr"):
		// both operands are evaluated: an error in either fails the whole
		rv := r.ev(n.kids[1])
		lv := r.ev(n.kids[0])
		return r.binary(s.c.on[n.op], lv, rv)
	}
	throw("unknown node")
	return nil
}

func (r *semRun) unary(op string, v Val) Val {
	if e, ok := r.arr(v); ok {
		switch op {
		case "Len":
			return iface(tFloat, cFloat(float64(len(e))))
		case "Any":
			for _, x := range e {
				if b, ok := r.boolean(x); ok && b {
					return b2(true)
				}
			}
			return b2(false)
		case "All":
			for _, x := range e {
				if b, ok := r.boolean(x); !ok || !b {
					return b2(false)
				}
			}
			return b2(len(e) > 0)
		case "Sum":
			var sum Val = cFloat(0)
			for _, x := range e {
				n, ok := r.num(x)
				if !ok {
					throw("not a number")
				}
				sum = r.in.arith(token.ADD, sum, n, tFloat, token.NoPos)
			}
			return iface(tFloat, sum)
		}
		var out []Val
		for _, x := range e {
			if _, nested := r.arr(x); nested {
				throw("array in array")
			}
			out = append(out, r.unary(op, x))
		}
		return r.array(out)
	}
	switch op {
	case "Not":
		b, ok := r.boolean(v)
		if !ok {
			throw("not a boolean")
		}
		return b2(!b)
	case "UMinus":
		n, ok := r.num(v)
		if !ok {
			throw("not a number")
		}
		if c, isC := n.(VConst); isC {
			if constant.Sign(c.c) == 0 {
				return iface(tFloat, cFloat(0))
			}
			return iface(tFloat, VConst{constant.UnaryOp(token.SUB, c.c, 0)})
		}
		return iface(tFloat, r.in.neg(n, tFloat))
	}
	throw("operator " + op + " needs an array")
	return nil
}

func (r *semRun) equal(l, rr Val) bool {
	in := r.in
	if a, ok := r.num(l); ok {
		if b, ok := r.num(rr); ok {
			return in.equals(a, b, false)
		}
	}
	if a, ok := r.date(l); ok {
		if b, ok := r.date(rr); ok {
			return in.equals(a, b, false)
		}
	}
	if a, ok := r.text(l); ok {
		if b, ok := r.text(rr); ok {
			return in.equals(a, b, false)
		}
	}
	if a, ok := r.boolean(l); ok {
		if b, ok := r.boolean(rr); ok {
			return a == b
		}
	}
	li, ok1 := l.(VIface)
	ri, ok2 := rr.(VIface)
	if !ok1 || !ok2 {
		return !ok1 && !ok2 // null equals only null
	}
	if !types.Identical(li.dyn, ri.dyn) {
		return false
	}
	if !types.Comparable(li.dyn) {
		throw("values cannot be compared")
	}
	return in.equal(li.v, ri.v, token.NoPos)
}

func (r *semRun) order(l, rr Val) int {
	if a, ok := r.num(l); ok {
		if b, ok := r.num(rr); ok {
			return r.in.compare(a, b, false)
		}
	}
	if a, ok := r.date(l); ok {
		if b, ok := r.date(rr); ok {
			return r.in.compare(a, b, false)
		}
	}
	throw("no common order")
	return 0
}

func (r *semRun) binary(op string, l, rr Val) Val {
	in := r.in
	if e, ok := r.arr(l); ok {
		var out []Val
		for _, x := range e {
			out = append(out, r.binary(op, x, rr))
		}
		return r.array(out)
	}
	switch op {
	case "EQ":
		return b2(r.equal(l, rr))
	case "NE":
		return b2(!r.equal(l, rr))
	case "LT":
		return b2(r.order(l, rr) < 0)
	case "LE":
		return b2(r.order(l, rr) <= 0)
	case "GT":
		return b2(r.order(l, rr) > 0)
	case "GE":
		return b2(r.order(l, rr) >= 0)
	case "And", "Or":
		a, ok1 := r.boolean(l)
		b, ok2 := r.boolean(rr)
		if !ok1 || !ok2 {
			throw("not a boolean")
		}
		if op == "And" {
			return b2(a && b)
		}
		return b2(a || b)
	case "Plus", "Minus", "Star", "Slash", "Percent":
		a, ok1 := r.num(l)
		b, ok2 := r.num(rr)
		if !ok1 || !ok2 {
			throw("not a number")
		}
		switch op {
		case "Plus":
			return iface(tFloat, in.arith(token.ADD, a, b, tFloat, token.NoPos))
		case "Minus":
			return iface(tFloat, in.arith(token.SUB, a, b, tFloat, token.NoPos))
		case "Star":
			return iface(tFloat, in.arith(token.MUL, a, b, tFloat, token.NoPos))
		case "Slash":
			if in.equals(b, cFloat(0), false) {
				throw("division by zero")
			}
			return iface(tFloat, in.arith(token.QUO, a, b, tFloat, token.NoPos))
		}
		if in.equals(b, cFloat(0), false) {
			throw("modulo by zero")
		}
		tb := in.convert(b, tFloat, types.Typ[types.Int64], token.NoPos)
		if c, ok := tb.(VConst); ok {
			if constant.Sign(c.c) == 0 {
				throw("modulo by zero")
			}
		} else if in.zeroInt(tb) {
			throw("modulo by zero")
		}
		ta := in.convert(a, tFloat, types.Typ[types.Int64], token.NoPos)
		if _, ok := ta.(VConst); ok {
			if _, ok := tb.(VConst); ok {
				return iface(tFloat, in.convert(in.arith(token.REM, ta, tb, types.Typ[types.Int64], token.NoPos), types.Typ[types.Int64], tFloat, token.NoPos))
			}
		}
		return iface(tFloat, mkTerm(tFloat, "rem", ta, tb))
	case "Like", "ILike", "REQ", "RNE":
		return r.textOp(op, l, rr)
	case "In":
		e, ok := r.arr(rr)
		if !ok {
			throw("not a list")
		}
		if _, isNil := l.(VNil); isNil {
			return b2(false)
		}
		_, n := r.num(l)
		_, d := r.date(l)
		_, t := r.text(l)
		_, bo := r.boolean(l)
		if !n && !d && !t && !bo {
			throw("unsupported type in a list test")
		}
		for _, x := range e {
			if !sameFamily(r, l, x) {
				continue
			}
			if r.equal(l, x) {
				return b2(true)
			}
		}
		return b2(false)
	case "Between":
		e, ok := r.arr(rr)
		if !ok || len(e) != 2 {
			throw("not a range")
		}
		lo := r.order(l, e[0])
		hi := r.order(l, e[1])
		return b2(lo >= 0 && hi <= 0)
	case "Is":
		_, rn := rr.(VNil)
		_, ln := l.(VNil)
		return b2(rn && ln)
	}
	throw("unexpected operator")
	return nil
}

// sameFamily avoids asking whether unrelated types are equal.
func sameFamily(r *semRun, a, b Val) bool {
	_, n1 := r.num(a)
	_, n2 := r.num(b)
	if n1 != n2 {
		return false
	}
	_, d1 := a.(VIface)
	_, d2 := b.(VIface)
	return d1 == d2
}

// textOp is the part of the reference semantics that C12 refines: here only
// operand types matter, the outcome for texts is left open.
func (r *semRun) textOp(op string, l, rr Val) Val {
	_, ok1 := r.text(l)
	_, ok2 := r.text(rr)
	if !ok1 || !ok2 {
		throw("not a text")
	}
	return anyBoolOrErr{}
}

type anyBoolOrErr struct{}

// sameVal compares the analysed result with the reference result.
func (r *semRun) sameVal(got, want Val) (bool, string) {
	switch w := want.(type) {
	case anyBoolOrErr:
		if _, ok := r.boolean(got); ok {
			return true, ""
		}
	case VNil:
		if _, ok := got.(VNil); ok {
			return true, ""
		}
	case VIface:
		g, ok := got.(VIface)
		if !ok || g.dyn == nil || !types.Identical(g.dyn, w.dyn) {
			break
		}
		if types.Identical(w.dyn, tAnySl) {
			ge, ok1 := r.in.elems(g.v, token.NoPos)
			we, ok2 := r.in.elems(w.v, token.NoPos)
			if !ok1 || !ok2 || len(ge) != len(we) {
				break
			}
			for i := range ge {
				if ok, why := r.sameVal(ge[i], we[i]); !ok {
					return false, fmt.Sprintf("element %d: %s", i, why)
				}
			}
			return true, ""
		}
		if key(r.canon(g.v)) == key(r.canon(w.v)) {
			return true, ""
		}
		if types.Identical(w.dyn, tBool) && r.in.truth(g.v, token.NoPos) == r.in.truth(w.v, token.NoPos) {
			return true, ""
		}
	}
	return false, fmt.Sprintf("gives %s, expected %s", show(got), show(want))
}

func (r *semRun) canon(v Val) Val { return instant(v) }

func show(v Val) string {
	switch x := v.(type) {
	case VIface:
		return typeName(x.dyn) + " " + key(x.v)
	case VNil:
		return "null"
	case anyBoolOrErr:
		return "a boolean"
	}
	return key(v)
}

// ---- obligations ----

type operand struct {
	label string
	mk    func(s *cstore, side string) *CNode
}

func leafOperand(kind string) operand {
	return operand{kind, func(s *cstore, side string) *CNode {
		n := s.leaf(kind, side)
		s.assumeToken(n)
		return n
	}}
}

// assumeToken records what the scanner guarantees about literal texts: only
// DATE and TIMESTAMP tokens hold date-like text.
func (s *cstore) assumeToken(n *CNode) {
	if n.str == nil {
		return
	}
	k := key(n.str)
	switch {
	case s.is(n, "StringLiteral"):
		s.in.facts["parse:"+layoutFull+":"+k] = 0
		s.in.facts["parse:"+layoutShort+":"+k] = 0
	case s.is(n, "TimestampLiteral"):
		s.in.facts["parse:"+layoutShort+":"+k] = 0
	}
}

var (
	opIdent = leafOperand("Identifier")
	opStr   = leafOperand("StringLiteral")
	opNum   = leafOperand("NumericLiteral")
	opBool  = leafOperand("BooleanLiteral")
	opNull  = leafOperand("NullLiteral")
	opDate  = leafOperand("DateLiteral")
	opStamp = leafOperand("TimestampLiteral")
	opArr0  = operand{"[]", func(s *cstore, side string) *CNode { return s.array() }}
	opArr1  = operand{"[ident]", func(s *cstore, side string) *CNode { return s.array(opIdent.mk(s, side+"0")) }}
	opArr1n = operand{"[num]", func(s *cstore, side string) *CNode { return s.array(opNum.mk(s, side+"0")) }}
	opArr2n = operand{"[num,num]", func(s *cstore, side string) *CNode { return s.array(opNum.mk(s, side+"0"), opNum.mk(s, side+"1")) }}
	opArr2s = operand{"[str,str]", func(s *cstore, side string) *CNode { return s.array(opStr.mk(s, side+"0"), opStr.mk(s, side+"1")) }}
	opArr2d = operand{"[date,date]", func(s *cstore, side string) *CNode { return s.array(opDate.mk(s, side+"0"), opDate.mk(s, side+"1")) }}
	opArr2t = operand{"[stamp,date]", func(s *cstore, side string) *CNode { return s.array(opStamp.mk(s, side+"0"), opDate.mk(s, side+"1")) }}
	opArr2m = operand{"[num,str]", func(s *cstore, side string) *CNode { return s.array(opNum.mk(s, side+"0"), opStr.mk(s, side+"1")) }}
	opArr2b = operand{"[bool,num]", func(s *cstore, side string) *CNode { return s.array(opBool.mk(s, side+"0"), opNum.mk(s, side+"1")) }}
	opArr3  = operand{"[num,num,num]", func(s *cstore, side string) *CNode {
		return s.array(opNum.mk(s, side+"0"), opNum.mk(s, side+"1"), opNum.mk(s, side+"2"))
	}}
	opArr12 = operand{"[12 num]", func(s *cstore, side string) *CNode {
		var e []*CNode
		for i := 0; i < 12; i++ {
			e = append(e, opNum.mk(s, fmt.Sprintf("%s%d", side, i)))
		}
		return s.array(e...)
	}}
	opArr2i  = operand{"[ident,num]", func(s *cstore, side string) *CNode { return s.array(opIdent.mk(s, side+"0"), opNum.mk(s, side+"1")) }}
	opArrArr = operand{"[[num],num]", func(s *cstore, side string) *CNode { return s.array(opArr1n.mk(s, side+"0"), opNum.mk(s, side+"1")) }}
	opPlus   = operand{"(num+num)", func(s *cstore, side string) *CNode {
		return s.binary("Plus", opNum.mk(s, side+"0"), opNum.mk(s, side+"1"))
	}}
	opMinusI = operand{"(ident-num)", func(s *cstore, side string) *CNode {
		return s.binary("Minus", opIdent.mk(s, side+"0"), opNum.mk(s, side+"1"))
	}}
	opCmp = operand{"(num<num)", func(s *cstore, side string) *CNode {
		return s.binary("LT", opNum.mk(s, side+"0"), opNum.mk(s, side+"1"))
	}}
	opNeg = operand{"-num", func(s *cstore, side string) *CNode { return s.unary("UMinus", opNum.mk(s, side+"0")) }}
	opNot = operand{"not bool", func(s *cstore, side string) *CNode { return s.unary("Not", opBool.mk(s, side+"0")) }}
	opDiv = operand{"(num/num)", func(s *cstore, side string) *CNode {
		return s.binary("Slash", opNum.mk(s, side+"0"), opNum.mk(s, side+"1"))
	}}
	opAnd = operand{"(bool and bool)", func(s *cstore, side string) *CNode {
		return s.binary("And", opBool.mk(s, side+"0"), opBool.mk(s, side+"1"))
	}}
	opBad    = operand{"-str", func(s *cstore, side string) *CNode { return s.unary("UMinus", opStr.mk(s, side+"0")) }}
	opBadArr = operand{"[-str]", func(s *cstore, side string) *CNode { return s.array(opNum.mk(s, side+"1"), opBad.mk(s, side)) }}
	opNone   = operand{"<none>", func(s *cstore, side string) *CNode { return nil }}
)

var sem6Operands = []operand{opIdent, opStr, opNum, opBool, opNull, opDate, opStamp, opArr0, opArr1n, opArr2n, opArr2s, opArr2d, opArr2m, opArr2b, opPlus, opCmp, opNeg}

type sem6 struct {
	c    *Check
	m    *module
	k    *v6consts
	walk *ssa.Function
}

func newSem6(c *Check) (*sem6, error) {
	m, err := loadModule("v6", "./pkg/...")
	if err != nil {
		return nil, err
	}
	k, err := v6Consts(m)
	if err != nil {
		return nil, err
	}
	p := m.byDir["pkg/walkers/semantics"]
	if p == nil || p.Func("Walk") == nil {
		return nil, fmt.Errorf("v6 semantics.Walk not found")
	}
	c.scope = append(c.scope, "v6/pkg/walkers/semantics", "v6/pkg/tsl (Go side)")
	c.assume = append(c.assume,
		"the C accessor functions return the stored data (decided by C08)",
		"conversion of an integer to float64 keeps its value, numbers are neither NaN nor infinite (NaN is decided for =, !=, in and between)",
		"a STRING literal holds no date-like text (decided by C05)")
	return &sem6{c, m, k, p.Func("Walk")}, nil
}

func (e *sem6) tree(rule, label string, classes []recClass, build func(s *cstore) *CNode, judge func(r *semRun, root *CNode, o outcome, fail func(string, ...interface{}))) {
	e.c.explore(e.m, rule, label, func(in *Interp, fail func(string, ...interface{})) {
		s := in.newStore(e.k)
		root := build(s)
		r := &semRun{in: in, s: s, classes: classes, memo: map[string]Val{}}
		o := in.tryCall(e.walk, []Val{s.wrap(root), r.callback()})
		if o.crash != nil {
			fail("may crash: %s in %s (%s)", o.crash.what, o.crash.fn, in.position(o.crash.pos))
			return
		}
		judge(r, root, o, fail)
	})
}

// agree is the judgement: error exactly when the reference says so, and the
// same value otherwise.
func agree(r *semRun, root *CNode, o outcome, fail func(string, ...interface{})) {
	want, werr := r.spec(root)
	_, noErr := o.res[1].(VNil)
	switch {
	case werr != nil && noErr:
		fail("%s: gives %s, expected an error (%s)", r.s.show(root), show(o.res[0]), werr.why)
	case werr != nil:
	case !noErr:
		if _, open := want.(anyBoolOrErr); open || hasOpen(r, want) {
			return
		}
		fail("%s: gives an error, expected %s", r.s.show(root), show(want))
	default:
		if ok, why := r.sameVal(o.res[0], want); !ok {
			fail("%s: %s", r.s.show(root), why)
		}
	}
}

func hasOpen(r *semRun, v Val) bool {
	if _, ok := v.(anyBoolOrErr); ok {
		return true
	}
	e, ok := r.arr(v)
	if !ok {
		return false
	}
	for _, x := range e {
		if hasOpen(r, x) {
			return true
		}
	}
	return false
}

func (e *sem6) binaryOps(ops []string, lefts, rights []operand) []func() {
	var jobs []func()
	for _, op := range ops {
		for _, l := range lefts {
			for _, rr := range rights {
				op, l, rr := op, l, rr
				jobs = append(jobs, func() {
					cl := recordClasses()
					if l.label != "Identifier" || rr.label != "Identifier" {
						cl = append(cl, recordArray2)
					} else {
						cl = smallClasses()
					}
					e.tree(op, l.label+" "+op+" "+rr.label, cl, func(s *cstore) *CNode {
						a := l.mk(s, "l")
						b := rr.mk(s, "r")
						return s.binary(op, a, b)
					}, agree)
				})
			}
		}
	}
	return jobs
}

func (e *sem6) unaryOps(ops []string, ch []operand) []func() {
	var jobs []func()
	for _, op := range ops {
		for _, l := range ch {
			op, l := op, l
			jobs = append(jobs, func() {
				e.tree(op, op+" "+l.label, append(recordClasses(), recordArray2), func(s *cstore) *CNode {
					return s.unary(op, l.mk(s, "x"))
				}, agree)
			})
		}
	}
	return jobs
}

const sem6Tech = "abstract interpretation of the SSA of semantics.Walk and everything it calls, with trace partitioning over operand kinds and value classes, compared with a reference semantics per operator"

func init() {
	register("C09", sem6Tech, func(c *Check) error {
		e, err := newSem6(c)
		if err != nil {
			return err
		}
		ops := []string{"EQ", "NE", "LT", "LE", "GT", "GE"}
		parallel(append(append(e.binaryOps(ops, sem6Operands, sem6Operands), e.leaves()...), e.longJobs(ops, nil, agree)...))
		e.nan("EQ", "NE")
		c.need("long", 200)
		for _, o := range ops {
			c.need(o, 200)
		}
		return nil
	})
	register("C10", sem6Tech, func(c *Check) error {
		e, err := newSem6(c)
		if err != nil {
			return err
		}
		ops := []string{"And", "Or", "Plus", "Minus", "Star", "Slash", "Percent"}
		ol := append(append([]operand(nil), sem6Operands...), opDiv, opNot, opAnd, opMinusI)
		jobs := e.binaryOps(ops, ol, ol)
		jobs = append(jobs, e.unaryOps([]string{"Not", "UMinus"}, ol)...)
		jobs = append(jobs, e.longJobs(ops, []string{"Not", "UMinus"}, agree)...)
		parallel(jobs)
		e.remainders()
		c.need("long", 200)
		for _, o := range ops {
			c.need(o, 300)
		}
		return nil
	})
	register("C11", sem6Tech, func(c *Check) error {
		e, err := newSem6(c)
		if err != nil {
			return err
		}
		jobs := e.binaryOps([]string{"In", "Between", "Is"}, sem6Operands, append([]operand{opArr3, opArr2t, opArr2i, opArrArr}, sem6Operands...))
		jobs = append(jobs, e.binaryOps([]string{"In"}, []operand{opNum}, []operand{opArr12})...)
		jobs = append(jobs, e.unaryOps([]string{"Len", "Sum"}, []operand{opArr12})...)
		jobs = append(jobs, e.unaryOps([]string{"Len", "Any", "All", "Sum"}, append([]operand{opArr3, opArr2t, opArr2i, opArrArr}, sem6Operands...))...)
		jobs = append(jobs, e.longJobs([]string{"In", "Between", "Is"}, []string{"Len", "Any", "All", "Sum"}, agree)...)
		parallel(jobs)
		e.nan("In", "Between")
		c.need("long", 100)
		for _, o := range []string{"In", "Between", "Is"} {
			c.need(o, 200)
		}
		for _, o := range []string{"Len", "Any", "All", "Sum"} {
			c.need(o, 17)
		}
		return nil
	})
	register("C13", sem6Tech, func(c *Check) error {
		e, err := newSem6(c)
		if err != nil {
			return err
		}
		all := append(append([]operand(nil), sem6Operands...), opArr1, opArrArr, opBad, opBadArr, opNone, opDiv)
		few := []operand{opIdent, opNum, opStr, opBad, opBadArr, opNone}
		cl := append(recordClasses(), recordNested)
		judge := func(r *semRun, root *CNode, o outcome, fail func(string, ...interface{})) {
			if len(o.res) != 2 {
				fail("no result")
				return
			}
			if _, noErr := o.res[1].(VNil); noErr {
				if r.hasBad(root) {
					fail("%s: an error in a sub-expression is lost", r.s.show(root))
				} else if _, werr := r.spec(root); werr != nil {
					fail("%s: gives %s, expected an error (%s)", r.s.show(root), show(o.res[0]), werr.why)
				}
			}
		}
		var jobs []func()
		// arrays of two elements of unlike types: an error of either is kept
		for _, op := range v6binary {
			op := op
			for _, f := range []operand{opNum, opStr, opBool} {
				f := f
				jobs = append(jobs, func() {
					e.tree("elements", "[x, y] "+op+" "+f.label, []recClass{recordArray2}, func(s *cstore) *CNode { return s.binary(op, opIdent.mk(s, "l"), f.mk(s, "r")) }, judge)
				})
			}
			jobs = append(jobs, func() {
				e.tree("elements", "any ([num,str] "+op+" num)", cl, func(s *cstore) *CNode {
					return s.unary("Any", s.binary(op, opArr2m.mk(s, "l"), opNum.mk(s, "r")))
				}, judge)
			})
		}
		for _, op := range v6unary {
			op := op
			jobs = append(jobs, func() {
				e.tree("elements", op+" [x, y]", []recClass{recordArray2}, func(s *cstore) *CNode { return s.unary(op, opIdent.mk(s, "x")) }, judge)
			})
		}
		add := func(rule, label string, build func(s *cstore) *CNode) {
			jobs = append(jobs, func() { e.tree(rule, label, cl, build, judge) })
		}
		for _, o := range all {
			o := o
			add("root", o.label, func(s *cstore) *CNode { return o.mk(s, "x") })
			for _, op := range v6unary {
				op := op
				add(op, op+" "+o.label, func(s *cstore) *CNode { return s.unary(op, o.mk(s, "x")) })
			}
			for _, op := range v6binary {
				op := op
				for _, f := range few {
					f := f
					add(op, o.label+" "+op+" "+f.label, func(s *cstore) *CNode { return s.binary(op, o.mk(s, "l"), f.mk(s, "r")) })
					add(op, f.label+" "+op+" "+o.label, func(s *cstore) *CNode { return s.binary(op, f.mk(s, "l"), o.mk(s, "r")) })
				}
			}
		}
		// an error two levels down, under every operator
		for _, op := range v6binary {
			for _, op2 := range v6ops {
				op, op2 := op, op2
				inner := func(s *cstore) *CNode {
					for _, u := range v6unary {
						if u == op2 {
							return s.unary(op2, opBad.mk(s, "b"))
						}
					}
					return s.binary(op2, opNum.mk(s, "n"), opBad.mk(s, "b"))
				}
				add(op, "num "+op+" ("+op2+" bad)", func(s *cstore) *CNode { return s.binary(op, opNum.mk(s, "l"), inner(s)) })
				add(op, "("+op2+" bad) "+op+" bool", func(s *cstore) *CNode { return s.binary(op, inner(s), opBool.mk(s, "l")) })
			}
		}
		// a node kind or operator that does not exist
		add("unknown", "unknown operator", func(s *cstore) *CNode {
			n := s.binary("EQ", opNum.mk(s, "l"), opNum.mk(s, "r"))
			n.op = 9999
			return n
		})
		add("unknown", "unknown unary operator", func(s *cstore) *CNode {
			n := s.unary("Not", opNum.mk(s, "l"))
			n.op = 9999
			return n
		})
		jobs = append(jobs, e.longJobs(v6binary, v6unary, judge)...)
		jobs = append(jobs, func() {
			c.explore(e.m, "root", "nil tree", func(in *Interp, fail func(string, ...interface{})) {
				s := in.newStore(e.k)
				r := &semRun{in: in, s: s, classes: cl, memo: map[string]Val{}}
				if o := in.tryCall(e.walk, []Val{VNil{}, r.callback()}); o.crash != nil {
					fail("may crash on a nil tree: %s", o.crash.what)
				}
			})
		})
		parallel(jobs)
		for _, op := range v6binary {
			c.need(op, 300)
		}
		return nil
	})
}

func (e *sem6) leaves() []func() {
	var jobs []func()
	for _, o := range sem6Operands {
		o := o
		jobs = append(jobs, func() {
			e.tree("value", o.label, append(recordClasses(), recordArray2), func(s *cstore) *CNode { return o.mk(s, "x") }, agree)
		})
	}
	return jobs
}

// hasBad reports a sub-expression that must fail in this partition: a missing
// name, or a minus applied to a text literal.
func (r *semRun) hasBad(n *CNode) bool {
	if n == nil {
		return false
	}
	if r.s.is(n, "Identifier") {
		_, ok := r.record(n.str)
		return !ok
	}
	if r.s.is(n, "UnaryExpr") && r.s.c.on[n.op] == "UMinus" && n.kids[0] != nil && r.s.is(n.kids[0], "StringLiteral") {
		return true
	}
	for _, k := range n.kids {
		if r.hasBad(k) {
			return true
		}
	}
	return false
}

// recLong is an array of n elements of one kind, the last may be of another.
func recLong(kind, last string, n int) recClass {
	elem := func(in *Interp, kind, n string, i int) Val {
		switch kind {
		case "float64":
			return iface(tFloat, mkTerm(tFloat, "float64:"+n))
		case "string":
			return iface(tString, in.leafText("text:"+n))
		case "time":
			return iface(in.timeType(), mkTerm(in.timeType(), "time:"+n))
		case "nil":
			return VNil{}
		case "true":
			return iface(tBool, cBool(true))
		case "false":
			return iface(tBool, cBool(false))
		}
		return iface(tBool, cBool(i%3 != 1))
	}
	return recClass{fmt.Sprintf("array of %d %s, the last %s", n, kind, last), func(in *Interp, name string) Val {
		var l []Val
		for i := 0; i < n; i++ {
			// alike but for the last, or every element would double the cases
			if i == n-1 {
				l = append(l, elem(in, last, name+"-last", i))
			} else {
				l = append(l, elem(in, kind, name+"-all", i))
			}
		}
		return iface(tAnySl, in.mkSlice(l))
	}}
}

// listOf is a list literal of n elements of one kind.
func listOf(o operand, n int) operand {
	return operand{fmt.Sprintf("[%d %s]", n, o.label), func(s *cstore, side string) *CNode {
		var e []*CNode
		for i := 0; i < n; i++ {
			n := o.mk(s, longName(side, i))
			// valid dates, or every element would double the cases
			switch o.label {
			case "DateLiteral":
				s.in.facts["parse:"+layoutFull+":"+key(n.str)] = 0
				s.in.facts["parse:"+layoutShort+":"+key(n.str)] = 1
			case "TimestampLiteral":
				s.in.facts["parse:"+layoutFull+":"+key(n.str)] = 1
			}
			e = append(e, n)
		}
		return s.array(e...)
	}}
}

type semJudge func(r *semRun, root *CNode, o outcome, fail func(string, ...interface{}))

// longJobs are the obligations on long arrays of the record, on long list
// literals and on long chains of one operator.
func (e *sem6) longJobs(ops, unary []string, judge semJudge) []func() {
	var jobs []func()
	var arrays []recClass
	for _, n := range []int{20, 40} {
		arrays = append(arrays, recLong("float64", "float64", n), recLong("string", "string", n), recLong("time", "time", n), recLong("bool", "bool", n),
			recLong("true", "true", n), recLong("false", "true", n), recLong("true", "false", n), recLong("float64", "string", n), recLong("string", "nil", n), recLong("true", "float64", n))
	}
	add := func(rule, label string, cl []recClass, build func(s *cstore) *CNode) {
		jobs = append(jobs, func() { e.tree(rule, label, cl, build, judge) })
	}
	for _, op := range ops {
		op := op
		rights := []operand{opNum, opStr, opStamp, opBool}
		switch op {
		case "In":
			rights = []operand{opArr2n, opArr2s, opArr2t}
		case "Between":
			rights = []operand{opArr2n, opArr2t}
		case "Is":
			rights = []operand{opNull}
		case "Like", "ILike", "REQ", "RNE":
			rights = []operand{opStr}
		}
		for _, a := range arrays {
			for _, r := range rights {
				r := r
				add("long", "long "+a.name+" "+op+" "+r.label, []recClass{a}, func(s *cstore) *CNode { return s.binary(op, opIdent.mk(s, "l"), r.mk(s, "r")) })
			}
		}
		if op == "In" {
			for _, n := range []int{12, 70} {
				for _, o := range []operand{opNum, opStr, opStamp, opDate} {
					l := listOf(o, n)
					add("long", "In "+l.label, smallClasses(), func(s *cstore) *CNode { return s.binary(op, opIdent.mk(s, "l"), l.mk(s, "r")) })
				}
			}
		}
		var leaf *operand
		switch op {
		case "And", "Or":
			leaf = &opBool
		case "Plus", "Minus", "Star":
			leaf = &opNum
		}
		if leaf != nil {
			leaf := *leaf
			for _, n := range []int{18, 70} {
				for _, left := range []bool{true, false} {
					n, left := n, left
					add("long", fmt.Sprintf("%d levels of %s (left %v)", n, op, left), smallClasses(), func(s *cstore) *CNode {
						o := opIdent.mk(s, "x")
						for i := 0; i < n; i++ {
							if left {
								o = s.binary(op, o, leaf.mk(s, "y"))
							} else {
								o = s.binary(op, leaf.mk(s, "y"), o)
							}
						}
						return o
					})
				}
			}
		}
	}
	for _, op := range unary {
		op := op
		for _, a := range arrays {
			add("long", op+" long "+a.name, []recClass{a}, func(s *cstore) *CNode { return s.unary(op, opIdent.mk(s, "l")) })
		}
		for _, n := range []int{18, 70} {
			n := n
			add("long", fmt.Sprintf("%d levels of %s", n, op), smallClasses(), func(s *cstore) *CNode {
				o := opIdent.mk(s, "x")
				for i := 0; i < n; i++ {
					o = s.unary(op, o)
				}
				return o
			})
		}
		for _, n := range []int{70} {
			l := listOf(opNum, n)
			add("long", op+" "+l.label, nil, func(s *cstore) *CNode { return s.unary(op, l.mk(s, "x")) })
		}
	}
	return jobs
}
