package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value of the Go engine.
type Val interface{}

type (
	// VConst is a known boolean or number.
	VConst struct{ c constant.Value }
	// VStr is a string: a concatenation of known fragments and opaque atoms.
	VStr struct{ parts []Part }
	// Part is one fragment of a VStr; atom is nil for a known fragment.
	Part struct {
		s    string
		atom *VTerm
	}
	// VTerm is an opaque value, identified by where it comes from.
	VTerm struct {
		key  string
		op   string
		args []Val
		typ  types.Type
	}
	// VNil is a nil pointer, slice, map, func, channel or interface.
	VNil struct{}
	// VStruct and VArray are aggregates held by value.
	VStruct struct {
		typ types.Type
		f   []Val
	}
	VArray struct{ e []Val }
	// VPtr points at a heap object or at a component of one.
	VPtr struct {
		obj  *Obj
		path []int
	}
	VSlice struct {
		arr           *Obj // holds a VArray
		off, len, cap int
	}
	VMap   struct{ m *MapObj }
	VIface struct {
		dyn types.Type
		v   Val
	}
	VFunc struct {
		fn     *ssa.Function
		free   []Val
		native func(in *Interp, args []Val) []Val
		name   string
	}
	VTuple []Val
	// vIter is a map or string iterator.
	vIter struct {
		keys []Val
		vals []Val
		pos  int
		str  bool
	}
)

// Obj is a heap object.
type Obj struct {
	v      Val
	typ    types.Type
	name   string
	c      *CNode // the object is an AST node of the C core
	cobj   *CObj  // the object is C memory, under analysis of the C sources
	coff   int64
	input  bool // part of the value handed in by the caller: must not be written
	global bool // package-level variable
	extra  interface{}
}

// MapObj is a finite map.
type MapObj struct {
	keys   []Val
	vals   []Val
	input  bool
	name   string
	global bool // held by a package-level variable
}

func cBool(b bool) Val      { return VConst{constant.MakeBool(b)} }
func cInt(i int64) Val      { return VConst{constant.MakeInt64(i)} }
func cFloat(f float64) Val  { return VConst{constant.MakeFloat64(f)} }
func cStr(s string) VStr    { return VStr{}.add(Part{s: s}) }
func atomStr(t *VTerm) VStr { return VStr{parts: []Part{{atom: t}}} }

func (s VStr) add(p Part) VStr {
	if p.atom == nil && p.s == "" {
		return s
	}
	n := len(s.parts)
	if p.atom == nil && n > 0 && s.parts[n-1].atom == nil {
		parts := append([]Part(nil), s.parts...)
		parts[n-1].s += p.s
		return VStr{parts}
	}
	return VStr{append(append([]Part(nil), s.parts...), p)}
}

func (s VStr) concat(t VStr) VStr {
	switch len(t.parts) {
	case 0:
		return s
	case 1:
		return s.add(t.parts[0])
	}
	s = s.add(t.parts[0])
	n := len(s.parts)
	return VStr{append(s.parts[:n:n], t.parts[1:]...)}
}

// isConst reports whether the whole string is known.
func (s VStr) isConst() (string, bool) {
	switch {
	case len(s.parts) == 0:
		return "", true
	case len(s.parts) == 1 && s.parts[0].atom == nil:
		return s.parts[0].s, true
	}
	return "", false
}

func key(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case VConst:
		if v.c.Kind() == constant.Float || v.c.Kind() == constant.Int {
			f := constant.ToFloat(v.c)
			if x, ok := constant.Float64Val(f); ok || x == x {
				if i := constant.ToInt(v.c); i.Kind() == constant.Int {
					return "#" + i.ExactString()
				}
				return fmt.Sprintf("#%v", x)
			}
		}
		return "#" + v.c.ExactString()
	case VStr:
		var b strings.Builder
		if len(v.parts) == 1 && v.parts[0].atom != nil {
			return v.parts[0].atom.key
		}
		b.WriteString("str(")
		for i, p := range v.parts {
			if i > 0 {
				b.WriteString("+")
			}
			if p.atom != nil {
				b.WriteString(p.atom.key)
			} else {
				fmt.Fprintf(&b, "%q", p.s)
			}
		}
		return b.String() + ")"
	case *VTerm:
		return v.key
	case VNil:
		return "nil"
	case VStruct:
		var e []string
		for _, x := range v.f {
			e = append(e, key(x))
		}
		return "{" + strings.Join(e, ",") + "}"
	case VArray:
		var e []string
		for _, x := range v.e {
			e = append(e, key(x))
		}
		return "[" + strings.Join(e, ",") + "]"
	case VPtr:
		return fmt.Sprintf("&%s%v", v.obj.name, v.path)
	case VSlice:
		var e []string
		if a, ok := v.arr.v.(VArray); ok {
			for i := 0; i < v.len && v.off+i < len(a.e); i++ {
				e = append(e, key(a.e[v.off+i]))
			}
		}
		return "[]" + "[" + strings.Join(e, ",") + "]"
	case VMap:
		var e []string
		for i := range v.m.keys {
			e = append(e, key(v.m.keys[i])+":"+key(v.m.vals[i]))
		}
		return "map[" + strings.Join(e, ",") + "]"
	case VIface:
		return "i(" + typeName(v.dyn) + "," + key(v.v) + ")"
	case VFunc:
		if v.fn != nil {
			return "func:" + v.fn.String()
		}
		return "func:" + v.name
	case VTuple:
		var e []string
		for _, x := range v {
			e = append(e, key(x))
		}
		return "(" + strings.Join(e, ",") + ")"
	}
	return fmt.Sprintf("%T", v)
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func mkTerm(typ types.Type, op string, args ...Val) *VTerm {
	ks := make([]string, len(args))
	for i, a := range args {
		ks[i] = key(a)
	}
	k := op
	if len(args) > 0 {
		k += "(" + strings.Join(ks, ",") + ")"
	}
	return &VTerm{key: k, op: op, args: args, typ: typ}
}

// termOrStr wraps an atom as a string value if its type is a string.
func termOrStr(t *VTerm) Val {
	if isString(t.typ) {
		return atomStr(t)
	}
	return t
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}
func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// scalarStruct lists struct types treated as opaque scalars.
func scalarStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "time.Time":
		return true
	}
	return false
}

func isTime(t types.Type) bool { return t != nil && scalarStruct(t) }

// ---------------------------------------------------------------------------
// Run control

// Abstract control flow of the engine, implemented with Go panics.
type (
	absPanic struct {
		what string
		pos  token.Pos
		val  Val
		fn   string
	}
	pruned    struct{}
	undecided struct {
		what string
		pos  token.Pos
		fn   string
	}
)

// rel is a recorded order fact between two atoms.
type relFact struct {
	a, b string
	r    int // -1, 0, 1, or 2 for unequal
}

// chooser resolves undecided conditions: the exploration driver replays the
// analysis once for every combination of abstract choices.
type chooser struct {
	tape  []int
	width []int
	pos   int
	facts map[string]int
	order []relFact
	consN map[string]constant.Value // numeric constants among the order nodes
	ints  map[string]bool
	trace []string
}

func newChooser(tape []int) *chooser {
	return &chooser{tape: tape, facts: map[string]int{}, consN: map[string]constant.Value{}, ints: map[string]bool{}}
}

// choose returns an abstract choice in [0,n) for the named condition; the same
// condition always gets the same answer within one partition.
func (c *chooser) choose(name string, n int) int {
	if v, ok := c.facts[name]; ok {
		return v
	}
	v := c.next(n)
	c.facts[name] = v
	if n > 1 {
		c.trace = append(c.trace, fmt.Sprintf("%s=%d", name, v))
	}
	return v
}

func (c *chooser) next(n int) int {
	if n <= 1 {
		return 0
	}
	if c.pos < len(c.tape) {
		v := c.tape[c.pos]
		c.width[c.pos] = n
		c.pos++
		return v
	}
	c.tape = append(c.tape, 0)
	c.width = append(c.width, n)
	c.pos++
	return 0
}

func (c *chooser) known(name string) (int, bool) { v, ok := c.facts[name]; return v, ok }

// compare decides the order of two atoms, forking when it is not implied.
func (c *chooser) compare(a, b Val, integer bool) int {
	if r, ok := constCompare(a, b); ok {
		return r
	}
	ka, kb := key(a), key(b)
	if ka == kb {
		return 0
	}
	c.note(a, ka, integer)
	c.note(b, kb, integer)
	var poss []int
	_, isText := a.(VStr)
	for _, r := range []int{-1, 0, 1} {
		if r == 0 && (isText && c.layoutConflict(ka, kb) || c.taken(ka, kb)) {
			continue
		}
		if integer && lenRules(a, b, r) {
			continue
		}
		if c.consistent(relFact{ka, kb, r}) {
			poss = append(poss, r)
		}
	}
	if len(poss) == 0 {
		panic(pruned{})
	}
	r := poss[0]
	if len(poss) > 1 {
		r = poss[c.next(len(poss))]
		c.trace = append(c.trace, ka+map[int]string{-1: " < ", 0: " = ", 1: " > "}[r]+kb)
	}
	c.order = append(c.order, relFact{ka, kb, r})
	return r
}

// equals decides whether two atoms are equal, without ordering unequal ones.
func (c *chooser) equals(a, b Val, integer bool) bool {
	if integer {
		return c.compare(a, b, true) == 0
	}
	if r, ok := constCompare(a, b); ok {
		return r == 0
	}
	ka, kb := key(a), key(b)
	if ka == kb {
		return true
	}
	c.note(a, ka, false)
	c.note(b, kb, false)
	_, isText := a.(VStr)
	eq := !(isText && c.layoutConflict(ka, kb)) && !c.taken(ka, kb) && c.consistent(relFact{ka, kb, 0})
	ne := c.consistent(relFact{ka, kb, -1}) || c.consistent(relFact{ka, kb, 1})
	switch {
	case !eq && !ne:
		panic(pruned{})
	case eq && ne:
		r, sign := 0, " = "
		if c.next(2) == 0 {
			r, sign = 2, " != "
		}
		c.trace = append(c.trace, ka+sign+kb)
		c.order = append(c.order, relFact{ka, kb, r})
		return r == 0
	}
	return eq
}

// longName names element i of a long list. The elements of one long list are
// taken to be distinct, or each comparison with all of them would have a case
// for every subset that is equal; short lists have all of those.
func longName(side string, i int) string { return fmt.Sprintf("%s⟨%s:%04d⟩", side, side, i) }

// longList is the list that an atom is an element of.
func longList(k string) string {
	i := strings.Index(k, "⟨")
	if i < 0 {
		return ""
	}
	k = k[i:]
	if j := strings.LastIndex(k[:strings.Index(k, "⟩")], ":"); j >= 0 {
		return k[:j]
	}
	return ""
}

// taken reports that one of the atoms is an element of a long list and the
// other is equal to another element of it.
func (c *chooser) taken(ka, kb string) bool {
	la, lb := longList(ka), longList(kb)
	if la == lb {
		return la != ""
	}
	if la == "" {
		ka, la, kb, lb = kb, lb, ka, la
	}
	if lb != "" {
		return false
	}
	for _, f := range c.order {
		if f.r == 0 && (f.a == kb && longList(f.b) == la || f.b == kb && longList(f.a) == la) {
			return true
		}
	}
	return false
}

// mayBe reports whether the integers a and b may be in relation r (-1, 0, 1),
// without recording an answer.
func (c *chooser) mayBe(a, b Val, r int) bool {
	if x, ok := constCompare(a, b); ok {
		return x == r
	}
	ka, kb := key(a), key(b)
	if ka == kb {
		return r == 0
	}
	if lenRules(a, b, r) {
		return false
	}
	c.note(a, ka, true)
	c.note(b, kb, true)
	return c.consistent(relFact{ka, kb, r})
}

// lenForm reads an integer as a constant plus lengths.
func lenForm(v Val, sign int64, k *int64, lens map[string]int64) bool {
	switch x := v.(type) {
	case VConst:
		i, ok := constant.Int64Val(constant.ToInt(x.c))
		*k += sign * i
		return ok
	case *VTerm:
		switch x.op {
		case "len":
			lens[x.key] += sign
			return true
		case "add", "sub":
			s2 := sign
			if x.op == "sub" {
				s2 = -sign
			}
			return lenForm(x.args[0], sign, k, lens) && lenForm(x.args[1], s2, k, lens)
		}
	}
	return false
}

// lenRules: a and b cannot compare as r because lengths are not negative.
func lenRules(a, b Val, r int) bool {
	var k int64
	lens := map[string]int64{}
	if !lenForm(a, 1, &k, lens) || !lenForm(b, -1, &k, lens) {
		return false
	}
	pos, neg := true, true // lengths only add, only subtract
	for _, n := range lens {
		if n < 0 {
			pos = false
		}
		if n > 0 {
			neg = false
		}
	}
	switch {
	case pos && neg:
		return k < 0 && r >= 0 || k == 0 && r != 0 || k > 0 && r <= 0
	case pos:
		return k > 0 && r <= 0 || k == 0 && r < 0
	case neg:
		return k < 0 && r >= 0 || k == 0 && r > 0
	}
	return false
}

// sameText lists the texts known to be equal to k, k included.
func (c *chooser) sameText(k string) []string {
	l := []string{k}
	seen := map[string]bool{k: true}
	for i := 0; i < len(l); i++ {
		for _, f := range c.order {
			if f.r != 0 {
				continue
			}
			o := ""
			if f.a == l[i] {
				o = f.b
			} else if f.b == l[i] {
				o = f.a
			}
			if o != "" && !seen[o] {
				seen[o] = true
				l = append(l, o)
			}
		}
	}
	return l
}

// layoutFact looks up whether a text, or one equal to it, has a time layout.
func (c *chooser) layoutFact(layout, k string) (int, bool) {
	for _, t := range c.sameText(k) {
		if v, ok := c.facts["parse:"+layout+":"+t]; ok {
			return v, true
		}
		for f := range c.facts {
			if strings.HasPrefix(f, "parsedas:") && f == "parsedas:"+t {
				return 0, true // has another layout
			}
		}
	}
	return 0, false
}

// layoutConflict reports that two texts are known to differ in a time layout.
func (c *chooser) layoutConflict(a, b string) bool {
	for _, l := range []string{"2006-01-02T15:04:05Z07:00", "2006-01-02"} {
		x, ok1 := c.layoutFact(l, a)
		y, ok2 := c.layoutFact(l, b)
		if ok1 && ok2 && x != y {
			return true
		}
	}
	return false
}

func constCompare(a, b Val) (int, bool) {
	switch x := a.(type) {
	case VConst:
		y, ok := b.(VConst)
		if !ok {
			return 0, false
		}
		if x.c.Kind() == constant.Bool {
			if constant.BoolVal(x.c) == constant.BoolVal(y.c) {
				return 0, true
			}
			return 1, true
		}
		switch {
		case constant.Compare(x.c, token.EQL, y.c):
			return 0, true
		case constant.Compare(x.c, token.LSS, y.c):
			return -1, true
		}
		return 1, true
	case VStr:
		y, ok := b.(VStr)
		if !ok {
			return 0, false
		}
		s, ok1 := x.isConst()
		t, ok2 := y.isConst()
		if ok1 && ok2 {
			return strings.Compare(s, t), true
		}
	}
	return 0, false
}

func (c *chooser) note(v Val, k string, integer bool) {
	if x, ok := v.(VConst); ok {
		if x.c.Kind() == constant.Int || x.c.Kind() == constant.Float {
			c.consN[k] = x.c
		}
		return
	}
	if t, ok := v.(*VTerm); ok {
		if integer || isInteger(t.typ) {
			c.ints[k] = true
		}
		if t.op == "len" || t.op == "abs" || strings.HasPrefix(t.op, "uint") {
			c.fact("#0", constant.MakeInt64(0), k, true)
		}
	}
	if s, ok := v.(VStr); ok {
		if str, isC := s.isConst(); isC && str == "" {
			_ = str
		} else {
			// every text is >= the empty text
			c.geEmpty(k)
		}
	}
}

type leFact struct {
	lo, hi string
	strict bool
}

func (c *chooser) fact(lo string, lc constant.Value, hi string, _ bool) {
	c.consN[lo] = lc
	c.facts["ge0:"+hi] = 1
}
func (c *chooser) geEmpty(k string) { c.facts["geE:"+k] = 1 }

// consistent checks that the recorded order facts plus one more have no
// contradictory cycle.
func (c *chooser) consistent(extra relFact) bool {
	idx := map[string]int{}
	node := func(k string) int {
		if i, ok := idx[k]; ok {
			return i
		}
		idx[k] = len(idx)
		return len(idx) - 1
	}
	var es []leFact
	addRel := func(f relFact) {
		switch f.r {
		case 0:
			es = append(es, leFact{f.a, f.b, false}, leFact{f.b, f.a, false})
		case -1:
			es = append(es, c.ltEdges(f.a, f.b)...)
		case 1:
			es = append(es, c.ltEdges(f.b, f.a)...)
		case 2:
			node(f.a)
			node(f.b)
		}
	}
	for _, f := range c.order {
		addRel(f)
	}
	addRel(extra)
	for k := range c.facts {
		if strings.HasPrefix(k, "ge0:") {
			es = append(es, leFact{"#0", k[4:], false})
		}
		if strings.HasPrefix(k, "geE:") {
			es = append(es, leFact{"str()", k[4:], false})
		}
	}
	consts := map[string]constant.Value{"#0": constant.MakeInt64(0)}
	for k, v := range c.consN {
		consts[k] = v
	}
	for _, e := range es {
		for _, k := range []string{e.lo, e.hi} {
			if strings.HasPrefix(k, "#") && consts[k] == nil {
				if v := constant.MakeFromLiteral(strings.TrimPrefix(k, "#"), token.INT, 0); v.Kind() == constant.Int {
					consts[k] = v
				} else if strings.HasPrefix(k, "#-") {
					v := constant.MakeFromLiteral(k[2:], token.INT, 0)
					if v.Kind() == constant.Int {
						consts[k] = constant.UnaryOp(token.SUB, v, 0)
					}
				}
			}
		}
	}
	var ck []string
	for k := range consts {
		ck = append(ck, k)
	}
	sort.Slice(ck, func(i, j int) bool { return constant.Compare(consts[ck[i]], token.LSS, consts[ck[j]]) })
	for i := 1; i < len(ck); i++ {
		if constant.Compare(consts[ck[i-1]], token.LSS, consts[ck[i]]) {
			es = append(es, leFact{ck[i-1], ck[i], true})
		} else {
			es = append(es, leFact{ck[i-1], ck[i], false}, leFact{ck[i], ck[i-1], false})
		}
	}
	for _, e := range es {
		node(e.lo)
		node(e.hi)
	}
	n := len(idx)
	// 0: no path, 1: <=, 2: <
	d := make([][]int8, n)
	for i := range d {
		d[i] = make([]int8, n)
	}
	for _, e := range es {
		w := int8(1)
		if e.strict {
			w = 2
		}
		if d[idx[e.lo]][idx[e.hi]] < w {
			d[idx[e.lo]][idx[e.hi]] = w
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if d[i][k] == 0 {
				continue
			}
			for j := 0; j < n; j++ {
				if d[k][j] == 0 {
					continue
				}
				w := int8(1)
				if d[i][k] == 2 || d[k][j] == 2 {
					w = 2
				}
				if d[i][j] < w {
					d[i][j] = w
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if d[i][i] == 2 {
			return false
		}
	}
	for _, f := range c.order {
		if f.r == 2 && d[idx[f.a]][idx[f.b]] != 0 && d[idx[f.b]][idx[f.a]] != 0 {
			return false
		}
	}
	return true
}

// ltEdges turns a < b into edges, using integrality where it helps.
func (c *chooser) ltEdges(a, b string) []leFact {
	es := []leFact{{a, b, true}}
	if v, ok := c.consN[a]; ok && c.ints[b] && v.Kind() == constant.Int {
		k := key(VConst{constant.BinaryOp(v, token.ADD, constant.MakeInt64(1))})
		es = append(es, leFact{k, b, false})
	}
	if v, ok := c.consN[b]; ok && c.ints[a] && v.Kind() == constant.Int {
		k := key(VConst{constant.BinaryOp(v, token.SUB, constant.MakeInt64(1))})
		es = append(es, leFact{a, k, false})
	}
	return es
}
