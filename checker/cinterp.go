package main

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"time"
)

// Abstract interpretation of C. Integers are constants, functions of one
// abstract byte (a symbol with the set of values it may have) or an unknown
// number with bounds; memory is a set of objects with live or released state.

const (
	cvUndef = iota // never written
	cvInt
	cvPtr
	cvFlt
)

type cFlt struct {
	c    float64
	term string // "" for a constant
}

func (f *cFlt) String() string {
	if f.term == "" {
		return fmt.Sprint(f.c)
	}
	if f.c == 1 {
		return f.term
	}
	return fmt.Sprintf("%v*%s", f.c, f.term)
}

// cSym is an abstract byte.
type cSym struct {
	name string
	set  [4]uint64
}

func (s *cSym) has(b int) bool { return s.set[b>>6]&(1<<(uint(b)&63)) != 0 }
func (s *cSym) values() []int {
	var l []int
	for b := 0; b < 256; b++ {
		if s.has(b) {
			l = append(l, b)
		}
	}
	return l
}

// cNum is an unknown integer between bounds.
type cNum struct {
	name   string
	lo, hi int64
}

// CV is an abstract scalar.
type CV struct {
	k    uint8
	bits uint8
	n    int64 // integer, or offset of a pointer
	o    *CObj
	s    *cSym
	t    *[256]int64 // value as a function of s
	u    *cNum       // value is u+n
	f    *cFlt
}

func cvI(bits int, n int64) CV { return CV{k: cvInt, bits: uint8(bits), n: wrap(bits, n)} }

func wrap(bits int, n int64) int64 {
	switch {
	case bits >= 64:
		return n
	case bits == 1:
		return n & 1
	}
	sh := uint(64 - bits)
	return n << sh >> sh
}

func unsigned(bits int, n int64) uint64 {
	if bits >= 64 {
		return uint64(n)
	}
	return uint64(n) & (1<<uint(bits) - 1)
}

func (v CV) isNull() bool  { return v.k == cvPtr && v.o == nil && v.n == 0 && v.s == nil }
func (v CV) isConst() bool { return v.k == cvInt && v.s == nil && v.u == nil }

func (v CV) String() string {
	switch v.k {
	case cvUndef:
		return "uninitialised"
	case cvInt:
		if v.s != nil {
			return "f(" + v.s.name + ")"
		}
		if v.u != nil {
			return fmt.Sprintf("%s%+d", v.u.name, v.n)
		}
		return fmt.Sprint(v.n)
	case cvPtr:
		if v.o == nil {
			return "null"
		}
		return fmt.Sprintf("&%s+%d", v.o.name, v.n)
	case cvFlt:
		return v.f.String()
	}
	return "?"
}

type cCell struct {
	w int8
	v CV
}

// CObj is a block of memory.
type CObj struct {
	name  string
	kind  byte // 'h' heap, 's' stack, 'g' global, 'c' constant
	size  int64
	freed bool
	where string // where it was allocated
	freeW string
	cells map[int64]cCell
	rom   []int64 // constant integer arrays
	romW  int64
	zero  bool // unwritten cells are zero
	init  *cGlobal
	ro    bool // belongs to the input: must not change
}

type cCrash struct{ what, fn string }
type cExit struct{ what string }

// CI analyses C code within one abstract partition.
type CI struct {
	p        *cProgram
	ch       *chooser
	globals  map[*cGlobal]*CObj
	heap     []*CObj
	steps    int
	maxSteps int
	depth    int
	analysed map[*cFunc]bool
	blocks   map[*cBlock]bool
	ext      map[string]bool
	hook     func(name string, args []CV) (CV, bool)
	onAccess func(o *CObj, off int64, write bool)
	stack    []string
	nsym     int
	ctype    *CObj
	goObjs   map[goKey]*Obj
	bytes    map[string]CV // abstract bytes of Go texts
	nums     map[string]*cNum
	onCall   func(f *cFunc, args []CV)
}

func newCI(p *cProgram, ch *chooser) *CI {
	return &CI{p: p, ch: ch, globals: map[*cGlobal]*CObj{}, maxSteps: 6000000, analysed: map[*cFunc]bool{}, blocks: map[*cBlock]bool{}, ext: map[string]bool{}}
}

func (ci *CI) fnName() string {
	if len(ci.stack) == 0 {
		return "?"
	}
	return ci.stack[len(ci.stack)-1]
}

func (ci *CI) undecided(format string, a ...interface{}) {
	panic(undecided{what: fmt.Sprintf(format, a...), fn: ci.fnName()})
}

func (ci *CI) crash(format string, a ...interface{}) {
	panic(cCrash{fmt.Sprintf(format, a...), ci.fnName()})
}

func (ci *CI) sym(name string, bytes func(b int) bool) *cSym {
	s := &cSym{name: name}
	for b := 0; b < 256; b++ {
		if bytes(b) {
			s.set[b>>6] |= 1 << (uint(b) & 63)
		}
	}
	return s
}

var identTab [256]int64

func init() {
	for i := range identTab {
		identTab[i] = int64(int8(i))
	}
}

func symByte(s *cSym) CV { return CV{k: cvInt, bits: 8, s: s, t: &identTab}.norm() }

// norm collapses a value whose symbol leaves only one possibility.
func (v CV) norm() CV {
	if v.s == nil {
		return v
	}
	first := true
	var x int64
	for w := 0; w < 4; w++ {
		m := v.s.set[w]
		for b := w * 64; m != 0; b, m = b+1, m>>1 {
			if m&1 == 0 {
				continue
			}
			if first {
				x, first = v.t[b], false
			} else if v.t[b] != x {
				return v
			}
		}
	}
	v.s, v.t = nil, nil
	v.n = x
	return v
}

func (v CV) mapped(bits int, f func(int64) int64) CV {
	if v.s == nil {
		v.n = f(v.n)
		v.bits = uint8(bits)
		return v
	}
	t := new([256]int64)
	for b := 0; b < 256; b++ {
		if v.s.has(b) {
			t[b] = f(v.t[b])
		}
	}
	v.t = t
	v.bits = uint8(bits)
	return v.norm()
}

func byteSetName(set [4]uint64) string {
	var out []string
	for b := 0; b < 256; b++ {
		if set[b>>6]&(1<<(uint(b)&63)) == 0 {
			continue
		}
		e := b
		for e+1 < 256 && set[(e+1)>>6]&(1<<(uint(e+1)&63)) != 0 {
			e++
		}
		p := func(b int) string {
			if b > 32 && b < 127 {
				return string(rune(b))
			}
			return fmt.Sprintf("\\x%02x", b)
		}
		if e == b {
			out = append(out, p(b))
		} else {
			out = append(out, p(b)+"-"+p(e))
		}
		b = e
	}
	return "[" + strings.Join(out, "") + "]"
}

// pick partitions on the value of v and returns a constant.
func (ci *CI) pick(v CV) CV {
	if v.s == nil {
		return v
	}
	vals := map[int64]bool{}
	var l []int64
	for b := 0; b < 256; b++ {
		if v.s.has(b) && !vals[v.t[b]] {
			vals[v.t[b]] = true
			l = append(l, v.t[b])
		}
	}
	if len(l) == 0 {
		panic(pruned{})
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	x := l[ci.ch.next(len(l))]
	if len(l) > 1 {
		for b := 0; b < 256; b++ {
			if v.s.has(b) && v.t[b] != x {
				v.s.set[b>>6] &^= 1 << (uint(b) & 63)
			}
		}
		ci.ch.trace = append(ci.ch.trace, v.s.name+"∈"+byteSetName(v.s.set))
	}
	v.s, v.t, v.n = nil, nil, x
	return v
}

// truth decides a condition.
func (ci *CI) truth(v CV) bool {
	switch v.k {
	case cvPtr:
		if v.s != nil {
			v = ci.pick(v)
		}
		return v.o != nil || v.n != 0
	case cvInt:
		v = v.norm()
		if v.s != nil {
			return ci.pick(v.mapped(1, func(x int64) int64 { return b2i(x != 0) })).n != 0
		}
		if v.u != nil {
			return ci.numCmp(v, "ne", 0)
		}
		return v.n != 0
	}
	ci.crash("a condition depends on memory that was never written")
	return false
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// numCmp decides u+n pred c, narrowing the bounds of u.
func (ci *CI) numCmp(v CV, pred string, c int64) bool {
	u, k := v.u, c-v.n // u pred k
	type iv struct{ lo, hi int64 }
	var yes, no []iv
	add := func(l *[]iv, lo, hi int64) {
		if lo < u.lo {
			lo = u.lo
		}
		if hi > u.hi {
			hi = u.hi
		}
		if lo <= hi {
			*l = append(*l, iv{lo, hi})
		}
	}
	const inf = math.MaxInt64
	switch pred {
	case "eq":
		add(&yes, k, k)
		add(&no, -inf, k-1)
		add(&no, k+1, inf)
	case "ne":
		add(&no, k, k)
		add(&yes, -inf, k-1)
		add(&yes, k+1, inf)
	case "slt", "ult":
		add(&yes, -inf, k-1)
		add(&no, k, inf)
	case "sle", "ule":
		add(&yes, -inf, k)
		add(&no, k+1, inf)
	case "sgt", "ugt":
		add(&yes, k+1, inf)
		add(&no, -inf, k)
	case "sge", "uge":
		add(&yes, k, inf)
		add(&no, -inf, k-1)
	default:
		ci.undecided("comparison %s", pred)
	}
	n := len(yes) + len(no)
	if n == 0 {
		panic(pruned{})
	}
	i := ci.ch.next(n)
	res := i < len(yes)
	r := iv{}
	if res {
		r = yes[i]
	} else {
		r = no[i-len(yes)]
	}
	u.lo, u.hi = r.lo, r.hi
	if n > 1 {
		ci.ch.trace = append(ci.ch.trace, fmt.Sprintf("%s in %d..%d", u.name, u.lo, u.hi))
	}
	return res
}

// --- memory ----------------------------------------------------------------

func (ci *CI) alloc(kind byte, size int64, name string) *CObj {
	ci.nsym++
	o := &CObj{name: fmt.Sprintf("%s#%d", name, ci.nsym), kind: kind, size: size, cells: map[int64]cCell{}, where: ci.fnName()}
	if kind == 'h' {
		ci.heap = append(ci.heap, o)
	}
	return o
}

func (ci *CI) globalObj(u *cUnit, name string) *CObj {
	g := ci.p.global(u, name)
	if g == nil {
		ci.undecided("unknown global %s", name)
	}
	if o := ci.globals[g]; o != nil {
		return o
	}
	g.typ.layout()
	o := &CObj{name: g.name, kind: 'g', size: g.typ.size, cells: map[int64]cCell{}, zero: true, init: g}
	ci.globals[g] = o
	if g.constant {
		o.kind = 'c'
	}
	if g.external {
		switch g.name {
		case "stdin", "stdout", "stderr":
			f := &CObj{name: g.name + " file", kind: 'g', size: 256, cells: map[int64]cCell{}}
			o.cells[0] = cCell{8, CV{k: cvPtr, o: f}}
			return o
		}
		ci.undecided("global %s is not defined in the C sources", g.name)
	}
	ci.initCells(g.unit, o, 0, g.typ, *g.init)
	return o
}

func (ci *CI) initCells(u *cUnit, o *CObj, off int64, t *cType, v cOperand) {
	if v.zero {
		return
	}
	if v.agg != nil || v.str != "" {
		if v.str != "" {
			rom := make([]int64, len(v.str))
			for i := 0; i < len(v.str); i++ {
				rom[i] = int64(int8(v.str[i]))
			}
			if off == 0 && o.kind == 'c' && t.size == o.size {
				o.rom, o.romW = rom, 1
				return
			}
			for i, x := range rom {
				o.cells[off+int64(i)] = cCell{1, cvI(8, x)}
			}
			return
		}
		if t.k == 'a' {
			if t.elem.k == 'i' && off == 0 && o.kind == 'c' && t.size == o.size {
				rom := make([]int64, len(v.agg))
				for i, e := range v.agg {
					rom[i] = e.val.n
				}
				o.rom, o.romW = rom, t.elem.size
				return
			}
			for i, e := range v.agg {
				ci.initCells(u, o, off+int64(i)*t.elem.size, t.elem, e)
			}
			return
		}
		t.layout()
		for i, e := range v.agg {
			ci.initCells(u, o, off+t.offs[i], t.fields[i], e)
		}
		return
	}
	fr := &cFrame{f: &cFunc{mod: u}}
	o.cells[off] = cCell{int8(t.size), ci.operand(fr, v)}
}

func (ci *CI) check(p CV, w int64, write bool) {
	o := p.o
	if o == nil {
		if p.k == cvUndef {
			ci.crash("uses a pointer that was never written")
		}
		what := "reads"
		if write {
			what = "writes"
		}
		ci.crash("%s through a null pointer", what)
	}
	if o.freed {
		ci.crash("uses %s (allocated in %s) after it was released in %s", o.name, o.where, o.freeW)
	}
	if p.n < 0 || p.n+w > o.size {
		ci.crash("accesses byte %d of %s, which has %d bytes (allocated in %s)", p.n, o.name, o.size, o.where)
	}
	if write && (o.kind == 'c' || o.ro) {
		ci.crash("writes to %s, which must not change", o.name)
	}
	if ci.onAccess != nil {
		ci.onAccess(o, p.n, write)
	}
}

func (ci *CI) load(p CV, w int64, t *cType) CV {
	if p.k == cvInt && p.isConst() && p.n == 0 {
		p = CV{k: cvPtr}
	}
	if p.k != cvPtr {
		ci.crash("uses a pointer that was never written")
	}
	if p.s != nil {
		p = p.norm()
	}
	if p.s != nil {
		if o := p.o; o != nil && o.rom != nil && o.romW == w {
			tab := new([256]int64)
			ok := true
			for b := 0; b < 256; b++ {
				if !p.s.has(b) {
					continue
				}
				off := p.t[b]
				if off < 0 || off+w > o.size || off%w != 0 {
					ci.crash("accesses byte %d of %s, which has %d bytes (for %s=%q)", off, o.name, o.size, p.s.name, string(rune(b)))
				}
				if int(off/w) < len(o.rom) {
					tab[b] = o.rom[off/w]
				}
			}
			if ok {
				if ci.onAccess != nil {
					ci.onAccess(o, 0, false)
				}
				return CV{k: cvInt, bits: uint8(w * 8), s: p.s, t: tab}.norm()
			}
		}
		p = ci.pick(p)
	}
	ci.check(p, w, false)
	o := p.o
	if o.rom != nil {
		if w == o.romW && p.n%w == 0 {
			if int(p.n/w) >= len(o.rom) {
				return cvI(int(w*8), 0)
			}
			return cvI(int(w*8), o.rom[p.n/w])
		}
		if w > o.romW && t != nil && t.k == 'i' {
			var x uint64
			for i := int64(0); i < w; i++ {
				e := (p.n + i) / o.romW
				var r int64
				if int(e) < len(o.rom) {
					r = o.rom[e]
				}
				x |= (uint64(r) >> uint(8*((p.n+i)%o.romW)) & 255) << uint(8*i)
			}
			return cvI(int(w*8), int64(x))
		}
		ci.undecided("reads %d bytes at %d of %s", w, p.n, o.name)
	}
	if c, ok := o.cells[p.n]; ok && int64(c.w) == w {
		v := c.v
		if v.k == cvInt && t != nil && t.k == 'p' {
			if v.isConst() && v.n == 0 {
				return CV{k: cvPtr}
			}
		}
		if v.k == cvInt && t != nil && t.k == 'd' && v.isConst() && v.n == 0 {
			return CV{k: cvFlt, f: &cFlt{}}
		}
		if v.k == cvPtr && v.isNull() && t != nil && t.k == 'i' {
			return cvI(int(w*8), 0)
		}
		if v.s != nil {
			v = v.norm()
		}
		return v
	}
	// compose from bytes
	var x uint64
	known, undef := true, true
	for i := int64(0); i < w; i++ {
		b, ok := ci.byteOf(o, p.n+i)
		if !ok {
			known = false
			if o.zero {
				undef = false
			}
			continue
		}
		undef = false
		x |= uint64(b) << uint(8*i)
	}
	if !known {
		if undef {
			return CV{k: cvUndef}
		}
		ci.undecided("reads %d bytes at %d of %s, which are parts of other values", w, p.n, o.name)
	}
	if t != nil && t.k == 'p' {
		if x == 0 {
			return CV{k: cvPtr}
		}
		ci.undecided("reads a pointer at %d of %s made of bytes", p.n, o.name)
	}
	if t != nil && t.k == 'd' {
		return CV{k: cvFlt, f: &cFlt{c: math.Float64frombits(x)}}
	}
	return cvI(int(w*8), int64(x))
}

// byteOf is the constant byte at an offset, if known.
func (ci *CI) byteOf(o *CObj, off int64) (byte, bool) {
	for back := int64(0); back < 8; back++ {
		c, ok := o.cells[off-back]
		if !ok {
			continue
		}
		if int64(c.w) <= back {
			break
		}
		if c.v.isConst() {
			return byte(unsigned(64, c.v.n) >> uint(8*back)), true
		}
		if c.v.isNull() {
			return 0, true
		}
		return 0, false
	}
	if o.zero {
		return 0, true
	}
	return 0, false
}

func (ci *CI) store(p CV, w int64, v CV) {
	if p.k == cvInt && p.isConst() && p.n == 0 {
		p = CV{k: cvPtr}
	}
	if p.k != cvPtr {
		ci.crash("writes through a pointer that was never written")
	}
	if p.s != nil {
		p = ci.pick(p)
	}
	ci.check(p, w, true)
	ci.put(p.o, p.n, w, v)
}

func (ci *CI) put(o *CObj, off, w int64, v CV) {
	// what the new value overlaps is kept as bytes where it is known
	for back := int64(1); back < 8; back++ {
		if c, ok := o.cells[off-back]; ok && int64(c.w) > back {
			ci.shatter(o, off-back, c)
			break
		}
	}
	for i := int64(0); i < w; i++ {
		if c, ok := o.cells[off+i]; ok {
			if i+int64(c.w) > w {
				ci.shatter(o, off+i, c)
			}
			delete(o.cells, off+i)
		}
	}
	o.cells[off] = cCell{int8(w), v}
}

func (ci *CI) shatter(o *CObj, off int64, c cCell) {
	delete(o.cells, off)
	for i := int64(0); i < int64(c.w); i++ {
		b := CV{k: cvUndef}
		if c.v.isConst() {
			b = cvI(8, int64(unsigned(64, c.v.n)>>uint(8*i)&255))
		} else if c.v.isNull() {
			b = cvI(8, 0)
		}
		o.cells[off+i] = cCell{1, b}
	}
}

// copyMem copies n bytes with whatever values they hold.
func (ci *CI) copyMem(dst, src CV, n int64) {
	if n == 0 {
		return
	}
	src, dst = ci.pick(src), ci.pick(dst)
	ci.check(src, n, false)
	ci.check(dst, n, true)
	type cc struct {
		off int64
		c   cCell
	}
	var l []cc
	if src.o.rom != nil {
		for i := int64(0); i < n; i++ {
			e := (src.n + i) / src.o.romW
			var r int64
			if int(e) < len(src.o.rom) {
				r = src.o.rom[e]
			}
			l = append(l, cc{i, cCell{1, cvI(8, int64(uint64(r)>>uint(8*((src.n+i)%src.o.romW))&255))}})
		}
	} else {
		for off, c := range src.o.cells {
			if off >= src.n && off+int64(c.w) <= src.n+n {
				l = append(l, cc{off - src.n, c})
			} else if off < src.n+n && off+int64(c.w) > src.n {
				// a value cut by the copy
				for i := int64(0); i < int64(c.w); i++ {
					if off+i >= src.n && off+i < src.n+n {
						b := CV{k: cvUndef}
						if x, ok := ci.byteOf(src.o, off+i); ok {
							b = cvI(8, int64(x))
						}
						l = append(l, cc{off + i - src.n, cCell{1, b}})
					}
				}
			}
		}
	}
	covered := map[int64]bool{}
	for _, e := range l {
		for i := int64(0); i < int64(e.c.w); i++ {
			covered[e.off+i] = true
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].off < l[j].off })
	for i := int64(0); i < n; i++ {
		if !covered[i] {
			if src.o.zero {
				ci.put(dst.o, dst.n+i, 1, cvI(8, 0))
			} else {
				ci.put(dst.o, dst.n+i, 1, CV{k: cvUndef})
			}
		}
	}
	for _, e := range l {
		ci.put(dst.o, dst.n+e.off, int64(e.c.w), e.c.v)
	}
}

func (ci *CI) free(p CV) {
	if p.k == cvInt && p.isConst() && p.n == 0 || p.isNull() {
		return
	}
	if p.k != cvPtr {
		ci.crash("releases a pointer that was never written")
	}
	o := p.o
	if o == nil || o.kind != 'h' || p.n != 0 || p.s != nil {
		ci.crash("releases %s, which is not the start of an allocated block", p)
	}
	if o.freed {
		ci.crash("releases %s (allocated in %s) a second time, it was released in %s", o.name, o.where, o.freeW)
	}
	if o.ro {
		ci.crash("releases %s, which it does not own", o.name)
	}
	if ci.onAccess != nil {
		ci.onAccess(o, 0, true)
	}
	o.freed = true
	o.freeW = ci.fnName()
}

// --- code ------------------------------------------------------------------

type cFrame struct {
	f      *cFunc
	regs   []CV
	locals []*CObj
}

func (ci *CI) operand(fr *cFrame, o cOperand) CV {
	switch o.k {
	case 'r':
		return fr.regs[o.reg]
	case 'c':
		if o.zero {
			switch o.typ.k {
			case 'p':
				return CV{k: cvPtr}
			case 'd':
				return CV{k: cvFlt, f: &cFlt{}}
			}
			return cvI(o.typ.bits, 0)
		}
		return o.val
	case 'g':
		if ci.p.global(fr.f.mod, o.glob) == nil {
			if f := ci.p.resolve(fr.f.mod, o.glob); f != nil {
				return CV{k: cvPtr, o: &CObj{name: "function " + o.glob, kind: 'c'}}
			}
		}
		return CV{k: cvPtr, o: ci.globalObj(fr.f.mod, o.glob)}
	case 'x':
		return ci.eval(fr, o.x)
	}
	ci.undecided("operand")
	return CV{}
}

// call analyses a function defined in the sources, by name.
func (ci *CI) call(name string, args ...CV) CV {
	f := ci.p.fn(name)
	if f == nil {
		ci.undecided("function %s is not defined in the C sources", name)
	}
	return ci.callFn(f, args)
}

func (ci *CI) callFn(f *cFunc, args []CV) CV {
	if ci.depth > 400 {
		ci.undecided("recursion deeper than 400 calls")
	}
	ci.depth++
	ci.stack = append(ci.stack, f.name)
	ci.analysed[f] = true
	fr := &cFrame{f: f, regs: make([]CV, f.nreg)}
	for i, p := range f.params {
		if i < len(args) {
			fr.regs[p] = args[i]
		}
	}
	b, prev := f.blocks[0], -1
	var tmp []CV
loop:
	for {
		ci.blocks[b] = true
		if len(b.phis) > 0 {
			tmp = tmp[:0]
			for _, ph := range b.phis {
				i := 0
				for ; i < len(ph.dest); i++ {
					if ph.dest[i] == prev {
						break
					}
				}
				if i == len(ph.dest) {
					ci.undecided("phi without the edge from block %d", prev)
				}
				tmp = append(tmp, ci.operand(fr, ph.args[i]))
			}
			for i, ph := range b.phis {
				fr.regs[ph.res] = tmp[i]
			}
		}
		for _, in := range b.instr {
			ci.steps++
			if ci.steps > ci.maxSteps {
				ci.undecided("more than %d steps: the analysis does not settle", ci.maxSteps)
			}
			switch in.op {
			case "br":
				prev = b.idx
				if len(in.args) == 0 || ci.truth(ci.operand(fr, in.args[0])) {
					b = f.blocks[in.dest[0]]
				} else {
					b = f.blocks[in.dest[1]]
				}
				continue loop
			case "switch":
				v := ci.operand(fr, in.args[0])
				if v.k != cvInt {
					ci.crash("a switch depends on memory that was never written")
				}
				target := func(x int64) int64 {
					for i, c := range in.cases {
						if wrap(in.typ.bits, c) == x {
							return int64(in.dest[i+1])
						}
					}
					return int64(in.dest[0])
				}
				if v.u != nil {
					ci.undecided("switch on %s", v)
				}
				v = ci.pick(v.mapped(64, target))
				prev = b.idx
				b = f.blocks[v.n]
				continue loop
			case "ret":
				var r CV
				if len(in.args) > 0 {
					r = ci.operand(fr, in.args[0])
				}
				for _, o := range fr.locals {
					o.freed, o.freeW = true, "the return of "+f.name
				}
				ci.depth--
				ci.stack = ci.stack[:len(ci.stack)-1]
				return r
			case "unreachable":
				ci.crash("reaches code that must not be reached")
			}
			v := ci.eval(fr, in)
			if in.res >= 0 {
				fr.regs[in.res] = v
			}
		}
		ci.undecided("block %s does not end", b.name)
	}
}

func (ci *CI) eval(fr *cFrame, in *cInstr) CV {
	switch in.op {
	case "load":
		in.typ.layout()
		return ci.load(ci.operand(fr, in.args[0]), in.typ.size, in.typ)
	case "store":
		in.typ.layout()
		ci.store(ci.operand(fr, in.args[1]), in.typ.size, ci.operand(fr, in.args[0]))
		return CV{}
	case "alloca":
		in.typ.layout()
		n := int64(1)
		if len(in.args) > 0 {
			v := ci.operand(fr, in.args[0])
			if !v.isConst() {
				ci.undecided("stack block of unknown size")
			}
			n = v.n
		}
		o := ci.alloc('s', n*in.typ.size, "local")
		fr.locals = append(fr.locals, o)
		return CV{k: cvPtr, o: o}
	case "getelementptr":
		return ci.gep(fr, in)
	case "icmp":
		return ci.icmp(in, ci.operand(fr, in.args[0]), ci.operand(fr, in.args[1]))
	case "fcmp":
		a, b := ci.operand(fr, in.args[0]), ci.operand(fr, in.args[1])
		if a.k != cvFlt || b.k != cvFlt {
			ci.crash("a comparison depends on memory that was never written")
		}
		return cvI(1, int64(ci.fcmp(in.pred, a.f, b.f)))
	case "select":
		if ci.truth(ci.operand(fr, in.args[0])) {
			return ci.operand(fr, in.args[1])
		}
		return ci.operand(fr, in.args[2])
	case "sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze":
		v := ci.operand(fr, in.args[0])
		if v.k == cvUndef || in.op == "bitcast" || in.op == "freeze" {
			return v
		}
		switch in.op {
		case "ptrtoint":
			if v.isNull() {
				return cvI(in.typ.bits, 0)
			}
			return v
		case "inttoptr":
			if v.k == cvInt && v.isConst() {
				return CV{k: cvPtr, n: v.n}
			}
			return v
		}
		if v.k == cvPtr {
			return v
		}
		if v.u != nil {
			v.bits = uint8(in.typ.bits)
			return v
		}
		fb, tb := int(v.bits), in.typ.bits
		if in.op == "zext" {
			return v.mapped(tb, func(x int64) int64 { return wrap(tb, int64(unsigned(fb, x))) })
		}
		if fb == 1 && in.op == "sext" {
			return v.mapped(tb, func(x int64) int64 { return -x })
		}
		return v.mapped(tb, func(x int64) int64 { return wrap(tb, x) })
	case "add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "ashr", "lshr":
		return ci.arith(in.op, in.typ.bits, ci.operand(fr, in.args[0]), ci.operand(fr, in.args[1]))
	case "fadd", "fsub", "fmul", "fdiv":
		return ci.farith(in.op, ci.operand(fr, in.args[0]), ci.operand(fr, in.args[1]))
	case "fneg":
		return ci.farith("fmul", ci.operand(fr, in.args[0]), CV{k: cvFlt, f: &cFlt{c: -1}})
	case "sitofp", "uitofp":
		v := ci.operand(fr, in.args[0])
		if v.k != cvInt {
			ci.crash("arithmetic on memory that was never written")
		}
		if v.u != nil {
			return CV{k: cvFlt, f: &cFlt{c: 1, term: "float(" + v.String() + ")"}}
		}
		v = ci.pick(v)
		return CV{k: cvFlt, f: &cFlt{c: float64(v.n)}}
	case "fptosi", "fptoui":
		v := ci.operand(fr, in.args[0])
		if v.k == cvFlt && v.f.term == "" {
			return cvI(in.typ.bits, int64(v.f.c))
		}
		ci.undecided("conversion of a computed number to an integer")
	case "fpext", "fptrunc":
		v := ci.operand(fr, in.args[0])
		if v.k == cvFlt && v.f.term != "" && in.op == "fptrunc" {
			return CV{k: cvFlt, f: &cFlt{c: 1, term: "single(" + v.f.String() + ")"}}
		}
		if v.k == cvFlt && in.op == "fptrunc" {
			return CV{k: cvFlt, f: &cFlt{c: float64(float32(v.f.c))}}
		}
		return v
	case "call":
		args := make([]CV, len(in.args))
		for i, a := range in.args {
			args[i] = ci.operand(fr, a)
		}
		if in.name == "" {
			ci.undecided("call through a pointer")
		}
		if ci.hook != nil {
			if v, ok := ci.hook(in.name, args); ok {
				return v
			}
		}
		if f := ci.p.resolve(fr.f.mod, in.name); f != nil {
			return ci.callFn(f, args)
		}
		return ci.external(in.name, args, in.typ)
	}
	ci.undecided("instruction %s", in.op)
	return CV{}
}

func (ci *CI) gep(fr *cFrame, in *cInstr) CV {
	p := ci.operand(fr, in.args[0])
	if p.k == cvUndef {
		return p
	}
	t := in.from
	for i, a := range in.args[1:] {
		v := ci.operand(fr, a)
		if i > 0 && t.k == 's' {
			t.layout()
			p = p.shift(t.offs[v.n])
			t = t.fields[v.n]
			continue
		}
		var size int64
		if i == 0 {
			t.layout()
			size = t.size
		} else {
			t = t.elem
			t.layout()
			size = t.size
		}
		switch {
		case v.k == cvUndef:
			ci.crash("an index was never written")
		case v.k == cvPtr:
			ci.undecided("a pointer used as an index")
		case v.u != nil:
			if v.u.lo == v.u.hi {
				p = p.shift(size * (v.u.lo + v.n))
			} else {
				ci.undecided("an index is %s, which is between %d and %d", v, v.u.lo+v.n, v.u.hi+v.n)
			}
		case v.s != nil:
			if p.s != nil && p.s != v.s {
				p = ci.pick(p)
			}
			tab := new([256]int64)
			for b := 0; b < 256; b++ {
				if v.s.has(b) {
					base := p.n
					if p.s != nil {
						base = p.t[b]
					}
					tab[b] = base + size*v.t[b]
				}
			}
			p.s, p.t = v.s, tab
			p = p.norm()
		default:
			p = p.shift(size * v.n)
		}
	}
	return p
}

func (p CV) shift(n int64) CV {
	if p.s != nil {
		return p.mapped(int(p.bits), func(x int64) int64 { return x + n })
	}
	if p.k == cvInt && p.isConst() {
		return CV{k: cvPtr, n: p.n + n}
	}
	p.n += n
	return p
}

func (ci *CI) icmp(in *cInstr, a, b CV) CV {
	if a.k == cvUndef || b.k == cvUndef {
		ci.crash("a comparison depends on memory that was never written")
	}
	pred := in.pred
	bits := 64
	if in.from.k == 'i' {
		bits = in.from.bits
	}
	if a.k == cvPtr || b.k == cvPtr {
		if a.s != nil {
			a = ci.pick(a)
		}
		if b.s != nil {
			b = ci.pick(b)
		}
		if a.o == b.o {
			if pred[0] == 'u' && a.o != nil {
				pred = "s" + pred[1:] // offsets: one may be before the block's start
			}
			return cvI(1, b2i(cmpInts(pred, 64, a.n, b.n)))
		}
		switch pred {
		case "eq":
			return cvI(1, 0)
		case "ne":
			return cvI(1, 1)
		}
		if a.o == nil || b.o == nil {
			// order against null
			return cvI(1, b2i(cmpInts(pred, 64, b2i(a.o != nil), b2i(b.o != nil))))
		}
		ci.undecided("order of pointers into different blocks")
	}
	if a.u != nil || b.u != nil {
		if a.u != nil && b.u == a.u {
			return cvI(1, b2i(cmpInts(pred, bits, a.n, b.n)))
		}
		if a.u != nil && b.u == nil {
			b = ci.pick(b)
			return cvI(1, b2i(ci.numCmp(a, pred, b.n)))
		}
		if b.u != nil && a.u == nil {
			a = ci.pick(a)
			return cvI(1, b2i(ci.numCmp(b, map[string]string{"eq": "eq", "ne": "ne", "slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle", "ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule"}[pred], a.n)))
		}
		ci.undecided("comparison of %s with %s", a, b)
	}
	return ci.lift2(a, b, 1, func(x, y int64) int64 { return b2i(cmpInts(pred, bits, x, y)) })
}

// lift2 applies a binary operation on integers that depend on at most one
// symbol; a second symbol is partitioned on.
func (ci *CI) lift2(a, b CV, bits int, f func(x, y int64) int64) CV {
	if a.s != nil && b.s != nil && a.s != b.s {
		if len(a.s.values()) <= len(b.s.values()) {
			a = ci.pick(a)
		} else {
			b = ci.pick(b)
		}
	}
	if a.s == nil && b.s == nil {
		return CV{k: cvInt, bits: uint8(bits), n: wrap(bits, f(a.n, b.n))}
	}
	s := a.s
	if s == nil {
		s = b.s
	}
	t := new([256]int64)
	for i := 0; i < 256; i++ {
		if !s.has(i) {
			continue
		}
		x, y := a.n, b.n
		if a.s != nil {
			x = a.t[i]
		}
		if b.s != nil {
			y = b.t[i]
		}
		t[i] = wrap(bits, f(x, y))
	}
	return CV{k: cvInt, bits: uint8(bits), s: s, t: t}.norm()
}

func cmpInts(pred string, bits int, a, b int64) bool {
	ua, ub := unsigned(bits, a), unsigned(bits, b)
	switch pred {
	case "eq":
		return a == b
	case "ne":
		return a != b
	case "slt":
		return a < b
	case "sle":
		return a <= b
	case "sgt":
		return a > b
	case "sge":
		return a >= b
	case "ult":
		return ua < ub
	case "ule":
		return ua <= ub
	case "ugt":
		return ua > ub
	case "uge":
		return ua >= ub
	}
	return false
}

func (ci *CI) arith(op string, bits int, a, b CV) CV {
	if a.k == cvUndef || b.k == cvUndef {
		return CV{k: cvUndef}
	}
	if a.k == cvPtr || b.k == cvPtr {
		if a.k == cvPtr && b.k == cvPtr && op == "sub" {
			if a.s != nil {
				a = ci.pick(a)
			}
			if b.s != nil {
				b = ci.pick(b)
			}
			if a.o == b.o {
				return cvI(bits, a.n-b.n)
			}
		}
		if a.k == cvPtr && b.k == cvInt && (op == "add" || op == "sub") {
			b = ci.pick(b)
			if op == "sub" {
				return a.shift(-b.n)
			}
			return a.shift(b.n)
		}
		if b.k == cvPtr && op == "add" {
			a = ci.pick(a)
			return b.shift(a.n)
		}
		ci.undecided("arithmetic %s on pointers", op)
	}
	if a.u != nil || b.u != nil {
		switch {
		case a.u != nil && b.isConst() && op == "add":
			a.n += b.n
			return a
		case a.u != nil && b.isConst() && op == "sub":
			a.n -= b.n
			return a
		case b.u != nil && a.isConst() && op == "add":
			b.n += a.n
			return b
		case a.u != nil && b.u == a.u && op == "sub":
			return cvI(bits, a.n-b.n)
		case a.u != nil && a.u.lo == a.u.hi:
			return ci.arith(op, bits, cvI(bits, a.u.lo+a.n), b)
		case b.u != nil && b.u.lo == b.u.hi:
			return ci.arith(op, bits, a, cvI(bits, b.u.lo+b.n))
		}
		ci.undecided("arithmetic %s on %s and %s", op, a, b)
	}
	if strings.HasSuffix(op, "div") || strings.HasSuffix(op, "rem") {
		b = ci.pick(b)
		if b.n == 0 {
			ci.crash("divides an integer by zero")
		}
	}
	return ci.lift2(a, b, bits, func(x, y int64) int64 {
		switch op {
		case "add":
			return x + y
		case "sub":
			return x - y
		case "mul":
			return x * y
		case "sdiv":
			return x / y
		case "srem":
			return x % y
		case "udiv":
			return int64(unsigned(bits, x) / unsigned(bits, y))
		case "urem":
			return int64(unsigned(bits, x) % unsigned(bits, y))
		case "and":
			return x & y
		case "or":
			return x | y
		case "xor":
			return x ^ y
		case "shl":
			return x << (uint64(y) & 63)
		case "ashr":
			return x >> (uint64(y) & 63)
		case "lshr":
			return int64(unsigned(bits, x) >> (uint64(y) & 63))
		}
		return 0
	})
}

func (ci *CI) farith(op string, a, b CV) CV {
	if a.k == cvUndef || b.k == cvUndef {
		return CV{k: cvUndef}
	}
	if a.k != cvFlt || b.k != cvFlt {
		ci.undecided("%s of %s and %s", op, a, b)
	}
	x, y := a.f, b.f
	if x.term == "" && y.term == "" {
		var r float64
		switch op {
		case "fadd":
			r = x.c + y.c
		case "fsub":
			r = x.c - y.c
		case "fmul":
			r = x.c * y.c
		case "fdiv":
			r = x.c / y.c
		}
		return CV{k: cvFlt, f: &cFlt{c: r}}
	}
	switch {
	case op == "fmul" && x.term == "":
		return CV{k: cvFlt, f: &cFlt{c: x.c * y.c, term: y.term}}
	case op == "fmul" && y.term == "":
		return CV{k: cvFlt, f: &cFlt{c: x.c * y.c, term: x.term}}
	case op == "fdiv" && y.term == "" && y.c != 0:
		return CV{k: cvFlt, f: &cFlt{c: x.c / y.c, term: x.term}}
	}
	return CV{k: cvFlt, f: &cFlt{c: 1, term: fmt.Sprintf("%s(%s,%s)", op, x, y)}}
}

func (ci *CI) fcmp(pred string, x, y *cFlt) int {
	if x.term == "" && y.term == "" {
		var r bool
		switch pred[1:] {
		case "eq":
			r = x.c == y.c
		case "ne":
			r = x.c != y.c
		case "lt":
			r = x.c < y.c
		case "le":
			r = x.c <= y.c
		case "gt":
			r = x.c > y.c
		case "ge":
			r = x.c >= y.c
		default:
			ci.undecided("comparison %s", pred)
		}
		return int(b2i(r))
	}
	if x.String() == y.String() {
		switch pred {
		case "oeq", "ueq", "oge", "ole":
			return 1
		case "one", "une":
			return 0
		}
	}
	return ci.ch.choose("fcmp:"+pred+":"+x.String()+":"+y.String(), 2)
}

// exploreC analyses one obligation over C code for all abstract partitions.
func (c *Check) exploreC(p *cProgram, rule, construct string, body func(ci *CI, fail func(format string, a ...interface{}))) int {
	var tape []int
	n := 0
	failed := false
	for {
		n++
		if n > partitionBudget {
			c.fail(rule, construct, "undecided: more than %d abstract partitions", partitionBudget)
			failed = true
			break
		}
		if n > 1 && time.Since(c.started) > timeBudget {
			c.fail(rule, construct, "undecided: not all abstract partitions were analysed in %v", timeBudget)
			failed = true
			break
		}
		ch := newChooser(append([]int(nil), tape...))
		ch.width = make([]int, len(tape))
		ci := newCI(p, ch)
		func() {
			defer func() {
				r := recover()
				switch x := r.(type) {
				case nil:
				case pruned:
				case cExit:
					failed = true
					c.fail(rule, construct, "ends the process: %s; partition: %s", x.what, traceOf(ch))
				case cCrash:
					failed = true
					c.fail(rule, construct, "%s %s; partition: %s", x.fn, x.what, traceOf(ch))
				case undecided:
					failed = true
					c.fail(rule, construct, "undecided: %s in %s; partition: %s", x.what, x.fn, traceOf(ch))
				default:
					if os.Getenv("VERIF_DEBUG") != "" {
						panic(r)
					}
					failed = true
					c.fail(rule, construct, "undecided: analysis error %v; partition: %s", r, traceOf(ch))
				}
			}()
			body(ci, func(format string, a ...interface{}) {
				failed = true
				c.fail(rule, construct, "%s; partition: %s", fmt.Sprintf(format, a...), traceOf(ch))
			})
		}()
		c.mu.Lock()
		c.parts++
		for f := range ci.analysed {
			c.funcs[f.mod.file+" "+f.name] = true
		}
		for e := range ci.ext {
			c.ext[e] = true
		}
		c.mu.Unlock()
		if failed {
			break
		}
		t, w := ch.tape[:ch.pos], ch.width
		i := len(t) - 1
		for i >= 0 && t[i]+1 >= w[i] {
			i--
		}
		if i < 0 {
			break
		}
		tape = append(append([]int(nil), t[:i]...), t[i]+1)
	}
	if !failed {
		c.ok(rule, 1)
	}
	return n
}
