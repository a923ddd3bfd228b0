package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The Go side of the C core: calls from Go enter the analysis of the C
// sources with the values at hand.

type goKey struct {
	o *CObj
	n int64
}

func (ci *CI) goObj(v CV, t types.Type) *Obj {
	if ci.goObjs == nil {
		ci.goObjs = map[goKey]*Obj{}
	}
	k := goKey{v.o, v.n}
	o := ci.goObjs[k]
	if o == nil {
		o = &Obj{cobj: v.o, coff: v.n, name: "C " + v.o.name}
		ci.goObjs[k] = o
	}
	if o.typ == nil && t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			o.typ = p.Elem()
		}
	}
	return o
}

func (ci *CI) toGo(v CV, t types.Type) Val {
	switch v.k {
	case cvPtr:
		if v.s != nil {
			v = ci.pick(v)
		}
		if v.o == nil {
			return VNil{}
		}
		return VPtr{obj: ci.goObj(v, t)}
	case cvInt:
		if v.u != nil {
			return mkTerm(t, "c:"+v.String())
		}
		n := ci.pick(v).n
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && v.bits < 64 {
			return VConst{constant.MakeUint64(unsigned(int(v.bits), n))}
		}
		return cInt(n)
	case cvFlt:
		if v.f.term == "" {
			return cFloat(v.f.c)
		}
		return mkTerm(types.Typ[types.Float64], "c:"+v.f.String())
	}
	ci.crash("gives Go a value that was never written")
	return nil
}

func (ci *CI) ofGo(in *Interp, v Val, pos token.Pos) CV {
	switch v := v.(type) {
	case VNil:
		return CV{k: cvPtr}
	case VPtr:
		if v.obj.cobj != nil && len(v.path) == 0 {
			return CV{k: cvPtr, o: v.obj.cobj, n: v.obj.coff}
		}
	case VConst:
		if n, ok := constant.Int64Val(constant.ToInt(v.c)); ok {
			return CV{k: cvInt, bits: 64, n: n}
		}
	case *VTerm:
		if ci.nums == nil {
			ci.nums = map[string]*cNum{}
		}
		u := ci.nums[v.key]
		if u == nil {
			u = &cNum{name: v.key, lo: -1 << 31, hi: 1<<31 - 1}
			ci.nums[v.key] = u
		}
		return CV{k: cvInt, bits: 32, u: u}
	}
	in.undecided(pos, "%s passed to C", key(v))
	return CV{}
}

var goSizes = types.SizesFor("gc", "amd64")

func (ci *CI) goLoad(in *Interp, p VPtr, t types.Type, pos token.Pos) Val {
	off := p.obj.coff
	ty := p.obj.typ
	for _, i := range p.path {
		st, ok := ty.Underlying().(*types.Struct)
		if !ok {
			in.undecided(pos, "component of C memory")
		}
		var fs []*types.Var
		for j := 0; j < st.NumFields(); j++ {
			fs = append(fs, st.Field(j))
		}
		off += goSizes.Offsetsof(fs)[i]
		ty = st.Field(i).Type()
	}
	var ct *cType
	switch b := ty.Underlying().(type) {
	case *types.Pointer:
		ct = tPtr
	case *types.Basic:
		switch {
		case b.Info()&types.IsFloat != 0:
			ct = tDbl
		case b.Kind() == types.UnsafePointer:
			ct = tPtr
		case b.Info()&types.IsInteger != 0:
			ct = &cType{k: 'i', bits: int(goSizes.Sizeof(ty) * 8)}
		}
	}
	if ct == nil {
		in.undecided(pos, "direct read of the data of a C node")
	}
	v := ci.load(CV{k: cvPtr, o: p.obj.cobj, n: off}, goSizes.Sizeof(ty), ct)
	return ci.toGo(v, ty)
}

func (ci *CI) bytesOf(in *Interp, s VStr, pos token.Pos) []CV {
	l, ok := ci.byteText(s)
	if !ok {
		in.undecided(pos, "text %s passed to C", key(s))
	}
	return l
}

// byteText is the text as bytes, when every byte is known or abstract.
func (ci *CI) byteText(s VStr) ([]CV, bool) {
	var l []CV
	for _, p := range s.parts {
		if p.atom != nil {
			v, ok := ci.bytes[p.atom.key]
			if !ok {
				return nil, false
			}
			l = append(l, v.norm())
			continue
		}
		for i := 0; i < len(p.s); i++ {
			l = append(l, cvI(8, int64(int8(p.s[i]))))
		}
	}
	return l, true
}

// byteVal is one byte of a text as a Go value.
func byteVal(v CV) Val {
	v = v.norm()
	if v.isConst() {
		return cInt(v.n & 255)
	}
	return mkTerm(types.Typ[types.Uint8], "cbyte:"+byteKey(v))
}

func byteKey(v CV) string {
	k := v.s.name
	for b := 0; b < 256; b++ {
		if v.s.has(b) && v.t[b] != int64(int8(b)) {
			h := uint64(0)
			for b := 0; b < 256; b++ {
				if v.s.has(b) {
					h = h*1099511628211 + uint64(v.t[b]+1000)
				}
			}
			return fmt.Sprintf("%s:%x", k, h)
		}
	}
	return k
}

// byteTerm is the abstract byte behind a Go value, if it is one.
func (ci *CI) byteTerm(v Val) (CV, bool) {
	t, ok := v.(*VTerm)
	if !ok || len(t.op) < 6 || t.op[:6] != "cbyte:" {
		return CV{}, false
	}
	b, ok := ci.bytes["byte:"+t.op[6:]]
	return b.norm(), ok
}

// byteCmp decides how an abstract byte compares with a constant.
func (ci *CI) byteCmp(a, b Val) (int, bool) {
	if ci == nil {
		return 0, false
	}
	if x, ok := ci.byteTerm(a); ok {
		if c, ok := b.(VConst); ok {
			if n, ok := constant.Int64Val(constant.ToInt(c.c)); ok {
				return int(ci.pick(x.mapped(32, func(v int64) int64 {
					switch v &= 255; {
					case v < n:
						return -1
					case v > n:
						return 1
					}
					return 0
				})).n), true
			}
		}
	} else if _, ok := ci.byteTerm(b); ok {
		n, ok := ci.byteCmp(b, a)
		return -n, ok
	}
	return 0, false
}

// byteEq decides whether an abstract byte is a constant.
func (ci *CI) byteEq(a, b Val) (bool, bool) {
	if ci == nil {
		return false, false
	}
	if _, ok := ci.byteTerm(a); !ok {
		a, b = b, a
	}
	x, ok := ci.byteTerm(a)
	if !ok {
		return false, false
	}
	if y, ok := ci.byteTerm(b); ok {
		if byteKey2(x) == byteKey2(y) {
			return true, true
		}
		return ci.pick(ci.lift2(x, y, 1, func(p, q int64) int64 { return b2i(p&255 == q&255) })).n != 0, true
	}
	c, ok := b.(VConst)
	if !ok {
		return false, false
	}
	n, ok := constant.Int64Val(constant.ToInt(c.c))
	return ci.pick(x.mapped(1, func(v int64) int64 { return b2i(v&255 == n) })).n != 0, ok
}

func byteKey2(v CV) string {
	if v.isConst() {
		return v.String()
	}
	return byteKey(v)
}

// textIndex finds the first place of a constant in a text of abstract bytes.
func (ci *CI) textIndex(l []CV, pat string) int {
	for i := 0; i+len(pat) <= len(l); i++ {
		hit := true
		for j := 0; j < len(pat) && hit; j++ {
			want := int64(int8(pat[j]))
			hit = ci.truth(l[i+j].norm().mapped(1, func(x int64) int64 { return b2i(x == want) }))
		}
		if hit {
			return i
		}
	}
	return -1
}

// newText puts a text in memory.
func (ci *CI) newText(kind byte, name string, bytes []CV) *CObj {
	o := ci.alloc(kind, int64(len(bytes))+1, name)
	for i, b := range bytes {
		o.cells[int64(i)] = cCell{1, b}
	}
	o.cells[int64(len(bytes))] = cCell{1, cvI(8, 0)}
	return o
}

// textAt reads the C string at p.
func (ci *CI) textAt(p CV) []CV {
	var l []CV
	for i := int64(0); ; i++ {
		v := ci.byteAt(p, i)
		if !ci.truth(v) {
			return l
		}
		l = append(l, v.norm())
	}
}

func (ci *CI) textVal(l []CV) VStr {
	s := cStr("")
	var b []byte
	flush := func() {
		if len(b) > 0 {
			s = s.concat(cStr(string(b)))
			b = nil
		}
	}
	for _, v := range l {
		v = v.norm()
		if v.isConst() {
			b = append(b, byte(v.n))
			continue
		}
		flush()
		t := mkTerm(types.Typ[types.String], "byte:"+byteKey(v))
		if ci.bytes == nil {
			ci.bytes = map[string]CV{}
		}
		ci.bytes[t.key] = v
		s = s.concat(atomStr(t))
	}
	flush()
	return s
}

func (ci *CI) fromGo(in *Interp, name string, fn *ssa.Function, args []Val, pos token.Pos) []Val {
	ci.stack = ci.stack[:0]
	ci.depth = 0
	switch name {
	case "CString":
		s, ok := args[0].(VStr)
		if !ok {
			in.undecided(pos, "CString of %s", key(args[0]))
		}
		ci.stack = append(ci.stack, "C.CString")
		o := ci.newText('h', "C string", ci.bytesOf(in, s, pos))
		return []Val{VPtr{obj: ci.goObj(CV{k: cvPtr, o: o}, nil)}}
	case "GoString", "GoStringN":
		p := ci.ofGo(in, args[0], pos)
		if p.isNull() {
			return []Val{cStr("")}
		}
		ci.stack = append(ci.stack, "C.GoString")
		return []Val{ci.textVal(ci.textAt(p))}
	case "free", "_Cgo_free":
		ci.stack = append(ci.stack, in.where(pos))
		ci.free(ci.ofGo(in, args[0], pos))
		return nil
	}
	f := ci.p.fn(name)
	if f == nil {
		in.undecided(pos, "C function %s is not defined in the sources", name)
	}
	var cargs []CV
	for i, a := range args {
		v := ci.ofGo(in, a, pos)
		if v.k == cvInt && v.u == nil && i < len(f.ptypes) && f.ptypes[i].k == 'i' {
			v = cvI(f.ptypes[i].bits, v.n)
		}
		cargs = append(cargs, v)
	}
	if ci.onCall != nil {
		ci.onCall(f, cargs)
	}
	r := ci.callFn(f, cargs)
	if fn.Signature.Results().Len() == 0 {
		return nil
	}
	t := fn.Signature.Results().At(0).Type()
	if f.ret.k == 'v' {
		return []Val{in.zero(t)}
	}
	return []Val{ci.toGo(r, t)}
}
