package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// foldable lists pure library functions that are folded when every argument
// is a known scalar or text.
var foldable = map[string]reflect.Value{}

func init() {
	add := func(name string, f interface{}) { foldable[name] = reflect.ValueOf(f) }
	add("strings.Compare", strings.Compare)
	add("strings.Count", strings.Count)
	add("strings.Cut", strings.Cut)
	add("strings.CutPrefix", strings.CutPrefix)
	add("strings.CutSuffix", strings.CutSuffix)
	add("strings.ContainsRune", strings.ContainsRune)
	add("strings.Index", strings.Index)
	add("strings.IndexAny", strings.IndexAny)
	add("strings.IndexByte", strings.IndexByte)
	add("strings.IndexRune", strings.IndexRune)
	add("strings.LastIndex", strings.LastIndex)
	add("strings.LastIndexByte", strings.LastIndexByte)
	add("strings.Split", strings.Split)
	add("strings.SplitN", strings.SplitN)
	add("strings.SplitAfter", strings.SplitAfter)
	add("strings.ToTitle", strings.ToTitle)
	add("strings.ToValidUTF8", strings.ToValidUTF8)
	add("strings.TrimLeft", strings.TrimLeft)
	add("strings.TrimRight", strings.TrimRight)
	add("strconv.QuoteRune", strconv.QuoteRune)
	add("strconv.Unquote", strconv.Unquote)
	add("strconv.ParseInt", strconv.ParseInt)
	add("strconv.ParseUint", strconv.ParseUint)
	add("strconv.FormatUint", strconv.FormatUint)
	add("strconv.FormatBool", strconv.FormatBool)
	add("unicode.IsDigit", unicode.IsDigit)
	add("unicode.IsLetter", unicode.IsLetter)
	add("unicode.IsSpace", unicode.IsSpace)
	add("unicode.IsUpper", unicode.IsUpper)
	add("unicode.IsLower", unicode.IsLower)
	add("unicode.IsPunct", unicode.IsPunct)
	add("unicode.ToLower", unicode.ToLower)
	add("unicode.ToUpper", unicode.ToUpper)
	add("unicode/utf8.RuneLen", utf8.RuneLen)
	add("unicode/utf8.ValidString", utf8.ValidString)
	add("unicode/utf8.ValidRune", utf8.ValidRune)
	add("math.Max", math.Max)
	add("math.Min", math.Min)
	add("math.Sqrt", math.Sqrt)
	add("math.Copysign", math.Copysign)
	add("math.Signbit", math.Signbit)
	add("math.Pow", math.Pow)
	add("math.Mod", math.Mod)
	add("math.Inf", math.Inf)
}

// fold applies a pure library function to known arguments.
func (in *Interp) fold(name string, args []Val) ([]Val, bool) {
	f, ok := foldable[name]
	if !ok || f.Type().NumIn() != len(args) || f.Type().IsVariadic() {
		return nil, false
	}
	var gv []reflect.Value
	for i, a := range args {
		t := f.Type().In(i)
		switch x := a.(type) {
		case VStr:
			s, ok := x.isConst()
			if !ok || t.Kind() != reflect.String {
				return nil, false
			}
			gv = append(gv, reflect.ValueOf(s))
		case VConst:
			v := reflect.New(t).Elem()
			switch t.Kind() {
			case reflect.Bool:
				v.SetBool(constant.BoolVal(x.c))
			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint8:
				n, exact := constant.Int64Val(constant.ToInt(x.c))
				if !exact {
					return nil, false
				}
				if t.Kind() == reflect.Uint8 {
					v.SetUint(uint64(uint8(n)))
				} else {
					v.SetInt(n)
				}
			case reflect.Float64:
				f, _ := constant.Float64Val(constant.ToFloat(x.c))
				v.SetFloat(f)
			default:
				return nil, false
			}
			gv = append(gv, v)
		default:
			return nil, false
		}
	}
	var res []Val
	for _, r := range f.Call(gv) {
		switch r.Kind() {
		case reflect.String:
			res = append(res, cStr(r.String()))
		case reflect.Bool:
			res = append(res, cBool(r.Bool()))
		case reflect.Int, reflect.Int64, reflect.Int32:
			res = append(res, cInt(r.Int()))
		case reflect.Uint64, reflect.Uint, reflect.Uint32:
			res = append(res, VConst{constant.MakeUint64(r.Uint())})
		case reflect.Float64:
			if math.IsInf(r.Float(), 0) || math.IsNaN(r.Float()) {
				return nil, false
			}
			res = append(res, cFloat(r.Float()))
		case reflect.Slice:
			var e []Val
			for i := 0; i < r.Len(); i++ {
				e = append(e, cStr(r.Index(i).String()))
			}
			res = append(res, in.mkSlice(e))
		case reflect.Interface:
			if r.IsNil() {
				res = append(res, VNil{})
			} else {
				res = append(res, in.newError(name))
			}
		default:
			return nil, false
		}
	}
	return res, true
}

// reflectObj is a reflect.Value or reflect.Type of a known interface value.
type reflectObj struct{ of Val }

func reflected(v Val) (Val, bool) {
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	if t, ok := v.(*VTerm); ok && (t.op == "reflectvalue" || t.op == "reflecttype") && len(t.args) == 1 {
		return t.args[0], true
	}
	return nil, false
}

var reflectKinds = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
	types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return reflectKinds[u.Kind()]
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Ptr
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	case *types.Array:
		return reflect.Array
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

// comparableVal: can the dynamic value be compared with == without a panic.
func comparableVal(v Val) (bool, bool) {
	switch x := v.(type) {
	case VNil:
		return true, true
	case VIface:
		if x.dyn == nil {
			return false, false
		}
		if !types.Comparable(x.dyn) {
			return false, true
		}
		return true, true
	}
	return false, false
}

func (in *Interp) reflectModel(name string, args []Val, pos token.Pos) ([]Val, bool) {
	switch name {
	case "reflect.TypeOf":
		switch x := args[0].(type) {
		case VNil:
			return []Val{VNil{}}, true
		case VIface:
			if x.dyn == nil {
				return nil, false
			}
			t := &VTerm{key: "reflecttype:" + x.dyn.String(), op: "reflecttype", args: []Val{args[0]}}
			in.facts["nil:"+t.key] = 0
			return []Val{VIface{dyn: types.Typ[types.String], v: t}}, true
		}
		return nil, false
	case "reflect.ValueOf":
		switch x := args[0].(type) {
		case VNil:
		case VIface:
			if x.dyn == nil {
				return nil, false
			}
		default:
			return nil, false
		}
		return []Val{&VTerm{key: "reflectvalue(" + key(args[0]) + ")", op: "reflectvalue", args: []Val{args[0]}}}, true
	case "(reflect.Value).Comparable":
		if v, ok := reflected(args[0]); ok {
			if c, ok := comparableVal(v); ok {
				return []Val{cBool(c)}, true
			}
		}
	case "(reflect.Value).IsValid":
		if v, ok := reflected(args[0]); ok {
			_, isNil := v.(VNil)
			return []Val{cBool(!isNil)}, true
		}
	case "(reflect.Value).Kind":
		if v, ok := reflected(args[0]); ok {
			if x, ok := v.(VIface); ok {
				return []Val{cInt(int64(kindOf(x.dyn)))}, true
			}
			return []Val{cInt(0)}, true
		}
	case "(reflect.Value).Type":
		if v, ok := reflected(args[0]); ok {
			return in.reflectModel("reflect.TypeOf", []Val{v}, pos)
		}
	case "(reflect.Value).Interface":
		if v, ok := reflected(args[0]); ok {
			return []Val{v}, true
		}
	case "(reflect.Value).Float":
		if v, ok := reflected(args[0]); ok {
			if x, ok := v.(VIface); ok && isFloat(x.dyn) {
				return []Val{x.v}, true
			}
			in.crash(pos, "reflect.Value.Float of another kind")
		}
	case "(reflect.Value).Int", "(reflect.Value).Uint":
		if v, ok := reflected(args[0]); ok {
			if x, ok := v.(VIface); ok && isInteger(x.dyn) && isUnsigned(x.dyn) == strings.HasSuffix(name, "Uint") {
				return []Val{x.v}, true
			}
			in.crash(pos, "%s of another kind", name)
		}
	case "(reflect.Value).String":
		if v, ok := reflected(args[0]); ok {
			if x, ok := v.(VIface); ok && isString(x.dyn) {
				return []Val{x.v}, true
			}
		}
	case "(reflect.Value).Bool":
		if v, ok := reflected(args[0]); ok {
			if x, ok := v.(VIface); ok && isBool(x.dyn) {
				return []Val{x.v}, true
			}
			in.crash(pos, "reflect.Value.Bool of another kind")
		}
	case "(reflect.Value).Len":
		if v, ok := reflected(args[0]); ok {
			if x, ok := v.(VIface); ok {
				return []Val{in.lenOf(x.v, pos)}, true
			}
		}
	}
	return nil, false
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// reflectMethod models methods of reflect.Type, an interface.
func (in *Interp) reflectMethod(recv Val, name string, args []Val, pos token.Pos) ([]Val, bool) {
	v, ok := reflected(recv)
	if !ok {
		return nil, false
	}
	x, ok := v.(VIface)
	if !ok {
		return nil, false
	}
	switch name {
	case "Comparable":
		return []Val{cBool(types.Comparable(x.dyn))}, true
	case "Kind":
		return []Val{cInt(int64(kindOf(x.dyn)))}, true
	case "String", "Name":
		return []Val{cStr(typeName(x.dyn))}, true
	}
	return nil, false
}
