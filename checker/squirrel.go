package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const sqPath = "github.com/Masterminds/squirrel"

// squirrel models the SQL builder the walkers use: the constructors keep their
// arguments, and ToSql renders them the way squirrel documents.
func (in *Interp) squirrel(fn *ssa.Function, name string, args []Val, pos token.Pos) ([]Val, bool) {
	if !strings.Contains(name, sqPath) {
		return nil, false
	}
	switch name {
	case sqPath + ".Expr":
		t := in.lookupType(sqPath, "expr")
		if t == nil {
			return nil, false
		}
		st := t.Underlying().(*types.Struct)
		v := VStruct{typ: t, f: make([]Val, st.NumFields())}
		for i := range v.f {
			v.f[i] = VNil{}
			if isString(st.Field(i).Type()) {
				v.f[i] = args[0]
			} else {
				v.f[i] = args[1]
			}
		}
		if _, isIf := fn.Signature.Results().At(0).Type().Underlying().(*types.Interface); !isIf {
			return []Val{v}, true
		}
		return []Val{VIface{dyn: t, v: v}}, true
	case sqPath + ".ConcatExpr":
		return []Val{args[0]}, true
	case sqPath + ".Placeholders":
		if n, ok := in.intOf(args[0]); ok {
			if n < 1 {
				return []Val{cStr("")}, true
			}
			return []Val{cStr(strings.Repeat(",?", n)[1:])}, true
		}
	}
	if fn.Name() == "ToSql" && fn.Signature.Recv() != nil {
		s, a, err := in.renderSql(VIface{dyn: fn.Signature.Recv().Type(), v: args[0]}, pos)
		if err != nil {
			return []Val{VStr{}, VNil{}, err}, true
		}
		return []Val{s, in.sliceOrNil(a), VNil{}}, true
	}
	return nil, false
}

func (in *Interp) sliceOrNil(a []Val) Val {
	if len(a) == 0 {
		return VNil{}
	}
	return in.mkSlice(a)
}

// renderSql renders a Sqlizer to SQL text and bound arguments.
func (in *Interp) renderSql(v Val, pos token.Pos) (VStr, []Val, Val) {
	i, ok := v.(VIface)
	if !ok {
		if _, isNil := v.(VNil); isNil {
			in.crash(pos, "ToSql called on a nil Sqlizer")
		}
		if t, isT := v.(*VTerm); isT {
			// an abstract sub-condition
			if s, ok := in.abstractSql(t); ok {
				return s, []Val{mkTerm(nil, "args", t)}, nil
			}
		}
		in.undecided(pos, "rendering of %T", v)
	}
	if i.dyn == nil {
		if t, isT := i.v.(*VTerm); isT {
			if s, ok := in.abstractSql(t); ok {
				return s, []Val{mkTerm(nil, "args", t)}, nil
			}
		}
		in.undecided(pos, "rendering of unknown Sqlizer")
	}
	n, ok := i.dyn.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != sqPath {
		f := in.m.prog.LookupMethod(i.dyn, nil, "ToSql")
		if f == nil {
			in.undecided(pos, "%s has no ToSql", typeName(i.dyn))
		}
		r := in.callFn(f, []Val{i.v}, nil, pos)
		if _, isNil := r[2].(VNil); !isNil {
			return VStr{}, nil, r[2]
		}
		a, ok := in.elems(r[1], pos)
		if !ok {
			in.undecided(pos, "unknown argument list")
		}
		return asStr(r[0]), a, nil
	}
	switch n.Obj().Name() {
	case "expr":
		st := i.v.(VStruct)
		var sql VStr
		var args []Val
		for _, f := range st.f {
			if s, ok := f.(VStr); ok {
				sql = s
			} else {
				args, _ = in.elems(f, pos)
			}
		}
		return in.renderExpr(sql, args, pos)
	case "concatExpr":
		e, ok := in.elems(i.v, pos)
		if !ok {
			in.undecided(pos, "unknown concatenation")
		}
		var out VStr
		var args []Val
		for _, x := range e {
			u := x
			if d, isI := x.(VIface); isI && d.dyn != nil && isString(d.dyn) {
				u = d.v
			}
			if s, isS := u.(VStr); isS {
				out = out.concat(s)
				continue
			}
			if !in.isSqlizer(x) {
				return VStr{}, nil, in.newError("squirrel: not a string or Sqlizer")
			}
			s, a, err := in.renderSql(x, pos)
			if err != nil {
				return VStr{}, nil, err
			}
			out = out.concat(s)
			args = append(args, a...)
		}
		return out, args, nil
	case "And", "Or":
		sep := " AND "
		def := "(1=1)"
		if n.Obj().Name() == "Or" {
			sep, def = " OR ", "(1=0)"
		}
		e, ok := in.elems(i.v, pos)
		if !ok {
			in.undecided(pos, "unknown conjunction")
		}
		if len(e) == 0 {
			return cStr(def), nil, nil
		}
		var parts []VStr
		var args []Val
		for _, x := range e {
			s, a, err := in.renderSql(x, pos)
			if err != nil {
				return VStr{}, nil, err
			}
			if c, isC := s.isConst(); isC && c == "" {
				continue
			}
			parts = append(parts, s)
			args = append(args, a...)
		}
		if len(parts) == 0 {
			return VStr{}, nil, nil
		}
		out := cStr("(")
		for k, p := range parts {
			if k > 0 {
				out = out.add(Part{s: sep})
			}
			out = out.concat(p)
		}
		return out.add(Part{s: ")"}), args, nil
	case "Eq", "NotEq", "Lt", "LtOrEq", "Gt", "GtOrEq", "Like", "NotLike", "ILike", "NotILike":
		m, ok := i.v.(VMap)
		if !ok {
			if _, isNil := i.v.(VNil); isNil {
				return cStr("(1=1)"), nil, nil
			}
			in.undecided(pos, "unknown comparison map")
		}
		type kv struct {
			k VStr
			v Val
		}
		var l []kv
		for j := range m.m.keys {
			l = append(l, kv{asStr(m.m.keys[j]), m.m.vals[j]})
		}
		sort.Slice(l, func(a, b int) bool { return key(l[a].k) < key(l[b].k) })
		if len(l) == 0 {
			return cStr("(1=1)"), nil, nil
		}
		out := VStr{}
		var args []Val
		for j, e := range l {
			if j > 0 {
				out = out.add(Part{s: " AND "})
			}
			s, a, err := in.renderCompare(n.Obj().Name(), e.k, e.v, pos)
			if err != nil {
				return VStr{}, nil, err
			}
			out = out.concat(s)
			args = append(args, a...)
		}
		return out, args, nil
	}
	in.undecided(pos, "rendering of squirrel.%s", n.Obj().Name())
	return VStr{}, nil, nil
}

func (in *Interp) abstractSql(t *VTerm) (VStr, bool) {
	if strings.HasPrefix(t.op, "sub:") {
		return atomStr(mkTerm(types.Typ[types.String], "sqltext", t)), true
	}
	return VStr{}, false
}

// renderExpr substitutes nested Sqlizers for their placeholders.
func (in *Interp) renderExpr(sql VStr, args []Val, pos token.Pos) (VStr, []Val, Val) {
	simple := true
	for _, a := range args {
		if in.isSqlizer(a) {
			simple = false
		}
	}
	if simple {
		return sql, args, nil
	}
	out := VStr{}
	var oargs []Val
	ai := 0
	for _, p := range sql.parts {
		if p.atom != nil {
			// text of unknown content before placeholders: a ? in it would shift them
			out = out.add(p)
			continue
		}
		s := p.s
		for {
			if ai >= len(args) {
				out = out.add(Part{s: s})
				break
			}
			j := strings.IndexByte(s, '?')
			if j < 0 {
				out = out.add(Part{s: s})
				break
			}
			if j+1 < len(s) && s[j+1] == '?' {
				out = out.add(Part{s: s[:j+2]})
				s = s[j+2:]
				continue
			}
			if in.isSqlizer(args[ai]) {
				is, ia, err := in.renderSql(args[ai], pos)
				if err != nil {
					return VStr{}, nil, err
				}
				out = out.add(Part{s: s[:j]}).concat(is)
				oargs = append(oargs, ia...)
			} else {
				out = out.add(Part{s: s[:j+1]})
				oargs = append(oargs, args[ai])
			}
			s = s[j+1:]
			ai++
		}
	}
	for ; ai < len(args); ai++ {
		oargs = append(oargs, args[ai])
	}
	return out, oargs, nil
}

func (in *Interp) isSqlizer(v Val) bool {
	i, ok := v.(VIface)
	if !ok {
		return false
	}
	if i.dyn == nil {
		t, isT := i.v.(*VTerm)
		return isT && strings.HasPrefix(t.op, "sub:")
	}
	ms := in.m.prog.MethodSets.MethodSet(i.dyn)
	return ms.Lookup(nil, "ToSql") != nil
}

// renderCompare renders one entry of squirrel's comparison maps.
func (in *Interp) renderCompare(kind string, k VStr, v Val, pos token.Pos) (VStr, []Val, Val) {
	op := map[string]string{"Eq": "=", "NotEq": "<>", "Lt": "<", "LtOrEq": "<=", "Gt": ">", "GtOrEq": ">=", "Like": "LIKE", "NotLike": "NOT LIKE", "ILike": "ILIKE", "NotILike": "NOT ILIKE"}[kind]
	eq := kind == "Eq" || kind == "NotEq"
	if !eq {
		if _, isNil := v.(VNil); isNil {
			return VStr{}, nil, in.newError("squirrel: cannot use null with " + op)
		}
		if in.isListVal(v) {
			return VStr{}, nil, in.newError("squirrel: cannot use array with " + op)
		}
		return k.add(Part{s: " " + op + " ?"}), []Val{v}, nil
	}
	null, inOp, empty := "IS NULL", "IN", "(1=0)"
	if kind == "NotEq" {
		null, inOp, empty = "IS NOT NULL", "NOT IN", "(1=1)"
	}
	if _, isNil := v.(VNil); isNil {
		return k.add(Part{s: " " + null}), nil, nil
	}
	if in.isListVal(v) {
		e, ok := in.elems(unIface(v), pos)
		if !ok {
			in.undecided(pos, "unknown list")
		}
		if len(e) == 0 {
			return cStr(empty), nil, nil
		}
		return k.add(Part{s: " " + inOp + " (" + strings.Repeat(",?", len(e))[1:] + ")"}), append([]Val(nil), e...), nil
	}
	if in.isSqlizer(v) {
		in.undecided(pos, "Sqlizer as a bound value")
	}
	return k.add(Part{s: " " + op + " ?"}), []Val{v}, nil
}

func (in *Interp) isListVal(v Val) bool {
	i, ok := v.(VIface)
	if !ok || i.dyn == nil {
		return false
	}
	switch u := i.dyn.Underlying().(type) {
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return !(ok && b.Kind() == types.Uint8)
	case *types.Array:
		return true
	}
	return false
}
