package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// C25: the Mongo documents of v5 and v4.

var mongoOps = map[string]string{"Eq": "$eq", "NotEq": "$ne", "Lt": "$lt", "Lte": "$lte", "Gt": "$gt", "Gte": "$gte", "In": "$in", "NotIn": "$nin"}

// mq is the meaning of a query document: a conjunction or disjunction, or one
// test of one field.
type mq struct {
	op    string // and, or, test
	kids  []*mq
	field string
	test  string
	arg   string
}

func (q *mq) String() string {
	if q.op == "test" {
		return fmt.Sprintf("%s %s %s", q.field, q.test, q.arg)
	}
	var l []string
	for _, k := range q.kids {
		l = append(l, k.String())
	}
	return "(" + strings.Join(l, " "+q.op+" ") + ")"
}

// join flattens nested uses of the same operator, which keeps the meaning and
// the order.
func join(op string, kids []*mq) *mq {
	var l []*mq
	for _, k := range kids {
		if k.op == op {
			l = append(l, k.kids...)
		} else {
			l = append(l, k)
		}
	}
	if len(l) == 1 {
		return l[0]
	}
	return &mq{op: op, kids: l}
}

type docElem struct{ k, v Val }

// doc lists the elements of a bson.D or bson.M.
func (in *Interp) doc(v Val) ([]docElem, error) {
	t, v := dynOf(v)
	if m, ok := v.(VMap); ok {
		var out []docElem
		for i := range m.m.keys {
			out = append(out, docElem{m.m.keys[i], m.m.vals[i]})
		}
		return out, nil
	}
	if t != nil && !strings.HasSuffix(typeName(t), ".D") {
		return nil, fmt.Errorf("%s is not a document", typeName(t))
	}
	e, ok := in.elems(v, token.NoPos)
	if !ok {
		return nil, fmt.Errorf("%s is not a document", key(v))
	}
	var out []docElem
	for _, x := range e {
		s, ok := x.(VStruct)
		if !ok || len(s.f) != 2 {
			return nil, fmt.Errorf("%s is not a document element", key(x))
		}
		out = append(out, docElem{s.f[0], s.f[1]})
	}
	return out, nil
}

func dynOf(v Val) (types.Type, Val) {
	if i, ok := v.(VIface); ok {
		return i.dyn, i.v
	}
	return nil, v
}

func isDoc(v Val) bool {
	t, x := dynOf(v)
	if _, ok := x.(VMap); ok {
		return true
	}
	return t != nil && strings.HasSuffix(typeName(t), ".D")
}

func (in *Interp) query(v Val) (*mq, error) {
	d, err := in.doc(v)
	if err != nil {
		return nil, err
	}
	var all []*mq
	for _, p := range d {
		k, isC := str1(p.k)
		switch {
		case isC && (k == "$and" || k == "$or"):
			_, x := dynOf(p.v)
			e, ok := in.elems(x, token.NoPos)
			if !ok {
				return nil, fmt.Errorf("%s of %s", k, key(p.v))
			}
			var kids []*mq
			for _, x := range e {
				q, err := in.query(x)
				if err != nil {
					return nil, err
				}
				kids = append(kids, q)
			}
			all = append(all, join(k[1:], kids))
		case isC && strings.HasPrefix(k, "$"):
			return nil, fmt.Errorf("unexpected operator %s", k)
		default:
			q, err := in.fieldTests(key(p.k), p.v)
			if err != nil {
				return nil, err
			}
			all = append(all, q...)
		}
	}
	if len(all) == 0 {
		return nil, fmt.Errorf("an empty document, which matches everything")
	}
	return join("and", all), nil
}

func (in *Interp) fieldTests(field string, v Val) ([]*mq, error) {
	if re, ok := in.regexOf(v); ok {
		return []*mq{{op: "test", field: field, test: "regex", arg: re}}, nil
	}
	if !isDoc(v) {
		return []*mq{{op: "test", field: field, test: "$eq", arg: in.mongoVal(v)}}, nil
	}
	d, err := in.doc(v)
	if err != nil {
		return nil, err
	}
	var out []*mq
	for _, p := range d {
		k, ok := str1(p.k)
		if !ok {
			return nil, fmt.Errorf("operator %s of field %s is not a constant", key(p.k), field)
		}
		t := &mq{op: "test", field: field, test: k, arg: in.mongoVal(p.v)}
		switch k {
		case "$not":
			re, ok := in.regexOf(p.v)
			if !ok {
				inner, err := in.fieldTests(field, p.v)
				if err != nil || len(inner) != 1 || inner[0].test != "regex" {
					return nil, fmt.Errorf("$not of %s", key(p.v))
				}
				re = inner[0].arg
			}
			t.test, t.arg = "not regex", re
		case "$regex":
			re, ok := in.regexOf(p.v)
			if !ok {
				_, x := dynOf(p.v)
				re = key(x) + "/"
			}
			t.test, t.arg = "regex", re
		}
		out = append(out, t)
	}
	return out, nil
}

// regexOf reads a primitive.Regex.
func (in *Interp) regexOf(v Val) (string, bool) {
	t, x := dynOf(v)
	s, ok := x.(VStruct)
	if !ok || t == nil || !strings.HasSuffix(typeName(t), ".Regex") {
		return "", false
	}
	st := structOf(t)
	var pat, opt string
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Pattern":
			pat = key(s.f[i])
		case "Options":
			opt, _ = str1(s.f[i])
		}
	}
	return pat + "/" + opt, true
}

func (in *Interp) mongoVal(v Val) string {
	t, x := dynOf(v)
	if _, ok := v.(VNil); ok {
		return "nil"
	}
	if t != nil {
		if _, ok := t.Underlying().(*types.Slice); ok {
			e, _ := in.elems(x, token.NoPos)
			var l []string
			for _, y := range e {
				l = append(l, in.mongoVal(y))
			}
			return "[" + strings.Join(l, ", ") + "]"
		}
		switch {
		case isString(t):
			return "string " + key(x)
		case isNumType(t):
			return "number " + key(x)
		case isTime(t):
			return "time " + key(instant(x))
		}
		return typeName(t) + " " + key(x)
	}
	return key(v)
}

type mongoSpec struct {
	g  *legacy
	in *Interp
}

func (s *mongoSpec) lit(n *lnode) string {
	switch n.op {
	case "Number":
		return "number " + key(n.val)
	case "String":
		return "string " + key(n.val)
	case "Boolean":
		return "bool " + key(n.val)
	case "Date":
		return "time " + key(instant(n.val))
	}
	throw(n.op + " is not a literal")
	return ""
}

func (s *mongoSpec) walk(n *lnode) *mq {
	switch n.op {
	case "And", "Or":
		l := s.walk(n.l)
		r := s.walk(n.r)
		return join(strings.ToLower(n.op), []*mq{l, r})
	}
	if n.l == nil || n.l.op != "Ident" {
		if n.op == "Not" {
			throw("not is not supported")
		}
		throw("the left hand side is not a field")
	}
	field := key(n.l.val)
	test := func(op, arg string) *mq { return &mq{op: "test", field: field, test: op, arg: arg} }
	list := func() []string {
		var l []string
		for _, k := range n.r.list {
			if k.op != "Number" && k.op != "String" {
				throw("a list of " + k.op)
			}
			l = append(l, s.lit(k))
		}
		return l
	}
	switch n.op {
	case "Eq", "NotEq", "Lt", "Lte", "Gt", "Gte":
		return test(mongoOps[n.op], s.lit(n.r))
	case "In", "NotIn":
		return test(mongoOps[n.op], "["+strings.Join(list(), ", ")+"]")
	case "Between":
		v := list()
		return join("and", []*mq{test("$gte", v[0]), test("$lte", v[1])})
	case "NotBetween":
		v := list()
		return join("or", []*mq{test("$lt", v[0]), test("$gt", v[1])})
	case "IsNil":
		return test("$exists", "bool #false")
	case "IsNotNil":
		return test("$exists", "bool #true")
	case "Regex", "NotRegex":
		if n.r.op != "String" {
			throw("a regular expression that is not a text")
		}
		t := "regex"
		if n.op == "NotRegex" {
			t = "not regex"
		}
		return test(t, key(n.r.val)+"/")
	}
	throw("operator " + n.op + " is not supported")
	return nil
}

func (s *mongoSpec) run(n *lnode) (q *mq, err *specErr) {
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(specErr); ok {
				err = &e
				return
			}
			panic(p)
		}
	}()
	return s.walk(n), nil
}

func init() {
	register("C25", "abstract interpretation of the SSA of mongo.Walk (v5, v4) on trees of every operator and operand kind; the resulting document is read back as a formula over field tests and compared with the formula of the filter", func(c *Check) error {
		c.assume = append(c.assume, "Mongo gives its query operators ($eq, $ne, $lt, $lte, $gt, $gte, $in, $nin, $exists, $not, $and, $or, regular expressions) their documented meaning")
		var jobs []func()
		for _, ver := range []string{"v5", "v4"} {
			g, err := loadLegacy(c, ver)
			if err != nil {
				return err
			}
			p := g.m.byDir["pkg/walkers/mongo"]
			if p == nil || p.Func("Walk") == nil {
				return fmt.Errorf("%s mongo.Walk not found", ver)
			}
			walk := p.Func("Walk")
			c.scope = append(c.scope, ver+"/pkg/walkers/mongo")
			for rule, ts := range g.trees() {
				if rule == "operand" {
					continue
				}
				for _, t := range ts {
					rule, t := rule, t
					jobs = append(jobs, func() {
						c.explore(g.m, ver+":"+rule, t.label, func(in *Interp, fail func(string, ...interface{})) {
							root := t.mk(in, "x")
							o := in.tryCall(walk, []Val{g.value(in, root)})
							if o.crash != nil {
								fail("%s: may crash: %s in %s (%s)", root, o.crash.what, o.crash.fn, in.position(o.crash.pos))
								return
							}
							want, werr := (&mongoSpec{g, in}).run(root)
							_, noErr := o.res[1].(VNil)
							switch {
							case werr != nil && noErr:
								fail("%s: gives %s, expected an error (%s)", root, key(o.res[0]), werr.why)
							case werr != nil:
							case !noErr:
								fail("%s: gives an error, expected %s", root, want)
							default:
								got, err := in.query(o.res[0])
								if err != nil {
									fail("%s: the document is not well-formed: %v", root, err)
								} else if got.String() != want.String() {
									fail("%s: means %s, expected %s", root, got, want)
								}
							}
						})
					})
				}
			}
		}
		parallel(jobs)
		c.need("v5:condition", 400)
		c.need("v4:condition", 200)
		c.need("v5:nesting", 300)
		c.need("v4:nesting", 300)
		return nil
	})
}
