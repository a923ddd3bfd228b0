package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// reObj is the model of a compiled regular expression.
type reObj struct{ src VStr }

// bufObj is the model of a strings.Builder or bytes.Buffer.
type bufObj struct{ s VStr }

// initSpecial attaches model state to objects of modelled library types.
func (in *Interp) initSpecial(o *Obj, t types.Type) {}

func fullName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		return fn.Origin().String()
	}
	return fn.String()
}

func (in *Interp) newError(kind string, args ...Val) Val {
	return VIface{dyn: nil, v: mkTerm(nil, "error:"+in.fresh(kind), args...)}
}

func str1(v Val) (string, bool) {
	s, ok := v.(VStr)
	if !ok {
		return "", false
	}
	return s.isConst()
}

func asStr(v Val) VStr {
	switch s := v.(type) {
	case VStr:
		return s
	case *VTerm:
		return atomStr(s)
	}
	return VStr{}
}

// model gives the meaning of library functions the analysed code relies on.
// It reports false when the function has no model.
func (in *Interp) model(fn *ssa.Function, args []Val, pos token.Pos) ([]Val, bool) {
	name := fullName(fn)
	if strings.Contains(name, "._Cfunc_") || strings.Contains(name, "._cgo") {
		return in.cgo(fn, args, pos)
	}
	if fn.Pkg != nil && in.inRepo(fn.Pkg) && fn.Synthetic == "" {
		return nil, false
	}
	if twin := appenders[name]; twin != "" {
		return in.appendForm(fn, twin, args, pos)
	}
	switch name {
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Title", "regexp.QuoteMeta", "strconv.Quote", "strconv.QuoteToASCII":
		f := map[string]func(string) string{"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
			"strings.Title": strings.Title, "regexp.QuoteMeta": regexp.QuoteMeta, "strconv.Quote": strconv.Quote, "strconv.QuoteToASCII": strconv.QuoteToASCII}[name]
		if s, ok := str1(args[0]); ok {
			return []Val{cStr(f(s))}, true
		}
		if name == "strconv.Quote" || name == "strconv.QuoteToASCII" {
			// the quotes around the escaped text are known
			r := cStr("\"").concat(atomStr(mkTerm(types.Typ[types.String], "escaped", args[0]))).add(Part{s: "\""})
			return []Val{r}, true
		}
		return []Val{atomStr(mkTerm(types.Typ[types.String], name, args[0]))}, true
	case "strings.ReplaceAll":
		return []Val{in.replace(args[0], args[1], args[2], -1)}, true
	case "strings.Replace":
		n, ok := in.intOf(args[3])
		if !ok {
			return nil, false
		}
		return []Val{in.replace(args[0], args[1], args[2], n)}, true
	case "strings.Join":
		e, ok := in.elems(args[0], pos)
		if !ok {
			return nil, false
		}
		out := VStr{}
		for i, x := range e {
			if i > 0 {
				out = out.concat(asStr(args[1]))
			}
			out = out.concat(asStr(x))
		}
		return []Val{out}, true
	case "strings.Repeat":
		n, ok := in.intOf(args[1])
		if !ok {
			return nil, false
		}
		if n < 0 {
			in.crash(pos, "strings: negative Repeat count")
		}
		if n > 10000 {
			return nil, false
		}
		out := VStr{}
		for i := 0; i < n; i++ {
			out = out.concat(asStr(args[0]))
		}
		return []Val{out}, true
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold", "strings.ContainsAny":
		a, ok1 := str1(args[0])
		b, ok2 := str1(args[1])
		if ok1 && ok2 {
			switch name {
			case "strings.HasPrefix":
				return []Val{cBool(strings.HasPrefix(a, b))}, true
			case "strings.HasSuffix":
				return []Val{cBool(strings.HasSuffix(a, b))}, true
			case "strings.Contains":
				return []Val{cBool(strings.Contains(a, b))}, true
			case "strings.ContainsAny":
				return []Val{cBool(strings.ContainsAny(a, b))}, true
			default:
				return []Val{cBool(strings.EqualFold(a, b))}, true
			}
		}
		if s, ok := args[0].(VStr); ok && ok2 && in.ci != nil {
			if l, ok := in.ci.byteText(s); ok {
				switch name {
				case "strings.Contains":
					return []Val{cBool(in.ci.textIndex(l, b) >= 0)}, true
				case "strings.ContainsAny":
					for i := 0; i < len(b); i++ {
						if in.ci.textIndex(l, b[i:i+1]) >= 0 {
							return []Val{cBool(true)}, true
						}
					}
					return []Val{cBool(false)}, true
				}
			}
		}
		if s, ok := args[0].(VStr); ok && ok2 && len(s.parts) > 0 {
			if p := s.parts[0]; name == "strings.HasPrefix" && p.atom == nil && len(p.s) >= len(b) {
				return []Val{cBool(strings.HasPrefix(p.s, b))}, true
			}
			if p := s.parts[len(s.parts)-1]; name == "strings.HasSuffix" && p.atom == nil && len(p.s) >= len(b) {
				return []Val{cBool(strings.HasSuffix(p.s, b))}, true
			}
		}
		return nil, false
	case "strings.TrimSuffix", "strings.TrimPrefix", "strings.Trim", "strings.TrimRight", "strings.TrimLeft":
		a, ok1 := str1(args[0])
		b, ok2 := str1(args[1])
		if ok1 && ok2 {
			f := map[string]func(string, string) string{"strings.TrimSuffix": strings.TrimSuffix, "strings.TrimPrefix": strings.TrimPrefix,
				"strings.Trim": strings.Trim, "strings.TrimRight": strings.TrimRight, "strings.TrimLeft": strings.TrimLeft}[name]
			return []Val{cStr(f(a, b))}, true
		}
		if s, ok := args[0].(VStr); ok && ok2 && len(s.parts) > 0 {
			if p := s.parts[len(s.parts)-1]; name == "strings.TrimSuffix" && p.atom == nil && len(p.s) >= len(b) {
				n := VStr{parts: append([]Part(nil), s.parts[:len(s.parts)-1]...)}
				return []Val{n.add(Part{s: strings.TrimSuffix(p.s, b)})}, true
			}
			if p := s.parts[0]; name == "strings.TrimPrefix" && p.atom == nil && len(p.s) >= len(b) {
				n := VStr{}.add(Part{s: strings.TrimPrefix(p.s, b)})
				return []Val{n.concat(VStr{parts: s.parts[1:]})}, true
			}
		}
		return nil, false
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.Count":
		a, ok1 := str1(args[0])
		b, ok2 := str1(args[1])
		if !ok2 {
			n, ok := in.intOf(args[1])
			if !ok {
				return nil, false
			}
			b = string(rune(n))
		}
		if !ok1 {
			if s, ok := args[0].(VStr); ok && in.ci != nil && strings.HasPrefix(name, "strings.Index") {
				if l, ok := in.ci.byteText(s); ok {
					return []Val{cInt(int64(in.ci.textIndex(l, b)))}, true
				}
			}
			return nil, false
		}
		switch name {
		case "strings.LastIndex":
			return []Val{cInt(int64(strings.LastIndex(a, b)))}, true
		case "strings.Count":
			return []Val{cInt(int64(strings.Count(a, b)))}, true
		}
		return []Val{cInt(int64(strings.Index(a, b)))}, true
	case "strings.ContainsRune":
		a, ok1 := str1(args[0])
		n, ok2 := in.intOf(args[1])
		if s, ok := args[0].(VStr); ok && !ok1 && ok2 && n < 128 && in.ci != nil {
			if l, ok := in.ci.byteText(s); ok {
				return []Val{cBool(in.ci.textIndex(l, string(rune(n))) >= 0)}, true
			}
		}
		if ok1 && ok2 {
			return []Val{cBool(strings.ContainsRune(a, rune(n)))}, true
		}
		return nil, false
	case "strings.Split", "strings.Fields":
		a, ok1 := str1(args[0])
		if !ok1 {
			return nil, false
		}
		var p []string
		if name == "strings.Fields" {
			p = strings.Fields(a)
		} else {
			b, ok2 := str1(args[1])
			if !ok2 {
				return nil, false
			}
			p = strings.Split(a, b)
		}
		var e []Val
		for _, x := range p {
			e = append(e, cStr(x))
		}
		return []Val{in.mkSlice(e)}, true
	case "strings.NewReplacer":
		e, ok := in.elems(args[0], pos)
		if !ok {
			return nil, false
		}
		o := in.newObj(VNil{}, nil, "replacer")
		o.extra = e
		return []Val{VPtr{obj: o}}, true
	case "(*strings.Replacer).Replace":
		p, ok := args[0].(VPtr)
		if !ok {
			return nil, false
		}
		e, ok := p.obj.extra.([]Val)
		if !ok {
			return nil, false
		}
		var l []string
		for _, x := range e {
			s, ok := str1(x)
			if !ok {
				return nil, false
			}
			l = append(l, s)
		}
		if s, ok := str1(args[1]); ok {
			return []Val{cStr(strings.NewReplacer(l...).Replace(s))}, true
		}
		return []Val{in.mapAtoms(asStr(args[1]), fmt.Sprintf("replacer%q", l), strings.NewReplacer(l...).Replace)}, true
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).Write",
		"(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		b := in.buf(args[0], pos)
		s := in.written(name, args[1], pos)
		b.s = b.s.concat(s)
		if strings.HasSuffix(name, "WriteByte") {
			return []Val{VNil{}}, true
		}
		return []Val{in.strLen(s), VNil{}}, true
	case "bufio.NewWriter", "bufio.NewWriterSize":
		o := in.newObj(VNil{}, nil, "bufout")
		o.extra = &bufOut{w: args[0]}
		return []Val{VPtr{obj: o}}, true
	case "(*bufio.Writer).Flush", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
		p, ok := args[0].(VPtr)
		if !ok {
			return nil, false
		}
		b, ok := p.obj.extra.(*bufOut)
		if !ok {
			return nil, false
		}
		if name == "(*bufio.Writer).Flush" {
			in.fprint(b.w, b.s, pos)
			b.s = VStr{}
			return []Val{VNil{}}, true
		}
		s := in.written(name, args[1], pos)
		b.s = b.s.concat(s)
		if strings.HasSuffix(name, "WriteByte") {
			return []Val{VNil{}}, true
		}
		return []Val{in.strLen(s), VNil{}}, true
	case "(*os.File).WriteString", "(*os.File).Write", "io.WriteString":
		w := args[0]
		if name != "io.WriteString" {
			w = VIface{dyn: types.Typ[types.Invalid], v: args[0]}
		}
		return in.fprint(w, in.written(name, args[1], pos), pos), true
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return []Val{in.buf(args[0], pos).s}, true
	case "(*bytes.Buffer).Bytes":
		return []Val{in.convert(in.buf(args[0], pos).s, tString, types.NewSlice(types.Typ[types.Byte]), pos)}, true
	case "(*bytes.Buffer).WriteTo":
		b := in.buf(args[0], pos)
		r := in.fprint(args[1], b.s, pos)
		b.s = VStr{}
		return r, true
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return []Val{in.strLen(in.buf(args[0], pos).s)}, true
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return nil, true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		in.buf(args[0], pos).s = VStr{}
		return nil, true
	case "bytes.NewBufferString", "bytes.NewBuffer":
		o := in.newObj(VNil{}, nil, "buf")
		s := args[0]
		if name == "bytes.NewBuffer" {
			s = VStr{}
			if _, isNil := args[0].(VNil); !isNil {
				s = in.convert(args[0], types.NewSlice(types.Typ[types.Byte]), tString, pos)
			}
		}
		o.extra = &bufObj{asStr(s)}
		return []Val{VPtr{obj: o}}, true

	case "strconv.FormatFloat":
		if f, ok := in.floatOf(args[0]); ok {
			c, _ := in.intOf(args[1])
			p, _ := in.intOf(args[2])
			b, _ := in.intOf(args[3])
			return []Val{cStr(strconv.FormatFloat(f, byte(c), p, b))}, true
		}
		op := "fmtnum"
		c, ok1 := in.intOf(args[1])
		p, ok2 := in.intOf(args[2])
		b, ok3 := in.intOf(args[3])
		if !ok1 || !ok2 || !ok3 || p >= 0 || b != 64 || !strings.ContainsRune("feEgG", rune(c)) {
			op = fmt.Sprintf("formatfloat/%d/%d/%d", c, p, b) // loses digits
		}
		return []Val{atomStr(mkTerm(types.Typ[types.String], op, args[0]))}, true
	case "strconv.Itoa":
		if n, ok := in.intOf(args[0]); ok {
			return []Val{cStr(strconv.Itoa(n))}, true
		}
		return nil, false
	case "strconv.FormatInt":
		n, ok := in.intOf(args[0])
		b, ok2 := in.intOf(args[1])
		if ok && ok2 {
			return []Val{cStr(strconv.FormatInt(int64(n), b))}, true
		}
		return nil, false
	case "strconv.ParseFloat":
		if s, ok := str1(args[0]); ok {
			b, _ := in.intOf(args[1])
			f, err := strconv.ParseFloat(s, b)
			var v Val
			switch {
			case math.IsInf(f, 0):
				v = infinite(f < 0)
			case math.IsNaN(f):
				v = mkTerm(types.Typ[types.Float64], nanKey)
			default:
				v = cFloat(f)
			}
			if err != nil {
				return []Val{v, in.newError("ParseFloat")}, true
			}
			return []Val{v, VNil{}}, true
		}
		k := "parsefloat:" + key(args[0])
		if in.choose("err:"+k, 2) == 1 {
			return []Val{mkTerm(types.Typ[types.Float64], "parsefailed", args[0]), in.newError("ParseFloat")}, true
		}
		return []Val{mkTerm(types.Typ[types.Float64], "parsefloat", args[0]), VNil{}}, true
	case "strconv.ParseBool", "strconv.Atoi":
		if s, ok := str1(args[0]); ok {
			if name == "strconv.Atoi" {
				n, err := strconv.Atoi(s)
				if err != nil {
					return []Val{cInt(0), in.newError("Atoi")}, true
				}
				return []Val{cInt(int64(n)), VNil{}}, true
			}
			b, err := strconv.ParseBool(s)
			if err != nil {
				return []Val{cBool(false), in.newError("ParseBool")}, true
			}
			return []Val{cBool(b), VNil{}}, true
		}
		return nil, false

	case "errors.New":
		return []Val{in.newError("errors.New", args[0])}, true
	case "fmt.Errorf":
		e, _ := in.elems(args[1], pos)
		return []Val{in.newError("fmt.Errorf", append([]Val{in.format(asStr(args[0]), e, pos)}, e...)...)}, true
	case "errors.Is":
		return []Val{cBool(in.equal(args[0], args[1], pos))}, true
	case "fmt.Sprintf":
		e, ok := in.elems(args[1], pos)
		if !ok {
			return nil, false
		}
		return []Val{in.format(asStr(args[0]), e, pos)}, true
	case "fmt.Printf":
		e, ok := in.elems(args[1], pos)
		if !ok {
			return nil, false
		}
		in.events = append(in.events, Event{kind: "stdout", args: []Val{in.format(asStr(args[0]), e, pos)}, pos: pos})
		return []Val{cInt(0), VNil{}}, true
	case "fmt.Fprintf":
		e, ok := in.elems(args[2], pos)
		if !ok {
			return nil, false
		}
		return in.fprint(args[0], in.format(asStr(args[1]), e, pos), pos), true
	case "fmt.Sprint", "fmt.Sprintln", "fmt.Print", "fmt.Println", "fmt.Fprint", "fmt.Fprintln":
		a := args
		if strings.HasPrefix(name, "fmt.F") {
			a = args[1:]
		}
		e, ok := in.elems(a[0], pos)
		if !ok {
			return nil, false
		}
		out := VStr{}
		for i, x := range e {
			if i > 0 {
				if strings.HasSuffix(name, "ln") {
					out = out.add(Part{s: " "})
				} else {
					p, q := in.isStringIface(e[i-1]), in.isStringIface(x)
					if !p && !q {
						out = out.add(Part{s: " "})
					}
				}
			}
			out = out.concat(in.formatOne("%v", 'v', x, pos))
		}
		if strings.HasSuffix(name, "ln") {
			out = out.add(Part{s: "\n"})
		}
		switch {
		case strings.HasPrefix(name, "fmt.S"):
			return []Val{out}, true
		case strings.HasPrefix(name, "fmt.P"):
			in.events = append(in.events, Event{kind: "stdout", args: []Val{out}, pos: pos})
			return []Val{cInt(0), VNil{}}, true
		}
		return in.fprint(args[0], out, pos), true

	case "time.Parse":
		return in.timeParse(args[0], args[1], pos), true
	case "(time.Time).Before":
		return []Val{cBool(in.compare(instant(args[0]), instant(args[1]), false) < 0)}, true
	case "(time.Time).After":
		return []Val{cBool(in.compare(instant(args[0]), instant(args[1]), false) > 0)}, true
	case "(time.Time).Equal":
		return []Val{cBool(in.equals(instant(args[0]), instant(args[1]), false))}, true
	case "(time.Time).Compare":
		return []Val{cInt(int64(in.compare(instant(args[0]), instant(args[1]), false)))}, true
	case "(time.Time).IsZero":
		return []Val{cBool(strings.HasPrefix(key(args[0]), "zero:") || in.choose("bool:iszero:"+key(args[0]), 2) == 1)}, true
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In", "(time.Time).Round":
		if name == "(time.Time).Round" {
			if n, ok := in.intOf(args[1]); !ok || n > 0 {
				return nil, false
			}
		}
		t, ok := args[0].(*VTerm)
		if !ok {
			return nil, false
		}
		return []Val{mkTerm(t.typ, "samewhen", append([]Val{args[0], cStr(name)}, args[1:]...)...)}, true
	case "(time.Time).Format", "(time.Time).String":
		l := Val(cStr("default"))
		if len(args) > 1 {
			l = args[1]
		}
		return []Val{atomStr(mkTerm(types.Typ[types.String], "timefmt", args[0], l))}, true

	case "regexp.MatchString", "regexp.Compile", "regexp.MustCompile":
		re, err := in.compileRe(args[0])
		if name == "regexp.MustCompile" {
			if err != nil {
				in.crash(pos, "regexp.MustCompile of an invalid pattern %s", key(args[0]))
			}
			return []Val{re}, true
		}
		if err != nil {
			if name == "regexp.Compile" {
				return []Val{VNil{}, err}, true
			}
			return []Val{cBool(false), err}, true
		}
		if name == "regexp.Compile" {
			return []Val{re, VNil{}}, true
		}
		return []Val{in.reMatch(re, args[1], pos), VNil{}}, true
	case "(*regexp.Regexp).MatchString":
		return []Val{in.reMatch(args[0], args[1], pos)}, true
	case "(*regexp.Regexp).String":
		if p, ok := args[0].(VPtr); ok {
			if r, ok := p.obj.extra.(*reObj); ok {
				return []Val{r.src}, true
			}
		}
		return nil, false

	case "math.Abs", "math.Trunc", "math.Floor", "math.Ceil", "math.Round":
		if f, ok := in.floatOf(args[0]); ok {
			g := map[string]func(float64) float64{"math.Abs": math.Abs, "math.Trunc": math.Trunc, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Round": math.Round}[name]
			return []Val{cFloat(g(f))}, true
		}
		op := strings.ToLower(strings.TrimPrefix(name, "math."))
		if t, ok := args[0].(*VTerm); ok && t.op == "trunc" && op != "abs" {
			return []Val{t}, true
		}
		return []Val{mkTerm(types.Typ[types.Float64], op, args[0])}, true
	case "math.Pow":
		a, ok1 := in.floatOf(args[0])
		b, ok2 := in.floatOf(args[1])
		if ok1 && ok2 {
			return []Val{cFloat(math.Pow(a, b))}, true
		}
		return nil, false
	case "math.Mod":
		x, ok1 := in.floatOf(args[0])
		y, ok2 := in.floatOf(args[1])
		if ok1 && ok2 && y != 0 {
			return []Val{cFloat(math.Mod(x, y))}, true
		}
		return []Val{mkTerm(types.Typ[types.Float64], "rem", args[0], args[1])}, true
	case "math.IsNaN", "math.IsInf":
		if isNaN(args[0]) {
			return []Val{cBool(name == "math.IsNaN")}, true
		}
		inf := isInf(args[0])
		if t, ok := args[0].(*VTerm); ok && t.op == "parsefailed" {
			// no number, or one out of range: infinity comes with that error
			inf = []int{0, 1, -1}[in.choose("range:"+t.key, 3)]
		}
		if inf != 0 {
			if name == "math.IsNaN" {
				return []Val{cBool(false)}, true
			}
			n, ok := in.intOf(args[1])
			return []Val{cBool(n*inf >= 0)}, ok
		}
		if t, ok := args[0].(*VTerm); ok && (strings.HasPrefix(t.op, "float:") || (t.op == "div")) {
			return nil, false
		}
		return []Val{cBool(false)}, true

	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		op := name[strings.LastIndex(name, ".")+1:]
		in.events = append(in.events, Event{kind: op, args: []Val{args[0]}, pos: pos})
		if in.onLock != nil {
			in.onLock(op, args[0], pos)
		}
		return nil, true
	case "(*sync.Once).Do":
		k := "once:" + key(args[0])
		if in.choose(k, 2) == 0 {
			in.apply1(args[1], nil, pos)
		}
		return nil, true
	case "math/rand.Intn", "math/rand.Int", "math/rand.Int63", "math/rand.Float64", "math/rand.Perm", "crypto/rand.Read", "math/rand/v2.IntN":
		t := fn.Signature.Results().At(0).Type()
		r := mkTerm(t, in.fresh("rand"))
		if len(args) == 1 && isInteger(t) {
			// 0 <= r < n
			in.note(r, r.key, true)
			in.facts["ge0:"+r.key] = 1
			in.order = append(in.order, relFact{r.key, key(args[0]), -1})
			in.note(args[0], key(args[0]), true)
		}
		return []Val{r}, true
	case "encoding/json.Marshal", "encoding/json.MarshalIndent", "gopkg.in/yaml.v3.Marshal":
		in.events = append(in.events, Event{kind: name, args: args[:1], pos: pos})
		k := "err:" + name + ":" + key(args[0])
		if in.choose(k, 2) == 1 {
			return []Val{VNil{}, in.newError(name)}, true
		}
		t := mkTerm(types.NewSlice(types.Typ[types.Byte]), name, args[0])
		in.facts["nil:"+t.key] = 0
		return []Val{t, VNil{}}, true
	case "sort.Strings", "sort.Slice", "sort.SliceStable":
		return nil, false
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		x := exited{what: name, code: 1}
		if name == "os.Exit" {
			x.code, x.known = in.intOf(args[0])
		} else {
			x.known = true
		}
		panic(x)
	case "unicode/utf8.RuneCountInString":
		if s, ok := str1(args[0]); ok {
			return []Val{cInt(int64(len([]rune(s))))}, true
		}
		return nil, false
	case "reflect.DeepEqual":
		if key(args[0]) == key(args[1]) {
			return []Val{cBool(true)}, true
		}
		return []Val{cBool(in.choose("deepeq:"+pair(args[0], args[1]), 2) == 1)}, true
	}
	if r, ok := in.squirrel(fn, name, args, pos); ok {
		return r, true
	}
	if r, ok := in.reflectModel(name, args, pos); ok {
		return r, true
	}
	if r, ok := in.textLoop(name, args, pos); ok {
		return r, true
	}
	return in.fold(name, args)
}

// exited ends a partition: the program terminates.
type exited struct {
	what  string
	code  int
	known bool
}

// bufOut is a buffered writer in front of another writer.
type bufOut struct {
	w Val
	s VStr
}

func (in *Interp) apply1(f Val, args []Val, pos token.Pos) []Val {
	switch f := f.(type) {
	case VFunc:
		if f.native != nil {
			return f.native(in, args)
		}
		if f.fn != nil {
			return in.callFn(f.fn, args, f.free, pos)
		}
	case VNil:
		in.crash(pos, "call of nil function")
	}
	in.undecided(pos, "call of %T", f)
	return nil
}

func (in *Interp) mkSlice(e []Val) Val {
	return VSlice{in.newObj(VArray{append([]Val(nil), e...)}, nil, "slice"), 0, len(e), len(e)}
}

func (in *Interp) floatOf(v Val) (float64, bool) {
	c, ok := v.(VConst)
	if !ok || c.c.Kind() == constant.Bool {
		return 0, false
	}
	f, _ := constant.Float64Val(constant.ToFloat(c.c))
	return f, true
}

// instant strips representation changes that keep the instant.
func instant(v Val) Val {
	for {
		t, ok := v.(*VTerm)
		if !ok || t.op != "samewhen" {
			return v
		}
		v = t.args[0]
	}
}

func (in *Interp) isStringIface(v Val) bool {
	i, ok := v.(VIface)
	return ok && i.dyn != nil && isString(i.dyn)
}

func (in *Interp) fprint(w Val, s VStr, pos token.Pos) []Val {
	if i, ok := w.(VIface); ok {
		if p, ok := i.v.(VPtr); ok && i.dyn != nil {
			switch typeName(i.dyn) {
			case "*strings.Builder", "*bytes.Buffer":
				b := in.buf(p, pos)
				b.s = b.s.concat(s)
				return []Val{in.strLen(s), VNil{}}
			case "*bufio.Writer":
				if b, ok := p.obj.extra.(*bufOut); ok {
					b.s = b.s.concat(s)
					return []Val{in.strLen(s), VNil{}}
				}
			}
		}
		if t, ok := i.v.(*VTerm); ok {
			switch t.key {
			case "global:os.Stdout":
				in.events = append(in.events, Event{kind: "stdout", args: []Val{s}, pos: pos})
				return []Val{in.strLen(s), VNil{}}
			case "global:os.Stderr":
				in.events = append(in.events, Event{kind: "stderr", args: []Val{s}, pos: pos})
				return []Val{in.strLen(s), VNil{}}
			}
		}
	}
	in.events = append(in.events, Event{kind: "fprint", args: []Val{w, s}, pos: pos})
	return []Val{cInt(0), VNil{}}
}

func (in *Interp) buf(v Val, pos token.Pos) *bufObj {
	p, ok := v.(VPtr)
	if !ok {
		if _, isNil := v.(VNil); isNil {
			in.crash(pos, "nil pointer dereference")
		}
		in.undecided(pos, "unknown buffer")
	}
	k := "buf"
	for _, i := range p.path {
		k += fmt.Sprintf(".%d", i)
	}
	m, ok := p.obj.extra.(map[string]*bufObj)
	if b, isB := p.obj.extra.(*bufObj); isB {
		return b
	}
	if !ok {
		m = map[string]*bufObj{}
		p.obj.extra = m
	}
	if m[k] == nil {
		m[k] = &bufObj{}
	}
	return m[k]
}

// mapAtoms applies a per-fragment text function, keeping atoms as terms. It is
// only exact for functions that work character by character.
func (in *Interp) mapAtoms(s VStr, op string, f func(string) string) VStr {
	out := VStr{}
	for _, p := range s.parts {
		if p.atom == nil {
			out = out.add(Part{s: f(p.s)})
		} else {
			out = out.add(Part{atom: mkTerm(types.Typ[types.String], op, p.atom)})
		}
	}
	return out
}

func (in *Interp) replace(s, old, new Val, n int) Val {
	a, ok1 := str1(s)
	o, ok2 := str1(old)
	r, ok3 := str1(new)
	if ok1 && ok2 && ok3 {
		return cStr(strings.Replace(a, o, r, n))
	}
	if ok2 && ok3 && len(o) == 1 && n < 0 {
		return in.mapAtoms(asStr(s), fmt.Sprintf("replace%q%q", o, r), func(x string) string { return strings.ReplaceAll(x, o, r) })
	}
	if ok2 && n == 1 {
		// the first occurrence is inside a leading known fragment
		st := asStr(s)
		if len(st.parts) > 0 && st.parts[0].atom == nil && strings.Contains(st.parts[0].s, o) {
			i := strings.Index(st.parts[0].s, o)
			out := cStr(st.parts[0].s[:i]).concat(asStr(new)).add(Part{s: st.parts[0].s[i+len(o):]})
			return out.concat(VStr{st.parts[1:]})
		}
		// text before it consists of names generated by the code itself
		for i, p := range st.parts {
			if p.atom == nil && strings.Contains(p.s, o) {
				j := strings.Index(p.s, o)
				out := VStr{append([]Part(nil), st.parts[:i]...)}
				clean := true
				for _, q := range st.parts[:i] {
					if q.atom != nil && !strings.HasPrefix(q.atom.op, "char") && q.atom.op != "nodeid" {
						clean = false
					}
				}
				if !clean {
					break
				}
				out = out.add(Part{s: p.s[:j]}).concat(asStr(new)).add(Part{s: p.s[j+len(o):]})
				return out.concat(VStr{st.parts[i+1:]})
			}
		}
	}
	return atomStr(mkTerm(types.Typ[types.String], fmt.Sprintf("strings.Replace/%d", n), s, old, new))
}

func normLayout(l string) string {
	if l == time.RFC3339Nano {
		return time.RFC3339
	}
	return l
}

func (in *Interp) timeParse(layout, s Val, pos token.Pos) []Val {
	tt := in.timeType()
	l, ok := str1(layout)
	if !ok {
		in.undecided(pos, "time.Parse with unknown layout")
	}
	l = normLayout(l)
	if c, ok := str1(s); ok {
		t, err := time.Parse(l, c)
		if err != nil {
			return []Val{mkTerm(tt, "zero:time.Time"), in.newError("time.Parse")}
		}
		return []Val{mkTerm(tt, "timeconst:"+t.UTC().Format(time.RFC3339Nano)), VNil{}}
	}
	if in.parses(l, s) {
		return []Val{mkTerm(tt, "parsed", s), VNil{}}
	}
	return []Val{mkTerm(tt, "zero:time.Time"), in.newError("time.Parse")}
}

// constTime is a known instant; the zone it was given in is not kept.
func constTime(v Val) (time.Time, bool) {
	if t, ok := v.(*VTerm); ok && strings.HasPrefix(t.op, "timeconst:") {
		r, err := time.Parse(time.RFC3339Nano, strings.TrimPrefix(t.op, "timeconst:"))
		return r.UTC(), err == nil
	}
	return time.Time{}, false
}

// parses decides whether a text has the given time layout; a text has at most
// one of the layouts used.
func (in *Interp) parses(layout string, s Val) bool {
	l := normLayout(layout)
	if text, ok := str1(s); ok {
		_, err := time.Parse(layout, text)
		return err == nil
	}
	k := "parse:" + l + ":" + key(s)
	if v, ok := in.known(k); ok {
		return v == 1
	}
	if v, ok := in.layoutFact(l, key(s)); ok {
		in.facts[k] = v
		return v == 1
	}
	other := "parsedas:" + key(s)
	if in.choose(k, 2) == 1 {
		in.facts[other] = 1
		return true
	}
	return false
}

func (in *Interp) timeType() types.Type {
	for _, p := range in.m.prog.AllPackages() {
		if p.Pkg.Path() == "time" {
			return p.Pkg.Scope().Lookup("Time").Type()
		}
	}
	return types.Typ[types.Invalid]
}

func (in *Interp) lookupType(path, name string) types.Type {
	for _, p := range in.m.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func (in *Interp) compileRe(p Val) (Val, Val) {
	s := asStr(p)
	if c, ok := s.isConst(); ok {
		if _, err := regexp.Compile(c); err != nil {
			return nil, in.newError("regexp")
		}
	} else if in.choose("err:regexp:"+key(p), 2) == 1 {
		return nil, in.newError("regexp")
	}
	o := in.newObj(VNil{}, nil, "regexp")
	o.extra = &reObj{s}
	return VPtr{obj: o}, nil
}

func (in *Interp) reMatch(re, subj Val, pos token.Pos) Val {
	p, ok := re.(VPtr)
	if !ok {
		if _, isNil := re.(VNil); isNil {
			in.crash(pos, "nil pointer dereference (nil regular expression)")
		}
		in.undecided(pos, "match of unknown regular expression")
	}
	r, ok := p.obj.extra.(*reObj)
	if !ok {
		in.undecided(pos, "match of unknown regular expression")
	}
	in.events = append(in.events, Event{kind: "match", args: []Val{r.src, subj}, pos: pos})
	if c, ok := r.src.isConst(); ok {
		if s, ok := str1(subj); ok {
			return cBool(regexp.MustCompile(c).MatchString(s))
		}
	}
	return cBool(in.choose("match:"+key(r.src)+"~"+key(subj), 2) == 1)
}

// ---------------------------------------------------------------------------
// fmt

// format renders a format string over abstract arguments.
func (in *Interp) format(f VStr, args []Val, pos token.Pos) VStr {
	out := VStr{}
	ai := 0
	for _, p := range f.parts {
		if p.atom != nil {
			// unknown text used as a format: verbs in it are not under control
			out = out.add(Part{atom: mkTerm(types.Typ[types.String], "asformat", p.atom)})
			continue
		}
		s := p.s
		for i := 0; i < len(s); {
			j := strings.IndexByte(s[i:], '%')
			if j < 0 {
				out = out.add(Part{s: s[i:]})
				break
			}
			out = out.add(Part{s: s[i : i+j]})
			i += j
			st := i
			i++
			width := ""
			for i < len(s) && strings.IndexByte("+-# 0123456789.*", s[i]) >= 0 {
				if s[i] == '*' {
					if ai < len(args) {
						if n, ok := in.intOf(unIface(args[ai])); ok {
							width += strconv.Itoa(n)
						} else {
							in.undecided(pos, "unknown width in format")
						}
						ai++
					}
				} else {
					width += string(s[i])
				}
				i++
			}
			if i >= len(s) {
				out = out.add(Part{s: "%!(NOVERB)"})
				break
			}
			v := s[i]
			i++
			_ = st
			if v == '%' {
				out = out.add(Part{s: "%"})
				continue
			}
			if ai >= len(args) {
				out = out.add(Part{s: "%!" + string(v) + "(MISSING)"})
				continue
			}
			a := args[ai]
			ai++
			out = out.concat(in.formatOne("%"+width+string(v), rune(v), a, pos))
		}
	}
	if ai < len(args) {
		out = out.add(Part{s: "%!(EXTRA)"})
	}
	return out
}

func unIface(v Val) Val {
	if i, ok := v.(VIface); ok {
		return i.v
	}
	return v
}

func (in *Interp) formatOne(spec string, verb rune, a Val, pos token.Pos) VStr {
	atom := func(op string, v Val) VStr { return atomStr(mkTerm(types.Typ[types.String], op, v)) }
	switch x := a.(type) {
	case VNil:
		if verb == 'v' {
			return cStr("<nil>")
		}
		if verb == 'T' {
			return cStr("<nil>")
		}
		return cStr("%!" + string(verb) + "(<nil>)")
	case *VTerm:
		return atom("fmt"+spec, x)
	case VIface:
		if verb == 'T' {
			if x.dyn == nil {
				return atom("fmt%T", x)
			}
			return cStr(types.TypeString(x.dyn, func(p *types.Package) string { return p.Name() }))
		}
		if x.dyn == nil {
			return atom("fmt"+spec, x)
		}
		if verb == 'v' || verb == 's' || verb == 'q' {
			// Error() and String() methods
			for _, m := range []string{"Error", "String"} {
				sel := in.m.prog.MethodSets.MethodSet(x.dyn).Lookup(nil, m)
				if sel == nil {
					continue
				}
				sg, ok := sel.Type().(*types.Signature)
				if !ok || sg.Params().Len() != 0 || sg.Results().Len() != 1 || !isString(sg.Results().At(0).Type()) {
					continue
				}
				f := in.m.prog.MethodValue(sel)
				if f == nil {
					continue
				}
				if isTime(x.dyn) {
					if t, ok := constTime(x.v); ok && (spec == "%v" || spec == "%s") {
						return cStr(t.String())
					}
					return atom("fmttime", x.v)
				}
				if _, isNil := x.v.(VNil); isNil {
					return cStr("<nil>") // fmt recovers nil receivers
				}
				r := in.callFn(f, []Val{x.v}, nil, pos)
				return in.formatStr(spec, verb, r[0])
			}
		}
		if isString(x.dyn) {
			return in.formatStr(spec, verb, x.v)
		}
		if c, ok := x.v.(VConst); ok {
			return cStr(fmt.Sprintf(spec, goConst(c, x.dyn)))
		}
		if lossless := spec == "%v" || spec == "%g" && isFloat(x.dyn) || spec == "%d" && isInteger(x.dyn); lossless && (isFloat(x.dyn) || isInteger(x.dyn)) {
			return atom("fmtnum", x.v)
		}
		return atom("fmt"+spec, x.v)
	}
	return atom("fmt"+spec, a)
}

func (in *Interp) formatStr(spec string, verb rune, v Val) VStr {
	s := asStr(v)
	if c, ok := s.isConst(); ok {
		return cStr(fmt.Sprintf(spec, c))
	}
	if spec == "%s" || spec == "%v" {
		return s
	}
	if spec == "%q" {
		return cStr("\"").concat(atomStr(mkTerm(types.Typ[types.String], "escaped", s))).add(Part{s: "\""})
	}
	return atomStr(mkTerm(types.Typ[types.String], "fmt"+spec, s))
}

func goConst(c VConst, t types.Type) interface{} {
	if c.c.Kind() == constant.Bool {
		return constant.BoolVal(c.c)
	}
	if t != nil && isFloat(t) {
		f, _ := constant.Float64Val(constant.ToFloat(c.c))
		if b := t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			return float32(f)
		}
		return f
	}
	n, _ := constant.Int64Val(constant.ToInt(c.c))
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return uint8(n)
		case types.Uint64, types.Uint, types.Uint32, types.Uint16:
			return uint64(n)
		case types.Int32:
			return int32(n)
		}
	}
	return n
}

// written is the text a Write method is given.
func (in *Interp) written(name string, a Val, pos token.Pos) VStr {
	switch {
	case strings.HasSuffix(name, "WriteString"):
		return asStr(a)
	case strings.HasSuffix(name, ".Write"):
		return asStr(in.convert(a, types.NewSlice(types.Typ[types.Byte]), tString, pos))
	}
	if n, ok := in.intOf(a); ok {
		if strings.HasSuffix(name, "WriteByte") {
			return cStr(string([]byte{byte(n)}))
		}
		return cStr(string(rune(n)))
	}
	return atomStr(mkTerm(types.Typ[types.String], "char", a))
}

// appenders are library functions that append what another function returns.
var appenders = map[string]string{"strconv.AppendQuote": "Quote", "strconv.AppendQuoteToASCII": "QuoteToASCII", "strconv.AppendInt": "FormatInt",
	"strconv.AppendFloat": "FormatFloat", "strconv.AppendUint": "FormatUint", "strconv.AppendBool": "FormatBool",
	"fmt.Appendf": "Sprintf", "fmt.Append": "Sprint", "fmt.Appendln": "Sprintln"}

func (in *Interp) appendForm(fn *ssa.Function, twin string, args []Val, pos token.Pos) ([]Val, bool) {
	f := fn.Pkg.Func(twin)
	if f == nil {
		return nil, false
	}
	r, ok := in.model(f, args[1:], pos)
	if !ok {
		r = in.callFn(f, args[1:], nil, pos)
	}
	if len(r) != 1 {
		return nil, false
	}
	return []Val{in.appendTo(args[0], r[0], fn.Signature.Results().At(0).Type(), pos)}, true
}
