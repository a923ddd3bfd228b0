package main

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// The C sources are analysed in clang's intermediate representation, read
// here from its textual form.

type cType struct {
	k      byte // 'i' int, 'd' double, 'f' float, 'p' pointer, 'v' void, 'a' array, 's' struct
	bits   int
	n      int64
	elem   *cType
	fields []*cType
	packed bool
	size   int64
	align  int64
	offs   []int64
}

func (t *cType) layout() {
	if t.size > 0 || t.k == 'v' {
		return
	}
	switch t.k {
	case 'i':
		t.size = int64((t.bits + 7) / 8)
		switch {
		case t.size > 4:
			t.size = 8
		case t.size == 3:
			t.size = 4
		}
		t.align = t.size
	case 'd', 'p':
		t.size, t.align = 8, 8
	case 'f':
		t.size, t.align = 4, 4
	case 'a':
		t.elem.layout()
		t.size, t.align = t.n*t.elem.size, t.elem.align
	case 's':
		var off int64
		t.align = 1
		for _, f := range t.fields {
			f.layout()
			al := f.align
			if t.packed {
				al = 1
			}
			if al == 0 {
				al = 1
			}
			off = (off + al - 1) / al * al
			t.offs = append(t.offs, off)
			off += f.size
			if al > t.align {
				t.align = al
			}
		}
		t.size = (off + t.align - 1) / t.align * t.align
	}
}

type cOperand struct {
	k    byte // 'r' register, 'c' constant value, 'g' global, 'x' constant expression, 'f' function
	reg  int
	val  CV
	glob string
	x    *cInstr
	typ  *cType
	agg  []cOperand // constant aggregates, in initialisers
	str  string
	zero bool
}

type cInstr struct {
	op    string
	pred  string
	res   int
	typ   *cType // result or element type
	from  *cType
	args  []cOperand
	dest  []int   // branch targets
	cases []int64 // of a switch
	name  string  // callee
	line  int
	dbg   string
}

type cBlock struct {
	name  string
	phis  []*cInstr
	instr []*cInstr
	preds map[int]int
	idx   int
}

type cFunc struct {
	name     string
	mod      *cUnit
	params   []int
	blocks   []*cBlock
	nreg     int
	ret      *cType
	internal bool
	ptypes   []*cType
	regName  []string
}

type cGlobal struct {
	name     string
	typ      *cType
	constant bool
	external bool
	internal bool
	init     *cOperand
	unit     *cUnit
}

type cUnit struct {
	file    string
	types   map[string]*cType
	globals map[string]*cGlobal
	funcs   map[string]*cFunc
	decls   map[string]bool
	lines   map[string]int
	pending []func() error
}

// cProgram is all C units of the package, linked by name.
type cProgram struct {
	dir    string
	units  []*cUnit
	macros map[string]map[string]string // per unit
}

func (p *cProgram) fn(name string) *cFunc {
	for _, u := range p.units {
		if f := u.funcs[name]; f != nil {
			return f
		}
	}
	return nil
}

// resolve finds the function a unit means by a name.
func (p *cProgram) resolve(u *cUnit, name string) *cFunc {
	if f := u.funcs[name]; f != nil {
		return f
	}
	for _, v := range p.units {
		if f := v.funcs[name]; f != nil && !f.internal {
			return f
		}
	}
	return nil
}

func (p *cProgram) global(u *cUnit, name string) *cGlobal {
	if g := u.globals[name]; g != nil && !g.external {
		return g
	}
	for _, v := range p.units {
		if g := v.globals[name]; g != nil && !g.external && !g.internal {
			return g
		}
	}
	return u.globals[name]
}

// loadC compiles every C file of a package directory to the intermediate
// representation and reads it.
func loadC(dir string) (*cProgram, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.c"))
	if len(files) == 0 {
		return nil, fmt.Errorf("no C files in %s", dir)
	}
	sort.Strings(files)
	tmp, err := os.MkdirTemp("", "verifc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	p := &cProgram{dir: dir, macros: map[string]map[string]string{}}
	for i, f := range files {
		raw := filepath.Join(tmp, fmt.Sprintf("%d.ll", i))
		opt := filepath.Join(tmp, fmt.Sprintf("%d.m.ll", i))
		cmd := exec.Command("clang", "-O0", "-g", "-w", "-fno-discard-value-names", "-fno-strict-aliasing", "-Xclang", "-disable-O0-optnone", "-U_FORTIFY_SOURCE", "-S", "-emit-llvm", "-I", dir, "-o", raw, f)
		if out, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("clang %s: %v: %s", filepath.Base(f), err, firstLine(string(out)))
		}
		tool := "opt"
		if _, err := exec.LookPath(tool); err != nil {
			tool = "opt-18"
		}
		if out, err := exec.Command(tool, "-S", "-passes=mem2reg", "-o", opt, raw).CombinedOutput(); err != nil {
			return nil, fmt.Errorf("opt %s: %v: %s", filepath.Base(f), err, firstLine(string(out)))
		}
		b, err := os.ReadFile(opt)
		if err != nil {
			return nil, err
		}
		u, err := parseUnit(filepath.Base(f), string(b))
		if err != nil {
			return nil, fmt.Errorf("%s: %v", filepath.Base(f), err)
		}
		p.units = append(p.units, u)
		out, err := exec.Command("clang", "-dM", "-E", "-w", "-I", dir, f).Output()
		if err == nil {
			m := map[string]string{}
			for _, l := range strings.Split(string(out), "\n") {
				w := strings.SplitN(l, " ", 3)
				if len(w) == 3 && w[0] == "#define" {
					m[w[1]] = strings.TrimSpace(w[2])
				}
			}
			p.macros[u.file] = m
		}
	}
	return p, nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// --- reading ---------------------------------------------------------------

type llLex struct {
	s   string
	pos int
	tok string
	err error
}

func (l *llLex) next() string {
	for l.pos < len(l.s) && (l.s[l.pos] == ' ' || l.s[l.pos] == '\t') {
		l.pos++
	}
	if l.pos >= len(l.s) {
		l.tok = ""
		return ""
	}
	st := l.pos
	c := l.s[st]
	word := func(b byte) bool {
		return b == '_' || b == '.' || b == '-' || b == '$' || b == '+' || b < 128 && (unicode.IsLetter(rune(b)) || unicode.IsDigit(rune(b)))
	}
	switch {
	case c == ';':
		l.pos = len(l.s)
		l.tok = ""
		return ""
	case (c == '%' || c == '@') && st+1 < len(l.s) && l.s[st+1] == '"':
		e := strings.IndexByte(l.s[st+2:], '"')
		l.pos = st + 3 + e
	case c == 'c' && st+1 < len(l.s) && l.s[st+1] == '"', c == '"':
		i := st + 1
		if c == 'c' {
			i++
		}
		for i < len(l.s) && l.s[i] != '"' {
			i++
		}
		l.pos = i + 1
	case c == '%' || c == '@' || c == '!' || c == '#':
		l.pos++
		for l.pos < len(l.s) && word(l.s[l.pos]) {
			l.pos++
		}
	case word(c):
		for l.pos < len(l.s) && word(l.s[l.pos]) {
			l.pos++
		}
		if strings.HasPrefix(l.s[l.pos:], "...") {
			break
		}
	default:
		l.pos++
	}
	l.tok = l.s[st:l.pos]
	return l.tok
}

func (l *llLex) peek() string {
	p, t := l.pos, l.tok
	r := l.next()
	l.pos, l.tok = p, t
	return r
}

func (l *llLex) expect(t string) {
	if l.next() != t && l.err == nil {
		l.err = fmt.Errorf("expected %q, found %q in %q", t, l.tok, l.s)
	}
}

func (l *llLex) accept(t string) bool {
	if l.peek() == t {
		l.next()
		return true
	}
	return false
}

func (l *llLex) bad(format string, a ...interface{}) {
	if l.err == nil {
		l.err = fmt.Errorf(format+" in %q", append(a, l.s)...)
	}
}

var tI1, tI8, tI16, tI32, tI64 = &cType{k: 'i', bits: 1}, &cType{k: 'i', bits: 8}, &cType{k: 'i', bits: 16}, &cType{k: 'i', bits: 32}, &cType{k: 'i', bits: 64}
var tDbl, tPtr, tVoid = &cType{k: 'd'}, &cType{k: 'p'}, &cType{k: 'v'}

func init() {
	for _, t := range []*cType{tI1, tI8, tI16, tI32, tI64, tDbl, tPtr} {
		t.layout()
	}
}

func (u *cUnit) typ(l *llLex) *cType {
	t := l.next()
	switch t {
	case "i1":
		return tI1
	case "i8":
		return tI8
	case "i16":
		return tI16
	case "i32":
		return tI32
	case "i64":
		return tI64
	case "double":
		return tDbl
	case "float":
		return &cType{k: 'f'}
	case "ptr":
		return tPtr
	case "void":
		return tVoid
	case "[":
		n, _ := strconv.ParseInt(l.next(), 10, 64)
		l.expect("x")
		e := u.typ(l)
		l.expect("]")
		return &cType{k: 'a', n: n, elem: e}
	case "{":
		s := &cType{k: 's'}
		if l.accept("}") {
			return s
		}
		for {
			s.fields = append(s.fields, u.typ(l))
			if !l.accept(",") {
				break
			}
		}
		l.expect("}")
		return s
	case "metadata", "label", "opaque":
		return tVoid
	}
	if strings.HasPrefix(t, "%") {
		if n := u.types[t]; n != nil {
			return n
		}
		n := &cType{k: 's'}
		u.types[t] = n
		return n
	}
	if strings.HasPrefix(t, "i") {
		if n, err := strconv.Atoi(t[1:]); err == nil {
			return &cType{k: 'i', bits: n}
		}
	}
	l.bad("unknown type %q", t)
	return tVoid
}

func unescapeLL(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+2 < len(s) {
			if s[i+1] == '\\' {
				b.WriteByte('\\')
				i++
				continue
			}
			n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err == nil {
				b.WriteByte(byte(n))
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// value reads an operand of a known type.
func (u *cUnit) value(l *llLex, t *cType, regs func(string) int) cOperand {
	tok := l.next()
	switch {
	case tok == "null":
		return cOperand{k: 'c', typ: t, val: CV{k: cvPtr}}
	case tok == "undef" || tok == "poison":
		return cOperand{k: 'c', typ: t, val: CV{k: cvUndef}}
	case tok == "zeroinitializer":
		return cOperand{k: 'c', typ: t, zero: true}
	case tok == "true":
		return cOperand{k: 'c', typ: t, val: cvI(1, 1)}
	case tok == "false":
		return cOperand{k: 'c', typ: t, val: cvI(1, 0)}
	case strings.HasPrefix(tok, "%"):
		return cOperand{k: 'r', reg: regs(tok), typ: t}
	case strings.HasPrefix(tok, "@"):
		return cOperand{k: 'g', glob: strings.Trim(tok[1:], "\""), typ: t}
	case strings.HasPrefix(tok, "c\""):
		return cOperand{k: 'c', typ: t, str: unescapeLL(tok[2 : len(tok)-1]), agg: []cOperand{}}
	case tok == "[" || tok == "{":
		end := "]"
		if tok == "{" {
			end = "}"
		}
		o := cOperand{k: 'c', typ: t, agg: []cOperand{}}
		if l.accept(end) {
			return o
		}
		for {
			et := u.typ(l)
			o.agg = append(o.agg, u.value(l, et, regs))
			if !l.accept(",") {
				break
			}
		}
		l.expect(end)
		return o
	case tok == "getelementptr":
		x := &cInstr{op: "getelementptr", typ: tPtr}
		for l.peek() == "inbounds" || l.peek() == "nuw" || l.peek() == "nusw" {
			l.next()
		}
		l.expect("(")
		x.from = u.typ(l)
		for l.accept(",") {
			at := u.typ(l)
			x.args = append(x.args, u.value(l, at, regs))
		}
		l.expect(")")
		return cOperand{k: 'x', x: x, typ: t}
	case tok == "ptrtoint" || tok == "inttoptr" || tok == "bitcast" || tok == "trunc":
		x := &cInstr{op: tok}
		l.expect("(")
		x.from = u.typ(l)
		x.args = []cOperand{u.value(l, x.from, regs)}
		l.expect("to")
		x.typ = u.typ(l)
		l.expect(")")
		return cOperand{k: 'x', x: x, typ: t}
	}
	switch t.k {
	case 'i':
		n, err := strconv.ParseInt(tok, 10, 64)
		if err != nil {
			l.bad("integer %q", tok)
		}
		return cOperand{k: 'c', typ: t, val: cvI(t.bits, n)}
	case 'd', 'f':
		var f float64
		if strings.HasPrefix(tok, "0x") {
			n, _ := strconv.ParseUint(tok[2:], 16, 64)
			f = math.Float64frombits(n)
		} else {
			// the lexer splits at the sign of an exponent only if it is no word
			f, _ = strconv.ParseFloat(tok, 64)
		}
		return cOperand{k: 'c', typ: t, val: CV{k: cvFlt, f: &cFlt{c: f}}}
	}
	l.bad("operand %q", tok)
	return cOperand{}
}

var attrWords = map[string]bool{"noundef": true, "nocapture": true, "readonly": true, "writeonly": true, "noalias": true, "immarg": true, "signext": true, "zeroext": true, "nonnull": true, "returned": true, "dso_local": true, "local_unnamed_addr": true, "unnamed_addr": true, "private": true, "internal": true, "external": true, "common": true, "hidden": true, "weak": true, "linkonce_odr": true, "tail": true, "notail": true, "musttail": true, "nsw": true, "nuw": true, "exact": true, "inbounds": true, "volatile": true, "fast": true, "contract": true, "nneg": true, "disjoint": true, "noreturn": true, "nounwind": true, "thread_local": true, "fastcc": true, "nofpclass": true}

func (l *llLex) attrs() map[string]bool {
	m := map[string]bool{}
	for {
		t := l.peek()
		if attrWords[t] {
			m[t] = true
			l.next()
			continue
		}
		if t == "align" || t == "dereferenceable" || t == "allocsize" {
			l.next()
			if l.accept("(") {
				for l.next() != ")" && l.tok != "" {
				}
			} else {
				l.next()
			}
			continue
		}
		return m
	}
}

func parseUnit(file, text string) (*cUnit, error) {
	u := &cUnit{file: file, types: map[string]*cType{}, globals: map[string]*cGlobal{}, funcs: map[string]*cFunc{}, decls: map[string]bool{}, lines: map[string]int{}}
	lines := strings.Split(text, "\n")
	for i := 0; i < len(lines); i++ {
		s := lines[i]
		switch {
		case strings.HasPrefix(s, "%"):
			l := &llLex{s: s}
			name := l.next()
			l.expect("=")
			l.expect("type")
			if l.peek() == "opaque" {
				u.types[name] = &cType{k: 's'}
				continue
			}
			packed := false
			if l.accept("<") {
				packed = true
			}
			t := u.typ(l)
			n := u.types[name]
			if n == nil {
				n = &cType{k: 's'}
				u.types[name] = n
			}
			n.fields, n.packed = t.fields, packed
			if l.err != nil {
				return nil, l.err
			}
		case strings.HasPrefix(s, "@"):
			l := &llLex{s: s}
			name := strings.Trim(l.next()[1:], "\"")
			l.expect("=")
			at := l.attrs()
			g := &cGlobal{name: name, unit: u, external: at["external"], internal: at["internal"] || at["private"]}
			switch l.next() {
			case "global":
			case "constant":
				g.constant = true
			default:
				return nil, fmt.Errorf("global %q", s)
			}
			g.typ = u.typ(l)
			if !g.external {
				v := u.value(l, g.typ, nil)
				g.init = &v
			}
			if l.err != nil {
				return nil, l.err
			}
			u.globals[name] = g
		case strings.HasPrefix(s, "declare"):
			if j := strings.IndexByte(s, '@'); j >= 0 {
				k := strings.IndexByte(s[j:], '(')
				u.decls[s[j+1:j+k]] = true
			}
		case strings.HasPrefix(s, "define"):
			j := i + 1
			for j < len(lines) && lines[j] != "}" {
				j++
			}
			head, body := s, lines[i+1:j]
			if err := u.function(head, body); err != nil {
				return nil, err
			}
			i = j
		case strings.HasPrefix(s, "!") && strings.Contains(s, "DILocation(line: "):
			k := strings.IndexByte(s, ' ')
			r := s[strings.Index(s, "line: ")+6:]
			n := 0
			for len(r) > 0 && r[0] >= '0' && r[0] <= '9' {
				n = n*10 + int(r[0]-'0')
				r = r[1:]
			}
			u.lines[s[:k]] = n
		}
	}
	for _, f := range u.funcs {
		for _, b := range f.blocks {
			for _, in := range b.instr {
				if in.dbg != "" {
					in.line = u.lines[in.dbg]
				}
			}
		}
	}
	for _, t := range u.types {
		t.layout()
	}
	return u, nil
}

func (u *cUnit) function(head string, body []string) error {
	l := &llLex{s: head}
	l.next()
	at := l.attrs()
	f := &cFunc{mod: u, internal: at["internal"]}
	f.ret = u.typ(l)
	f.name = strings.Trim(l.next()[1:], "\"")
	regs := map[string]int{}
	reg := func(n string) int {
		if r, ok := regs[n]; ok {
			return r
		}
		r := len(regs)
		regs[n] = r
		f.regName = append(f.regName, n)
		return r
	}
	l.expect("(")
	if !l.accept(")") {
		for {
			if l.accept("...") || l.accept(".") {
				break
			}
			t := u.typ(l)
			l.attrs()
			f.ptypes = append(f.ptypes, t)
			f.params = append(f.params, reg(l.next()))
			if !l.accept(",") {
				break
			}
		}
	}
	if l.err != nil {
		return l.err
	}
	blocks := map[string]int{}
	// names of blocks first
	names := []string{}
	for _, s := range body {
		if s == "" || s[0] == ' ' || s[0] == ';' {
			continue
		}
		k := strings.IndexByte(s, ':')
		if k < 0 {
			return fmt.Errorf("line %q of %s", s, f.name)
		}
		names = append(names, strings.Trim(s[:k], "\""))
	}
	if len(names) == 0 || body[0] == "" || body[0][0] == ' ' {
		names = append([]string{fmt.Sprint(len(f.params))}, names...)
	}
	for i, n := range names {
		blocks[n] = i
		f.blocks = append(f.blocks, &cBlock{name: n, idx: i})
	}
	blk := func(n string) int {
		n = strings.Trim(strings.TrimPrefix(n, "%"), "\"")
		b, ok := blocks[n]
		if !ok {
			l.err = fmt.Errorf("no block %q in %s", n, f.name)
		}
		return b
	}
	cur := 0
	first := true
	for i := 0; i < len(body); i++ {
		s := body[i]
		if s == "" || s[0] == ';' {
			continue
		}
		if s[0] != ' ' {
			if !first || cur != 0 || names[0] != strings.Trim(s[:strings.IndexByte(s, ':')], "\"") {
				cur = blocks[strings.Trim(s[:strings.IndexByte(s, ':')], "\"")]
			}
			first = false
			continue
		}
		first = false
		if strings.Contains(s, "@llvm.dbg.") || strings.Contains(s, "@llvm.lifetime") {
			continue
		}
		dbg := ""
		if k := strings.Index(s, ", !dbg "); k >= 0 {
			dbg = strings.Fields(s[k+7:])[0]
			dbg = strings.TrimSuffix(dbg, ",")
			s = s[:k]
		}
		if k := strings.Index(s, ", !"); k >= 0 && !strings.Contains(s, "c\"") {
			s = s[:k]
		}
		if strings.HasPrefix(strings.TrimSpace(s), "switch") {
			for !strings.HasSuffix(strings.TrimSpace(strings.SplitN(body[i], ", !", 2)[0]), "]") {
				i++
				t := body[i]
				if k := strings.Index(t, ", !dbg "); k >= 0 {
					dbg = strings.Fields(t[k+7:])[0]
					t = t[:k]
				}
				s += " " + t
			}
		}
		in, err := u.instr(s, reg, blk)
		if err != nil {
			return fmt.Errorf("%s: %v", f.name, err)
		}
		in.dbg = dbg
		b := f.blocks[cur]
		if in.op == "phi" {
			b.phis = append(b.phis, in)
		} else {
			b.instr = append(b.instr, in)
		}
	}
	f.nreg = len(regs)
	u.funcs[f.name] = f
	return l.err
}

func (u *cUnit) instr(s string, reg func(string) int, blk func(string) int) (*cInstr, error) {
	l := &llLex{s: s}
	in := &cInstr{res: -1}
	t := l.next()
	if strings.HasPrefix(t, "%") {
		in.res = reg(t)
		l.expect("=")
		t = l.next()
	}
	for t == "tail" || t == "notail" || t == "musttail" {
		t = l.next()
	}
	in.op = t
	switch t {
	case "load":
		l.attrs()
		in.typ = u.typ(l)
		l.expect(",")
		u.typ(l)
		in.args = []cOperand{u.value(l, tPtr, reg)}
	case "store":
		l.attrs()
		in.typ = u.typ(l)
		v := u.value(l, in.typ, reg)
		l.expect(",")
		u.typ(l)
		in.args = []cOperand{v, u.value(l, tPtr, reg)}
	case "alloca":
		in.typ = u.typ(l)
		if l.accept(",") {
			if l.peek() != "align" {
				ct := u.typ(l)
				in.args = []cOperand{u.value(l, ct, reg)}
			}
		}
	case "br":
		if l.peek() == "label" {
			l.next()
			in.dest = []int{blk(l.next())}
			break
		}
		ct := u.typ(l)
		in.args = []cOperand{u.value(l, ct, reg)}
		l.expect(",")
		l.expect("label")
		a := blk(l.next())
		l.expect(",")
		l.expect("label")
		in.dest = []int{a, blk(l.next())}
	case "switch":
		in.typ = u.typ(l)
		in.args = []cOperand{u.value(l, in.typ, reg)}
		l.expect(",")
		l.expect("label")
		in.dest = []int{blk(l.next())}
		l.expect("[")
		for !l.accept("]") {
			u.typ(l)
			n, err := strconv.ParseInt(l.next(), 10, 64)
			if err != nil {
				return nil, fmt.Errorf("switch %q", s)
			}
			l.expect(",")
			l.expect("label")
			in.cases = append(in.cases, n)
			in.dest = append(in.dest, blk(l.next()))
			if l.err != nil {
				return nil, l.err
			}
		}
	case "ret":
		in.typ = u.typ(l)
		if in.typ.k != 'v' {
			in.args = []cOperand{u.value(l, in.typ, reg)}
		}
	case "unreachable":
	case "call":
		l.attrs()
		in.typ = u.typ(l)
		if l.peek() == "(" { // function type
			d := 0
			for {
				x := l.next()
				if x == "(" {
					d++
				}
				if x == ")" {
					d--
					if d == 0 {
						break
					}
				}
				if x == "" {
					return nil, fmt.Errorf("call %q", s)
				}
			}
		}
		callee := l.next()
		if !strings.HasPrefix(callee, "@") {
			in.name = "" // through a pointer
		} else {
			in.name = strings.Trim(callee[1:], "\"")
		}
		l.expect("(")
		if !l.accept(")") {
			for {
				at := u.typ(l)
				l.attrs()
				in.args = append(in.args, u.value(l, at, reg))
				if !l.accept(",") {
					break
				}
			}
		}
	case "icmp", "fcmp":
		l.attrs()
		in.pred = l.next()
		in.from = u.typ(l)
		a := u.value(l, in.from, reg)
		l.expect(",")
		in.args = []cOperand{a, u.value(l, in.from, reg)}
		in.typ = tI1
	case "phi":
		in.typ = u.typ(l)
		for {
			l.expect("[")
			in.args = append(in.args, u.value(l, in.typ, reg))
			l.expect(",")
			in.dest = append(in.dest, blk(l.next()))
			l.expect("]")
			if !l.accept(",") {
				break
			}
		}
	case "select":
		ct := u.typ(l)
		c := u.value(l, ct, reg)
		l.expect(",")
		in.typ = u.typ(l)
		a := u.value(l, in.typ, reg)
		l.expect(",")
		u.typ(l)
		in.args = []cOperand{c, a, u.value(l, in.typ, reg)}
	case "getelementptr":
		l.attrs()
		in.from = u.typ(l)
		for l.accept(",") {
			at := u.typ(l)
			in.args = append(in.args, u.value(l, at, reg))
		}
		in.typ = tPtr
	case "sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc":
		l.attrs()
		in.from = u.typ(l)
		in.args = []cOperand{u.value(l, in.from, reg)}
		l.expect("to")
		in.typ = u.typ(l)
	case "fneg", "freeze":
		l.attrs()
		in.typ = u.typ(l)
		in.args = []cOperand{u.value(l, in.typ, reg)}
	case "add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "ashr", "lshr", "fadd", "fsub", "fmul", "fdiv", "frem":
		l.attrs()
		in.typ = u.typ(l)
		a := u.value(l, in.typ, reg)
		l.expect(",")
		in.args = []cOperand{a, u.value(l, in.typ, reg)}
	default:
		return nil, fmt.Errorf("unknown instruction %q", s)
	}
	return in, l.err
}
