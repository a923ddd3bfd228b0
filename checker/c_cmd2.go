package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strings"
	"unicode"
)

// C30: columns of the example data; C31: the tsl_parser commands.

var reCreate = regexp.MustCompile(`(?is)create\s+table\s+(?:if\s+not\s+exists\s+)?(\w+)\s*\(([^)]*)\)`)
var reInsert = regexp.MustCompile(`(?is)insert\s+into\s+(\w+)\s*\(([^)]*)\)\s*values\s*\(([^)]*)\)`)

var bookFields = []string{"Title", "Author", "Spec.Pages", "Spec.Rating", "OnLoan"}

// fieldOf reads a field of a book by its path.
func bookField(v Val, path string) (Val, bool) {
	for _, n := range strings.Split(path, ".") {
		if i, ok := v.(VIface); ok {
			v = i.v
		}
		if p, ok := v.(VPtr); ok && len(p.path) == 0 {
			v = p.obj.v
		}
		s, ok := v.(VStruct)
		if !ok {
			return nil, false
		}
		st := s.typ.Underlying().(*types.Struct)
		v = nil
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				v = s.f[i]
			}
		}
		if v == nil {
			return nil, false
		}
	}
	return v, true
}

// plainName brings column, field and document names to one spelling.
func plainName(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		s = s[i+1:]
	}
	return strings.ToLower(strings.NewReplacer("_", "", "-", "").Replace(s))
}

func fieldNamed(col string) string {
	for _, f := range bookFields {
		if plainName(f) == plainName(col) {
			return f
		}
	}
	return ""
}

func names(list string) []string {
	var l []string
	for _, x := range strings.Split(list, ",") {
		if f := strings.Fields(x); len(f) > 0 {
			l = append(l, f[0])
		} else {
			l = append(l, "")
		}
	}
	return l
}

// gormColumn is the column name that gorm gives a field.
func gormColumn(name, tag string) string {
	for _, p := range strings.Split(reflect.StructTag(tag).Get("gorm"), ";") {
		if k, v, ok := strings.Cut(p, ":"); ok && strings.EqualFold(strings.TrimSpace(k), "column") {
			return v
		}
	}
	var b strings.Builder
	r := []rune(name)
	for i, c := range r {
		if unicode.IsUpper(c) && i > 0 && (unicode.IsLower(r[i-1]) || i+1 < len(r) && unicode.IsLower(r[i+1])) {
			b.WriteByte('_')
		}
		b.WriteRune(unicode.ToLower(c))
	}
	return b.String()
}

// docNames lists the document keys of a type: key -> path of Go fields.
func docNames(t types.Type, prefix, path string, out map[string]string) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("bson")
		n, opts, _ := strings.Cut(tag, ",")
		if n == "-" {
			continue
		}
		if n == "" {
			n = strings.ToLower(f.Name())
		}
		if _, isStruct := f.Type().Underlying().(*types.Struct); isStruct && !scalarStruct(f.Type()) {
			p := prefix + n + "."
			if strings.Contains(opts, "inline") {
				p = prefix
			}
			docNames(f.Type(), p, path+f.Name()+".", out)
			continue
		}
		out[prefix+n] = path + f.Name()
	}
}

// storage is what a command's data looks like in its database.
type storage struct {
	r       *cmdRun
	in      *Interp
	books   []Val
	columns []string          // of the table, in order
	fieldAt map[string]string // column or document key -> field of the book
	targets map[string]string // accepted name -> column or document key
	stored  int
	prep    map[string]string // prepared statement -> text
	rows    int
	bad     string
}

func (s *storage) complain(format string, a ...interface{}) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(format, a...)
	}
}

func (s *storage) book(i int) Val {
	if i < len(s.books) {
		return s.books[i]
	}
	s.complain("more records are stored than there are books")
	return nil
}

// put compares one stored value with the book it belongs to.
func (s *storage) put(i int, col string, v Val) {
	b := s.book(i)
	if b == nil {
		return
	}
	f := fieldNamed(col)
	if f == "" {
		return
	}
	want, ok := bookField(b, f)
	if !ok {
		return
	}
	if x, ok := v.(VIface); ok {
		v = x.v
	}
	if key(v) != key(want) {
		s.complain("book %d is stored with %s in column %s instead of its %s %s", i, key(v), col, f, key(want))
	}
}

func (s *storage) row(r *cmdRun, l libCall) {
	in := s.in
	// statements
	for _, a := range l.args {
		t, ok := str1(unIface(a))
		if !ok {
			continue
		}
		if m := reCreate.FindStringSubmatch(t); m != nil {
			s.columns = nil
			for _, c := range names(m[2]) {
				s.columns = append(s.columns, c)
				if f := fieldNamed(c); f != "" {
					s.fieldAt[c] = f
				}
			}
		}
		if reInsert.MatchString(t) {
			if strings.HasPrefix(l.name, "Prepare") {
				s.prep[key(l.res[0])] = t
			} else {
				s.insert(t, l)
			}
		}
	}
	if len(l.args) > 0 {
		if t, ok := s.prep[key(l.args[0])]; ok && strings.HasPrefix(l.name, "Exec") {
			s.insert(t, l)
		}
	}
	switch l.name {
	case "Scan":
		s.scan(l)
	case "Create":
		if p, ok := unIface(l.args[1]).(VPtr); ok {
			st := p.obj.typ
			if x, ok := p.obj.v.(VStruct); ok {
				st = x.typ
				for _, f := range bookFields {
					base := f[strings.LastIndexByte(f, '.')+1:]
					if v, ok := bookField(x, base); ok {
						s.put(s.stored, f, v)
					} else if _, has := bookField(s.book(s.stored), f); has && s.has(f) {
						s.complain("book %d is stored without its %s", s.stored, f)
					}
				}
			}
			_ = st
			s.stored++
		}
	case "AutoMigrate", "Model", "CreateTable":
		for _, a := range l.args[1:] {
			for _, e := range flatten(in, a) {
				if i, ok := e.(VIface); ok && i.dyn != nil {
					s.table(i.dyn)
				}
			}
		}
	case "ScanRows", "Decode":
		if p, ok := unIface(l.args[len(l.args)-1]).(VPtr); ok {
			s.fill(p, l)
		}
	case "InsertMany", "InsertOne":
		for _, a := range l.args[2:] {
			for _, d := range flatten(in, a) {
				i, ok := d.(VIface)
				if !ok || i.dyn == nil {
					continue
				}
				if _, isDoc := i.dyn.Underlying().(*types.Struct); !isDoc {
					continue
				}
				for k, path := range docMap(i.dyn) {
					if f := fieldNamed(path); f != "" {
						s.fieldAt[k] = f
					}
				}
				for _, f := range bookFields {
					if v, ok := bookField(i.v, f); ok {
						s.put(s.stored, f, v)
					}
				}
				s.stored++
			}
		}
	}
}

func docMap(t types.Type) map[string]string {
	m := map[string]string{}
	docNames(t, "", "", m)
	return m
}

// has tells whether the command's users can name the field.
func (s *storage) has(f string) bool {
	for _, x := range s.r.c.names {
		if x == f {
			return true
		}
	}
	return false
}

func flatten(in *Interp, a Val) []Val {
	if sl, ok := a.(VSlice); ok {
		e, _ := in.elems(sl, token.NoPos)
		return e
	}
	return []Val{a}
}

// table notes the columns gorm makes of a struct.
func (s *storage) table(t types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Anonymous() {
			s.table(f.Type())
			continue
		}
		c := gormColumn(f.Name(), st.Tag(i))
		s.fieldAt[c] = fieldNamed(f.Name())
	}
}

func (s *storage) insert(text string, l libCall) {
	m := reInsert.FindStringSubmatch(text)
	cols, marks := names(m[2]), names(m[3])
	var vals []Val
	if n := len(l.args); n > 0 {
		vals = flatten(s.in, l.args[n-1])
	}
	k := 0
	for i, c := range cols {
		if i >= len(marks) || marks[i] != "?" {
			s.complain("insert statement with %d columns and values %s", len(cols), m[3])
			return
		}
		if k >= len(vals) {
			s.complain("insert statement with fewer values than columns")
			return
		}
		if s.columns != nil && !hasName(s.columns, c) {
			s.complain("insert into column %s, which the table does not have", c)
		}
		s.put(s.stored, c, vals[k])
		k++
	}
	if k != len(vals) {
		s.complain("insert statement with more values than columns")
	}
	for _, f := range bookFields {
		in := false
		for _, c := range cols {
			in = in || fieldNamed(c) == f
		}
		if !in && s.has(f) {
			s.complain("books are stored without their %s", f)
		}
	}
	s.stored++
}

func hasName(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (s *storage) colVal(col string, t types.Type) Val {
	x := mkTerm(t, fmt.Sprintf("col:%s#%d", col, s.rows-1))
	return termOrStr(x)
}

// scan gives the row's values to the variables of a Scan call.
func (s *storage) scan(l libCall) {
	s.rows = s.r.rows
	// the columns of the query
	cols := s.columns
	k := fullKey(s.in, l.args[0], map[*Obj]bool{})
	if i := strings.Index(k, ".Select#"); i >= 0 || strings.Contains(k, "squirrel.Select#") {
		for _, c := range s.r.calls {
			if c.name != "Select" && c.name != "Columns" {
				continue
			}
			var sel []string
			for _, a := range c.args {
				for _, e := range flatten(s.in, a) {
					if t, ok := str1(e); ok {
						sel = append(sel, names(t)...)
					}
				}
			}
			if len(sel) > 0 && !(len(sel) == 1 && sel[0] == "*") {
				cols = sel
			}
		}
	}
	vars := flatten(s.in, l.args[len(l.args)-1])
	if len(vars) != len(cols) {
		s.complain("a row with %d columns (%s) is read into %d variables", len(cols), strings.Join(cols, ", "), len(vars))
		return
	}
	for i, v := range vars {
		x, ok := v.(VIface)
		if !ok || x.dyn == nil {
			s.in.undecided(l.pos, "column read into %s", key(v))
		}
		s.in.store(x.v, s.colVal(cols[i], x.dyn.Underlying().(*types.Pointer).Elem()), l.pos)
	}
}

// fill gives the row's values to a whole struct.
func (s *storage) fill(p VPtr, l libCall) {
	s.rows = s.r.rows
	v := s.in.load2(p)
	st, ok := v.(VStruct)
	if !ok {
		s.in.undecided(l.pos, "row read into %s", key(v))
	}
	if l.name == "Decode" {
		for k, path := range docMap(st.typ) {
			v = setField(s, v.(VStruct), path, k)
		}
	} else {
		st = copyVal(st).(VStruct)
		t := st.typ.Underlying().(*types.Struct)
		for i := range st.f {
			if f := t.Field(i); !f.Anonymous() {
				st.f[i] = s.colVal(gormColumn(f.Name(), t.Tag(i)), f.Type())
			}
		}
		v = st
	}
	s.in.store(p, v, l.pos)
}

func setField(s *storage, v VStruct, path, col string) VStruct {
	v = copyVal(v).(VStruct)
	n, rest, nested := strings.Cut(path, ".")
	t := v.typ.Underlying().(*types.Struct)
	for i := range v.f {
		if t.Field(i).Name() != n {
			continue
		}
		if sub, ok := v.f[i].(VStruct); ok && nested {
			v.f[i] = setField(s, sub, rest, col)
		} else {
			v.f[i] = s.colVal(col, t.Field(i).Type())
		}
	}
	return v
}

func newStorage(r *cmdRun, m *module) *storage {
	s := &storage{r: r, in: r.in, fieldAt: map[string]string{}, targets: map[string]string{}, prep: map[string]string{}}
	if p := m.byDir["cmd/model"]; p != nil && p.Var("Books") != nil {
		s.books, _ = r.in.elems(r.in.global(p.Var("Books")).v, token.NoPos)
	}
	if len(s.books) == 0 {
		r.in.undecided(token.NoPos, "the example books are not found")
	}
	r.flags["p"] = cBool(true)
	r.onRow = s.row
	r.probe = func(r *cmdRun, f Val) {
		for n := range r.c.names {
			res := r.in.apply1(f, []Val{cStr(n)}, token.NoPos)
			if t, ok := str1(res[0]); ok {
				if _, isNil := res[1].(VNil); isNil {
					s.targets[n] = t
				}
			}
		}
	}
	return s
}

// shownBooks lists the books a run delivers.
func (s *storage) shownBooks(e cmdEnd) []Val {
	if s.r.c.kind != "graphql" {
		return s.r.forms
	}
	if len(e.res) == 0 {
		return nil
	}
	v := unIface(e.res[0])
	if _, isNil := v.(VNil); isNil {
		return nil
	}
	l, ok := s.in.elems(v, token.NoPos)
	if !ok {
		s.in.undecided(token.NoPos, "the resolver returns %s", key(v))
	}
	return l
}

func judgeStorage(s *storage, e cmdEnd, fail func(string, ...interface{})) bool {
	r := s.r
	switch {
	case e.crash != nil:
		fail("may crash: %s in %s (%s)", e.crash.what, e.crash.fn, r.in.position(e.crash.pos))
		return false
	case s.bad != "":
		fail("%s", s.bad)
		return false
	case r.failed != "" || r.libErr != "" || e.failedEnd() || heldError(s.in):
		return false
	}
	if s.stored != len(s.books) {
		fail("%d of %d books are stored", s.stored, len(s.books))
		return false
	}
	for n, f := range r.c.names {
		t, ok := s.targets[n]
		if !ok {
			fail("the column name %s is not accepted", n)
			return false
		}
		if s.fieldAt[t] != f {
			fail("the column name %s is looked up as %q, which is not where the data keep the %s (columns: %s)", n, t, f, strings.Join(sortedCols(s.fieldAt), ", "))
			return false
		}
	}
	l := s.shownBooks(e)
	if len(l) != r.rows {
		fail("%d rows are found and %d are shown", r.rows, len(l))
		return false
	}
	for i, b := range l {
		for col, f := range s.fieldAt {
			if f == "" || !s.has(f) {
				continue
			}
			v, ok := bookField(b, f)
			if !ok {
				fail("the %s of a row is not shown", f)
				return false
			}
			if want := fmt.Sprintf("col:%s#%d", col, i); key(v) != want {
				fail("row %d shows %s as its %s", i, key(v), f)
				return false
			}
		}
	}
	if r.c.kind != "graphql" && !shownForms(r, l, fail) {
		return false
	}
	return r.rows > 1
}

// heldError reports whether a library object holds an error of its own.
func heldError(in *Interp) bool {
	for k, v := range in.facts {
		if v == 1 && strings.HasPrefix(k, "err:*") && strings.HasSuffix(k, ".Error") {
			return true
		}
	}
	return false
}

func sortedCols(m map[string]string) []string {
	x := map[string]bool{}
	for k, v := range m {
		if v != "" {
			x[k] = true
		}
	}
	return sortedKeys(x)
}

// shownForms requires every prepared output text to be printed once, in order.
func shownForms(r *cmdRun, forms []Val, fail func(string, ...interface{})) bool {
	out := key(r.in.printed("stdout"))
	at := 0
	for _, f := range forms {
		k := "(" + key(f) + ")"
		i := strings.Index(out[at:], k)
		if i < 0 {
			fail("a form of the result is not printed")
			return false
		}
		at += i + len(k)
	}
	return true
}

func init() {
	register("C30", "abstract interpretation of the SSA of every data command from main: the table or document layout is read off the statements, types and tags, every stored value and every value read back is followed to its column and to the printed record", func(c *Check) error {
		c.assume = append(c.assume, "database/sql, gorm and the Mongo driver store and return values under the column and document names their documentation gives", "json, yaml and prettyjson write a value's fields faithfully")
		var jobs []func()
		for _, ver := range []string{"v4", "v5", "v6"} {
			m, err := loadModule(ver, "./cmd/...")
			if err != nil {
				return err
			}
			for _, cmd := range commands() {
				cmd := cmd
				if cmd.ver != ver || cmd.kind == "parser" {
					continue
				}
				where := cmd.ver + "/" + cmd.dir
				if p := m.byDir[cmd.dir]; p == nil || p.Func("main") == nil {
					c.fail("command", where, "has no main function")
					continue
				}
				c.scope = append(c.scope, where)
				if cmd.kind == "mem" {
					jobs = append(jobs, memJobs(c, m, cmd)...)
					continue
				}
				jobs = append(jobs, func() {
					good := false
					c.explore(m, "columns", where, func(in *Interp, fail func(string, ...interface{})) {
						r := startCmd(in, m, cmd)
						s := newStorage(r, m)
						e := r.run(m)
						if judgeStorage(s, e, fail) {
							good = true
						}
					})
					if !good {
						c.fail("columns", where, "no analysed run delivers a row")
					}
				})
			}
		}
		parallel(jobs)
		c.need("columns", 8)
		c.need("records", 890)
		c.need("unknown form", 3)
		return nil
	})
	register("C31", "abstract interpretation of the SSA of the tsl_parser commands from main for every output form, with every step failing or succeeding; what reaches the standard output is compared with the parsed tree", func(c *Check) error {
		c.assume = append(c.assume, "the JSON, YAML, drawing and SQL forms of a tree are decided by C14-C18 and C24")
		var jobs []func()
		for _, cmd := range commands() {
			cmd := cmd
			if cmd.kind != "parser" {
				continue
			}
			m, err := loadModule(cmd.ver, "./cmd/...")
			if err != nil {
				return err
			}
			where := cmd.ver + "/" + cmd.dir
			if p := m.byDir[cmd.dir]; p == nil || p.Func("main") == nil {
				c.fail("command", where, "has no main function")
				continue
			}
			c.scope = append(c.scope, where)
			forms := []string{"json", "default", "yaml", "dot", "sql", ""}
			if cmd.ver != "v6" {
				forms = append(forms[:5], "prettyjson", "")
			} else {
				forms = append(forms, "xml")
			}
			for _, f := range forms {
				f := f
				jobs = append(jobs, func() { parserForm(c, m, cmd, where, f) })
			}
		}
		parallel(jobs)
		c.need("form", 19)
		c.need("unknown form", 1)
		return nil
	})
}

// memJobs decides the in-memory commands: which records are evaluated, what
// each evaluation sees and which records are printed.
func memJobs(c *Check, m *module, cmd command) []func() {
	where := cmd.ver + "/" + cmd.dir
	var jobs []func()
	forms := []string{"json", "yaml", "default", "prettyjson"}
	if cmd.ver == "v6" {
		forms = forms[:3]
	}
	run := func(rule, label, form string, verdict func(i int) int, want func(i int) bool) {
		c.explore(m, rule, where+" "+label, func(in *Interp, fail func(string, ...interface{})) {
			r := startCmd(in, m, cmd)
			s := newStorage(r, m)
			given, _, form := givenForm(form)
			r.flags["o"] = given
			r.verdict = func(i int, t Val) int { return verdict(i) }
			e := r.run(m)
			judgeRecords(s, e, form, want, fail)
		})
	}
	for _, form := range forms {
		for p := 0; p < 256; p++ {
			form, p := form, p
			if form != "json" && p%16 != p/16 && p&(p-1) != 0 {
				continue
			}
			jobs = append(jobs, func() {
				run("records", fmt.Sprintf("%s matches %08b", form, p), form, func(i int) int { return p >> uint(i) & 1 }, func(i int) bool { return p>>uint(i)&1 == 1 })
			})
		}
	}
	if cmd.ver == "v6" {
		for j := 0; j < 8; j++ {
			j := j
			jobs = append(jobs, func() {
				run("records", fmt.Sprintf("record %d gives a text", j), "json", func(i int) int {
					if i == j {
						return 3
					}
					return 1
				}, func(i int) bool { return i != j })
			})
		}
	}
	for _, f := range []string{"", "xml", "text"} {
		f := f
		jobs = append(jobs, func() {
			c.explore(m, "unknown form", where+" "+f, func(in *Interp, fail func(string, ...interface{})) {
				r := startCmd(in, m, cmd)
				newStorage(r, m)
				r.flags["o"] = cStr(f)
				r.verdict = func(i int, t Val) int { return 1 }
				if e := r.run(m); e.crash != nil || !e.failedEnd() {
					fail("output form %q is not reported as an error", f)
				}
			})
		})
	}
	return jobs
}

func judgeRecords(s *storage, e cmdEnd, form string, want func(i int) bool, fail func(string, ...interface{})) {
	r, in := s.r, s.in
	switch {
	case e.crash != nil:
		fail("may crash: %s in %s (%s)", e.crash.what, e.crash.fn, in.position(e.crash.pos))
		return
	case r.failed != "" || r.libErr != "":
		if len(in.printed("stdout").parts) > 0 {
			fail("prints a result after an error")
		} else if !e.failedEnd() {
			fail("an error is not reported")
		}
		return
	case e.failedEnd() && r.parses == 0:
		return // no text given
	case e.failedEnd():
		fail("fails although every step succeeded")
		return
	case len(r.evals) != len(s.books):
		fail("%d evaluations for %d records", len(r.evals), len(s.books))
		return
	}
	value := func(i int, f string) (Val, bool) {
		v, ok := bookField(s.books[i], f)
		if ok && strings.HasPrefix(f, "Spec.") && isConstNum(v, 0) {
			return VNil{}, ok
		}
		return v, ok
	}
	for i, ev := range r.evals {
		for n, f := range r.c.names {
			t, ok := s.targets[n]
			if !ok {
				fail("the column name %s is not accepted", n)
				return
			}
			res := in.apply1(ev, []Val{cStr(t)}, token.NoPos)
			v, has := value(i, f)
			if !has {
				continue
			}
			found := len(res) == 2 && in.truth(res[1], token.NoPos)
			if !found || key(unIface(res[0])) != key(v) {
				fail("evaluation %d reads %s (present: %v) as the %s of its record, which is %s", i, key(unIface(res[0])), found, n, key(v))
				return
			}
		}
	}
	if len(r.forms) != 1 {
		fail("%d results are written", len(r.forms))
		return
	}
	v := unIface(r.forms[0])
	var got []Val
	if _, isNil := v.(VNil); !isNil {
		l, ok := in.elems(v, token.NoPos)
		if !ok {
			in.undecided(token.NoPos, "the result is %s", key(v))
		}
		got = l
	}
	k := 0
	for i := range s.books {
		if !want(i) {
			continue
		}
		if k >= len(got) {
			fail("record %d matches and is not shown", i)
			return
		}
		for n, f := range r.c.names {
			v, has := value(i, f)
			if !has {
				continue
			}
			m, ok := got[k].(VMap)
			if !ok {
				if mi, ok2 := unIface(got[k]).(VMap); ok2 {
					m, ok = mi, true
				}
			}
			if !ok {
				in.undecided(token.NoPos, "the result holds %s", key(got[k]))
			}
			shown := Val(VNil{})
			for j := range m.m.keys {
				if key(m.m.keys[j]) == key(cStr(s.targets[n])) {
					shown = unIface(m.m.vals[j])
				}
			}
			if key(shown) != key(v) {
				fail("result %d shows %s as its %s where record %d matches, which has %s", k, key(shown), n, i, key(v))
				return
			}
		}
		k++
	}
	if k != len(got) {
		fail("%d records match and %d are shown", k, len(got))
		return
	}
	shownForms(r, r.forms, fail)
	if p := formPath(in); !strings.Contains(p, form) {
		fail("output form %s is written by %s", form, p)
	}
}

// formPath names the package that wrote the printed text.
func formPath(in *Interp) string {
	out := key(in.printed("stdout"))
	for _, p := range []string{"prettyjson", "yaml", "json"} {
		if i := strings.Index(out, "form:"); i >= 0 && strings.Contains(strings.SplitN(out[i:], "(", 2)[0], p) {
			return p
		}
	}
	return "none"
}

// givenForm is the value of the option -o; without the option it is json.
func givenForm(form string) (given Val, label, form2 string) {
	if form == "default" {
		return nil, "without -o", "json"
	}
	return cStr(form), form, form
}

func parserForm(c *Check, m *module, cmd command, where, form string) {
	rule := "form"
	known := true
	given, label, form := givenForm(form)
	switch form {
	case "json", "yaml", "dot", "sql", "prettyjson":
	default:
		known = false
		if cmd.ver == "v6" {
			rule = "unknown form"
		}
	}
	good := false
	c.explore(m, rule, where+" "+label, func(in *Interp, fail func(string, ...interface{})) {
		r := startCmd(in, m, cmd)
		r.flags["o"] = given
		r.listArgs = true
		e := r.run(m)
		out := key(in.printed("stdout"))
		if len(in.printed("stdout").parts) == 0 {
			out = ""
		}
		switch {
		case len(r.bad) > 0:
			fail("%s", r.bad[0])
			return
		case e.crash != nil:
			fail("may crash: %s in %s (%s)", e.crash.what, e.crash.fn, in.position(e.crash.pos))
			return
		case r.parses > 1:
			fail("the text is parsed twice")
			return
		case r.failed != "" || r.libErr != "" || !known && cmd.ver == "v6":
			if !e.failedEnd() {
				fail("an error (%s%s) is not reported", r.failed, r.libErr)
			} else if out != "" {
				fail("prints a result in spite of an error")
			}
			return
		case e.failedEnd():
			if r.parses == 0 && out == "" {
				return // no text given
			}
			fail("fails although every step succeeded")
			return
		case !known:
			return
		case r.parses == 0:
			fail("succeeds without parsing")
			return
		}
		good = true
		if strings.Contains(out, "asformat(") {
			fail("a text of the user is taken for a format: %s", out)
			return
		}
		switch form {
		case "dot":
			if !strings.Contains(out, "drawn(") || r.dots != 1 || !strings.Contains(out, "digraph {") || !strings.Contains(out, "}") {
				fail("the drawing is not printed: %s", out)
			}
		case "sql":
			text := ""
			for _, l := range r.calls {
				if l.name == "ToSql" && strings.Contains(fullKey(in, l.args[0], map[*Obj]bool{}), "filter("+r.parsed()+")") {
					text = key(l.res[0])
				}
			}
			for _, x := range []string{"sqltext(filter(" + r.parsed() + "))"} {
				if text == "" && strings.Contains(out, x) {
					text = x
				}
			}
			switch {
			case text == "":
				fail("no SQL text is made of the filter")
			case !strings.Contains(out, text):
				fail("the SQL text is not printed")
			}
			rest := out
			for i, a := range r.sqlArgs {
				k := key(unIface(a))
				j := strings.Index(rest, k)
				if j < 0 || strings.Contains(out, "len("+k) || strings.Count(out, k) != 1 {
					fail("argument %d of the %d SQL arguments is not printed once, in order: %s", i, len(r.sqlArgs), out)
					return
				}
				rest = rest[j+len(k):]
			}
		default:
			if len(r.forms) != 1 || key(unIface(r.forms[0])) != r.parsed() {
				fail("the printed form is not that of the parsed tree")
				return
			}
			if p := formPath(in); p != form {
				fail("output form %s is written by %s", form, p)
			}
		}
	})
	if known && !good {
		c.fail(rule, where+" "+label, "no analysed run succeeds")
	}
}
