package main

import (
	"fmt"
	"go/constant"
	"strconv"
	"strings"
	"time"
)

// Reading Graphviz text whose characters are partly unknown.

// dch is one character or one unknown fragment of a text.
type dch struct {
	r    rune
	atom *VTerm
}

func dchars(s VStr) []dch {
	var l []dch
	for _, p := range s.parts {
		if p.atom != nil {
			l = append(l, dch{atom: p.atom})
			continue
		}
		for _, r := range p.s {
			l = append(l, dch{r: r})
		}
	}
	return l
}

func dkey(l []dch) string {
	var b strings.Builder
	for _, c := range l {
		if c.atom != nil {
			b.WriteString("<" + c.atom.key + ">")
		} else {
			b.WriteRune(c.r)
		}
	}
	return b.String()
}

type dotTok struct {
	kind string // id, str, or the punctuation itself
	text []dch
}

// idAtom: a generated fragment of a name, made of letters.
func idAtom(t *VTerm) bool {
	return t.op == "char" || strings.HasPrefix(t.op, "char") || t.op == "nodeid"
}

func dotLex(s VStr) ([]dotTok, error) {
	c := dchars(s)
	var out []dotTok
	idc := func(d dch) bool {
		if d.atom != nil {
			return idAtom(d.atom)
		}
		return d.r == '_' || d.r == '.' || d.r >= '0' && d.r <= '9' || d.r >= 'a' && d.r <= 'z' || d.r >= 'A' && d.r <= 'Z' || d.r >= 0x80
	}
	for i := 0; i < len(c); {
		switch d := c[i]; {
		case d.atom == nil && strings.ContainsRune(" \t\r\n", d.r):
			i++
		case d.atom == nil && d.r == '"':
			j := i + 1
			var t []dch
			for {
				if j >= len(c) {
					return nil, fmt.Errorf("a label is not closed")
				}
				if c[j].atom == nil && c[j].r == '"' {
					break
				}
				if c[j].atom == nil && c[j].r == '\\' && j+1 < len(c) {
					t = append(t, c[j], c[j+1])
					j += 2
					continue
				}
				t = append(t, c[j])
				j++
			}
			out = append(out, dotTok{"str", t})
			i = j + 1
		case d.atom == nil && d.r == '-' && i+1 < len(c) && c[i+1].atom == nil && c[i+1].r == '>':
			out = append(out, dotTok{"->", nil})
			i += 2
		case d.atom == nil && strings.ContainsRune("[]{},;=", d.r):
			out = append(out, dotTok{string(d.r), nil})
			i++
		case idc(d):
			j := i
			for j < len(c) && idc(c[j]) {
				j++
			}
			out = append(out, dotTok{"id", c[i:j]})
			i = j
		default:
			return nil, fmt.Errorf("%s outside a label", dkey(c[i:i+1]))
		}
	}
	return out, nil
}

type dotVertex struct {
	id     []dch
	fields [][]dch // label fields, unescaped
}

type dotGraph struct {
	v     []dotVertex
	edges map[string][][]dch
	from  [][]dch
}

// labelFields splits a label into fields and undoes its escapes.
func labelFields(t []dch) [][]dch {
	out := [][]dch{nil}
	add := func(d dch) { out[len(out)-1] = append(out[len(out)-1], d) }
	for i := 0; i < len(t); i++ {
		switch {
		case t[i].atom == nil && t[i].r == '\\' && i+1 < len(t) && t[i+1].atom == nil:
			i++
			if t[i].r == 'n' {
				add(dch{r: '\n'})
			} else {
				add(t[i])
			}
		case t[i].atom == nil && t[i].r == '|':
			out = append(out, nil)
		case t[i].atom == nil && strings.ContainsRune("{}<>", t[i].r):
			// a meaning of its own in record labels
			add(dch{r: 0xFFFF})
		default:
			add(t[i])
		}
	}
	return out
}

func parseDot(s VStr) (*dotGraph, error) {
	toks, err := dotLex(s)
	if err != nil {
		return nil, err
	}
	g := &dotGraph{edges: map[string][][]dch{}}
	i := 0
	is := func(k string) bool { return i < len(toks) && toks[i].kind == k }
	name := func() ([]dch, bool) {
		if is("id") || is("str") {
			i++
			return toks[i-1].text, true
		}
		return nil, false
	}
	for i < len(toks) {
		if is(";") {
			i++
			continue
		}
		id, ok := name()
		if !ok {
			return nil, fmt.Errorf("%q where a vertex name is expected", toks[i].kind)
		}
		switch {
		case is("["):
			i++
			v := dotVertex{id: id}
			shape := ""
			var label []dch
			for !is("]") {
				if is(",") || is(";") {
					i++
					continue
				}
				k, ok := name()
				if !ok || !is("=") {
					return nil, fmt.Errorf("attribute list of %s is not well-formed", dkey(id))
				}
				i++
				val, ok := name()
				if !ok {
					return nil, fmt.Errorf("attribute list of %s is not well-formed", dkey(id))
				}
				switch dkey(k) {
				case "label":
					label = val
				case "shape":
					shape = dkey(val)
				}
			}
			i++
			if strings.Contains(strings.ToLower(shape), "record") {
				v.fields = labelFields(label)
			} else {
				v.fields = [][]dch{nil}
				for j := 0; j < len(label); j++ {
					d := label[j]
					if d.atom == nil && d.r == '\\' && j+1 < len(label) && label[j+1].atom == nil {
						j++
						d = label[j]
						if d.r == 'n' {
							d.r = '\n'
						}
					}
					v.fields[0] = append(v.fields[0], d)
				}
			}
			g.v = append(g.v, v)
		case is("->"):
			from := id
			for is("->") {
				i++
				var to [][]dch
				if is("{") {
					i++
					for !is("}") {
						if is(",") || is(";") {
							i++
							continue
						}
						x, ok := name()
						if !ok {
							return nil, fmt.Errorf("edge of %s is not well-formed", dkey(from))
						}
						to = append(to, x)
					}
					i++
				} else {
					x, ok := name()
					if !ok {
						return nil, fmt.Errorf("edge of %s leads nowhere", dkey(from))
					}
					to = append(to, x)
				}
				if _, ok := g.edges[dkey(from)]; !ok {
					g.from = append(g.from, from)
				}
				g.edges[dkey(from)] = append(g.edges[dkey(from)], to...)
				if len(to) == 1 {
					from = to[0]
				}
			}
		default:
			return nil, fmt.Errorf("%s is neither a vertex nor an edge", dkey(id))
		}
	}
	return g, nil
}

// differ decides that two names are different whatever the unknown fragments
// are.
func differ(a, b []dch) bool {
	for i := 0; ; i++ {
		switch {
		case i >= len(a) && i >= len(b):
			return false
		case i >= len(a) || i >= len(b):
			return true
		case a[i].atom == nil && b[i].atom == nil:
			if a[i].r != b[i].r {
				return true
			}
		case a[i].atom == nil || b[i].atom == nil:
			return false
		case a[i].atom.key != b[i].atom.key:
			return false
		}
	}
}

// gnode is what a drawing or listing has to show of a node.
type gnode struct {
	name string // type or operator
	leaf bool
	val  Val    // VStr, number term, or constant
	form string // text, number, bool, date, null
	kids []*gnode
}

// derived: every unknown part of a fragment comes from the value.
func derived(t *VTerm, k string) bool {
	if t.key == k {
		return true
	}
	if strings.HasPrefix(t.op, "strings.") {
		// a changed text (other case, trimmed) is another text
		return false
	}
	n := 0
	for _, a := range t.args {
		switch a := a.(type) {
		case *VTerm:
			n++
			if !derived(a, k) {
				return false
			}
		case VStr:
			for _, p := range a.parts {
				if p.atom != nil {
					n++
					if !derived(p.atom, k) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// shownInstant reads the forms a date may be shown in.
func shownInstant(s string) (time.Time, bool) {
	for _, l := range []string{time.RFC3339Nano, "2006-01-02", "2006-01-02 15:04:05.999999999 -0700 MST", "2006-01-02 15:04:05.999999999Z07:00"} {
		if t, err := time.Parse(l, s); err == nil {
			return t, true
		}
	}
	return time.Time{}, false
}

// tellsInstant decides that the layouts a time is written with tell its
// instant, to the second.
func tellsInstant(t *VTerm) bool {
	if t.op == "timefmt" && len(t.args) == 2 {
		layout, ok := str1(t.args[1])
		if !ok {
			return false
		}
		if layout == "default" {
			return true
		}
		utc := false
		if x, ok := t.args[0].(*VTerm); ok && x.op == "samewhen" && len(x.args) > 1 {
			n, _ := str1(x.args[1])
			utc = strings.HasSuffix(n, "UTC")
		}
		for _, s := range []string{"2021-12-31T23:59:58Z", "2020-02-03T04:05:06+05:30", "1999-11-12T13:14:15-08:00", "2038-01-19T00:00:00Z", "0987-06-05T12:00:01+01:00"} {
			w, err := time.Parse(time.RFC3339, s)
			if err != nil {
				return false
			}
			if utc {
				w = w.UTC()
			}
			if got, err := time.Parse(layout, w.Format(layout)); err != nil || !got.Equal(w) {
				return false
			}
		}
		return true
	}
	for _, a := range t.args {
		switch a := a.(type) {
		case *VTerm:
			if !tellsInstant(a) {
				return false
			}
		case VStr:
			for _, p := range a.parts {
				if p.atom != nil && !tellsInstant(p.atom) {
					return false
				}
			}
		}
	}
	return true
}

// shows decides that a displayed text is the value of the leaf.
func (g *gnode) shows(t []dch) bool {
	trim := func(t []dch, set string) []dch {
		for len(t) > 0 && t[0].atom == nil && strings.ContainsRune(set, t[0].r) {
			t = t[1:]
		}
		for len(t) > 0 && t[len(t)-1].atom == nil && strings.ContainsRune(set, t[len(t)-1].r) {
			t = t[:len(t)-1]
		}
		return t
	}
	switch g.form {
	case "text":
		if c, ok := g.val.(VStr).isConst(); ok {
			got := dkey(t)
			for _, q := range []string{got, strings.TrimSpace(got), strings.TrimPrefix(got, " "), strings.TrimSuffix(strings.TrimPrefix(got, " "), " ")} {
				if q == c {
					return true
				}
				for _, m := range []string{"'", "\""} {
					if len(q) >= 2 && strings.HasPrefix(q, m) && strings.HasSuffix(q, m) && q[1:len(q)-1] == c {
						return true
					}
				}
			}
			return false
		}
		t = trim(t, " '\"")
		return len(t) == 1 && t[0].atom != nil && derived(t[0].atom, key(g.val))
	case "number":
		t = trim(t, " ")
		if c, ok := g.val.(VConst); ok {
			got, err := strconv.ParseFloat(dkey(t), 64)
			want, _ := constant.Float64Val(constant.ToFloat(c.c))
			return err == nil && got == want
		}
		if len(t) != 1 || t[0].atom == nil || !derived(t[0].atom, key(g.val)) {
			return false
		}
		a := t[0].atom
		for {
			if a.op == "fmtnum" {
				return true
			}
			x, ok := a.args[0].(*VTerm)
			if s, isS := a.args[0].(VStr); isS && len(s.parts) == 1 && s.parts[0].atom != nil {
				x, ok = s.parts[0].atom, true
			}
			if !ok || len(a.args) == 0 {
				return false
			}
			a = x
			if len(a.args) == 0 {
				return false
			}
		}
	case "date":
		t = trim(t, " '\"")
		if want, ok := constTime(g.val); ok && (len(t) == 0 || t[0].atom == nil) {
			got, ok := shownInstant(dkey(t))
			return ok && got.Equal(want)
		}
		if c, ok := str1(g.val); ok {
			got := dkey(t)
			a, ok1 := shownInstant(got)
			b, ok2 := shownInstant(c)
			return got == c || ok1 && ok2 && a.Equal(b)
		}
		return len(t) == 1 && t[0].atom != nil && derived(t[0].atom, key(g.val)) && tellsInstant(t[0].atom)
	}
	want := ""
	if w, ok := str1(g.val); ok {
		want = w
	} else {
		want = key(g.val)[1:]
	}
	return strings.EqualFold(dkey(trim(t, " '\"")), want)
}

// drawn decides that a graph is the drawing of a tree.
func drawn(g *dotGraph, root *gnode) error {
	byID := map[string]*dotVertex{}
	for i := range g.v {
		k := dkey(g.v[i].id)
		if byID[k] != nil {
			return fmt.Errorf("vertex %s is declared twice", k)
		}
		byID[k] = &g.v[i]
		for j := 0; j < i; j++ {
			if !differ(g.v[i].id, g.v[j].id) {
				return fmt.Errorf("the vertex names %s and %s may be equal", dkey(g.v[j].id), k)
			}
		}
	}
	target := map[string]bool{}
	for _, f := range g.from {
		if byID[dkey(f)] == nil {
			return fmt.Errorf("edges leave %s, which is not declared", dkey(f))
		}
		for _, t := range g.edges[dkey(f)] {
			if byID[dkey(t)] == nil {
				return fmt.Errorf("an edge leads to %s, which is not declared", dkey(t))
			}
			if target[dkey(t)] {
				return fmt.Errorf("more than one edge leads to %s", dkey(t))
			}
			target[dkey(t)] = true
		}
	}
	var top []*dotVertex
	for i := range g.v {
		if !target[dkey(g.v[i].id)] {
			top = append(top, &g.v[i])
		}
	}
	if len(top) != 1 {
		return fmt.Errorf("%d vertices have no parent", len(top))
	}
	n := 0
	var match func(v *dotVertex, w *gnode) error
	match = func(v *dotVertex, w *gnode) error {
		n++
		kids := g.edges[dkey(v.id)]
		if len(kids) != len(w.kids) {
			return fmt.Errorf("%s has %d edges for %d children", w.name, len(kids), len(w.kids))
		}
		if w.leaf {
			ok := false
			if len(v.fields) >= 2 && strings.Trim(dkey(v.fields[0]), " ") == w.name {
				ok = len(v.fields) == 2 && w.shows(v.fields[1])
			} else if len(v.fields) == 1 {
				f := v.fields[0]
				if l := len([]rune(w.name)); len(f) > l && strings.HasPrefix(dkey(f), w.name) {
					f = f[l:]
					for len(f) > 0 && f[0].atom == nil && strings.ContainsRune(" :=\n", f[0].r) {
						f = f[1:]
					}
					ok = w.shows(f)
				}
			}
			if !ok {
				var l []string
				for _, f := range v.fields {
					l = append(l, fmt.Sprintf("%q", dkey(f)))
				}
				return fmt.Errorf("the label %s does not show type %s and value %s", strings.Join(l, " | "), w.name, key(w.val))
			}
		} else {
			l := ""
			for _, f := range v.fields {
				l += dkey(f)
			}
			if strings.Trim(l, " ") != w.name {
				return fmt.Errorf("the label %q does not name %s", l, w.name)
			}
		}
		for i, k := range kids {
			if err := match(byID[dkey(k)], w.kids[i]); err != nil {
				return err
			}
		}
		return nil
	}
	if err := match(top[0], root); err != nil {
		return err
	}
	if n != len(g.v) {
		return fmt.Errorf("%d vertices are not connected to the tree", len(g.v)-n)
	}
	return nil
}
