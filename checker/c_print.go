package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: the listing printed by the v6 tsl command.

// runMain analyses a command's main function until it returns or exits.
func (in *Interp) runMain(fn *ssa.Function) (exit *exited, crash *absPanic) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case exited:
			exit = &r
		default:
			panic(r)
		}
	}()
	in.initPkg(fn.Pkg)
	o := in.tryCall(fn, nil)
	return nil, o.crash
}

// printed is everything written to the standard output.
func (in *Interp) printed(kind string) VStr {
	out := VStr{}
	for _, e := range in.events {
		if e.kind == kind {
			out = out.concat(asStr(e.args[0]))
		}
	}
	return out
}

// oneArgument models a command line with one argument.
func oneArgument(in *Interp, fn *ssa.Function, args []Val) ([]Val, bool) {
	arg := atomStr(mkTerm(tString, "argument"))
	in.argv = []Val{arg}
	if pathOf(fn) != "flag" {
		return nil, false
	}
	switch fn.Name() {
	case "NArg":
		return []Val{cInt(1)}, true
	case "Arg":
		return []Val{arg}, true
	case "Args":
		return []Val{in.mkSlice([]Val{arg})}, true
	case "Parse":
		if fn.Signature.Results().Len() == 1 {
			return []Val{VNil{}}, true
		}
		return nil, true
	case "NewFlagSet":
		return []Val{in.opaqueNonNil(fn.Signature.Results().At(0).Type(), "flags")}, true
	}
	return nil, false
}

func errorVal(name string) Val {
	return VIface{v: mkTerm(types.Universe.Lookup("error").Type(), name)}
}

func listing(in *Interp, show string, want *gnode, fail func(string, ...interface{})) {
	var lines [][]dch
	cur := []dch{}
	for _, c := range dchars(in.printed("stdout")) {
		if c.atom == nil && c.r == '\n' {
			lines = append(lines, cur)
			cur = []dch{}
			continue
		}
		cur = append(cur, c)
	}
	if len(cur) > 0 {
		lines = append(lines, cur)
	}
	body := func(l []dch) (indent int, rest []dch) {
		for len(l) > 0 && l[0].atom == nil && (l[0].r == ' ' || l[0].r == '\t') {
			l = l[1:]
			indent++
		}
		return indent, l
	}
	for len(lines) > 0 {
		_, r := body(lines[0])
		if len(r) > 0 && r[0].atom == nil && r[0].r == '[' {
			break
		}
		lines = lines[1:]
	}
	type item struct {
		g     *gnode
		depth int
	}
	var items []item
	var walk func(g *gnode, d int)
	walk = func(g *gnode, d int) {
		items = append(items, item{g, d})
		for _, k := range g.kids {
			walk(k, d+1)
		}
	}
	walk(want, 0)
	if len(lines) != len(items) {
		var l []string
		for _, x := range lines {
			l = append(l, fmt.Sprintf("%q", dkey(x)))
		}
		fail("%s: %d lines for %d nodes: %s", show, len(lines), len(items), strings.Join(l, " "))
		return
	}
	indents := map[int]int{}
	for i, it := range items {
		ind, r := body(lines[i])
		if old, ok := indents[it.depth]; ok && old != ind {
			fail("%s: line %q is indented differently from the other nodes of its depth", show, dkey(lines[i]))
			return
		}
		indents[it.depth] = ind
		if it.depth > 0 && ind <= indents[it.depth-1] {
			fail("%s: line %q is not indented below its parent", show, dkey(lines[i]))
			return
		}
		head := "[" + it.g.name + "]"
		if !strings.HasPrefix(dkey(r), head) {
			fail("%s: line %q where a line for %s is expected", show, dkey(lines[i]), it.g.name)
			return
		}
		r = r[len([]rune(head)):]
		for len(r) > 0 && r[0].atom == nil && r[0].r == ':' {
			r = r[1:]
		}
		if !it.g.leaf {
			if _, r = body(r); len(r) > 0 {
				fail("%s: line %q of a node without a value", show, dkey(lines[i]))
				return
			}
			continue
		}
		g := *it.g
		if c, ok := g.val.(VStr); ok && g.form == "text" {
			if s, isC := c.isConst(); isC && g.name != "IDENTIFIER" {
				// the text is shown with escapes
				q := strings.TrimPrefix(dkey(r), " ")
				if u, ok := unescape(q); ok && (u == s || q == s && !strings.ContainsAny(s, "\n\r")) {
					continue
				}
				fail("%s: line %q does not show the text %q", show, dkey(lines[i]), s)
				return
			}
		}
		if !g.shows(r) {
			fail("%s: line %q does not show the value %s", show, dkey(lines[i]), key(g.val))
			return
		}
	}
}

// unescape undoes the escapes of a quoted text without its quotes.
func unescape(s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		i++
		if i >= len(s) {
			return "", false
		}
		switch s[i] {
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		case '\\', '"', '\'':
			b.WriteByte(s[i])
		case 'u', 'x', 'U':
			n := map[byte]int{'x': 2, 'u': 4, 'U': 8}[s[i]]
			var c int
			if i+n >= len(s) {
				return "", false
			}
			if _, err := fmt.Sscanf(s[i+1:i+1+n], "%x", &c); err != nil {
				return "", false
			}
			if n == 2 {
				b.WriteByte(byte(c))
			} else {
				b.WriteRune(rune(c))
			}
			i += n
		default:
			return "", false
		}
	}
	return b.String(), true
}

func init() {
	register("C28", "abstract interpretation of the SSA of the tsl command from main on trees of every operator and operand kind; everything it writes to the standard output is read back line by line and compared with the tree", func(c *Check) error {
		m, err := loadModule("v6", "./pkg/...", "./cmd/tsl")
		if err != nil {
			return err
		}
		k, err := v6Consts(m)
		if err != nil {
			return err
		}
		p := m.byDir["cmd/tsl"]
		if p == nil || p.Func("main") == nil {
			return fmt.Errorf("v6/cmd/tsl main not found")
		}
		main := p.Func("main")
		c.scope = append(c.scope, "v6/cmd/tsl", "v6/pkg/tsl (Go side)")
		c.assume = append(c.assume, "the C accessor functions return the stored data (decided by C08)", "writes to the standard output succeed")
		body := func(in *Interp, t operand, text string, fail func(string, ...interface{})) {
			s := in.newStore(k)
			root := t.mk(s, "x")
			if text != "\x00" {
				s.constTexts(root, text)
			}
			want := gnode6(in, s, root)
			parsed := 0
			in.hook = func(in *Interp, fn *ssa.Function, args []Val) ([]Val, bool) {
				if fn.Name() == "ParseTSL" && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "tsl" {
					parsed++
					if key(args[0]) != "argument" {
						fail("the parser is given %s instead of the argument", key(args[0]))
					}
					for _, n := range s.nodes {
						n.origin = "parsed"
					}
					return []Val{s.wrap(root), VNil{}}, true
				}
				return oneArgument(in, fn, args)
			}
			show := s.show(root)
			exit, crash := in.runMain(main)
			switch {
			case crash != nil:
				fail("%s: may crash: %s in %s (%s)", show, crash.what, crash.fn, in.position(crash.pos))
			case exit != nil && (!exit.known || exit.code != 0):
				fail("%s: the command fails", show)
			case parsed == 0:
				fail("the argument is not parsed")
			default:
				listing(in, show, want, fail)
			}
		}
		var jobs []func()
		for rule, trees := range walkTrees(c.thorough(), []int{34, 140}, []int{12, 112, 1100}) {
			for _, t := range trees {
				rule, t := rule, t
				jobs = append(jobs, func() {
					c.decide(m, rule, t.label, func(in *Interp, text string, fail func(string, ...interface{})) { body(in, t, text, fail) })
				})
			}
		}
		for _, x := range append([]string{"a\nb", "\n", "tab\there", "\r"}, oddTexts...) {
			for _, t := range []operand{opStr, binOf("EQ", opIdent, opStr), unOf("Not", binOf("Like", opIdent, opStr)), arrOf(opStr, opNum)} {
				x, t := x, t
				jobs = append(jobs, func() {
					c.explore(m, "characters", fmt.Sprintf("%s %q", t.label, x), func(in *Interp, fail func(string, ...interface{})) { body(in, t, x, fail) })
				})
			}
		}
		jobs = append(jobs, func() {
			c.explore(m, "error", "argument that does not parse", func(in *Interp, fail func(string, ...interface{})) {
				in.newStore(k)
				in.hook = func(in *Interp, fn *ssa.Function, args []Val) ([]Val, bool) {
					if fn.Name() == "ParseTSL" && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "tsl" {
						return []Val{VNil{}, errorVal("parse error")}, true
					}
					return oneArgument(in, fn, args)
				}
				exit, crash := in.runMain(main)
				switch {
				case crash != nil:
					fail("may crash: %s in %s (%s)", crash.what, crash.fn, in.position(crash.pos))
				case exit == nil || exit.known && exit.code == 0:
					fail("the command succeeds")
				case !strings.Contains(key(in.printed("stderr")), "parse error"):
					fail("the error is not reported")
				}
			})
		})
		_ = token.NoPos
		parallel(jobs)
		c.need("leaf", 7)
		c.need("operands", 1300)
		c.need("nesting", 1900)
		c.need("depth", 270)
		c.need("characters", 80)
		c.need("error", 1)
		return nil
	})
}
