package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract ANTLR parse trees: what the generated parser of v5 and v4 hands to
// the tree listener.

// pnode is a rule context or a token of a parse tree.
type pnode struct {
	ctx  string // context type without "Context"; "" for a token
	rule string // grammar rule
	kids []*pnode
	tok  string // token constant without the lexer prefix, for tokens
	text Val
	obj  *Obj
}

func tokNode(tok string, text Val) *pnode { return &pnode{tok: tok, text: text} }
func word(tok, text string) *pnode        { return tokNode(tok, cStr(text)) }

func ctxNode(rule, ctx string, kids ...*pnode) *pnode {
	return &pnode{ctx: ctx, rule: rule, kids: kids}
}

func (p *pnode) fullText() VStr {
	if p.ctx == "" {
		return asStr(p.text)
	}
	out := VStr{}
	for _, k := range p.kids {
		out = out.concat(k.fullText())
	}
	return out
}

func (p *pnode) first() *pnode {
	if p.ctx == "" {
		return p
	}
	for _, k := range p.kids {
		if f := k.first(); f != nil {
			return f
		}
	}
	return nil
}

func (p *pnode) last() *pnode {
	if p.ctx == "" {
		return p
	}
	for i := len(p.kids) - 1; i >= 0; i-- {
		if f := p.kids[i].last(); f != nil {
			return f
		}
	}
	return nil
}

// ptoken is the token of a terminal node.
type ptoken struct{ n *pnode }

// recog is a lexer, a token stream or a parser.
type recog struct {
	kind      string
	from      Val
	listeners []Val
	console   bool
}

// antlr models the ANTLR runtime and the generated accessors.
type antlr struct {
	g    *legacy
	in   *Interp
	pkg  *ssa.Package // generated parser
	tree *pnode
	// errors reported while parsing
	lexErr, parseErr bool
	input            Val
	started          bool
	shared           func(fn *ssa.Function) // told of every use of the tables all parsers share
}

func (a *antlr) ctxVal(p *pnode) Val {
	if p == nil {
		return VNil{}
	}
	if p.ctx == "" {
		t := a.in.lookupType("github.com/antlr/antlr4/runtime/Go/antlr", "TerminalNodeImpl")
		return VIface{dyn: types.NewPointer(t), v: VPtr{obj: a.objOf(p, t)}}
	}
	o := a.pkg.Pkg.Scope().Lookup(p.ctx + "Context")
	if o == nil {
		a.in.undecided(token.NoPos, "the generated parser has no %sContext", p.ctx)
	}
	return VIface{dyn: types.NewPointer(o.Type()), v: VPtr{obj: a.objOf(p, o.Type())}}
}

func (a *antlr) objOf(p *pnode, t types.Type) *Obj {
	if p.obj == nil {
		p.obj = a.in.shell(t, "ctx:"+p.ctx, p)
	}
	return p.obj
}

func (a *antlr) tokenVal(p *pnode) Val {
	if p == nil {
		return VNil{}
	}
	t := a.in.lookupType("github.com/antlr/antlr4/runtime/Go/antlr", "CommonToken")
	return VIface{dyn: types.NewPointer(t), v: VPtr{obj: a.in.shell(t, "token:"+p.tok, &ptoken{p})}}
}

func (a *antlr) tokType(p *pnode) Val {
	c, ok := a.pkg.Pkg.Scope().Lookup("TSLLexer" + p.tok).(*types.Const)
	if !ok {
		// punctuation has no name of its own
		for i := 0; ; i++ {
			c, ok := a.pkg.Pkg.Scope().Lookup(fmt.Sprintf("TSLLexerT__%d", i)).(*types.Const)
			if !ok {
				a.in.undecided(token.NoPos, "token constant %s not found", p.tok)
			}
			if i == 0 {
				return VConst{c.Val()}
			}
		}
	}
	return VConst{c.Val()}
}

func (a *antlr) hook(in *Interp, fn *ssa.Function, args []Val) ([]Val, bool) {
	name := fn.Name()
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	if len(args) > 0 {
		v := args[0]
		if i, ok := v.(VIface); ok {
			v = i.v
		}
		if p, ok := v.(VPtr); ok && p.obj != nil && fn.Signature.Recv() != nil {
			switch x := p.obj.extra.(type) {
			case *pnode:
				return a.nodeCall(fn, x, args)
			case *ptoken:
				switch name {
				case "GetTokenType":
					return []Val{a.tokType(x.n)}, true
				case "GetText":
					return []Val{x.n.text}, true
				case "GetLine", "GetColumn", "GetStart", "GetStop", "GetTokenIndex":
					return []Val{mkTerm(types.Typ[types.Int], "tok:"+name)}, true
				}
				in.undecided(token.NoPos, "token method %s", name)
			case *recog:
				return a.recogCall(fn, x, args)
			}
		}
	}
	if strings.HasSuffix(path, "/antlr") {
		switch name {
		case "NewInputStream":
			a.input = args[0]
			return []Val{a.recogVal("stream", args[0], fn)}, true
		case "NewCommonTokenStream":
			if c, ok := args[1].(VConst); !ok || c.c.ExactString() != "0" {
				in.undecided(token.NoPos, "token stream on channel %s", key(args[1]))
			}
			return []Val{a.recogVal("tokens", args[0], fn)}, true
		case "Walk":
			if len(args) == 3 {
				a.walk(args[1], args[2])
				return nil, true
			}
		case "init":
			return nil, true
		}
		return nil, false
	}
	if fn.Pkg == a.pkg && fn.Signature.Recv() == nil {
		switch name {
		case "NewTSLLexer":
			return []Val{a.recogVal("lexer", args[0], fn)}, true
		case "NewTSLParser":
			return []Val{a.recogVal("parser", args[0], fn)}, true
		}
	}
	return nil, false
}

func (a *antlr) recogVal(kind string, from Val, fn *ssa.Function) Val {
	t := fn.Signature.Results().At(0).Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return VPtr{obj: a.in.shell(t, kind, &recog{kind: kind, from: from, console: true})}
}

// shell is an object known only by what it stands for; the types it embeds
// lead back to it.
func (in *Interp) shell(t types.Type, name string, extra interface{}) *Obj {
	o := &Obj{typ: t, name: name, extra: extra}
	if structOf(t) != nil {
		o.v = in.shellStruct(t, name, extra)
	}
	return o
}

func (in *Interp) shellStruct(t types.Type, name string, extra interface{}) Val {
	v, ok := in.zero(t).(VStruct)
	if !ok {
		return in.zero(t)
	}
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Embedded() {
			continue
		}
		if p, ok := f.Type().Underlying().(*types.Pointer); ok {
			if structOf(p.Elem()) != nil {
				v.f[i] = VPtr{obj: in.shell(p.Elem(), name, extra)}
			}
		} else if structOf(f.Type()) != nil {
			v.f[i] = in.shellStruct(f.Type(), name, extra)
		}
	}
	return v
}

func recogOf(v Val) *recog {
	_, v = dynOf(v)
	if p, ok := v.(VPtr); ok && p.obj != nil {
		r, _ := p.obj.extra.(*recog)
		return r
	}
	return nil
}

func (a *antlr) recogCall(fn *ssa.Function, r *recog, args []Val) ([]Val, bool) {
	switch fn.Name() {
	case "RemoveErrorListeners":
		r.listeners, r.console = nil, false
		return nil, true
	case "AddErrorListener":
		r.listeners = append(r.listeners, args[1])
		return nil, true
	case "Start":
		a.started = true
		if a.shared != nil {
			a.shared(fn)
		}
		toks := recogOf(r.from)
		if r.kind != "parser" || toks == nil || toks.kind != "tokens" {
			a.in.undecided(token.NoPos, "the parser does not read a token stream")
		}
		lex := recogOf(toks.from)
		if lex == nil || lex.kind != "lexer" {
			a.in.undecided(token.NoPos, "the token stream does not read the lexer")
		}
		if s := recogOf(lex.from); s == nil || s.kind != "stream" {
			a.in.undecided(token.NoPos, "the lexer does not read an input stream")
		}
		if a.lexErr {
			a.report(lex)
		}
		if a.parseErr {
			a.report(r)
		}
		return []Val{a.ctxVal(a.tree)}, true
	}
	a.in.undecided(token.NoPos, "ANTLR %s method %s", r.kind, fn.Name())
	return nil, false
}

func (a *antlr) report(r *recog) {
	n := len(a.in.events)
	for _, l := range r.listeners {
		i, ok := l.(VIface)
		if !ok || i.dyn == nil {
			a.in.undecided(token.NoPos, "error listener %s is not known", key(l))
		}
		f := a.in.m.prog.LookupMethod(i.dyn, nil, "SyntaxError")
		if f == nil {
			a.in.undecided(token.NoPos, "error listener without SyntaxError")
		}
		int_ := types.Typ[types.Int]
		a.in.callFn(f, []Val{i.v, VNil{}, VNil{}, mkTerm(int_, fmt.Sprintf("line%d", n)), mkTerm(int_, fmt.Sprintf("column%d", n)), atomStr(mkTerm(tString, fmt.Sprintf("syntax message %d", n))), VNil{}}, nil, token.NoPos)
	}
}

// walk is ParseTreeWalker.Walk: enter, children in order, exit.
func (a *antlr) walk(listener, tree Val) {
	i, ok := listener.(VIface)
	_, tv := dynOf(tree)
	p, ok2 := tv.(VPtr)
	if !ok || i.dyn == nil || !ok2 || p.obj == nil {
		a.in.undecided(token.NoPos, "walk of %s with %s", key(tree), key(listener))
	}
	root, ok := p.obj.extra.(*pnode)
	if !ok {
		a.in.undecided(token.NoPos, "walk of %s", key(tree))
	}
	a.visit(i, root)
}

func (a *antlr) visit(l VIface, n *pnode) {
	in := a.in
	v := a.ctxVal(n).(VIface)
	call := func(method string, args ...Val) {
		f := in.m.prog.LookupMethod(l.dyn, nil, method)
		if f == nil {
			in.undecided(token.NoPos, "the listener has no method %s", method)
		}
		in.callFn(f, append([]Val{l.v}, args...), nil, token.NoPos)
	}
	if n.ctx == "" {
		call("VisitTerminal", v)
		return
	}
	rule := func(method string) {
		f := in.m.prog.LookupMethod(v.dyn, nil, method)
		if f == nil {
			in.undecided(token.NoPos, "%sContext has no method %s", n.ctx, method)
		}
		in.callFn(f, []Val{v.v, l}, nil, token.NoPos)
	}
	call("EnterEveryRule", v)
	rule("EnterRule")
	for _, k := range n.kids {
		a.visit(l, k)
	}
	rule("ExitRule")
	call("ExitEveryRule", v)
}

func lowerFirst(s string) string {
	if s == "" {
		return s
	}
	return strings.ToLower(s[:1]) + s[1:]
}

// nodeCall answers the accessors of a context or a terminal.
func (a *antlr) nodeCall(fn *ssa.Function, n *pnode, args []Val) ([]Val, bool) {
	in := a.in
	name := fn.Name()
	switch name {
	case "EnterRule", "ExitRule":
		if n.ctx != "" && fn.Pkg == a.pkg {
			return nil, false // analysed: it dispatches to the listener
		}
		if n.ctx != "" {
			return nil, true // the base context does nothing
		}
	case "GetText":
		return []Val{n.fullText()}, true
	case "GetStart":
		return []Val{a.tokenVal(n.first())}, true
	case "GetStop":
		return []Val{a.tokenVal(n.last())}, true
	case "GetSymbol":
		return []Val{a.tokenVal(n)}, true
	case "GetRuleContext", "GetPayload":
		return []Val{a.ctxVal(n)}, true
	case "GetChildCount":
		return []Val{cInt(int64(len(n.kids)))}, true
	case "GetChild":
		i, ok := in.intOf(args[1])
		if !ok {
			in.undecided(token.NoPos, "child number %s", key(args[1]))
		}
		if i < 0 || i >= len(n.kids) {
			in.crash(token.NoPos, "child %d of %sContext", i, n.ctx)
		}
		return []Val{a.ctxVal(n.kids[i])}, true
	case "GetChildren":
		var l []Val
		for _, k := range n.kids {
			l = append(l, a.ctxVal(k))
		}
		return []Val{in.mkSlice(l)}, true
	}
	if fn.Pkg != a.pkg {
		in.undecided(token.NoPos, "method %s of a parse tree node", name)
	}
	all := strings.HasPrefix(name, "All")
	want := strings.TrimPrefix(name, "All")
	var hit []*pnode
	for _, k := range n.kids {
		if k.ctx != "" && lowerFirst(want) == k.rule || k.ctx == "" && want == k.tok {
			hit = append(hit, k)
		}
	}
	if all {
		var l []Val
		for _, k := range hit {
			l = append(l, a.ctxVal(k))
		}
		return []Val{in.mkSlice(l)}, true
	}
	i := 0
	if len(args) > 1 {
		var ok bool
		if i, ok = in.intOf(args[1]); !ok {
			in.undecided(token.NoPos, "child number %s", key(args[1]))
		}
	}
	if i < 0 || i >= len(hit) {
		return []Val{VNil{}}, true
	}
	return []Val{a.ctxVal(hit[i])}, true
}
