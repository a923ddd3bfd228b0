package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C29: the lock around the generated parsers of v5 and v4.

// harmless recognizer methods do not read tokens or predict.
var quietRecog = map[string]bool{"RemoveErrorListeners": true, "AddErrorListener": true, "SetErrorHandler": true, "GetErrorHandler": true, "SetBuildParseTrees": true, "init": true}

func init() {
	register("C29", "lock-set analysis: abstract interpretation of the SSA of ParseTSL and its listener (v5, v4) records the locks held at every use of the tables that all parsers share; type-based enumeration of every other use in the library", func(c *Check) error {
		c.assume = append(c.assume, "of the ANTLR runtime and the generated code, only reading tokens and running grammar rules uses memory shared between parsers; constructors and error listeners do not")
		for _, ver := range []string{"v5", "v4"} {
			e, err := newParse45(c, ver)
			if err != nil {
				return err
			}
			lock45(c, e)
		}
		for _, v := range []string{"v5:", "v4:"} {
			c.need(v+"parse", 30)
			c.need(v+"one lock", 1)
			c.need(v+"call sites", 1)
		}
		return nil
	})
}

func lock45(c *Check, e *parse45) {
	ver := e.g.ver
	runs, common := 0, map[string]int{}
	seen := map[string]bool{}
	site := func(in *Interp, fn *ssa.Function) string {
		if n := len(in.frames); n > 0 {
			return in.frames[n-1].fn.String() + " calls " + fn.Name()
		}
		return "calls " + fn.Name()
	}
	job := func(rule string, g pgen, lexErr, parseErr bool) func() {
		return func() {
			c.explore(e.g.m, ver+":parse", rule+" "+g.label, func(in *Interp, fail func(string, ...interface{})) {
				s := g.mk(in, "x")
				root := ctxNode("start", "Start", s.p)
				a := &antlr{g: e.g, in: in, pkg: e.pkg, tree: root, lexErr: lexErr, parseErr: parseErr}
				in.hook = a.hook
				held := map[string]int{}
				var always map[string]bool
				bad := ""
				in.onLock = func(op string, mutex Val, pos token.Pos) {
					p, ok := mutex.(VPtr)
					if !ok {
						in.undecided(pos, "lock %s", key(mutex))
					}
					if !p.obj.global {
						return // a lock of this call only protects nothing
					}
					name := fmt.Sprint(p.obj.name, p.path)
					switch op {
					case "Lock":
						if held[name] > 0 && bad == "" {
							bad = name + " is locked again while it is held"
						}
						held[name]++
					case "Unlock":
						held[name]--
						if held[name] < 0 && bad == "" {
							bad = name + " is unlocked without being locked"
						}
					case "RLock", "RUnlock":
					default:
						in.undecided(pos, "lock operation %s", op)
					}
				}
				n := func() (n int) {
					for _, x := range held {
						if x > 0 {
							n++
						}
					}
					return
				}
				in.onGlobal = func(name string, write bool, pos token.Pos) {
					if write && n() == 0 && bad == "" && !strings.HasSuffix(strings.ToLower(name), "mutex") {
						bad = fmt.Sprintf("package variable %s is written without a lock in %s", name, in.where(pos))
					}
				}
				a.shared = func(fn *ssa.Function) {
					if n() == 0 && bad == "" {
						bad = site(in, fn) + ", which uses the tables of all parsers, without a lock"
					}
					c.mu.Lock()
					seen[site(in, fn)] = true
					c.mu.Unlock()
					if always == nil {
						always = map[string]bool{}
						for k, v := range held {
							always[k] = v > 0
						}
					}
					for k := range always {
						always[k] = always[k] && held[k] > 0
					}
				}
				o := in.tryCall(e.parse, []Val{atom("input")})
				if bad == "" && n() > 0 {
					bad = "returns while the lock is held"
					if o.crash != nil {
						bad = "crashes while the lock is held, and does not release it"
					}
				}
				if bad != "" {
					fail("%s", bad)
					return
				}
				if !a.started {
					in.undecided(0, "the parser is not started")
				}
				c.mu.Lock()
				runs++
				for k, v := range always {
					if v {
						common[k]++
					}
				}
				c.mu.Unlock()
			})
		}
	}
	var jobs []func()
	for rule, gs := range e.sources() {
		for i, g := range gs {
			if i%9 == 0 {
				jobs = append(jobs, job(rule, g, false, false), job(rule+" after an illegal character", g, true, false), job(rule+" after a syntax error", g, false, true))
			}
		}
	}
	for i, g := range e.recovered() {
		if i%4 == 0 {
			jobs = append(jobs, job("recovered", g, true, true))
		}
	}
	parallel(jobs)
	full := 0
	for _, n := range common {
		if n == runs {
			full++
		}
	}
	if full == 0 {
		c.fail(ver+":one lock", "ParseTSL", "no lock is held in all %d analysed parses: %v", runs, common)
	} else {
		c.ok(ver+":one lock", 1)
	}
	// every other use in the library
	gen := e.pkg.Pkg.Path()
	for _, dir := range sortedDirs(e.g.m) {
		if !strings.HasPrefix(dir, "pkg/") || dir == "pkg/parser" {
			continue
		}
		for fn := range e.g.m.allFunctions(dir) {
			if dir == "pkg/tsl" && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					com := call.Common()
					name, recv := "", ""
					if com.IsInvoke() {
						name, recv = com.Method.Name(), com.Value.Type().String()
					} else if f := com.StaticCallee(); f != nil && f.Signature.Recv() != nil {
						name, recv = f.Name(), f.Signature.Recv().Type().String()
					} else {
						continue
					}
					if !strings.Contains(recv, "antlr") && !strings.Contains(recv, gen) || quietRecog[name] || !recogType(recv) {
						continue
					}
					if _, embedded := com.Value.(*ssa.Function); embedded && fn.Synthetic != "" {
						continue
					}
					if what := fn.String() + " calls " + name; !seen[what] {
						c.fail(ver+":call sites", what, "%s.%s uses the tables of all parsers outside the analysed parse", recv, name)
					} else {
						c.ok(ver+":call sites", 1)
					}
				}
			}
		}
	}
	c.cov[ver+" parses analysed"] = runs
	c.cov[ver+" locks held"] = common
}

// recogType tells lexers, token streams and parsers from trees and tokens.
func recogType(t string) bool {
	t = t[strings.LastIndex(t, ".")+1:]
	switch t {
	case "TSLLexer", "TSLParser", "BaseParser", "BaseLexer", "BaseRecognizer", "CommonTokenStream", "TokenStream", "TokenSource", "Lexer", "Parser", "Recognizer", "BufferedTokenStream", "ParserATNSimulator", "LexerATNSimulator", "IParserATNSimulator", "ILexerATNSimulator", "BaseATNSimulator":
		return true
	}
	return false
}

func sortedDirs(m *module) []string {
	s := map[string]bool{}
	for d := range m.byDir {
		s[d] = true
	}
	return sortedKeys(s)
}
