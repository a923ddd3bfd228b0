package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
)

// likeLanguageDiffers compares the language of an (unanchored) regular
// expression with that of a LIKE pattern, by a product walk over the automata
// of both. It returns a text on which they differ.
func likeLanguageDiffers(re, pattern string, fold bool) (string, bool, error) {
	p, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return "", false, err
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return "", false, err
	}
	pat := []rune(pattern)
	// representatives of the character classes both sides distinguish
	reps := map[rune]bool{'\n': true, '\r': true, 'x': true, 'X': true, ' ': true, '7': true, 0x10FFFF: true, 0x80: true, 0: true, 0x2028: true}
	addR := func(r rune) {
		for _, x := range []rune{r - 1, r, r + 1} {
			if x < 0 || x > unicode.MaxRune {
				continue
			}
			reps[x] = true
			for f := unicode.SimpleFold(x); f != x; f = unicode.SimpleFold(f) {
				reps[f] = true
			}
		}
	}
	for _, r := range pat {
		addR(r)
	}
	for _, i := range prog.Inst {
		for _, r := range i.Rune {
			addR(r)
		}
	}
	var rl []rune
	for r := range reps {
		rl = append(rl, r)
	}
	sort.Slice(rl, func(i, j int) bool { return rl[i] < rl[j] })
	same := func(a, b rune) bool {
		if a == b {
			return true
		}
		if !fold {
			return false
		}
		for f := unicode.SimpleFold(a); f != a; f = unicode.SimpleFold(f) {
			if f == b {
				return true
			}
		}
		return false
	}
	n := len(pat)
	specClose := func(t []bool) {
		for i := 0; i < n; i++ {
			if t[i] && pat[i] == '%' {
				t[i+1] = true
			}
		}
	}
	type state struct {
		s       []bool
		t       []bool
		prev    rune
		matched bool
		text    string
	}
	keyOf := func(st state) string {
		var b strings.Builder
		if st.matched {
			b.WriteByte('M')
		} else {
			for _, x := range st.s {
				if x {
					b.WriteByte('1')
				} else {
					b.WriteByte('0')
				}
			}
			pc := "o"
			switch {
			case st.prev < 0:
				pc = "b"
			case st.prev == '\n':
				pc = "n"
			case syntax.IsWordChar(st.prev):
				pc = "w"
			}
			b.WriteString(pc)
		}
		b.WriteByte('|')
		for _, x := range st.t {
			if x {
				b.WriteByte('1')
			} else {
				b.WriteByte('0')
			}
		}
		return b.String()
	}
	start := state{s: make([]bool, len(prog.Inst)), t: make([]bool, n+1), prev: -1}
	start.t[0] = true
	specClose(start.t)
	seen := map[string]bool{keyOf(start): true}
	queue := []state{start}
	for len(queue) > 0 {
		st := queue[0]
		queue = queue[1:]
		for _, next := range append([]rune{-1}, rl...) {
			matched := st.matched
			var clo []bool
			if !matched {
				clo = make([]bool, len(prog.Inst))
				op := syntax.EmptyOpContext(st.prev, next)
				var visit func(pc uint32)
				visit = func(pc uint32) {
					if clo[pc] {
						return
					}
					clo[pc] = true
					in := prog.Inst[pc]
					switch in.Op {
					case syntax.InstAlt, syntax.InstAltMatch:
						visit(in.Out)
						visit(in.Arg)
					case syntax.InstCapture, syntax.InstNop:
						visit(in.Out)
					case syntax.InstEmptyWidth:
						if syntax.EmptyOp(in.Arg)&^op == 0 {
							visit(in.Out)
						}
					case syntax.InstMatch:
						matched = true
					}
				}
				for pc, x := range st.s {
					if x {
						visit(uint32(pc))
					}
				}
				visit(uint32(prog.Start))
			}
			if next < 0 {
				if matched != st.t[n] {
					return st.text, true, nil
				}
				continue
			}
			ns := state{s: make([]bool, len(prog.Inst)), t: make([]bool, n+1), prev: next, matched: matched, text: st.text + string(next)}
			if !matched {
				for pc, x := range clo {
					if !x {
						continue
					}
					in := prog.Inst[pc]
					switch in.Op {
					case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
						if in.MatchRune(next) {
							ns.s[in.Out] = true
						}
					}
				}
			}
			for i := 0; i < n; i++ {
				if !st.t[i] {
					continue
				}
				switch {
				case pat[i] == '%':
					ns.t[i] = true
				case pat[i] == '_' || same(pat[i], next):
					ns.t[i+1] = true
				}
			}
			specClose(ns.t)
			k := keyOf(ns)
			if !seen[k] {
				seen[k] = true
				if len(seen) > 20000 {
					return "", false, fmt.Errorf("automaton too large")
				}
				queue = append(queue, ns)
			}
		}
	}
	return "", false, nil
}
