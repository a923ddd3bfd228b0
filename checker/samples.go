package main

import (
	"go/token"
	"hash/fnv"
	"reflect"
	"slices"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Texts of the input are unknown atoms as long as the code only moves,
// compares and concatenates them. Code that looks at the characters of such a
// text one by one has no finite abstraction here: the obligation is then
// decided again with the text taken from a list of samples, one partition for
// each. The evidence names the obligations this was done for.

// concretise ends the analysis of a partition: the texts are to be sampled.
type concretise struct {
	keys []string
	why  string
	pos  token.Pos
	fn   string
}

// fullSamples is how many texts of one obligation take every sample
// independently of each other. When there are more, all texts are sampled and
// go through the samples together.
const fullSamples = 2

func (in *Interp) pinned(k string) bool {
	return in.pinAll || slices.Contains(in.pins, k)
}

func (in *Interp) sampleIndex(k string, n int) int {
	if !in.pinAll {
		return in.choose("sample:"+k, n)
	}
	h := fnv.New32a()
	h.Write([]byte(k))
	return (in.choose("samples", len(textSamples)) + int(h.Sum32()%64)) % n
}

var textSamples = []string{"", "ab", " aB ", "%a_b.", "q\"'\\{}|<>$\n\t", "é☃Z", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"}

func samplesOf(op string) []string {
	kind, name, _ := strings.Cut(op, ":")
	switch kind {
	case "id":
		return []string{"f" + name, "a.b_" + name, "Né" + name + "[1].x"}
	case "date":
		if strings.HasSuffix(name, "r") {
			return []string{"2024-02-29"}
		}
		return []string{"2024-02-29", "1999-12-31"}
	case "stamp":
		if strings.HasSuffix(name, "r") {
			return []string{"2024-02-29T12:30:00Z"}
		}
		return []string{"2024-02-29T12:30:00Z", "1999-12-31T23:59:59.5+02:00"}
	}
	return textSamples
}

// leafText is a text of the input: unknown, or one of its samples.
func (in *Interp) leafText(op string) VStr {
	t := mkTerm(tString, op)
	if in.leaves == nil {
		in.leaves = map[string]bool{}
	}
	in.leaves[t.key] = true
	if l := samplesOf(op); in.pinned(t.key) {
		return cStr(l[in.sampleIndex(t.key, len(l))])
	}
	return atomStr(t)
}

var numSamples = []float64{5, 0, -1.5, 1e21, 123456789, 0.1, 1e-7}

// leafNum is a number of the input: unknown, or one of its samples when code
// looks at the characters of its text.
func (in *Interp) leafNum(op string) Val {
	t := mkTerm(tFloat, op)
	if in.leaves == nil {
		in.leaves = map[string]bool{}
	}
	in.leaves[t.key] = true
	if in.pinned(t.key) {
		return cFloat(numSamples[in.sampleIndex(t.key, len(numSamples))])
	}
	return t
}

var timeSamples = []string{"2024-02-29T00:00:00Z", "1999-12-31T23:59:59.5Z"}

// leafTime is a point in time of the input.
func (in *Interp) leafTime(op string) Val {
	t := mkTerm(in.timeType(), op)
	if in.leaves == nil {
		in.leaves = map[string]bool{}
	}
	in.leaves[t.key] = true
	if in.pinned(t.key) {
		return mkTerm(t.typ, "timeconst:"+timeSamples[in.sampleIndex(t.key, len(timeSamples))])
	}
	return t
}

// leavesOf lists the texts of the input a value is made from. It reports false
// when something else that is not known goes into the value.
func (in *Interp) leavesOf(v Val, seen map[string]bool) bool {
	switch v := v.(type) {
	case VConst, VNil:
		return true
	case VStr:
		for _, p := range v.parts {
			if p.atom != nil && !in.leavesOf(p.atom, seen) {
				return false
			}
		}
		return true
	case *VTerm:
		if in.leaves[v.key] {
			seen[v.key] = true
			return true
		}
		if len(v.args) == 0 {
			return false
		}
		for _, a := range v.args {
			if !in.leavesOf(a, seen) {
				return false
			}
		}
		return true
	case VIface:
		return in.leavesOf(v.v, seen)
	case VSlice:
		a, ok := v.arr.v.(VArray)
		if !ok {
			return false
		}
		for i := 0; i < v.len; i++ {
			if !in.leavesOf(a.e[v.off+i], seen) {
				return false
			}
		}
		return true
	}
	return false
}

// sample asks for the texts a value is made from to be sampled; it returns
// when the value is made from something else.
func (in *Interp) sample(v Val, pos token.Pos, why string) {
	if !in.mayPin {
		return
	}
	seen := map[string]bool{}
	if !in.leavesOf(v, seen) || len(seen) == 0 {
		return
	}
	fn := ""
	if len(in.stack) > 0 {
		fn = in.stack[len(in.stack)-1].String()
	}
	panic(concretise{keys: sortedKeys(seen), why: why, pos: pos, fn: fn})
}

// walked is how far into an unknown text code may look by position before the
// text is sampled.
const walked = 4

// stepping tells that an index is the counter of a loop: the loop walks over
// the characters.
func stepping(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.BinOp:
		return stepping(v.X) || stepping(v.Y)
	}
	return false
}

// textLoops are library functions that hand every character of a text to a
// function; they are modelled for known texts.
var textLoops = map[string]bool{"strings.Map": true, "strings.IndexFunc": true, "strings.LastIndexFunc": true, "strings.ContainsFunc": true,
	"strings.TrimFunc": true, "strings.TrimLeftFunc": true, "strings.TrimRightFunc": true, "strings.FieldsFunc": true}

func (in *Interp) textLoop(name string, args []Val, pos token.Pos) ([]Val, bool) {
	if !textLoops[name] || len(args) != 2 {
		return nil, false
	}
	ti, fi := 0, 1
	if name == "strings.Map" {
		ti, fi = 1, 0
	}
	s, ok := str1(args[ti])
	if !ok {
		in.sample(args[ti], pos, name)
		return nil, false
	}
	test := func(r rune) bool {
		res := in.apply1(args[fi], []Val{cInt(int64(r))}, pos)
		return in.truth(res[0], pos)
	}
	switch name {
	case "strings.Map":
		var b strings.Builder
		for _, r := range s {
			res := in.apply1(args[fi], []Val{cInt(int64(r))}, pos)
			n, ok := in.intOf(res[0])
			if !ok {
				return nil, false
			}
			if n >= 0 {
				b.WriteRune(rune(n))
			}
		}
		return []Val{cStr(b.String())}, true
	case "strings.IndexFunc":
		return []Val{cInt(int64(strings.IndexFunc(s, test)))}, true
	case "strings.LastIndexFunc":
		return []Val{cInt(int64(strings.LastIndexFunc(s, test)))}, true
	case "strings.ContainsFunc":
		return []Val{cBool(strings.ContainsFunc(s, test))}, true
	case "strings.TrimFunc":
		return []Val{cStr(strings.TrimFunc(s, test))}, true
	case "strings.TrimLeftFunc":
		return []Val{cStr(strings.TrimLeftFunc(s, test))}, true
	case "strings.TrimRightFunc":
		return []Val{cStr(strings.TrimRightFunc(s, test))}, true
	case "strings.FieldsFunc":
		var e []Val
		for _, f := range strings.FieldsFunc(s, test) {
			e = append(e, cStr(f))
		}
		return []Val{in.mkSlice(e)}, true
	}
	return nil, false
}

// sampleCall samples the texts handed to a library function that is folded
// for known texts only.
func (in *Interp) sampleCall(fn *ssa.Function, args []Val, pos token.Pos) {
	name := fullName(fn)
	f, ok := foldable[name]
	if !ok {
		return
	}
	takesText := false
	for i := 0; i < f.Type().NumIn(); i++ {
		takesText = takesText || f.Type().In(i).Kind() == reflect.String
	}
	if !takesText {
		return
	}
	all := VSlice{arr: in.newObj(VArray{args}, nil, "args"), len: len(args), cap: len(args)}
	in.sample(all, pos, name)
}

func init() {
	add := func(name string, f interface{}) { foldable[name] = reflect.ValueOf(f) }
	add("unicode/utf8.DecodeRuneInString", utf8.DecodeRuneInString)
	add("unicode/utf8.DecodeLastRuneInString", utf8.DecodeLastRuneInString)
	add("unicode/utf8.RuneCountInString", utf8.RuneCountInString)
	add("strings.LastIndexAny", strings.LastIndexAny)
	add("strings.SplitAfterN", strings.SplitAfterN)
}
