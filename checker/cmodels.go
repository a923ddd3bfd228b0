package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Summaries of the C library functions.

func (ci *CI) constInt(v CV, what string) int64 {
	if v.k != cvInt {
		ci.crash("%s was never written", what)
	}
	if v.u != nil {
		if v.u.lo == v.u.hi {
			return v.u.lo + v.n
		}
		ci.undecided("%s is %s", what, v)
	}
	return ci.pick(v).n
}

func (ci *CI) byteAt(p CV, i int64) CV {
	v := ci.load(p.shift(i), 1, tI8)
	if v.k != cvInt {
		ci.crash("reads a character that was never written")
	}
	return v
}

func (ci *CI) strLen(p CV) int64 {
	p = ci.ptr(p)
	for i := int64(0); ; i++ {
		if !ci.truth(ci.byteAt(p, i)) {
			return i
		}
		ci.tick()
	}
}

func (ci *CI) tick() {
	ci.steps++
	if ci.steps > ci.maxSteps {
		ci.undecided("more than %d steps: the analysis does not settle", ci.maxSteps)
	}
}

func (ci *CI) ptr(p CV) CV {
	if p.k == cvInt && p.isConst() && p.n == 0 {
		return CV{k: cvPtr}
	}
	if p.k != cvPtr {
		ci.crash("uses a pointer that was never written")
	}
	if p.s != nil {
		p = ci.pick(p)
	}
	return p
}

func (ci *CI) malloc(n CV, name string) CV {
	size := ci.constInt(n, "the size of an allocation")
	if size < 0 {
		ci.crash("allocates %d bytes", size)
	}
	return CV{k: cvPtr, o: ci.alloc('h', size, name)}
}

// constStr is the constant text at p.
func (ci *CI) constStr(p CV) string {
	var b strings.Builder
	for i := int64(0); ; i++ {
		v := ci.byteAt(p, i)
		if !v.isConst() {
			ci.undecided("a text that must be constant is not")
		}
		if v.n == 0 {
			return b.String()
		}
		b.WriteByte(byte(v.n))
	}
}

// cCtype are the character classes of the C locale, as glibc numbers them.
func cCtype(c int) int64 {
	bit := func(n uint) int64 {
		if n < 8 {
			return 1 << n << 8
		}
		return 1 << n >> 8
	}
	var r int64
	up, lo, dig := c >= 'A' && c <= 'Z', c >= 'a' && c <= 'z', c >= '0' && c <= '9'
	if up {
		r |= bit(0)
	}
	if lo {
		r |= bit(1)
	}
	if up || lo {
		r |= bit(2)
	}
	if dig {
		r |= bit(3)
	}
	if dig || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' {
		r |= bit(4)
	}
	if c == ' ' || c >= 9 && c <= 13 {
		r |= bit(5)
	}
	if c >= 32 && c < 127 {
		r |= bit(6)
	}
	if c > 32 && c < 127 {
		r |= bit(7)
	}
	if c == ' ' || c == 9 {
		r |= bit(8)
	}
	if c >= 0 && c < 32 || c == 127 {
		r |= bit(9)
	}
	if c > 32 && c < 127 && !up && !lo && !dig {
		r |= bit(10)
	}
	if up || lo || dig {
		r |= bit(11)
	}
	return int64(int16(r))
}

func cToLower(x int64) int64 {
	if x >= 'A' && x <= 'Z' {
		return x + 32
	}
	return x
}

func cToUpper(x int64) int64 {
	if x >= 'a' && x <= 'z' {
		return x - 32
	}
	return x
}

// strtod reads the longest decimal number at p. The second result is its
// length.
func (ci *CI) strtod(p CV) (*cFlt, int64) {
	is := func(i int64, set string) bool {
		v := ci.byteAt(p, i)
		return ci.truth(v.mapped(1, func(x int64) int64 { return b2i(x != 0 && strings.IndexByte(set, byte(x)) >= 0) }))
	}
	i := int64(0)
	for is(i, " \t\n\r\v\f") {
		i++
	}
	start := i
	if is(i, "+-") {
		i++
	}
	if is(i, "iInN") {
		ci.undecided("strtod of a text that may be infinity or nan")
	}
	digits := 0
	if is(i, "0") {
		if is(i+1, "xX") {
			ci.undecided("strtod of a text that may be hexadecimal")
		}
	}
	for is(i, "0123456789") {
		i++
		digits++
	}
	if is(i, ".") {
		j := i + 1
		for is(j, "0123456789") {
			j++
			digits++
		}
		if digits > 0 {
			i = j
		}
	}
	if digits == 0 {
		return &cFlt{}, 0
	}
	if is(i, "eE") {
		j := i + 1
		if is(j, "+-") {
			j++
		}
		if is(j, "0123456789") {
			for is(j, "0123456789") {
				j++
			}
			i = j
		}
	}
	var key []string
	text := ""
	all := true
	for k := start; k < i; k++ {
		v := ci.byteAt(p, k)
		if v.isConst() {
			text += string(rune(byte(v.n)))
			key = append(key, string(rune(byte(v.n))))
		} else {
			all = false
			key = append(key, "<"+v.s.name+">")
		}
	}
	if all {
		f, _ := strconv.ParseFloat(text, 64)
		return &cFlt{c: f}, i
	}
	return &cFlt{c: 1, term: "number(" + strings.Join(key, "") + ")"}, i
}

func (ci *CI) external(name string, args []CV, ret *cType) CV {
	ci.ext[name] = true
	i32 := func(n int64) CV { return cvI(32, n) }
	switch {
	case strings.HasPrefix(name, "llvm.memcpy") || strings.HasPrefix(name, "llvm.memmove"):
		name = "memcpy"
	case strings.HasPrefix(name, "llvm.memset"):
		name = "memset"
	}
	switch name {
	case "malloc":
		return ci.malloc(args[0], "block")
	case "calloc":
		n := ci.constInt(args[0], "a size") * ci.constInt(args[1], "a size")
		p := ci.malloc(cvI(64, n), "block")
		p.o.zero = true
		return p
	case "realloc":
		p := ci.ptr(args[0])
		n := ci.malloc(args[1], "block")
		if !p.isNull() {
			size := p.o.size
			if n.o.size < size {
				size = n.o.size
			}
			if p.o.freed {
				ci.crash("resizes a block that was released")
			}
			ci.copyMem(n, CV{k: cvPtr, o: p.o}, size)
			ci.free(p)
		}
		return n
	case "free":
		ci.free(args[0])
		return CV{}
	case "strdup", "strndup":
		p := ci.ptr(args[0])
		var n int64
		if name == "strndup" {
			max := ci.constInt(args[1], "a length")
			for n = 0; n < max && ci.truth(ci.byteAt(p, n)); n++ {
			}
		} else {
			n = ci.strLen(p)
		}
		d := ci.malloc(cvI(64, n+1), "text")
		ci.copyMem(d, p, n)
		ci.put(d.o, n, 1, cvI(8, 0))
		return d
	case "strlen":
		return cvI(64, ci.strLen(args[0]))
	case "strnlen":
		p, max := ci.ptr(args[0]), ci.constInt(args[1], "a length")
		n := int64(0)
		for n < max && ci.truth(ci.byteAt(p, n)) {
			n++
		}
		return cvI(64, n)
	case "strcpy", "strcat", "stpcpy":
		d, s := ci.ptr(args[0]), ci.ptr(args[1])
		at := d
		if name == "strcat" {
			at = d.shift(ci.strLen(d))
		}
		n := ci.strLen(s)
		ci.copyMem(at, s, n+1)
		if name == "stpcpy" {
			return at.shift(n)
		}
		return d
	case "strncpy":
		d, s, max := ci.ptr(args[0]), ci.ptr(args[1]), ci.constInt(args[2], "a length")
		if max < 0 {
			ci.crash("copies %d characters", max)
		}
		i := int64(0)
		for ; i < max; i++ {
			v := ci.byteAt(s, i)
			ci.store(d.shift(i), 1, v)
			if !ci.truth(v) {
				break
			}
			ci.tick()
		}
		for ; i < max; i++ {
			ci.store(d.shift(i), 1, cvI(8, 0))
		}
		return d
	case "memcpy", "memmove":
		ci.copyMem(ci.ptr(args[0]), ci.ptr(args[1]), ci.constInt(args[2], "a length"))
		return args[0]
	case "memset":
		d, n := ci.ptr(args[0]), ci.constInt(args[2], "a length")
		v := args[1]
		if v.k == cvInt {
			v = v.mapped(8, func(x int64) int64 { return wrap(8, x) })
		}
		for i := int64(0); i < n; i++ {
			ci.store(d.shift(i), 1, v)
		}
		return args[0]
	case "strcmp", "strncmp", "memcmp", "strcasecmp", "strncasecmp":
		a, b := ci.ptr(args[0]), ci.ptr(args[1])
		max := int64(1 << 40)
		if len(args) > 2 {
			max = ci.constInt(args[2], "a length")
		}
		fold := strings.Contains(name, "case")
		for i := int64(0); i < max; i++ {
			x, y := ci.byteAt(a, i), ci.byteAt(b, i)
			cmp := ci.lift2(x, y, 32, func(p, q int64) int64 {
				p, q = p&255, q&255
				if fold {
					p, q = cToLower(p), cToLower(q)
				}
				switch {
				case p < q:
					return -1
				case p > q:
					return 1
				}
				return 0
			})
			cmp = ci.pick(cmp)
			if cmp.n != 0 {
				return cmp
			}
			if name != "memcmp" && !ci.truth(x) {
				break
			}
			ci.tick()
		}
		return i32(0)
	case "strchr", "strrchr", "memchr":
		p := ci.ptr(args[0])
		c := args[1]
		if c.k != cvInt || c.u != nil {
			c = cvI(32, ci.constInt(c, "a character"))
		}
		max := int64(1 << 40)
		if name == "memchr" {
			max = ci.constInt(args[2], "a length")
		}
		res := CV{k: cvPtr}
		for i := int64(0); i < max; i++ {
			v := ci.byteAt(p, i)
			if ci.truth(ci.lift2(v, c, 1, func(x, y int64) int64 { return b2i(x&255 == y&255) })) {
				res = p.shift(i)
				if name != "strrchr" {
					return res
				}
			}
			if name != "memchr" && !ci.truth(v) {
				break
			}
			ci.tick()
		}
		return res
	case "strspn", "strcspn":
		p, set := ci.ptr(args[0]), ci.constStr(ci.ptr(args[1]))
		for i := int64(0); ; i++ {
			v := ci.byteAt(p, i)
			in := ci.truth(v.mapped(1, func(x int64) int64 {
				return b2i(x != 0 && (strings.IndexByte(set, byte(x)) >= 0) == (name == "strspn"))
			}))
			if !in {
				return cvI(64, i)
			}
		}
	case "strtod", "atof":
		p := ci.ptr(args[0])
		f, n := ci.strtod(p)
		if name == "strtod" {
			if e := ci.ptr(args[1]); !e.isNull() {
				ci.store(e, 8, p.shift(n))
			}
		}
		return CV{k: cvFlt, f: f}
	case "tolower":
		return args[0].mapped(32, cToLower)
	case "toupper":
		return args[0].mapped(32, cToUpper)
	case "abs":
		return args[0].mapped(32, func(x int64) int64 {
			if x < 0 {
				return -x
			}
			return x
		})
	case "pow":
		if args[0].k == cvFlt && args[1].k == cvFlt && args[0].f.term == "" && args[1].f.term == "" {
			r := 1.0
			for i := 0.0; i < args[1].f.c && i < 64; i++ {
				r *= args[0].f.c
			}
			if args[1].f.c == float64(int(args[1].f.c)) && args[1].f.c >= 0 {
				return CV{k: cvFlt, f: &cFlt{c: r}}
			}
		}
		ci.undecided("pow of %s and %s", args[0], args[1])
	case "isspace", "isdigit", "isalpha", "isalnum", "isupper", "islower", "ispunct", "isxdigit", "isprint", "iscntrl", "isgraph":
		bit := map[string]func(c int64) bool{
			"isspace": func(c int64) bool { return c == ' ' || c >= 9 && c <= 13 },
			"isdigit": func(c int64) bool { return c >= '0' && c <= '9' },
			"isalpha": func(c int64) bool { return c|32 >= 'a' && c|32 <= 'z' },
			"isalnum": func(c int64) bool { return c|32 >= 'a' && c|32 <= 'z' || c >= '0' && c <= '9' },
			"isupper": func(c int64) bool { return c >= 'A' && c <= 'Z' },
			"islower": func(c int64) bool { return c >= 'a' && c <= 'z' },
		}[name]
		if bit == nil {
			ci.undecided("library function %s", name)
		}
		return args[0].mapped(32, func(x int64) int64 { return b2i(bit(x)) })
	case "__ctype_b_loc":
		if ci.ctype == nil {
			tab := &CObj{name: "character classes", kind: 'c', size: 768, romW: 2, rom: make([]int64, 384)}
			for i := range tab.rom {
				c := i - 128
				if c < -1 {
					c += 256
				}
				if c >= 0 {
					tab.rom[i] = cCtype(c)
				}
			}
			ci.ctype = &CObj{name: "pointer to the character classes", kind: 'c', size: 8, cells: map[int64]cCell{0: {8, CV{k: cvPtr, o: tab, n: 256}}}}
		}
		return CV{k: cvPtr, o: ci.ctype}
	case "snprintf", "sprintf":
		d := ci.ptr(args[0])
		max := int64(1 << 40)
		rest := args[1:]
		if name == "snprintf" {
			max = ci.constInt(args[1], "a size")
			rest = args[2:]
		}
		out := ci.format(ci.constStr(ci.ptr(rest[0])), rest[1:])
		n := int64(len(out))
		w := n
		if w > max-1 {
			w = max - 1
		}
		for i := int64(0); i < w; i++ {
			ci.store(d.shift(i), 1, out[i])
		}
		if max > 0 {
			ci.store(d.shift(w), 1, cvI(8, 0))
		}
		return i32(n)
	case "fprintf", "printf", "fputs", "puts", "perror":
		rest := args
		if name == "fprintf" {
			rest = args[1:]
		}
		if name == "fprintf" || name == "printf" {
			ci.format(ci.constStr(ci.ptr(rest[0])), rest[1:])
		} else {
			ci.strLen(ci.ptr(rest[0]))
		}
		return i32(0)
	case "fwrite", "fflush", "fputc", "putchar", "putc":
		return cvI(64, 0)
	case "exit", "abort", "_exit", "__assert_fail":
		panic(cExit{name + " called by " + ci.fnName()})
	case "isatty":
		return i32(0)
	case "fileno":
		return i32(0)
	case "__errno_location":
		return CV{k: cvPtr, o: ci.alloc('s', 4, "errno")}
	}
	ci.undecided("library function %s", name)
	return CV{}
}

// format is the text a printf format yields, as far as the sources use it.
func (ci *CI) format(f string, args []CV) []CV {
	var out []CV
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, cvI(8, int64(int8(s[i]))))
		}
	}
	take := func() CV {
		if len(args) == 0 {
			ci.crash("a format %q without its argument", f)
		}
		v := args[0]
		args = args[1:]
		return v
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		i++
		prec := int64(-1)
		if strings.HasPrefix(f[i:], ".*") {
			prec = ci.constInt(take(), "a precision")
			i += 2
		} else if i < len(f) && f[i] == '.' {
			i++
			prec = 0
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				prec = prec*10 + int64(f[i]-'0')
				i++
			}
		}
		for i < len(f) && (f[i] == 'l' || f[i] == 'z') {
			i++
		}
		if i >= len(f) {
			ci.undecided("format %q", f)
		}
		switch f[i] {
		case '%':
			lit("%")
		case 'd', 'i', 'u':
			v := take()
			if v.k != cvInt {
				ci.crash("prints a number that was never written")
			}
			if v.u != nil {
				lit("0")
				break
			}
			lit(fmt.Sprint(ci.pick(v).n))
		case 'c':
			out = append(out, take().mapped(8, func(x int64) int64 { return wrap(8, x) }))
		case 's':
			p := ci.ptr(take())
			for n := int64(0); prec < 0 || n < prec; n++ {
				v := ci.byteAt(p, n)
				if !ci.truth(v) {
					break
				}
				out = append(out, v.norm())
			}
		default:
			ci.undecided("format %q", f)
		}
	}
	return out
}
