package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is a broken or undecided obligation.
type Finding struct {
	rule, construct, msg string
}

func (f Finding) id() string { return f.rule + "|" + f.construct }

// Check accumulates what one property's analysis did.
type Check struct {
	mu        sync.Mutex
	id        string
	tier      string
	findings  map[string]Finding
	order     []string
	oblig     map[string]int // rule -> number of obligations decided
	parts     int            // abstract partitions
	funcs     map[string]bool
	ext       map[string]bool
	cblocks   map[*cBlock]bool
	notes     []string
	scope     []string
	assume    []string
	cov       map[string]interface{}
	minCounts map[string]int
	started   time.Time
	// effects: only writes to inputs and package variables are judged
	effects bool
	prefix  string
	// trial: findings are not final
	trial bool
	// samples: where the characters of unknown texts are looked at, with the
	// number of obligations decided on sample texts because of it
	samples map[string]int
}

func newCheck(id, tier string) *Check {
	return &Check{id: id, tier: tier, findings: map[string]Finding{}, oblig: map[string]int{}, cov: map[string]interface{}{}, funcs: map[string]bool{}, ext: map[string]bool{}, cblocks: map[*cBlock]bool{}, minCounts: map[string]int{}, started: time.Now()}
}

func (c *Check) thorough() bool { return c.tier == "thorough" }

func (c *Check) fail(rule, construct, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	f := Finding{rule, construct, fmt.Sprintf(format, a...)}
	if _, ok := c.findings[f.id()]; ok {
		return
	}
	c.findings[f.id()] = f
	c.order = append(c.order, f.id())
	if os.Getenv("VERIF_FIRST") != "" && !c.trial {
		// used when many changed trees are tried: the first finding will do
		fmt.Printf("FIRST property=%s %s | %s: %s\n", c.id, rule, construct, f.msg)
		os.Exit(1)
	}
}

func (c *Check) ok(rule string, n int) {
	c.mu.Lock()
	c.oblig[rule] += n
	c.mu.Unlock()
}

// need requires at least n obligations of a rule, so that a rule that matches
// nothing cannot pass.
func (c *Check) need(rule string, n int) { c.minCounts[c.prefix+rule] = n }

func (c *Check) note(format string, a ...interface{}) {
	c.notes = append(c.notes, fmt.Sprintf(format, a...))
}

const partitionBudget = 60000

// timeBudget ends a check whose obligations have far more partitions than they
// need.
const timeBudget = 11 * time.Minute

// explore analyses one obligation over all abstract partitions. body states
// the obligation: it runs the analysis and reports mismatches through fail.
func (c *Check) explore(m *module, rule, construct string, body func(in *Interp, fail func(format string, a ...interface{}))) {
	rule = c.prefix + rule
	var tape, start []int
	var pins []string
	n := 0
	failed := false
	if os.Getenv("VERIF_SLOW") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 2*time.Second {
				fmt.Fprintf(os.Stderr, "slow: %s | %s: %v, %d partitions\n", rule, construct, d, n)
			}
		}()
	}
	for {
		n++
		if os.Getenv("VERIF_SLOW") != "" && n == 3000 {
			fmt.Fprintf(os.Stderr, "many partitions: %s | %s\n", rule, construct)
		}
		if n > partitionBudget {
			c.fail(rule, construct, "undecided: more than %d abstract partitions", partitionBudget)
			failed = true
			break
		}
		if n > 1 && time.Since(c.started) > timeBudget {
			c.fail(rule, construct, "undecided: not all abstract partitions were analysed in %v", timeBudget)
			failed = true
			break
		}
		ch := newChooser(append([]int(nil), tape...))
		ch.width = make([]int, len(tape))
		in := newInterp(m, ch)
		in.pins, in.mayPin = pins, true
		in.pinAll = len(pins) > fullSamples
		again := false
		func() {
			defer func() {
				r := recover()
				switch p := r.(type) {
				case nil:
				case pruned:
				case exited:
				case concretise:
					again = true
					tape = start
					pins = append(pins, p.keys...)
					c.sampled(p, rule, construct)
				case absPanic:
					if c.effects {
						break
					}
					failed = true
					c.fail(rule, construct, "may crash: %s in %s (%s); partition: %s", p.what, p.fn, in.position(p.pos), traceOf(ch))
				case cExit:
					failed = true
					c.fail(rule, construct, "ends the process: %s; partition: %s", p.what, traceOf(ch))
				case cCrash:
					failed = true
					c.fail(rule, construct, "%s %s; partition: %s", p.fn, p.what, traceOf(ch))
				case undecided:
					failed = true
					c.fail(rule, construct, "undecided: %s in %s (%s); partition: %s", p.what, p.fn, in.position(p.pos), traceOf(ch))
				default:
					if os.Getenv("VERIF_DEBUG") != "" {
						panic(r)
					}
					failed = true
					c.fail(rule, construct, "undecided: analysis error %v; partition: %s", r, traceOf(ch))
				}
			}()
			if c.effects {
				defer func() {
					if len(in.writes) > 0 {
						failed = true
						c.fail(rule, construct, "%s; partition: %s", in.writes[0], traceOf(ch))
					}
				}()
			}
			body(in, func(format string, a ...interface{}) {
				if c.effects {
					return
				}
				failed = true
				c.fail(rule, construct, "%s; partition: %s", fmt.Sprintf(format, a...), traceOf(ch))
			})
		}()
		c.mu.Lock()
		c.parts++
		for f := range in.analysed {
			if f.Pkg != nil || f.Parent() != nil {
				c.funcs[f.String()] = true
			}
		}
		for e := range in.ext {
			c.ext[e] = true
		}
		if in.ci != nil {
			for f := range in.ci.analysed {
				c.funcs[f.mod.file+" "+f.name] = true
			}
			for e := range in.ci.ext {
				c.ext["libc "+e] = true
			}
			for b := range in.ci.blocks {
				c.cblocks[b] = true
			}
		}
		c.mu.Unlock()
		if failed {
			break
		}
		if again {
			continue
		}
		// next partition
		t, w := ch.tape[:ch.pos], ch.width
		i := len(t) - 1
		for i >= 0 && t[i]+1 >= w[i] {
			i--
		}
		if i < 0 {
			break
		}
		tape = append(append([]int(nil), t[:i]...), t[i]+1)
	}
	if !failed {
		c.ok(rule, 1)
	}
}

// sampled records that an obligation is decided on sample texts.
func (c *Check) sampled(p concretise, rule, construct string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.samples == nil {
		c.samples = map[string]int{}
	}
	c.samples[p.fn+": "+p.why]++
}

func traceOf(ch *chooser) string {
	t := ch.trace
	if len(t) > 14 {
		t = append(append([]string{}, t[:14]...), "...")
	}
	if len(t) == 0 {
		return "(any)"
	}
	return strings.Join(t, ", ")
}

// parallel runs independent obligations on several workers.
func parallel(jobs []func()) {
	ch := make(chan func())
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				f()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// call analyses a call of a named function of a package and separates its
// normal results from a crash.
type outcome struct {
	res   []Val
	crash *absPanic
}

func (in *Interp) tryCall(fn *ssa.Function, args []Val) (o outcome) {
	depth, stack, frames := in.depth, len(in.stack), len(in.frames)
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(absPanic); ok {
				in.depth, in.stack, in.frames = depth, in.stack[:stack], in.frames[:frames]
				o = outcome{crash: &p}
				return
			}
			panic(r)
		}
	}()
	return outcome{res: in.callFn(fn, args, nil, token.NoPos)}
}
