// Command verifcheck decides the properties of tree-search-language listed in
// /verif/properties.jsonl by static analysis of the sources in /repo.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

var verifRoot = "/verif"

type checkDef struct {
	run       func(c *Check) error
	technique string
}

var checks = map[string]checkDef{}

func register(id, technique string, run func(c *Check) error) {
	checks[id] = checkDef{run, technique}
}

func main() {
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoRoot = v
	}
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		verifRoot = v
	}
	if len(os.Args) < 2 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\n", id, checks[id].technique)
		}
		return
	}
	id := os.Args[1]
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	debug.SetMemoryLimit(8 << 30)
	def, ok := checks[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check for %s\n", id)
		os.Exit(2)
	}
	c := newCheck(id, tier)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(r)
				}
				c.fail("analysis", "internal", "undecided: the analysis stopped: %v", r)
			}
		}()
		if err := def.run(c); err != nil {
			c.fail("analysis", "source", "undecided: %v", err)
		}
	}()
	for r, n := range c.minCounts {
		if c.oblig[r] < n && !c.hasFinding(r) {
			c.fail("count", r, "rule %s decided %d obligations, expected at least %d: its anchor in the source has gone", r, c.oblig[r], n)
		}
	}
	os.Exit(c.report(def))
}

func (c *Check) hasFinding(rule string) bool {
	for _, f := range c.findings {
		if f.rule == rule {
			return true
		}
	}
	return false
}

// known reads the committed list of recorded defects: lines
// "known: property=<id> at=<rule>|<construct> what=<text>".
func (c *Check) known() map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verifRoot, "known-findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+c.id+" at=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+c.id+" at=")
		i := strings.Index(l, " what=")
		if i < 0 {
			continue
		}
		out[l[:i]] = l[i+len(" what="):]
	}
	return out
}

func (c *Check) report(def checkDef) int {
	known := c.known()
	var viol []string
	var kn []string
	sort.Strings(c.order)
	for _, id := range c.order {
		if what, ok := known[id]; ok {
			kn = append(kn, id)
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.id, what, id)
			continue
		}
		viol = append(viol, id)
	}
	total, rules := 0, []string{}
	for r, n := range c.oblig {
		total += n
		rules = append(rules, fmt.Sprintf("%s: %d", r, n))
	}
	sort.Strings(rules)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation":          "Static analysis of the source in /repo, nothing is run: " + def.technique,
		"obligations":          total + len(c.order),
		"discharged":           total,
		"obligations_by_rule":  rules,
		"abstract_partitions":  c.parts,
		"functions_analysed":   sortedKeys(c.funcs),
		"opaque_externals":     sortedKeys(c.ext),
		"scope":                c.scope,
		"checker_cmd":          strings.Join(os.Args, " "),
		"trusted_base":         []string{"the Go type checker and golang.org/x/tools/go/ssa", "the library summaries in checker/models.go and checker/squirrel.go", "the reference semantics written in checker/c_*.go"},
		"undischarged_or_open": append([]string{}, c.order...),
		"known_findings":       kn,
	}
	if len(c.samples) > 0 {
		var l []string
		for k, n := range c.samples {
			l = append(l, fmt.Sprintf("%s: %d obligations", k, n))
		}
		sort.Strings(l)
		cov["decided_on_sample_texts"] = l
		c.assume = append(c.assume, "code that looks at the characters of an unknown text one by one treats all texts as it treats the sample texts")
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	for k, v := range c.cov {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(c.started).Seconds(),
		"assumptions": c.assume, "violations": len(viol),
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verifRoot, "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	replay := filepath.Join(dir, "replay", c.id+".txt")
	os.Remove(replay)
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d partitions=%d functions=%d wall=%.1fs\n", c.id, total, c.parts, len(c.funcs), time.Since(c.started).Seconds())
		return 0
	}
	var out strings.Builder
	fmt.Fprintf(&out, "property %s: %d obligations not discharged\nre-run: %s\n\n", c.id, len(viol), strings.Join(os.Args, " "))
	for _, id := range viol {
		f := c.findings[id]
		fmt.Fprintf(&out, "rule      %s\nconstruct %s\n%s\n\n", f.rule, f.construct, f.msg)
	}
	os.WriteFile(replay, []byte(out.String()), 0o644)
	n := 0
	for _, id := range viol {
		if n == 25 {
			fmt.Printf("... %d more in %s\n", len(viol)-n, replay)
			break
		}
		f := c.findings[id]
		fmt.Printf("%s | %s: %s\n", f.rule, f.construct, f.msg)
		n++
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	return 1
}
