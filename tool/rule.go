package main

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

// Check collects the obligations of one property.
type Check struct {
	W    *World
	ID   string
	Tier string

	obls  map[string]*Obl // rule|construct
	funcs map[string]bool // functions analysed
	paths int
	sites int
	min   map[string]int
}

// Obl is one instance of a rule on one construct.
type Obl struct {
	Rule, Construct string
	Fails           []string
	Pos             string
}

func newCheck(w *World, id, tier string) *Check {
	return &Check{W: w, ID: id, Tier: tier, obls: map[string]*Obl{}, funcs: map[string]bool{}, min: map[string]int{}}
}

// ob returns the obligation, registering it.
func (c *Check) ob(rule, construct string) *Obl {
	k := rule + "|" + construct
	o := c.obls[k]
	if o == nil {
		o = &Obl{Rule: rule, Construct: construct}
		c.obls[k] = o
	}
	return o
}

// fail records that an obligation does not hold.
func (c *Check) fail(rule, construct string, pos token.Pos, format string, a ...interface{}) {
	o := c.ob(rule, construct)
	if len(o.Fails) == 0 {
		o.Pos = c.W.pos(pos)
	}
	m := fmt.Sprintf(format, a...)
	for _, f := range o.Fails {
		if f == m {
			return
		}
	}
	if len(o.Fails) < 4 {
		o.Fails = append(o.Fails, m)
	}
}

// expect registers an obligation and its outcome.
func (c *Check) expect(ok bool, rule, construct string, pos token.Pos, format string, a ...interface{}) bool {
	c.ob(rule, construct)
	if !ok {
		c.fail(rule, construct, pos, format, a...)
	}
	return ok
}

// atLeast demands a number of instances of a rule: a rule which matches nothing decides nothing.
func (c *Check) atLeast(rule string, n int) { c.min[rule] = n }

// run summarises fn and accounts for it; anything not followed is a failure of the rule.
func (c *Check) run(en *engine.Engine, rule string, fn *ssa.Function, args []*engine.Term, assume func(s *engine.State)) *engine.Summary {
	if fn == nil {
		return nil
	}
	s := en.Run(fn, args, assume)
	c.paths += len(s.Paths)
	for f := range en.Inlined() {
		c.funcs[f.String()] = true
	}
	if !s.Complete || len(s.Problems) > 0 {
		c.fail(rule, "undecided:"+short(fn), fn.Pos(), "%s cannot be followed: %v", short(fn), s.Problems)
	}
	return s
}

func short(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}

// known findings: property|rule|construct
func loadKnown(dir string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=C05 rule=<rule> construct=<construct> -- text; blanks are written as _
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " -- ")
		var prop, rule, con string
		for _, f := range strings.Fields(head) {
			k, v, _ := strings.Cut(f, "=")
			switch k {
			case "property":
				prop = v
			case "rule":
				rule = v
			case "construct":
				con = v
			}
		}
		r[prop+"|"+rule+"|"+con] = text
	}
	return r
}

func verifDir() string {
	if d := os.Getenv("GOORCVET_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (c *Check) finish(start time.Time, technique string) int {
	counts := map[string]int{}
	for _, o := range c.obls {
		if !strings.HasPrefix(o.Construct, "undecided:") {
			counts[o.Rule]++
		}
	}
	for r, n := range c.min {
		if counts[r] < n {
			c.fail(r, "instances", token.NoPos, "only %d instances found, %d expected: the code the rule is about was not recognised", counts[r], n)
		}
	}
	known := loadKnown(verifDir())
	var bad []*Obl
	var keys []string
	for k := range c.obls {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	discharged := 0
	nknown := 0
	for _, k := range keys {
		o := c.obls[k]
		if len(o.Fails) == 0 {
			discharged++
			continue
		}
		if t, ok := known[c.ID+"|"+strings.ReplaceAll(o.Rule, " ", "_")+"|"+strings.ReplaceAll(o.Construct, " ", "_")]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, o.Construct, t)
			nknown++
			continue
		}
		bad = append(bad, o)
	}
	var samples []string
	for i, k := range keys {
		if i%(1+len(keys)/8) == 0 {
			samples = append(samples, k)
		}
	}
	var fl []string
	for f := range c.funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fl)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var vs []string
	for _, o := range bad {
		vs = append(vs, fmt.Sprintf("%s %s %s: %s", o.Pos, o.Rule, o.Construct, strings.Join(o.Fails, "; ")))
	}
	cov := map[string]interface{}{
		"explanation": "static analysis of /repo's current source: " + technique,
		"obligations": len(keys), "discharged": discharged, "known_findings": nknown,
		"obligations_per_rule": counts, "functions_analysed": len(fl), "functions": fl,
		"paths_summarised": c.paths, "sites": c.sites, "samples": samples,
	}
	ev := map[string]interface{}{"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(vs)}
	if vs != nil {
		cov["violation_list"] = vs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), b, 0o644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d paths\n", c.ID, len(keys), discharged, len(fl), c.paths)
	if len(bad) == 0 {
		return 0
	}
	for _, o := range bad {
		h := sha1.Sum([]byte(o.Rule + o.Construct))
		rp := filepath.Join(dir, fmt.Sprintf("%s-%x.txt", c.ID, h[:4]))
		txt := fmt.Sprintf("property %s\nrule %s\nconstruct %s\nat %s\n%s\n", c.ID, o.Rule, o.Construct, o.Pos, strings.Join(o.Fails, "\n"))
		os.WriteFile(rp, []byte(txt), 0o644)
		fmt.Printf("%s: %s %s: %s\n", o.Pos, o.Rule, o.Construct, strings.Join(o.Fails, "; "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	}
	return 1
}
