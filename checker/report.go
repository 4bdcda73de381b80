package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one broken or undecided obligation. Key = rule|construct, never a line.
type Finding struct {
	Rule      string
	Construct string
	Pos       string
	Msg       string
}

func (f Finding) Key() string { return f.Rule + "|" + f.Construct }

type Report struct {
	Prop       string
	start      time.Time
	findings   []Finding
	seen       map[string]bool
	Obl        int
	Done       int
	Counters   map[string]int
	Rules      map[string]string
	Samples    []string
	sampleRule map[string]int
	Units      map[string]int
	Assume     []string
	platforms  []string
}

func NewReport(prop string) *Report {
	return &Report{Prop: prop, start: time.Now(), seen: map[string]bool{}, Counters: map[string]int{}, Rules: map[string]string{}, sampleRule: map[string]int{}, Units: map[string]int{}}
}

func (r *Report) Rule(id, text string) { r.Rules[id] = text }

// OK records a discharged obligation.
func (r *Report) OK(rule, construct string) {
	r.Obl++
	r.Done++
	r.Counters[rule]++
	if r.sampleRule[rule] < 3 {
		r.sampleRule[rule]++
		r.Samples = append(r.Samples, rule+": "+construct)
	}
}

// Bad records an obligation that is violated or could not be decided.
func (r *Report) Bad(rule, construct, pos, format string, args ...any) {
	r.Obl++
	r.Counters[rule]++
	f := Finding{rule, construct, pos, fmt.Sprintf(format, args...)}
	if r.seen[f.Key()] {
		return
	}
	r.seen[f.Key()] = true
	r.findings = append(r.findings, f)
}

func (r *Report) Check(ok bool, rule, construct, pos, format string, args ...any) {
	if ok {
		r.OK(rule, construct)
	} else {
		r.Bad(rule, construct, pos, format, args...)
	}
}

// Floor fails the check if fewer instances than confirmed by hand were analysed.
func (r *Report) Floor(rule string, min int) {
	if r.Counters[rule] < min {
		r.Bad("floor:"+rule, rule, "-", "only %d instances of this rule were found, at least %d were confirmed by hand: the rule no longer sees the code it is about", r.Counters[rule], min)
	}
}

type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Key      string `json:"key"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func verifDir() string {
	if d := os.Getenv("PHX_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown() ([]Known, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return nil, err
	}
	var k []Known
	return k, json.Unmarshal(b, &k)
}

func (r *Report) Finish(tier string, seed int) int {
	known, err := loadKnown()
	if err != nil {
		fmt.Println("cannot read known-findings.json:", err)
		return 2
	}
	km := map[string]Known{}
	for _, k := range known {
		if k.Property == r.Prop && k.Status == "known" {
			km[k.Key] = k
		}
	}
	sort.Slice(r.findings, func(i, j int) bool { return r.findings[i].Key() < r.findings[j].Key() })
	var viol []Finding
	nk := 0
	for _, f := range r.findings {
		if k, ok := km[f.Key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s) [%s]\n", r.Prop, k.What, f.Pos, f.Key())
			nk++
			continue
		}
		viol = append(viol, f)
	}
	ids := []string{}
	for id := range r.Rules {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	rules := []string{}
	for _, id := range ids {
		rules = append(rules, fmt.Sprintf("%s (%d instances): %s", id, r.Counters[id], r.Rules[id]))
	}
	cov := map[string]any{
		"explanation":    "Static analysis of the current source tree; every obligation is one instance of a rule at one construct. Rules: " + strings.Join(rules, " | "),
		"obligations":    r.Obl,
		"discharged":     r.Done,
		"known_findings": nk,
		"rule_instances": r.Counters,
		"analysed":       r.Units,
		"platforms":      r.platforms,
		"samples":        r.Samples,
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.Assume, "wall_s": time.Since(r.start).Seconds(), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)\n", r.Prop, r.Obl, r.Done, nk, len(viol), time.Since(r.start).Seconds())
	for _, id := range ids {
		fmt.Printf("  rule %-28s %5d instances\n", id, r.Counters[id])
	}
	rep := filepath.Join(verifDir(), "evidence", r.Prop+".violations.txt")
	if len(viol) == 0 {
		os.Remove(rep)
		return 0
	}
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: rule %s at %s: %s\n", f.Pos, f.Rule, f.Construct, f.Msg)
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rep)
	return 1
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
