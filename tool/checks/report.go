// Package checks decides the properties of /verif/properties.jsonl.
package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"ftverif/load"
)

// Ctx is what a check gets to work with.
type Ctx struct {
	P    *load.Program
	Tier string
	Res  *Result
	Rule string

	Deadline time.Time // when to give up
}

// Violation is one construct that breaks a rule.
type Violation struct {
	Key  string // rule + construct; stable across unrelated edits
	Pos  string
	Text string
}

// Result accumulates what one check analysed.
type Result struct {
	Rule        string
	Level       string // "proof" or "other"
	Obligations int
	Discharged  int
	Samples     []string
	Funcs       map[string]bool
	Violations  []Violation
	Extra       map[string]any
	Assumptions []string
	Explanation string
	Trusted     []string
	Undecided   []string // what kept the analysis from deciding; no verdict follows from it
	counts      map[string]int
}

// Undecide records that part of the property could not be decided.
func (r *Result) Undecide(format string, args ...any) {
	r.Undecided = append(r.Undecided, fmt.Sprintf(format, args...))
}

// Note records one discharged obligation.
func (r *Result) OK(format string, args ...any) {
	r.Obligations++
	r.Discharged++
	r.sample("ok: " + fmt.Sprintf(format, args...))
}

func (r *Result) sample(s string) {
	if len(r.Samples) < 400 {
		r.Samples = append(r.Samples, s)
	}
}

// Bad records one violated obligation.
func (r *Result) Bad(key, pos, format string, args ...any) {
	r.Obligations++
	r.Violations = append(r.Violations, Violation{key, pos, fmt.Sprintf(format, args...)})
}

// Count adds to a named count.
func (r *Result) Count(name string, n int) {
	if r.counts == nil {
		r.counts = map[string]int{}
	}
	r.counts[name] += n
}

// Fn records that a function was analysed.
func (r *Result) Fn(name string) {
	if r.Funcs == nil {
		r.Funcs = map[string]bool{}
	}
	r.Funcs[name] = true
}

// add joins another result to r.
func (r *Result) add(s *Result) {
	r.Obligations += s.Obligations
	r.Discharged += s.Discharged
	for _, x := range s.Samples {
		r.sample(x)
	}
	for f := range s.Funcs {
		r.Fn(f)
	}
	r.Violations = append(r.Violations, s.Violations...)
	for k, v := range s.Extra {
		r.Extra[k] = v
	}
	for k, n := range s.counts {
		r.Count(k, n)
	}
	r.Undecided = append(r.Undecided, s.Undecided...)
	if len(r.Assumptions) == 0 {
		r.Assumptions, r.Trusted = s.Assumptions, s.Trusted
	}
}

// Check is one registered property check.
type Check struct {
	ID    string
	Level string
	Run   func(*Ctx)
}

var registry = map[string]*Check{}

func register(id, level string, run func(*Ctx)) { registry[id] = &Check{id, level, run} }

// IDs lists the registered checks.
func IDs() []string {
	var s []string
	for k := range registry {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// budget is the time a check may take.
const budget = 8 * time.Minute

// Main runs the check and returns the exit code.
func Main(id, repo, verif, tier string, seed int) (code int) {
	start := time.Now()
	c := registry[id]
	if c == nil {
		fmt.Printf("unknown property %s (have %s)\n", id, strings.Join(IDs(), " "))
		return 2
	}
	res := &Result{Level: c.Level, Extra: map[string]any{}}
	func() {
		defer func() {
			if os.Getenv("FT_PANIC") != "" {
				return
			}
			if r := recover(); r != nil {
				res.Undecide("the analysis gave up: %v", r)
			}
		}()
		p, err := load.Load(repo, "example")
		if err != nil {
			res.Undecide("the repository could not be loaded: %v", err)
			return
		}
		c.Run(&Ctx{P: p, Tier: tier, Res: res, Deadline: start.Add(budget)})
		if res.Obligations == 0 && res.Undecided == nil {
			res.Bad("vacuous", "?", "the rule matched no construct at all")
		}
	}()
	// Known findings suppress exactly the listed keys.
	known := map[string]string{}
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			// finding: property=P01 key=<key> <text>
			if !strings.HasPrefix(l, "finding: property="+id+" key=") {
				continue
			}
			f := strings.SplitN(strings.TrimPrefix(l, "finding: property="+id+" key="), " ", 2)
			known[f[0]] = f[len(f)-1]
		}
	}
	var viol, kf []Violation
	for _, v := range res.Violations {
		if _, ok := known[strings.ReplaceAll(v.Key, " ", "_")]; ok {
			kf = append(kf, v)
		} else {
			viol = append(viol, v)
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o777)
	report := filepath.Join(evdir, id+".report.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: %s\nobligations %d, discharged %d\n", id, res.Rule, res.Obligations, res.Discharged)
	for _, v := range viol {
		fmt.Fprintf(&sb, "VIOLATED %s: [%s] %s\n", v.Pos, v.Key, v.Text)
	}
	for _, v := range kf {
		fmt.Fprintf(&sb, "known    %s: [%s] %s\n", v.Pos, v.Key, v.Text)
	}
	for _, s := range res.Samples {
		fmt.Fprintln(&sb, s)
	}
	os.WriteFile(report, []byte(sb.String()), 0o666)
	cov := map[string]any{
		"explanation":  res.Explanation,
		"rule":         res.Rule,
		"obligations":  res.Obligations,
		"discharged":   res.Discharged,
		"checker_cmd":  "./check.sh " + id,
		"trusted_base": append([]string{"go/types and golang.org/x/tools/go/ssa (front end)", "the analysis in /verif/tool"}, res.Trusted...),
	}
	if res.Undecided != nil {
		cov["undecided"] = res.Undecided
	}
	for k, v := range res.counts {
		cov[k] = v
	}
	for k, v := range res.Extra {
		cov[k] = v
	}
	var fns []string
	for f := range res.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov["functions_analysed"] = fns
	if len(res.Samples) > 40 {
		cov["samples"] = res.Samples[:40]
	} else {
		cov["samples"] = res.Samples
	}
	var vs []string
	for _, v := range viol {
		vs = append(vs, v.Pos+": ["+v.Key+"] "+v.Text)
	}
	if vs != nil {
		cov["violating_constructs"] = vs
	}
	if res.Assumptions == nil {
		res.Assumptions = []string{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": res.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o666)
	fmt.Printf("%s: %d obligations, %d discharged, %d violated (%.1fs)\n", id, res.Obligations, res.Discharged, len(viol), time.Since(start).Seconds())
	for _, u := range res.Undecided {
		fmt.Printf("UNDECIDED: property=%s %s\n", id, u)
	}
	for _, v := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s] %s\n", id, v.Pos, v.Key, v.Text)
	}
	for _, v := range viol {
		fmt.Printf("  %s: [%s] %s\n", v.Pos, v.Key, v.Text)
	}
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
		return 1
	}
	return 0
}
