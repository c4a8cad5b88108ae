package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is a construct that breaks a property.
type Violation struct {
	Key       string // identifies the construct, without line numbers
	Construct string
	Pos       string
	Msg       string
	Path      []string
	known     bool
}

// Report collects what a check decided.
type Report struct {
	ID         string
	P          *Program
	Violations []*Violation
	Undecided  []string
	rules      map[string]*ruleCount
	units      map[string]bool
	funcs      map[string]bool
	oblig      int
	discharged int
	samples    []string
	steps      int
	calls      int
	loops      int
	outcomes   int
	external   map[string]int
	assume     []string
	tier       string
	explain    string
	engines    int
}

type ruleCount struct{ Decided, Failed int }

func (r *Report) rule(name string) *ruleCount {
	c := r.rules[name]
	if c == nil {
		c = &ruleCount{}
		r.rules[name] = c
	}
	return c
}

// OK records an obligation of the rule that is discharged.
func (r *Report) OK(rule, what string) {
	r.oblig++
	r.discharged++
	c := r.rule(rule)
	c.Decided++
	if len(r.samples) < 200 && (c.Decided <= 3 || c.Decided%97 == 0) {
		r.samples = append(r.samples, rule+": "+what)
	}
}

// Fail records a violation.
func (r *Report) Fail(rule, construct, pos, msg string, path []string) {
	r.oblig++
	c := r.rule(rule)
	c.Decided++
	c.Failed++
	v := &Violation{Key: rule + "/" + construct, Construct: construct, Pos: pos, Msg: msg, Path: path}
	for _, o := range r.Violations {
		if o.Key == v.Key && o.Msg == v.Msg && o.Pos == v.Pos {
			return
		}
	}
	r.Violations = append(r.Violations, v)
}

// Check records an obligation, discharged or not.
func (r *Report) Check(ok bool, rule, construct, pos, msg string, path []string) bool {
	if ok {
		r.OK(rule, construct)
	} else {
		r.Fail(rule, construct, pos, msg, path)
	}
	return ok
}

// Undec records something the analysis couldn't decide.
func (r *Report) Undec(what string) {
	for _, u := range r.Undecided {
		if u == what {
			return
		}
	}
	r.Undecided = append(r.Undecided, what)
}

func (r *Report) unit(s string) { r.units[s] = true }

// absorb adds the coverage of an analysis to the report.
func (r *Report) absorb(e *Engine) {
	for f := range e.Funcs {
		if f.Package() != nil && inRepo(f.Package().Pkg.Path()) {
			r.funcs[fnName(f)] = true
		}
	}
	r.steps += e.steps
	r.calls += e.Calls
	r.loops += e.Loops
	r.engines++
	for k, n := range e.External {
		r.external[k] += n
	}
	for _, a := range e.Alarms {
		if a.Kind == "undecided" {
			r.Undec(a.Pos + " " + a.Fn + ": " + a.Msg)
		}
	}
}

// safety turns the alarms of an analysis into violations. filter, if not
// nil, selects those that matter.
func (r *Report) safety(e *Engine, rule, entry string, filter func(a Alarm) bool) {
	n := 0
	for k, c := range e.Oblig {
		if k != "undecided" && (filter == nil || filter(Alarm{Kind: k})) {
			n += c
		}
	}
	bad := 0
	var keys []string
	for k := range e.Alarms {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		a := e.Alarms[k]
		if a.Kind == "undecided" || filter != nil && !filter(a) {
			continue
		}
		bad++
		r.Fail(rule, a.Fn+": "+a.Kind+": "+a.Msg, a.Pos, a.Kind+": "+a.Msg+" (analysing "+entry+")", a.Path)
	}
	c := r.rule(rule)
	c.Decided += n - bad
	r.oblig += n - bad
	r.discharged += n - bad
	if len(r.samples) < 200 {
		r.samples = append(r.samples, fmt.Sprintf("%s: %s: %d obligations on all paths", rule, entry, n))
	}
}

// within gives f a limited time, after which it is undecided.
func within(d time.Duration, f func()) {
	old := deadline
	if t := time.Now().Add(d); old.IsZero() || t.Before(old) {
		deadline = t
	}
	defer func() { deadline = old }()
	f()
}

// unitTime and checkLimit are the time limits of one unit of analysis and of a
// whole check.
const (
	unitTime   = 300 * time.Second
	checkLimit = 720 * time.Second
)

// guard runs a unit of analysis, which is undecided if it gives up.
func (r *Report) guard(what string, f func()) { r.guardFor(unitTime, what, f) }

func (r *Report) guardFor(d time.Duration, what string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			switch u := x.(type) {
			case undecidedErr:
				r.Undec(what + ": " + u.msg)
			default:
				r.Undec(what + ": internal error: " + fmt.Sprint(x))
				if os.Getenv("GC_STACK") != "" {
					fmt.Fprintln(os.Stderr, what, x)
					debug.PrintStack()
				}
			}
		}
	}()
	if os.Getenv("GC_TIME") != "" {
		t := time.Now()
		defer func() { fmt.Fprintf(os.Stderr, "%8.2fs %s\n", time.Since(t).Seconds(), what) }()
	}
	within(d, f)
}

// path describes the facts and events that lead to a state.
func statePath(st *State) []string {
	var l []string
	for _, f := range st.F.log {
		l = append(l, f.String())
	}
	for _, e := range st.ev.list() {
		s := evStr(e)
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		l = append(l, "event "+s)
	}
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	return l
}

// engine returns an analysis ready to start after initialisation.
func (r *Report) engine() *Engine {
	e := NewEngine(r.P)
	e.InitBase()
	return e
}

func (r *Report) fn(pkg, name string) *ssa.Function {
	f := r.P.Func(pkg, name)
	if f == nil {
		r.Undec("no function " + pkg + "." + name)
	}
	return f
}

func (r *Report) method(pkg, typ, name string) *ssa.Function {
	f := r.P.Method(pkg, typ, name)
	if f == nil {
		r.Undec("no method " + pkg + "." + typ + "." + name)
	}
	return f
}

type checkDef struct {
	run     func(r *Report)
	explain string
	assume  []string
}

var checkTab = map[string]checkDef{}

func register(id string, d checkDef) { checkTab[id] = d }

type knownFinding struct{ prop, key, text string }

func loadKnown(verif string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var l []knownFinding
	for _, s := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> :: <what fails>
		if !strings.HasPrefix(s, "finding: property=") {
			continue
		}
		s = strings.TrimPrefix(s, "finding: property=")
		id, rest, _ := strings.Cut(s, " key=")
		key, text, _ := strings.Cut(rest, " :: ")
		l = append(l, knownFinding{strings.TrimSpace(id), strings.TrimSpace(key), strings.TrimSpace(text)})
	}
	return l
}

func runChecks(p *Program, ids, verif string, t0 time.Time) int {
	var list []string
	if ids == "all" || ids == "" {
		for id := range checkTab {
			list = append(list, id)
		}
		sort.Strings(list)
	} else {
		list = strings.Split(ids, ",")
	}
	rc := 0
	known := loadKnown(verif)
	for n, id := range list {
		start := time.Now()
		if n == 0 {
			start = t0
		}
		d, ok := checkTab[id]
		if !ok {
			fmt.Println("gltfcheck: no check for", id)
			return 2
		}
		r := &Report{ID: id, P: p, rules: map[string]*ruleCount{}, units: map[string]bool{}, funcs: map[string]bool{}, external: map[string]int{}, tier: tier(), explain: d.explain, assume: d.assume}
		r.guardFor(checkLimit, "check "+id, func() { d.run(r) })
		if finish(r, verif, known, start) {
			rc = 1
		}
	}
	return rc
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func finish(r *Report, verif string, known []knownFinding, start time.Time) bool {
	bad := 0
	seen := map[string]bool{}
	for _, v := range r.Violations {
		for _, k := range known {
			if k.prop == r.ID && k.key == v.Key {
				v.known = true
				if !seen[k.key] {
					seen[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, k.text)
				}
			}
		}
		if !v.known {
			bad++
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o777)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rules := map[string]any{}
	for k, c := range r.rules {
		rules[k] = map[string]int{"decided": c.Decided, "failed": c.Failed}
	}
	var funcs, units []string
	for f := range r.funcs {
		funcs = append(funcs, f)
	}
	sort.Strings(funcs)
	for f := range r.units {
		units = append(units, f)
	}
	sort.Strings(units)
	sm := r.samples
	if len(sm) > 60 {
		sm = sm[:60]
	}
	ev := map[string]any{
		"property": r.ID, "tier": r.tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":        r.explain,
			"obligations":        r.oblig,
			"discharged":         r.discharged,
			"rules":              rules,
			"units_analysed":     units,
			"functions_analysed": funcs,
			"analyses_run":       r.engines,
			"abstract_steps":     r.steps,
			"calls_resolved":     r.calls,
			"loops_summarised":   r.loops,
			"exit_states":        r.outcomes,
			"unmodelled_calls":   r.external,
			"undecided":          r.Undecided,
			"samples":            sm,
		},
		"assumptions": r.assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  bad,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("gltfcheck:", err)
	}
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.ID+".json"), append(b, '\n'), 0o666); err != nil {
		fmt.Println("gltfcheck:", err)
	}
	for _, u := range r.Undecided {
		fmt.Printf("UNDECIDED property=%s %s\n", r.ID, u)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs\n", r.ID, r.oblig, r.discharged, len(r.Undecided), len(funcs), time.Since(start).Seconds())
	rep := filepath.Join(verif, "evidence", r.ID+".violation.txt")
	os.Remove(rep)
	if bad == 0 {
		return false
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s is violated; re-run with: sh /verif/check.sh %s\n", r.ID, r.ID)
	for _, v := range r.Violations {
		if v.known {
			continue
		}
		fmt.Fprintf(&sb, "\n[%s]\n%s: %s\n", v.Key, v.Pos, v.Msg)
		for _, l := range v.Path {
			fmt.Fprintf(&sb, "    %s\n", l)
		}
		fmt.Printf("%s: %s: %s: %s\n", r.ID, v.Pos, v.Construct, v.Msg)
	}
	os.WriteFile(rep, []byte(sb.String()), 0o666)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rep)
	return true
}
