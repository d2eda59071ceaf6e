package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is one construct which breaks a rule.
type Violation struct {
	Key  string   `json:"key"` // rule and construct, stable over edits elsewhere
	Pos  string   `json:"pos"`
	Func string   `json:"func"`
	Msg  string   `json:"message"`
	Path []string `json:"path,omitempty"`
}

// Check is the run of one property's rules.
type Check struct {
	moves map[string]bool // operations that remove the source key
	ID    string
	P     *Prog
	Tier  string
	viol  []Violation
	seen  map[string]bool
	fns   map[string]bool
	paths int
	oblig int
	ok    int
	sites map[string]bool
	notes []string
	insts map[string]int
	rules map[string]bool
	engs  []*Engine
	cur   string
}

// Engine makes an engine whose undecided constructs count as violations of the check.
func (c *Check) Engine() *Engine {
	e := NewEngine(c.P)
	c.engs = append(c.engs, e)
	return e
}

// Rule names the rule for following obligations.
func (c *Check) Rule(format string, a ...any) {
	c.cur = fmt.Sprintf(format, a...)
	if c.rules == nil {
		c.rules = map[string]bool{}
	}
	c.rules[c.cur] = true
}

// Fn resolves an anchor; a missing one is a violation.
func (c *Check) Fn(spec string) *ssa.Function {
	fn := c.P.find(spec)
	if fn == nil || fn.Blocks == nil {
		c.Fail(token.NoPos, nil, "anchor "+spec, "function %s is not found in the current source", spec)
		return nil
	}
	return fn
}

// Fns resolves several anchors.
func (c *Check) Fns(specs ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, s := range specs {
		if fn := c.Fn(s); fn != nil {
			out = append(out, fn)
		}
	}
	return out
}

func (c *Check) Fail(pos token.Pos, fn *ssa.Function, key, format string, a ...any) {
	c.FailT(nil, pos, fn, key, format, a...)
}

// FailT reports a violation with the path that leads to it.
func (c *Check) FailT(st *State, pos token.Pos, fn *ssa.Function, key, format string, a ...any) {
	c.oblig++
	if c.seen == nil {
		c.seen = map[string]bool{}
	}
	v := Violation{Pos: c.P.Pos(pos), Msg: fmt.Sprintf(format, a...)}
	if fn != nil {
		v.Func = cname(fn)
		if !pos.IsValid() {
			v.Pos = c.P.Pos(fn.Pos())
		}
	}
	v.Key = c.cur + ": " + v.Func + ": " + key
	if c.seen[v.Key] {
		return
	}
	c.seen[v.Key] = true
	if st != nil {
		for _, ev := range st.Events() {
			if strings.HasSuffix(ev.Name, ".init") || !ev.Pos.IsValid() {
				continue
			}
			v.Path = append(v.Path, fmt.Sprintf("%s @%s", trim(ev.String(), 300), c.P.Pos(ev.Pos)))
		}
		if len(v.Path) > 60 {
			v.Path = append([]string{"..."}, v.Path[len(v.Path)-60:]...)
		}
		if os.Getenv("WPK_FACTS") != "" {
			for _, f := range st.facts.list() {
				v.Path = append(v.Path, "fact "+f)
			}
		}
	}
	c.viol = append(c.viol, v)
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Holds counts a discharged obligation.
func (c *Check) Holds() { c.oblig++; c.ok++ }

// Must counts an obligation and reports it if it does not hold.
func (c *Check) Must(cond bool, st *State, pos token.Pos, fn *ssa.Function, key, format string, a ...any) bool {
	if cond {
		c.Holds()
		return true
	}
	c.FailT(st, pos, fn, key, format, a...)
	return false
}

// Inst counts instances of a rule; see AtLeast.
func (c *Check) Inst(name string) {
	if c.insts == nil {
		c.insts = map[string]int{}
	}
	c.insts[name]++
}

// AtLeast fails when a rule matched fewer constructs than there must be.
func (c *Check) AtLeast(name string, n int) {
	if c.insts[name] < n {
		c.Fail(token.NoPos, nil, "instances "+name, "only %d instances of %q are found, at least %d are expected", c.insts[name], name, n)
	}
}

// Analysed counts a function and its paths.
func (c *Check) Analysed(fn *ssa.Function, outs []Outcome) {
	if c.fns == nil {
		c.fns = map[string]bool{}
	}
	c.fns[cname(fn)] = true
	c.paths += len(outs)
}

func (c *Check) Site(pos token.Pos) {
	if c.sites == nil {
		c.sites = map[string]bool{}
	}
	c.sites[c.P.Pos(pos)] = true
}

// Run interprets a function and counts its paths.
func (c *Check) Run(e *Engine, fn *ssa.Function, args []*Term, st *State) []Outcome {
	outs := splitErr(e.Run(fn, args, st))
	c.Analysed(fn, outs)
	if len(outs) == 0 {
		c.Fail(fn.Pos(), fn, "no path", "no path through %s could be followed", cname(fn))
	}
	return outs
}

type known struct{ Prop, Key, Text string }

// loadKnown reads the findings which are recorded and not repaired.
func loadKnown(file string) ([]known, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=<id> key=<key> :: <text>
		l = l[len("finding: "):]
		kv, text, _ := strings.Cut(l, " :: ")
		p, k, ok := strings.Cut(kv, " key=")
		if !ok {
			return nil, fmt.Errorf("malformed line in %s: %s", file, l)
		}
		out = append(out, known{strings.TrimPrefix(p, "property="), k, text})
	}
	return out, nil
}

type checkDef struct {
	id     string
	method string // technique
	expl   string // what is decided, by which rule
	assume []string
	run    func(c *Check)
}

var checkDefs = map[string]*checkDef{}

func register(id, method, expl string, assume []string, run func(c *Check)) {
	checkDefs[id] = &checkDef{id, method, expl, assume, run}
}

// otherPlatforms repeats the analysis on the code as it is built for the other systems the library
// supports: files, constants and functions of the standard library differ there.
func (c *Check) otherPlatforms(repo, root string) {
	for _, goos := range []string{"windows", "darwin"} {
		dir, err := os.MkdirTemp("", "wpkverif-")
		if err != nil {
			c.Fail(token.NoPos, nil, "platform "+goos, "%v", err)
			return
		}
		defer os.RemoveAll(dir)
		if b, err := os.ReadFile(filepath.Join(root, "known-findings.txt")); err == nil {
			os.WriteFile(filepath.Join(dir, "known-findings.txt"), b, 0o644)
		}
		self, err := os.Executable()
		if err != nil {
			c.Fail(token.NoPos, nil, "platform "+goos, "%v", err)
			return
		}
		cmd := exec.Command(self, "-repo", repo, "-root", dir, "-check", c.ID)
		cmd.Env = append(os.Environ(), "VERIF_TIER=quick", "GOOS="+goos, "GOARCH=amd64", "CGO_ENABLED=0")
		out, err := cmd.CombinedOutput()
		if err == nil {
			c.cur = "analysed for " + goos
			c.Inst("platform")
			continue
		}
		var vs []Violation
		if b, e := os.ReadFile(filepath.Join(dir, "evidence", c.ID+".violations.json")); e == nil {
			json.Unmarshal(b, &vs)
		}
		known := map[string]bool{}
		for _, v := range c.viol {
			known[v.Key] = true
		}
		for _, v := range vs {
			if !known[v.Key] {
				v.Msg = "built for " + goos + ": " + v.Msg
				c.viol = append(c.viol, v)
			}
		}
		if len(vs) == 0 {
			c.Fail(token.NoPos, nil, "platform "+goos, "no answer: %v: %s", err, out)
		}
	}
}

// runCheck analyses the repository for one property and writes evidence.
func runCheck(id, repo, root string) int {
	t0 := time.Now()
	def := checkDefs[id]
	if def == nil {
		fmt.Printf("no check for %s\n", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	c := &Check{ID: id, Tier: tier, cur: "setup"}
	p, err := Load(repo)
	if err != nil {
		c.P = &Prog{Dir: repo, Fset: token.NewFileSet()}
		c.Fail(token.NoPos, nil, "load", "%v", err)
	} else {
		c.P = p
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Fail(token.NoPos, nil, "analyzer", "analysis failed: %v\n%s", r, debug.Stack())
				}
			}()
			def.run(c)
		}()
		c.cur = "undecided"
		for _, e := range c.engs {
			for _, u := range e.Undecided {
				c.Fail(token.NoPos, nil, u, "%s: this construct is not decided by the analysis", u)
			}
			for fn := range e.FnSeen {
				if c.fns == nil {
					c.fns = map[string]bool{}
				}
				c.fns[cname(fn)] = true
			}
		}
	}
	if tier == "thorough" {
		c.otherPlatforms(repo, root)
	}
	kn, err := loadKnown(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		c.Fail(token.NoPos, nil, "known findings", "%v", err)
	}
	var bad []Violation
	used := map[int]bool{}
	for _, v := range c.viol {
		hit := false
		for i, k := range kn {
			if k.Prop == id && k.Key == v.Key {
				hit = true
				if !used[i] {
					used[i] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.Text)
				}
			}
		}
		if !hit {
			bad = append(bad, v)
		}
	}
	steps, loops, inl, merges := 0, 0, 0, 0
	for _, e := range c.engs {
		steps += e.steps
		loops += e.Stat["loops"]
		inl += e.Stat["inlined"]
		merges += e.Stat["merges"]
	}
	keys := func(m map[string]bool) []string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	fns := keys(c.fns)
	cov := map[string]any{
		"explanation":          def.expl,
		"technique":            def.method,
		"rules":                keys(c.rules),
		"functions_analysed":   len(fns),
		"functions":            fns,
		"abstract_paths":       c.paths,
		"obligations":          c.oblig,
		"obligations_held":     c.ok,
		"call_sites":           len(c.sites),
		"sites":                keys(c.sites),
		"rule_instances":       c.insts,
		"instructions_visited": steps,
		"calls_inlined":        inl,
		"loops_solved":         loops,
		"states_joined":        merges,
		"known_findings":       len(used),
		"notes":                c.notes,
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": def.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0o755)
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(bad) == 0 {
		os.Remove(filepath.Join(evdir, id+".violations.json"))
		fmt.Printf("OK property=%s functions=%d paths=%d obligations=%d/%d in %.2fs\n", id, len(fns), c.paths, c.ok, c.oblig, time.Since(t0).Seconds())
		return 0
	}
	rp := filepath.Join(evdir, id+".violations.json")
	b, _ = json.MarshalIndent(bad, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	for _, v := range bad {
		fmt.Printf("  %s: %s: %s\n    %s\n", v.Pos, v.Func, v.Key, strings.ToValidUTF8(v.Msg, "…"))
		for _, l := range v.Path {
			fmt.Println("      ", strings.ToValidUTF8(l, "…"))
		}
	}
	return 1
}
