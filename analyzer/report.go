package main

// Checks, their obligations, evidence and verdicts.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

type Check struct {
	id    string
	r     *Repo
	obls  map[string]*Obl
	order []string
	fns   map[*ssa.Function]bool
	sites map[ssa.Instruction]string
	loops map[*ssa.BasicBlock]bool
	calls map[string]int
	notes []string
	paths int
	steps int
	min   map[string]int // rule -> minimum number of obligations
	start time.Time
	what  string
	items map[string]int // property specific counts
}

type checkDef struct {
	id      string
	explain string
	run     func(c *Check)
}

var checks []checkDef

func register(id, explain string, run func(c *Check)) {
	checks = append(checks, checkDef{id, explain, run})
}

func newCheck(id string, r *Repo) *Check {
	return &Check{id: id, r: r, obls: map[string]*Obl{}, fns: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]string{},
		loops: map[*ssa.BasicBlock]bool{}, calls: map[string]int{}, min: map[string]int{}, start: time.Now(), items: map[string]int{}}
}

// oblige records an obligation: discharged unless one of its instances fails
func (c *Check) oblige(rule, construct string, ok bool, detail func() string) bool {
	k := rule + "|" + construct
	o := c.obls[k]
	if o == nil {
		o = &Obl{Rule: rule, Construct: construct, OK: true}
		c.obls[k] = o
		c.order = append(c.order, k)
	}
	if !ok && o.OK {
		o.OK = false
		if detail != nil {
			o.Detail = detail()
		}
	}
	return ok
}

func (c *Check) ok(rule, construct string) { c.oblige(rule, construct, true, nil) }
func (c *Check) fail(rule, construct, f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	c.oblige(rule, construct, false, func() string { return s })
}

// need resolves a function the property is anchored in
func (c *Check) need(name string) *ssa.Function {
	fn := c.r.fn(name)
	if fn == nil || fn.Blocks == nil {
		c.fail("anchor", name, "function not found in the source")
		return nil
	}
	c.ok("anchor", name)
	return fn
}

// guard runs f; an analysis that cannot decide is a failure of the check
func (c *Check) guard(rule, construct string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecided); ok {
				c.fail(rule, construct, "not decided: %s", u.msg)
			} else {
				c.fail(rule, construct, "not decided: %v", e)
			}
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%s %s: %v\n%s\n", rule, construct, e, debug.Stack())
			}
		}
	}()
	f()
}

func (c *Check) absorb(x *Exec) {
	for f := range x.fns {
		c.fns[f] = true
	}
	for s, k := range x.sites {
		c.sites[s] = k
	}
	for l := range x.loopsN {
		c.loops[l] = true
	}
	for k, n := range x.calls {
		c.calls[k] += n
	}
	c.paths += x.paths
	c.steps += x.steps
}

// call analyses one function on abstract arguments; crashes are obligations
func (c *Check) call(x *Exec, st *State, name string, args ...Value) []Outcome {
	fn := c.need(name)
	if fn == nil {
		return nil
	}
	var outs []Outcome
	c.guard("no-crash", name, func() {
		outs = x.callFn(st, fn, args, nil, nil)
	})
	return c.noCrash(name, outs)
}

// noCrash drops and reports the outcomes that crash
func (c *Check) noCrash(entry string, outs []Outcome) []Outcome {
	var ok []Outcome
	c.ok("no-crash", entry)
	for _, o := range outs {
		if o.panic == nil {
			ok = append(ok, o)
			continue
		}
		where := entry
		pos := "?"
		if o.panic.site != nil {
			where = fname(o.panic.site.Parent())
			pos = c.r.pos(o.panic.site.Pos())
		}
		if o.st.infeasible() {
			continue
		}
		p := o.panic
		st := o.st
		c.oblige("no-crash", entry+" -> "+where, false, func() string {
			return fmt.Sprintf("%s: %s: %s\n%s", pos, p.kind, p.msg, c.path(st))
		})
	}
	return ok
}

// path describes the decisions that lead to a state
func (c *Check) path(st *State) string {
	var ls []string
	last := ""
	for t := st.trace; t != nil; t = t.prev {
		n := len(t.b.Instrs)
		pos := "?"
		if i, ok := t.b.Instrs[n-1].(*ssa.If); ok {
			p := i.Cond.Pos()
			if !p.IsValid() {
				for j := n - 1; j >= 0 && !p.IsValid(); j-- {
					p = t.b.Instrs[j].Pos()
				}
			}
			pos = c.r.pos(p)
		}
		s := fmt.Sprintf("%s %s %v", fname(t.b.Parent()), pos, t.t)
		if s != last {
			ls = append(ls, s)
		}
		last = s
		if len(ls) > 60 {
			break
		}
	}
	for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
		ls[i], ls[j] = ls[j], ls[i]
	}
	r := "path (condition, outcome):\n  " + strings.Join(ls, "\n  ")
	if os.Getenv("VERIF_DEBUG") != "" {
		r += "\n" + st.dump()
	}
	return r
}

// ---------------------------------------------------------------- verdict

type finding struct {
	property, key, what string
}

func loadFindings(dir string) []finding {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := finding{}
		rest := strings.TrimPrefix(l, "finding: ")
		if i := strings.Index(rest, " "); i > 0 && strings.HasPrefix(rest, "property=") {
			f.property = strings.TrimPrefix(rest[:i], "property=")
			rest = rest[i+1:]
		}
		if strings.HasPrefix(rest, "key=\"") {
			if j := strings.Index(rest[5:], "\""); j >= 0 {
				f.key = rest[5 : 5+j]
				f.what = strings.TrimSpace(rest[5+j+1:])
			}
		}
		if f.property != "" && f.key != "" {
			r = append(r, f)
		}
	}
	return r
}

func (c *Check) finish(dir, explain string) int {
	for rule, n := range c.min {
		have := 0
		for _, o := range c.obls {
			if o.Rule == rule {
				have++
			}
		}
		if have < n {
			c.fail("coverage", rule, "%d obligations found, at least %d expected: the analysis no longer sees what it decides", have, n)
		}
	}
	var bad []*Obl
	var known []string
	fs := loadFindings(dir)
	disch := 0
	ruleN := map[string]int{}
	for _, k := range c.order {
		o := c.obls[k]
		ruleN[o.Rule]++
		if o.OK {
			disch++
			continue
		}
		isKnown := false
		for _, f := range fs {
			if f.property == c.id && f.key == o.Rule+" "+o.Construct {
				isKnown = true
				known = append(known, o.Construct+": "+f.what)
			}
		}
		if !isKnown {
			bad = append(bad, o)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, fname(f))
	}
	sort.Strings(fns)
	var samples []*Obl
	for i, k := range c.order {
		if i < 40 || !c.obls[k].OK {
			samples = append(samples, c.obls[k])
		}
	}
	kinds := map[string]int{}
	for _, k := range c.sites {
		kinds[k]++
	}
	if len(fns) > 400 {
		fns = fns[:400]
	}
	cov := map[string]interface{}{
		"explanation":            explain,
		"obligations":            len(c.obls),
		"discharged":             disch,
		"obligations_by_rule":    ruleN,
		"functions_analysed":     fns,
		"loops_summarised":       len(c.loops),
		"call_paths":             c.paths,
		"run_time_check_sites":   kinds,
		"library_models_applied": c.calls,
		"known_findings":         known,
		"samples":                samples,
	}
	for k, v := range c.items {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(),
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", c.id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
	}
	if len(bad) > 0 {
		rp := filepath.Join(dir, ".build", "replay", c.id+".txt")
		os.MkdirAll(filepath.Dir(rp), 0755)
		var sb strings.Builder
		for _, o := range bad {
			fmt.Fprintf(&sb, "property %s\nrule %s\nconstruct %s\n%s\n\n", c.id, o.Rule, o.Construct, o.Detail)
		}
		os.WriteFile(rp, []byte(sb.String()), 0644)
		for i, o := range bad {
			if i < 12 {
				d := o.Detail
				if j := strings.Index(d, "\n"); j >= 0 && os.Getenv("VERIF_DEBUG") == "" {
					d = d[:j]
				}
				fmt.Printf("  %s: %s: %s\n", o.Rule, o.Construct, d)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d loops=%d sites=%d wall=%.1fs\n", c.id, len(c.obls), len(c.fns), len(c.loops), len(c.sites), time.Since(c.start).Seconds())
	return 0
}

// ---------------------------------------------------------------- helpers of the checks

func (c *Check) sym(name string, t types.Type) Value {
	if isInt(t) {
		if b := t.Underlying().(*types.Basic); b.Kind() != types.Int {
			// one term names one integer of one type
			name += ":" + b.Name()
		}
	}
	return symVal(mkTerm("in:"+name), t)
}

var byteSlice = types.NewSlice(types.Typ[types.Uint8])

func (c *Check) symBytes(name string) VSlice { return c.sym(name, byteSlice).(VSlice) }

// symObj is a pointer to an object of which nothing is known
func (c *Check) symObj(st *State, name, typ string) VPtr {
	T := c.r.typ(typ)
	if T == nil {
		panic(undecided{"type " + typ + " not found"})
	}
	o := mkTerm("in:" + name)
	objType[o] = T
	p := VPtr{Obj: o}
	// capacity hints and counts kept in fields of type int are lengths
	if S, ok := T.Underlying().(*types.Struct); ok {
		for i := 0; i < S.NumFields(); i++ {
			if S.Field(i).Type() == types.Typ[types.Int] {
				if n, ok := st.field(p, S.Field(i).Name()).(VInt); ok {
					st.cons = st.cons.push(con{n.L, false})
					st.cons = st.cons.push(con{LC(1 << 40).sub(n.L), false})
				}
			}
		}
	}
	return p
}

// isNilErr: 1 nil, -1 an error, 0 unknown
func isNilErr(o Outcome, i int) int { return o.st.isNil(o.rets[i]) }

// prefixOf: slice p is the first n bytes of buf
func prefixOf(st *State, p Value, buf VSlice, n Lin) bool {
	s, ok := p.(VSlice)
	if !ok {
		return false
	}
	if s.Obj == nil {
		return st.eqL(n, LC(0))
	}
	if !st.eqL(s.Len, n) {
		return false
	}
	if s.Obj == buf.Obj && st.eqPath(s.Path, buf.Path) && st.eqL(s.Off, buf.Off) {
		return true
	}
	return st.eqContent(st.bytesOf(s), st.sub(st.arr(buf), buf.Off, n))
}

// isTrue: boolean v is known to be want
func (c *Check) isTrue(st *State, v Value, want bool) bool {
	b, ok := v.(VBool)
	if !ok {
		return false
	}
	d := st.decide(b.C)
	if want {
		return d == 1
	}
	return d == -1
}

// given restricts a state to those cases in which all conditions hold
func given(st *State, cs ...*Cond) []*State {
	sts := []*State{st}
	for _, cd := range cs {
		var n []*State
		for _, s := range sts {
			t, _ := s.branch(cd)
			n = append(n, t...)
		}
		sts = n
	}
	var r []*State
	for _, s := range sts {
		if !s.infeasible() {
			r = append(r, s)
		}
	}
	return r
}
