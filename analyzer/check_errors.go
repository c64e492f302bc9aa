package main

// X01: a failure is never reported as success. A path analysis of every call
// that returns an error.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errorType = types.Universe.Lookup("error").Type()

func isErrorT(t types.Type) bool { return t != nil && types.Identical(t, errorType) }

// neverFails: their error result is documented to be always nil, or reports
// only that a message for a human could not be shown
func neverFails(cm *ssa.CallCommon) bool {
	name := calleeName(cm)
	if strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") {
		return true
	}
	for _, s := range []string{"(*bytes.Buffer).Write", "(*strings.Builder).Write", "(hash.Hash32).Write", "(hash.Hash).Write", "(hash.Hash64).Write"} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

func calleeName(cm *ssa.CallCommon) string {
	if cm.IsInvoke() {
		return "(" + typeString(cm.Value.Type()) + ")." + cm.Method.Name()
	}
	if f := cm.StaticCallee(); f != nil {
		return f.String()
	}
	return "a function value"
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// errSite is a call that returns an error
type errSite struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	idx  int // result number, -1: the only one
}

func errIndex(sig *types.Signature) int {
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrorT(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// errPath explores the paths from a call until its error is dealt with
type errPath struct {
	c      *Check
	site   errSite
	name   string
	stop   bool // only whether it can return at all
	seen   map[string]bool
	failed string
	steps  int
	tests  int
	bools  [3][]string // what it answers if nothing is known, on failure, on success
}

// answers: the function reports a failure by what it answers
func (p *errPath) answers() bool {
	rs := p.site.fn.Signature.Results()
	if errIndex(p.site.fn.Signature) >= 0 {
		return false
	}
	for i := 0; i < rs.Len(); i++ {
		if isBoolT(rs.At(i).Type()) {
			return true
		}
	}
	return false
}

// stopsOn: f does not return when its k-th argument is an error
func stopsOn(c *Check, f *ssa.Function, k int) bool {
	if len(f.Blocks) == 0 || k >= len(f.Params) || !isErrorT(f.Params[k].Type()) {
		return false
	}
	q := &errPath{c: c, site: errSite{fn: f}, seen: map[string]bool{}, stop: true}
	s := newErrState()
	s.alias[f.Params[k]] = true
	q.run(f.Blocks[0], 0, s)
	return q.failed == ""
}

func newErrState() *errState {
	return &errState{alias: map[ssa.Value]bool{}, fail: map[ssa.Value]bool{}, cond: map[ssa.Value]bool{}, cells: map[ssa.Value]ssa.Value{}}
}

type errState struct {
	alias  map[ssa.Value]bool // values that are the error on this path
	fail   map[ssa.Value]bool // other errors known not to be nil on this path
	status int                // 0 not looked at, 1 a failure
	used   bool               // handed to something else
	again  bool               // the same thing was asked of something that can fail
	cond   map[ssa.Value]bool // booleans that are known on this path
	cells  map[ssa.Value]ssa.Value
}

func (s *errState) clone() *errState {
	n := &errState{alias: map[ssa.Value]bool{}, fail: map[ssa.Value]bool{}, cond: map[ssa.Value]bool{}, cells: map[ssa.Value]ssa.Value{}, status: s.status, used: s.used, again: s.again}
	for v := range s.alias {
		n.alias[v] = true
	}
	for v := range s.fail {
		n.fail[v] = true
	}
	for v, b := range s.cond {
		n.cond[v] = b
	}
	for v, b := range s.cells {
		n.cells[v] = b
	}
	return n
}

func (s *errState) key() string {
	var k []string
	for v := range s.alias {
		k = append(k, "a"+v.Name())
	}
	for v := range s.fail {
		k = append(k, "f"+v.Name())
	}
	for v, b := range s.cond {
		k = append(k, fmt.Sprint("c", v.Name(), b))
	}
	for v, b := range s.cells {
		k = append(k, "m"+v.Name()+"="+b.Name())
	}
	sort.Strings(k)
	return fmt.Sprint(s.status, s.used, s.again, k)
}

// surelyError: v cannot be nil
func (p *errPath) surelyError(s *errState, v ssa.Value) bool {
	switch a := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.MakeInterface:
		// an error made from a value that is not an error itself
		_, isPtr := a.X.Type().Underlying().(*types.Pointer)
		if _, ok := a.X.(*ssa.Alloc); ok || !isPtr {
			return true
		}
		return false
	case *ssa.ChangeInterface:
		return p.surelyError(s, a.X)
	case *ssa.Call:
		if f := a.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "fmt.Errorf", "errors.New":
				return true
			}
			return alwaysError(f, map[*ssa.Function]bool{})
		}
	case *ssa.UnOp:
		if a.Op == token.MUL {
			if _, ok := a.X.(*ssa.Global); ok {
				return true // a declared error, like io.EOF
			}
			if w, ok := s.cells[a.X]; ok {
				return s.alias[w] && s.status == 1 || s.fail[w] || p.surelyError(s, w)
			}
		}
	}
	return s.fail[v]
}

// alwaysError: every return of f gives an error
func alwaysError(f *ssa.Function, busy map[*ssa.Function]bool) bool {
	i := errIndex(f.Signature)
	if i < 0 || len(f.Blocks) == 0 || busy[f] {
		return false
	}
	busy[f] = true
	n := 0
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			c, ok := r.Results[i].(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				return false
			}
			if g := c.Call.StaticCallee(); g.String() != "fmt.Errorf" && g.String() != "errors.New" && !alwaysError(g, busy) {
				return false
			}
		}
	}
	return n > 0
}

// neverError: every return of f gives nil, or what never is an error
func neverError(f *ssa.Function, busy map[*ssa.Function]bool) bool {
	i := errIndex(f.Signature)
	if i < 0 || len(f.Blocks) == 0 {
		return false
	}
	if busy[f] {
		return true
	}
	busy[f] = true
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			switch v := r.Results[i].(type) {
			case *ssa.Const:
			case *ssa.Call:
				g := v.Call.StaticCallee()
				if g == nil || !neverError(g, busy) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// cannotFail: nothing that the call can reach ever gives an error
func (c *Check) cannotFail(ci ssa.CallInstruction) bool {
	var fs []*ssa.Function
	if f := ci.Common().StaticCallee(); f != nil {
		fs = []*ssa.Function{f}
	} else {
		fs = c.r.callees(ci)
		if made := c.madeBy(ci); len(made) > 0 {
			var g []*ssa.Function
			for _, f := range fs {
				if r := f.Signature.Recv(); r != nil && made[typeString(r.Type())] {
					g = append(g, f)
				}
			}
			fs = g
		}
	}
	for _, f := range fs {
		if !neverError(f, map[*ssa.Function]bool{}) {
			return false
		}
	}
	return len(fs) > 0
}

// madeBy: the call is made by a method of a type that keeps the parts it
// calls to itself; the types of such parts are those that the type's own
// functions, and what they call directly, make
func (c *Check) madeBy(ci ssa.CallInstruction) map[string]bool {
	owner := ci.Parent().Signature.Recv()
	if owner == nil || !strings.HasSuffix(typeString(owner.Type()), ".Trie") {
		return nil
	}
	made := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.MakeInterface:
					if types.Identical(v.Type(), ci.Common().Value.Type()) {
						made[typeString(v.X.Type())] = true
					}
				case ssa.CallInstruction:
					walk(v.Common().StaticCallee())
				}
			}
		}
	}
	for _, f := range c.r.funcs {
		if r := f.Signature.Recv(); r != nil && types.Identical(r.Type(), owner.Type()) && givesPart(f, ci.Common().Value.Type()) {
			walk(f)
		}
		if rs := f.Signature.Results(); rs.Len() > 0 && types.Identical(rs.At(0).Type(), owner.Type()) {
			walk(f)
		}
	}
	return made
}

// givesPart: f may put a part of type t somewhere: it stores one, or hands one
// to something
func givesPart(f *ssa.Function, t types.Type) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Store:
				if types.Identical(v.Val.Type(), t) {
					return true
				}
			case ssa.CallInstruction:
				if f := v.Common().StaticCallee(); f != nil && f.Signature.Results().Len() > 0 {
					if n, ok := f.Signature.Results().At(0).Type().(*types.Pointer); ok && strings.Contains(typeString(n), "Iterator") {
						continue
					}
				}
				for _, a := range v.Common().Args {
					if types.Identical(a.Type(), t) {
						return true
					}
				}
			}
		}
	}
	return false
}

// alternative: the operation documents a result that is good in spite of an
// error, and the function hands that result on
func alternative(site errSite) bool {
	v, ok := site.call.(*ssa.Call)
	if !ok || errIndex(site.fn.Signature) >= 0 {
		return false
	}
	switch calleeName(&v.Call) {
	case "(*bufio.Reader).ReadString":
		// what was read before the input ended
		return true
	}
	return false
}

// isErr: v is the error of the call on this path
func (p *errPath) isErr(s *errState, v ssa.Value) bool {
	if s.alias[v] {
		return true
	}
	switch a := v.(type) {
	case *ssa.ChangeInterface:
		return p.isErr(s, a.X)
	case *ssa.UnOp:
		if a.Op == token.MUL {
			if w, ok := s.cells[a.X]; ok {
				return p.isErr(s, w)
			}
		}
	}
	return false
}

// nilTest: cond is a comparison of an error with nil
func nilTest(v ssa.Value) (e ssa.Value, neq bool, ok bool) {
	b, isb := v.(*ssa.BinOp)
	if !isb || b.Op != token.EQL && b.Op != token.NEQ {
		return nil, false, false
	}
	x, y := b.X, b.Y
	if c, isc := x.(*ssa.Const); isc && c.IsNil() {
		x, y = y, x
	}
	if c, isc := y.(*ssa.Const); !isc || !c.IsNil() || !isErrorT(x.Type()) {
		return nil, false, false
	}
	return x, b.Op == token.NEQ, true
}

func (p *errPath) fails(in ssa.Instruction, why string) {
	if p.failed == "" {
		p.failed = p.c.r.pos(in.Pos()) + ": " + why
	}
}

func (p *errPath) run(b *ssa.BasicBlock, i int, s *errState) {
	for ; i < len(b.Instrs); i++ {
		p.steps++
		if p.steps > 200000 {
			p.fails(b.Instrs[i], "too many paths")
			return
		}
		in := b.Instrs[i]
		if c, ok := in.(ssa.CallInstruction); ok && c == p.site.call {
			// tried again
			if s.status == 0 && !s.used {
				p.fails(in, "the error is overwritten before anything looks at it")
			}
			if s.status == 1 && !sameOperands(c) {
				p.fails(in, "it goes on with another one although the call failed")
			}
			return
		}
		switch v := in.(type) {
		case *ssa.Store:
			if isErrorT(v.Val.Type()) {
				if _, ok := v.Addr.(*ssa.Alloc); ok {
					s.cells[v.Addr] = v.Val
					continue
				}
				if p.isErr(s, v.Val) {
					s.used = true // kept somewhere
				}
			}
		case *ssa.UnOp:
			if v.Op == token.MUL && isErrorT(v.Type()) {
				if w, ok := s.cells[v.X]; ok {
					if p.isErr(s, w) {
						s.alias[v] = true
					} else if s.fail[w] || p.surelyError(s, w) {
						s.fail[v] = true
					}
				}
			}
		case *ssa.Call:
			if p.site.fn.Signature.Results().Len() == 0 || errIndex(p.site.fn.Signature) < 0 {
				// the function cannot report: telling someone is enough
				for _, a := range v.Call.Args {
					if p.mentions(s, a) {
						s.used = true
					}
				}
			}
			if isExit(&v.Call) {
				return
			}
			if f := v.Call.StaticCallee(); f != nil && s.status != 2 {
				for k, a := range v.Call.Args {
					if p.isErr(s, a) && stopsOn(p.c, f, k) {
						if !p.answers() {
							return
						}
						s.status = 2
					}
				}
			}
			if p.site.call != nil && errIndex(v.Call.Signature()) >= 0 && len(v.Call.Args) > 0 && len(p.site.call.Common().Args) > 0 && v.Call.Args[0] == p.site.call.Common().Args[0] {
				s.again = true
			}
		case *ssa.Panic:
			return
		case *ssa.Return:
			p.atReturn(v, s)
			return
		case *ssa.If:
			if e, neq, ok := nilTest(v.Cond); ok {
				t, f := b.Succs[0], b.Succs[1]
				if !neq {
					t, f = f, t
				}
				if p.isErr(s, e) {
					p.tests++
					if s.status != 2 {
						g := s.clone()
						g.status = 1
						p.edge(b, t, g)
					}
					if s.status != 1 && p.answers() {
						g := s.clone()
						g.status = 2
						p.edge(b, f, g)
					}
					return // without an error nothing is pending
				}
				if s.fail[e] {
					p.edge(b, t, s)
					return
				}
				g := s.clone()
				g.fail[e] = true
				p.edge(b, t, g)
				p.edge(b, f, s)
				return
			}
			if known, ok := s.cond[v.Cond]; ok {
				if known {
					p.edge(b, b.Succs[0], s)
				} else {
					p.edge(b, b.Succs[1], s)
				}
				return
			}
			// a question about the error, or an answer that came with it
			if p.asks(s, v.Cond) {
				s.used = true
			}
			for k, n := range b.Succs {
				g := s.clone()
				g.cond[v.Cond] = k == 0
				p.edge(b, n, g)
			}
			return
		case *ssa.Jump:
			p.edge(b, b.Succs[0], s)
			return
		}
	}
}

// sameOperands: when the call is reached again it is given the same things
func sameOperands(ci ssa.CallInstruction) bool {
	reach := func(a, b *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock) bool
		walk = func(x *ssa.BasicBlock) bool {
			for _, n := range x.Succs {
				if n == b {
					return true
				}
				if !seen[n] {
					seen[n] = true
					if walk(n) {
						return true
					}
				}
			}
			return false
		}
		return walk(a)
	}
	ops := append([]ssa.Value{}, ci.Common().Args...)
	if ci.Common().IsInvoke() {
		ops = append(ops, ci.Common().Value)
	}
	for _, o := range ops {
		in, ok := o.(ssa.Instruction)
		if !ok || in.Block() == nil {
			continue
		}
		if reach(ci.Block(), in.Block()) && reach(in.Block(), ci.Block()) {
			return false
		}
	}
	return true
}

func isExit(cm *ssa.CallCommon) bool {
	switch n := calleeName(cm); n {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	return false
}

// mentions: the error is in v
func (p *errPath) mentions(s *errState, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int) bool
	walk = func(v ssa.Value, d int) bool {
		if v == nil || seen[v] || d > 12 {
			return false
		}
		seen[v] = true
		if p.isErr(s, v) {
			return true
		}
		switch a := v.(type) {
		case *ssa.Slice:
			return walk(a.X, d+1)
		case *ssa.MakeInterface:
			return walk(a.X, d+1)
		case *ssa.ChangeInterface:
			return walk(a.X, d+1)
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, q := range *ia.Referrers() {
						if st, ok := q.(*ssa.Store); ok && walk(st.Val, d+1) {
							return true
						}
					}
				}
			}
		case *ssa.Call:
			for _, x := range a.Call.Args {
				if walk(x, d+1) {
					return true
				}
			}
			if a.Call.IsInvoke() {
				return walk(a.Call.Value, d+1)
			}
		case *ssa.BinOp:
			return walk(a.X, d+1) || walk(a.Y, d+1)
		case *ssa.TypeAssert:
			return walk(a.X, d+1)
		case *ssa.Extract:
			return walk(a.Tuple, d+1)
		}
		return false
	}
	return walk(v, 0)
}

func (p *errPath) asks(s *errState, v ssa.Value) bool { return p.mentions(s, v) }

func (p *errPath) edge(from, to *ssa.BasicBlock, s *errState) {
	s = s.clone()
	pi := -1
	for i, q := range to.Preds {
		if q == from {
			pi = i
		}
	}
	type upd struct {
		phi      *ssa.Phi
		ali, bad bool
	}
	var us []upd
	n := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		delete(s.cond, phi)
		if c, ok := phi.Edges[pi].(*ssa.Const); ok && c.Value != nil && isBoolT(phi.Type()) {
			s.cond[phi] = c.Value.String() == "true"
		}
		if !isErrorT(phi.Type()) {
			continue
		}
		e := phi.Edges[pi]
		us = append(us, upd{phi, p.isErr(s, e), s.fail[e] || p.surelyError(s, e)})
	}
	for _, u := range us {
		delete(s.alias, u.phi)
		delete(s.fail, u.phi)
		if u.ali {
			s.alias[u.phi] = true
		} else if u.bad {
			s.fail[u.phi] = true
		}
	}
	// what is computed anew is not known any more
	for _, in := range to.Instrs {
		if v, ok := in.(ssa.Value); ok {
			if _, isphi := in.(*ssa.Phi); isphi {
				continue
			}
			delete(s.cond, v)
			delete(s.fail, v)
			if p.site.call == nil || v != p.errValue() {
				delete(s.alias, v)
			}
		}
	}
	k := fmt.Sprint(to.Index, "/", s.key())
	if p.seen[k] {
		return
	}
	p.seen[k] = true
	p.run(to, n, s)
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// errValue is the error as a value, nil when it is not even taken
func (p *errPath) errValue() ssa.Value {
	v, ok := p.site.call.(*ssa.Call)
	if !ok {
		return nil
	}
	if p.site.idx < 0 {
		return v
	}
	for _, r := range *v.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == p.site.idx {
			return e
		}
	}
	return nil
}

func (p *errPath) atReturn(r *ssa.Return, s *errState) {
	if p.stop {
		p.fails(r, "it returns")
		return
	}
	i := errIndex(p.site.fn.Signature)
	if i < 0 {
		for _, v := range r.Results {
			if e, neq, ok := nilTest(v); ok && p.isErr(s, e) {
				// it answers whether there was an error
				if s.status != 2 {
					p.bools[1] = append(p.bools[1], fmt.Sprint(neq))
				}
				if s.status != 1 {
					p.bools[2] = append(p.bools[2], fmt.Sprint(!neq))
				}
				s.used = true
			} else if isBoolT(v.Type()) && p.mentions(s, v) {
				s.used = true
			} else if c, ok := v.(*ssa.Const); ok && isBoolT(c.Type()) {
				p.bools[s.status] = append(p.bools[s.status], c.Value.String())
			} else if b, ok := s.cond[v]; ok && isBoolT(v.Type()) {
				p.bools[s.status] = append(p.bools[s.status], fmt.Sprint(b))
			} else if isBoolT(v.Type()) && s.status == 1 && !s.used {
				// whatever else it is, it may be any
				p.bools[1] = append(p.bools[1], "true", "false")
			} else if e, ok := v.(*ssa.Extract); ok && s.status != 2 && e.Tuple == ssa.Value(p.site.call.(*ssa.Call)) {
				p.fails(r, "it hands on the result of a call that failed")
			}
		}
		if s.status == 0 && !s.used {
			p.fails(r, "it returns without having looked at the error")
		}
		return
	}
	v := r.Results[i]
	// the whole result is handed on
	if p.isErr(s, v) || s.fail[v] || p.surelyError(s, v) {
		return
	}
	if s.status == 1 {
		p.fails(r, "it returns without an error although the call failed")
	} else if s.used && s.again && calleeName(p.site.call.Common()) == "os.Stat" {
		// whether it exists was asked, and then it was used
	} else if !s.used {
		p.fails(r, "it returns without having looked at the error")
	} else {
		p.fails(r, "it may return without an error although the call failed")
	}
}

// explore decides one call
func (c *Check) explore(site errSite) (bad string, tests int) {
	p := &errPath{c: c, site: site, seen: map[string]bool{}}
	v, ok := site.call.(*ssa.Call)
	if !ok {
		return c.r.pos(site.call.Pos()) + ": the error of a deferred or concurrent call is dropped", 0
	}
	e := p.errValue()
	s := newErrState()
	if e == nil {
		// the tuple may be returned as it is
		return c.r.pos(v.Pos()) + ": its error is dropped", 0
	}
	s.alias[e] = true
	b := v.Block()
	i := 0
	for k, in := range b.Instrs {
		if in == ssa.Instruction(v) {
			i = k + 1
		}
	}
	p.run(b, i, s)
	if p.failed == "" {
		for _, f := range append(p.bools[1], p.bools[0]...) {
			for _, g := range p.bools[2] {
				if f == g {
					p.fails(v, "it answers "+f+" on failure as on success")
				}
			}
		}
	}
	return p.failed, p.tests
}

func (c *Check) errSites() []errSite {
	var out []errSite
	for _, fn := range c.r.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isb := ci.Common().Value.(*ssa.Builtin); isb || neverFails(ci.Common()) {
					continue
				}
				sig := ci.Common().Signature()
				i := errIndex(sig)
				if i < 0 {
					continue
				}
				if f := ci.Common().StaticCallee(); f != nil && (f.String() == "fmt.Errorf" || f.String() == "errors.New") {
					continue
				}
				if sig.Results().Len() == 1 {
					i = -1
				}
				out = append(out, errSite{fn, ci, i})
			}
		}
	}
	return out
}

func init() {
	register("X01", "path analysis over the SSA form of every call that can fail: on every path from the call to a return its error is compared with nil or handed on, and on each path on which it is not nil the function returns an error that is not nil, calls again or does not return; errors of functions that cannot report one are told or asked about", func(c *Check) {
		n, t := 0, 0
		for _, s := range c.errSites() {
			n++
			name := fname(s.fn) + " -> " + calleeName(s.call.Common())
			bad, tests := "", 0
			if !c.cannotFail(s.call) && !alternative(s) {
				bad, tests = c.explore(s)
			}
			t += tests
			c.oblige("error-reported", name, bad == "", func() string { return bad })
		}
		c.items["calls_that_can_fail"] = n
		c.items["nil_tests"] = t
		c.min["error-reported"] = 60
	})
}
