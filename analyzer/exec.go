package main

// The abstract interpreter: functions are analysed over abstract states,
// partitioned by control decisions; loops through inductive invariants
// (loops.go), never by unrolling.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st    *State
	rets  []Value
	panic *Panic
}

type Panic struct {
	kind string // index, slice, nil, type, div, make, explicit, undecided
	msg  string
	site ssa.Instruction
}

type Hook func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome

type Exec struct {
	flagged int // loops entered anew with another value of a flag
	explore int // iterations to run one by one
	r       *Repo
	hooks   map[string]Hook
	ext     map[string]Hook // of library functions
	stack   []*ssa.Function
	depth   int
	muted   int // hypothesis building: nothing is recorded
	fns     map[*ssa.Function]bool
	sites   map[ssa.Instruction]string // sites with a run time check, decided
	calls   map[string]int             // calls modelled
	loopsN  map[*ssa.BasicBlock]bool
	paths   int
	steps   int
	limit   int
	start   time.Time
	split   map[string]bool // interfaces whose opaque values are split over their implementations
	inv     map[string]func(x *Exec, st *State, p VPtr)
	impls   map[string][]types.Type
	blocks  map[*ssa.BasicBlock]bool
	mkMax   []makeSite
	trackW  bool
	// objects made by the code whose writes are recorded all the same
	trackObj  map[*Term]bool
	tr        bool
	joinF     map[string]bool
	splitIdx  bool // where an element is looked up in a content of several parts, each part is a case
	noWrap    bool
	snapEv    func(*Event) bool
	recOK     map[string]bool
	noteStore func(p VPtr) bool // whether a store is an event
}

type makeSite struct {
	site ssa.Instruction
	n    Lin
	st   *State
}

func newExec(r *Repo) *Exec {
	x := &Exec{r: r, hooks: map[string]Hook{}, fns: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]string{},
		calls: map[string]int{}, loopsN: map[*ssa.BasicBlock]bool{}, limit: 4000000, start: time.Now(), split: map[string]bool{},
		inv: map[string]func(*Exec, *State, VPtr){}, impls: map[string][]types.Type{}, blocks: map[*ssa.BasicBlock]bool{},
		trackObj: map[*Term]bool{}, joinF: map[string]bool{}, recOK: map[string]bool{}}
	x.constGlobals()
	return x
}

type undecided struct{ msg string }

func (x *Exec) unsup(site ssa.Instruction, f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if site != nil {
		s = fname(site.Parent()) + ": " + s
	}
	panic(undecided{s})
}

// ---------------------------------------------------------------- loops of a function

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loop{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	ls := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := ls[s]
				if l == nil {
					l = &loop{s, map[*ssa.BasicBlock]bool{s: true}}
					ls[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	loopCache[fn] = ls
	return ls
}

// ---------------------------------------------------------------- running

type item struct {
	st   *State
	b    *ssa.BasicBlock
	from *ssa.BasicBlock
	i    int
}

// run executes items until they leave the region (or the function)
func (x *Exec) run(fn *ssa.Function, start []item, region *loop) (exits, back []item, outs []Outcome) {
	loops := loopsOf(fn)
	work := append([]item{}, start...)
	edge := func(st *State, from, to *ssa.BasicBlock) {
		if region != nil && to == region.header {
			back = append(back, item{st, to, from, 0})
			return
		}
		if region != nil && !region.blocks[to] {
			exits = append(exits, item{st, to, from, 0})
			return
		}
		if l := loops[to]; l != nil && !l.blocks[from] {
			ex, os := x.execLoop(fn, st, l, from)
			outs = append(outs, os...)
			for _, e := range ex {
				// an exit may leave the region too
				e2 := e
				if region != nil && e2.b == region.header {
					back = append(back, e2)
				} else if region != nil && !region.blocks[e2.b] {
					exits = append(exits, e2)
				} else if l2 := loops[e2.b]; l2 != nil && !l2.blocks[e2.from] {
					work = append(work, item{e2.st, e2.b, e2.from, -1})
				} else {
					x.phis(e2.st, e2.b, e2.from)
					work = append(work, item{e2.st, e2.b, e2.from, firstNonPhi(e2.b)})
				}
			}
			return
		}
		x.phis(st, to, from)
		work = append(work, item{st, to, from, firstNonPhi(to)})
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.i == -1 {
			edge(it.st, it.from, it.b)
			continue
		}
		x.blocks[it.b] = true
		st := it.st
		i := it.i
	instrs:
		for i < len(it.b.Instrs) {
			ins := it.b.Instrs[i]
			x.steps++
			if x.steps > x.limit {
				x.unsup(ins, "analysis budget exceeded")
			}
			if x.steps&1023 == 0 && time.Since(x.start) > 780*time.Second {
				x.unsup(ins, "analysis time exceeded")
			}
			switch v := ins.(type) {
			case *ssa.If:
				c := x.cond(st, v.Cond)
				t, f := st.branch(c)
				for _, s := range t {
					s.mark(it.b, true)
					edge(s, it.b, it.b.Succs[0])
				}
				for _, s := range f {
					s.mark(it.b, false)
					edge(s, it.b, it.b.Succs[1])
				}
				break instrs
			case *ssa.Jump:
				edge(st, it.b, it.b.Succs[0])
				break instrs
			case *ssa.Return:
				var rs []Value
				for _, e := range v.Results {
					rs = append(rs, x.val(st, e))
				}
				outs = append(outs, Outcome{st: st, rets: rs})
				break instrs
			case *ssa.Panic:
				pv := x.val(st, v.X)
				outs = append(outs, Outcome{st: st, panic: &Panic{"explicit", valString(pv), v}})
				break instrs
			default:
				os := x.step(st, ins)
				var next []*State
				for _, o := range os {
					if o.panic != nil {
						outs = append(outs, o)
					} else {
						next = append(next, o.st)
					}
				}
				if len(next) == 0 {
					break instrs
				}
				st = next[0]
				i++
				for _, n := range next[1:] {
					work = append(work, item{n, it.b, it.from, i})
				}
			}
		}
	}
	return
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("predIndex")
}

func (x *Exec) phis(st *State, b, from *ssa.BasicBlock) {
	ps := phisOf(b)
	if len(ps) == 0 {
		return
	}
	pi := predIndex(b, from)
	vs := make([]Value, len(ps))
	for i, p := range ps {
		vs[i] = x.val(st, p.Edges[pi])
	}
	for i, p := range ps {
		st.env[p] = vs[i]
	}
}

// callFn analyses a call of fn
func (x *Exec) callFn(st *State, fn *ssa.Function, args []Value, binds []Value, site ssa.CallInstruction) []Outcome {
	name := fname(fn)
	if h := x.hooks[name]; h != nil {
		if os := h(x, st, args, site); os != nil {
			return os
		}
	}
	if fn.Blocks == nil || !x.r.owns(fn) {
		return x.external(st, name, fn.Signature, args, site)
	}
	for _, f := range x.stack {
		if f == fn && !x.recOK[name] {
			panic(undecided{"recursion through " + name + " without an inductive contract"})
		}
	}
	if len(x.stack) > 60 {
		panic(undecided{"call depth exceeded at " + name})
	}
	x.fns[fn] = true
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()

	st.callers = append(append([]map[ssa.Value]Value{}, st.callers...), st.env)
	st.dstack = append(append([][]deferred{}, st.dstack...), st.defers)
	st.env = map[ssa.Value]Value{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			st.env[f] = binds[i]
		}
	}
	x.paths++
	// a loop may start at the entry block
	_, _, outs := x.run(fn, []item{{st, fn.Blocks[0], nil, firstNonPhi(fn.Blocks[0])}}, nil)
	for i := range outs {
		s := outs[i].st
		n := len(s.callers)
		top := s.callers[n-1]
		env := make(map[ssa.Value]Value, len(top)+4)
		for k, v := range top {
			env[k] = v
		}
		s.env = env
		s.callers = s.callers[:n-1]
		s.defers = s.dstack[n-1]
		s.dstack = s.dstack[:n-1]
	}
	if x.joinF[name] {
		outs = x.dedupe(outs)
	}
	return outs
}

// ---------------------------------------------------------------- values

func (x *Exec) val(st *State, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return VPtr{Obj: x.global(c)}
	case *ssa.Function:
		return VFunc{Fn: c}
	case *ssa.Builtin:
		return VFunc{}
	}
	r, ok := st.env[v]
	if !ok || r == nil {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), v.Parent()))
	}
	return r
}

func (x *Exec) global(g *ssa.Global) *Term {
	o := mkTerm("global:" + g.Pkg.Pkg.Name() + "." + g.Name())
	if objType[o] == nil {
		objType[o] = g.Type().(*types.Pointer).Elem()
	}
	return o
}

func (x *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool{condBool(constant.BoolVal(c.Value))}
	case constant.String:
		return VStr{content(Seg{K: 'l', Str: constant.StringVal(c.Value)})}
	case constant.Int:
		if isInt(c.Type()) {
			n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return VInt{LB(n)}
		}
	}
	if isInt(c.Type()) {
		if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(i.ExactString(), 10)
			return VInt{LB(n)}
		}
	}
	return VSym{mkTerm("const", c.Value.ExactString(), typeKey(c.Type())), c.Type()}
}

func (x *Exec) cond(st *State, v ssa.Value) *Cond {
	b, ok := x.val(st, v).(VBool)
	if !ok {
		panic("condition is no boolean: " + valString(x.val(st, v)))
	}
	return b.C
}

// ---------------------------------------------------------------- run time checks

// check splits the state on c, which a run time check of the given kind demands
func (x *Exec) check(st *State, site ssa.Instruction, kind string, c *Cond, msg func() string) (ok []*State, bad []Outcome) {
	if site != nil && x.muted == 0 {
		x.sites[site] = kind
	}
	t, f := st.branch(c)
	for _, s := range f {
		bad = append(bad, Outcome{st: s, panic: &Panic{kind, msg(), site}})
	}
	return t, bad
}

func one(st *State) []Outcome { return []Outcome{{st: st}} }

func (x *Exec) set(st *State, v ssa.Value, val Value) []Outcome {
	st.env[v] = val
	return one(st)
}

// each runs f on several states and joins the outcomes
func each(sts []*State, bad []Outcome, f func(*State) []Outcome) []Outcome {
	out := bad
	for _, s := range sts {
		out = append(out, f(s)...)
	}
	return out
}

func nilCond(st *State, v Value) *Cond {
	switch p := v.(type) {
	case VNil:
		return condTrue
	case VPtr:
		if p.Obj == nil {
			return condTrue
		}
		if p.Nil == nil {
			return condFalse
		}
		return condNil(p.Nil)
	case VSlice:
		if p.Obj == nil {
			return condTrue
		}
		if p.Nil == nil {
			return condFalse
		}
		if st.ge(p.Len.addc(-1)) {
			return condFalse
		}
		return condNil(p.Nil)
	case VSym:
		switch p.T.Underlying().(type) {
		case *types.Interface, *types.Map, *types.Chan, *types.Signature, *types.Pointer, *types.Slice:
			return condNil(p.Tm)
		}
		return condFalse
	case VType, VRVal, VIface, VFunc:
		return condFalse
	}
	return condFalse
}

// step executes an instruction that is no control transfer
func (x *Exec) step(st *State, ins ssa.Instruction) []Outcome {
	switch v := ins.(type) {
	case *ssa.DebugRef:
		return one(st)
	case *ssa.Alloc:
		t := v.Type().Underlying().(*types.Pointer).Elem()
		o := st.newObj(v.Comment, t)
		st.heap[o] = zeroVal(t)
		return x.set(st, v, VPtr{Obj: o})
	case *ssa.UnOp:
		return x.unop(st, v)
	case *ssa.BinOp:
		return x.binop(st, v, v.Op, x.val(st, v.X), x.val(st, v.Y), v.X.Type(), func(s *State, r Value) []Outcome {
			s.env[v] = r
			return one(s)
		})
	case *ssa.Store:
		p := x.val(st, v.Addr)
		val := x.val(st, v.Val)
		return x.derefs(st, p, ins, func(s *State, q VPtr) []Outcome {
			x.noteWrite(s, q, ins, val)
			if x.noteStore != nil && x.noteStore(q) {
				s.event(&Event{kind: "store", args: []Value{q}, rets: []Value{val}, site: v, in: v.Parent(), snap: s.clone()})
			}
			s.store(q, val)
			return one(s)
		})
	case *ssa.FieldAddr:
		p := x.val(st, v.X)
		return x.derefs(st, p, ins, func(s *State, q VPtr) []Outcome {
			return x.set(s, v, VPtr{Obj: q.Obj, Path: append(append([]PE{}, q.Path...), PE{F: v.Field})})
		})
	case *ssa.Field:
		sv, ok := x.val(st, v.X).(VStruct)
		if !ok {
			return x.set(st, v, symVal(mkTerm(fmt.Sprintf("field%d", v.Field), x.val(st, v.X)), v.Type()))
		}
		return x.set(st, v, sv.F[v.Field])
	case *ssa.IndexAddr:
		return x.indexAddr(st, v)
	case *ssa.Index:
		return x.index(st, v)
	case *ssa.Lookup:
		return x.lookup(st, v)
	case *ssa.Slice:
		return x.slice(st, v)
	case *ssa.Extract:
		t, ok := x.val(st, v.Tuple).(VTuple)
		if !ok {
			x.unsup(ins, "extract from %s", valString(x.val(st, v.Tuple)))
		}
		return x.set(st, v, t.Vs[v.Index])
	case *ssa.Convert:
		return x.convert(st, x.val(st, v.X), v.X.Type(), v.Type(), func(s *State, r Value) []Outcome {
			s.env[v] = r
			return one(s)
		})
	case *ssa.ChangeType:
		return x.set(st, v, retype(x.val(st, v.X), v.Type()))
	case *ssa.ChangeInterface:
		return x.set(st, v, x.val(st, v.X))
	case *ssa.MakeInterface:
		val := x.val(st, v.X)
		switch val.(type) {
		case VType, VRVal:
			return x.set(st, v, val)
		}
		return x.set(st, v, VIface{v.X.Type(), val})
	case *ssa.TypeAssert:
		return x.typeAssert(st, v)
	case *ssa.MakeSlice:
		return x.makeSlice(st, v)
	case *ssa.MakeMap:
		o := st.newObj("map", v.Type())
		st.heap[o] = VSym{o, v.Type()}
		st.facts[condNil(o).k] = fact{condNil(o), false}
		return x.set(st, v, VSym{o, v.Type()})
	case *ssa.MapUpdate:
		m := x.val(st, v.Map)
		ok, bad := x.check(st, ins, "nil map", nilCond(st, m).not(), func() string { return "assignment to entry in nil map" })
		return each(ok, bad, func(s *State) []Outcome {
			s.event(&Event{kind: "mapset", args: []Value{m, x.val(s, v.Key), x.val(s, v.Value)}, site: ins, in: ins.Parent()})
			s.nver++
			return one(s)
		})
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range v.Bindings {
			bs = append(bs, x.val(st, b))
		}
		return x.set(st, v, VFunc{v.Fn.(*ssa.Function), bs})
	case *ssa.Range:
		return x.set(st, v, VSym{mkTerm("range", x.val(st, v.X)), v.Type()})
	case *ssa.Next:
		t := v.Type().(*types.Tuple)
		return x.set(st, v, symVal(st.fresh("next:"+typeKey(t)), t))
	case *ssa.Call:
		return x.call(st, v, func(s *State, r Value) []Outcome {
			if r != nil {
				s.env[v] = r
			}
			return one(s)
		})
	case *ssa.Defer:
		d := deferred{call: v}
		cc := v.Common()
		if cc.IsInvoke() {
			d.recv = x.val(st, cc.Value)
		} else {
			d.recv = x.val(st, cc.Value)
		}
		for _, a := range cc.Args {
			d.args = append(d.args, x.val(st, a))
		}
		st.defers = append(append([]deferred{}, st.defers...), d)
		return one(st)
	case *ssa.RunDefers:
		return x.runDefers(st)
	}
	x.unsup(ins, "instruction %T is not analysed", ins)
	return nil
}

type deferred struct {
	call *ssa.Defer
	recv Value
	args []Value
}

func (x *Exec) runDefers(st *State) []Outcome {
	if len(st.defers) == 0 {
		return one(st)
	}
	d := st.defers[len(st.defers)-1]
	st.defers = st.defers[:len(st.defers)-1]
	outs := x.invokeOrCall(st, d.call, d.call.Common(), d.recv, d.args)
	var r []Outcome
	for _, o := range outs {
		if o.panic != nil {
			r = append(r, o)
			continue
		}
		r = append(r, x.runDefers(o.st)...)
	}
	return r
}

func retype(v Value, t types.Type) Value {
	if s, ok := v.(VSym); ok {
		return VSym{s.Tm, t}
	}
	return v
}

// derefs resolves a pointer to be dereferenced
func (x *Exec) derefs(st *State, p Value, site ssa.Instruction, f func(*State, VPtr) []Outcome) []Outcome {
	q, isp := p.(VPtr)
	if isp && q.Obj != nil && q.Nil == nil {
		return f(st, q)
	}
	if _, isnil := p.(VNil); !isnil && !isp {
		x.unsup(site, "dereference of %s", valString(p))
	}
	ok, bad := x.check(st, site, "nil", nilCond(st, p).not(), func() string { return "nil pointer dereference of " + valString(p) })
	return each(ok, bad, func(s *State) []Outcome {
		return f(s, VPtr{Obj: q.Obj, Path: q.Path})
	})
}

func (x *Exec) noteWrite(st *State, p VPtr, site ssa.Instruction, vals ...Value) {
	if x.trackW && (!isAlloc(p.Obj) || x.trackObj[p.Obj]) {
		st.event(&Event{kind: "write", args: []Value{p}, rets: vals, site: site, in: parentOf(site)})
	}
}

func (x *Exec) unop(st *State, v *ssa.UnOp) []Outcome {
	a := x.val(st, v.X)
	switch v.Op {
	case token.MUL:
		return x.derefs(st, a, v, func(s *State, q VPtr) []Outcome {
			if x.splitIdx {
				if cd := s.unlocated(q); cd != nil {
					t, f := s.branch(cd)
					var outs []Outcome
					for _, g := range append(t, f...) {
						if !g.infeasible() {
							outs = append(outs, x.unop(g, v)...)
						}
					}
					return outs
				}
			}
			r := s.load(q)
			if r == nil {
				x.unsup(v, "load of %s", valString(q))
			}
			s.env[v] = r
			return one(s)
		})
	case token.NOT:
		return x.set(st, v, VBool{a.(VBool).C.not()})
	case token.SUB:
		if i, ok := a.(VInt); ok {
			return x.fit(st, i.L.neg(), v.Type(), func(s *State, l Lin) []Outcome {
				s.env[v] = VInt{l}
				return one(s)
			})
		}
	case token.XOR:
		if i, ok := a.(VInt); ok {
			lo, hi, _ := sizeRange(v.Type())
			if lo.Sign() < 0 {
				return x.set(st, v, VInt{i.L.neg().addc(-1)})
			}
			return x.set(st, v, VInt{LB(hi).sub(i.L)})
		}
	}
	return x.set(st, v, symVal(mkTerm("un"+v.Op.String(), a), v.Type()))
}

// fit wraps an exact result into the range of its type, splitting the state
// where the result may not fit
func (x *Exec) fit(st *State, l Lin, ty types.Type, f func(*State, Lin) []Outcome) []Outcome {
	lo, hi, ok := sizeRange(ty)
	if !ok {
		panic("fit: " + ty.String())
	}
	inlo, inhi := st.ge(l.sub(LB(lo))), st.ge(LB(hi).sub(l))
	if inlo && inhi {
		return f(st, l)
	}
	if x.noWrap {
		st.push(l.sub(LB(lo)), false)
		st.push(LB(hi).sub(l), false)
		return f(st, l)
	}
	width := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
	var out []Outcome
	cur := []*State{st}
	if !inlo {
		var keep []*State
		for _, s := range cur {
			t, e := s.branch(condGE(l.sub(LB(lo))))
			keep = append(keep, t...)
			for _, s2 := range e {
				nl := l.add(LB(width))
				if s2.ge(nl.sub(LB(lo))) {
					out = append(out, f(s2, nl)...)
				} else {
					out = append(out, f(s2, x.wrap(s2, l, lo, width))...)
				}
			}
		}
		cur = keep
	}
	if !inhi {
		var keep []*State
		for _, s := range cur {
			t, e := s.branch(condGE(LB(hi).sub(l)))
			keep = append(keep, t...)
			for _, s2 := range e {
				nl := l.sub(LB(width))
				if s2.ge(LB(hi).sub(nl)) {
					out = append(out, f(s2, nl)...)
				} else {
					out = append(out, f(s2, x.wrap(s2, l, lo, width))...)
				}
			}
		}
		cur = keep
	}
	for _, s := range cur {
		out = append(out, f(s, l)...)
	}
	return out
}

// wrap is l reduced modulo width into the range starting at lo
func (x *Exec) wrap(st *State, l Lin, lo, width *big.Int) Lin {
	d := l.sub(LB(lo))
	return d.sub(divLin(d, width).mul(width)).add(LB(lo))
}

// divLin is floor(l/c), c > 0
func divLin(l Lin, c *big.Int) Lin {
	if c.Cmp(big1) == 0 {
		return l
	}
	// split off the multiples of c
	q := Lin{k: new(big.Int)}
	r := Lin{k: new(big.Int)}
	q.k, r.k = new(big.Int).DivMod(l.k, c, new(big.Int))
	for _, m := range l.ts {
		d, e := new(big.Int).DivMod(m.c, c, new(big.Int))
		if e.Sign() == 0 {
			q.ts = append(q.ts, mono{m.t, d})
		} else {
			if m.c.Sign() < 0 {
				// keep the sign of the coefficient
				d, e = new(big.Int).QuoRem(m.c, c, new(big.Int))
			}
			if d.Sign() != 0 {
				q.ts = append(q.ts, mono{m.t, d})
			}
			r.ts = append(r.ts, mono{m.t, e})
		}
	}
	if len(r.ts) == 0 {
		return q
	}
	// a common factor of the terms and the divisor
	g := new(big.Int).Set(c)
	for _, m := range r.ts {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Cmp(big1) > 0 {
		rr := Lin{k: new(big.Int).Div(r.k, g)}
		for _, m := range r.ts {
			rr.ts = append(rr.ts, mono{m.t, new(big.Int).Div(m.c, g)})
		}
		return q.add(divLin(rr, new(big.Int).Div(c, g)))
	}
	lo, hi := r.interval()
	if lo != nil && hi != nil {
		a, b := new(big.Int).Div(lo, c), new(big.Int).Div(hi, c)
		if a.Cmp(b) == 0 {
			return q.add(LB(a))
		}
	}
	// x mod c with x in [0,c) for a single term is handled by the interval;
	// nested division
	if len(r.ts) == 1 && r.k.Sign() == 0 && r.ts[0].c.Cmp(big1) == 0 && r.ts[0].t.op == "div" {
		in := r.ts[0].t
		return q.add(divLin(in.args[0].(Lin), new(big.Int).Mul(in.args[1].(Lin).k, c)))
	}
	// x - c1*div(x,c1) divided by c | c1
	t := mkTerm("div", r, LB(c))
	if t.def == nil {
		rem := r.sub(LT(t).mul(c))
		t.def = []con{{rem, false}, {LB(new(big.Int).Sub(c, big1)).sub(rem), false}}
		if lo != nil {
			setRange(t, new(big.Int).Div(lo, c), nil)
		}
		if hi != nil {
			if t.hi == nil {
				t.hi = new(big.Int).Div(hi, c)
			}
		}
	}
	return q.add(LT(t))
}

func lowBits(l Lin, n int) Lin { return l.sub(divLin(l, pow2(n)).mul(pow2(n))) }

// bitsAnd is l & mask, for l >= 0
func bitsAnd(l Lin, mask *big.Int) Lin {
	r := LC(0)
	n := mask.BitLen()
	for i := 0; i < n; {
		if mask.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && mask.Bit(j) == 1 {
			j++
		}
		// bits i..j-1
		hi := divLin(l, pow2(j))
		lo := divLin(l, pow2(i))
		r = r.add(lo.sub(hi.mul(pow2(j - i))).mul(pow2(i)))
		i = j
	}
	return r
}

func (x *Exec) binop(st *State, site ssa.Instruction, op token.Token, a, b Value, ty types.Type, f func(*State, Value) []Outcome) []Outcome {
	ia, oka := a.(VInt)
	ib, okb := b.(VInt)
	if oka && okb {
		return x.intop(st, site, op, ia.L, ib.L, ty, f)
	}
	switch op {
	case token.EQL, token.NEQ:
		return x.equal(st, site, a, b, ty, func(s *State, c *Cond) []Outcome {
			if op == token.NEQ {
				c = c.not()
			}
			return f(s, VBool{c})
		})
	case token.ADD:
		sa, oka := a.(VStr)
		sb, okb := b.(VStr)
		if oka && okb {
			return f(st, VStr{content(append(append([]Seg{}, sa.C.segs...), sb.C.segs...)...)})
		}
	case token.AND, token.OR, token.XOR:
		ba, oka := a.(VBool)
		bb, okb := b.(VBool)
		if oka && okb {
			switch op {
			case token.AND:
				return f(st, VBool{condAnd(ba.C, bb.C)})
			case token.OR:
				return f(st, VBool{condOr(ba.C, bb.C)})
			}
		}
	}
	t := mkTerm("op"+op.String(), a, b)
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return f(st, VBool{condOp(t)})
	}
	return f(st, symVal(t, ty))
}

func (x *Exec) intop(st *State, site ssa.Instruction, op token.Token, a, b Lin, ty types.Type, f func(*State, Value) []Outcome) []Outcome {
	fi := func(s *State, l Lin) []Outcome { return f(s, VInt{l}) }
	switch op {
	case token.EQL:
		return f(st, VBool{eqTable(a.sub(b))})
	case token.NEQ:
		return f(st, VBool{eqTable(a.sub(b)).not()})
	case token.LSS:
		return f(st, VBool{condGE(b.sub(a).addc(-1))})
	case token.LEQ:
		return f(st, VBool{condGE(b.sub(a))})
	case token.GTR:
		return f(st, VBool{condGE(a.sub(b).addc(-1))})
	case token.GEQ:
		return f(st, VBool{condGE(a.sub(b))})
	case token.ADD:
		return x.fit(st, a.add(b), ty, fi)
	case token.SUB:
		return x.fit(st, a.sub(b), ty, fi)
	case token.MUL:
		if b.isConst() {
			return x.fit(st, a.mul(b.k), ty, fi)
		}
		if a.isConst() {
			return x.fit(st, b.mul(a.k), ty, fi)
		}
	case token.QUO, token.REM:
		okc, bad := x.check(st, site, "div", condEQ(b).not(), func() string { return "division by zero" })
		return each(okc, bad, func(s *State) []Outcome {
			if b.isConst() && b.k.Sign() > 0 {
				pos, neg := s.branch(condGE(a))
				r := each(pos, nil, func(s *State) []Outcome {
					q := divLin(a, b.k)
					if op == token.REM {
						q = a.sub(q.mul(b.k))
					}
					return fi(s, q)
				})
				return append(r, each(neg, nil, func(s *State) []Outcome {
					q := divLin(a.neg(), b.k).neg()
					if op == token.REM {
						q = a.sub(q.mul(b.k))
					}
					return fi(s, q)
				})...)
			}
			t := mkTerm("op"+op.String(), a, b)
			lo, hi, _ := sizeRange(ty)
			setRange(t, lo, hi)
			if lo.Sign() == 0 && t.def == nil {
				if op == token.REM {
					t.def = []con{{b.sub(LT(t)).addc(-1), false}, {a.sub(LT(t)), false}}
				} else {
					t.def = []con{{a.sub(LT(t)), false}}
				}
			} else if op == token.REM && s.ge(a) && s.ge(b.addc(-1)) {
				s.push(LT(t), false)
				s.push(b.sub(LT(t)).addc(-1), false)
				s.push(a.sub(LT(t)), false)
			}
			return fi(s, LT(t))
		})
	case token.SHL, token.SHR:
		sh, isc := b.int()
		if !isc {
			// a shift count with few possible values, or an opaque result
			if !st.ge(b) {
				okc, bad := x.check(st, site, "shift", condGE(b), func() string { return "negative shift" })
				return each(okc, bad, func(s *State) []Outcome { return x.intop(s, site, op, a, b, ty, f) })
			}
			t := mkTerm("op"+op.String(), a, b, typeKey(ty))
			lo, hi, _ := sizeRange(ty)
			setRange(t, lo, hi)
			if op == token.SHR && st.ge(a) {
				st.push(LT(t), false)
				st.push(a.sub(LT(t)), false)
			}
			return fi(st, LT(t))
		}
		if sh < 0 {
			return []Outcome{{st: st, panic: &Panic{"shift", "negative shift", site}}}
		}
		if sh > 200 {
			sh = 200
		}
		if op == token.SHR {
			return fi(st, divLin(a, pow2(int(sh))))
		}
		return x.fitMod(st, a.mul(pow2(int(sh))), ty, fi)
	case token.AND:
		if !b.isConst() && a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			lo, hi, _ := sizeRange(ty)
			m := b.k
			if m.Sign() < 0 {
				m = new(big.Int).Add(m, new(big.Int).Add(new(big.Int).Sub(hi, lo), big1))
			}
			if b.k.Sign() >= 0 {
				return fi(st, bitsAnd(a, m)) // floor division keeps two's complement bits
			}
			if lo.Sign() == 0 {
				return fi(st, bitsAnd(a, m))
			}
		}
	case token.AND_NOT:
		if b.isConst() && b.k.Sign() >= 0 {
			return fi(st, a.sub(bitsAnd(a, b.k)))
		}
	case token.OR:
		if !b.isConst() && a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k.Sign() >= 0 {
			return fi(st, a.add(b).sub(bitsAnd(a, b.k)))
		}
		if disjoint(st, a, b) || disjoint(st, b, a) {
			return fi(st, a.add(b))
		}
	case token.XOR:
		if !b.isConst() && a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k.Sign() >= 0 {
			return fi(st, a.add(b).sub(bitsAnd(a, b.k).mulc(2)))
		}
		if disjoint(st, a, b) || disjoint(st, b, a) {
			return fi(st, a.add(b))
		}
	}
	switch op {
	case token.MUL, token.AND, token.OR, token.XOR:
		if a.key() > b.key() {
			a, b = b, a
		}
	}
	t := mkTerm("op"+op.String(), a, b, typeKey(ty))
	lo, hi, _ := sizeRange(ty)
	setRange(t, lo, hi)
	if t.def == nil && lo.Sign() == 0 {
		switch op {
		case token.AND:
			t.def = []con{{a.sub(LT(t)), false}, {b.sub(LT(t)), false}}
		case token.OR:
			t.def = []con{{LT(t).sub(a), false}, {LT(t).sub(b), false}, {a.add(b).sub(LT(t)), false}}
		case token.XOR:
			t.def = []con{{a.add(b).sub(LT(t)), false}}
		}
	}
	if op == token.AND && lo.Sign() < 0 {
		for _, p := range []Lin{a, b} {
			if st.ge(p) {
				st.push(LT(t), false)
				st.push(p.sub(LT(t)), false)
			}
		}
	}
	return fi(st, LT(t))
}

// disjoint: the bits of a lie below those of b
func disjoint(st *State, a, b Lin) bool {
	g := new(big.Int).Abs(b.k)
	for _, m := range b.ts {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Sign() == 0 {
		return true
	}
	tz := int(g.TrailingZeroBits())
	if tz == 0 {
		return false
	}
	return st.ge(a) && st.ge(LB(pow2(tz)).sub(a).addc(-1)) && st.ge(b)
}

// fitMod reduces modulo the width of the type, without a case distinction
func (x *Exec) fitMod(st *State, l Lin, ty types.Type, f func(*State, Lin) []Outcome) []Outcome {
	lo, hi, _ := sizeRange(ty)
	if st.ge(l.sub(LB(lo))) && st.ge(LB(hi).sub(l)) {
		return f(st, l)
	}
	width := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
	return f(st, x.wrap(st, l, lo, width))
}

func (x *Exec) convert(st *State, v Value, from, to types.Type, f func(*State, Value) []Outcome) []Outcome {
	if i, ok := v.(VInt); ok && isInt(to) {
		lo, hi, _ := sizeRange(to)
		flo, fhi, _ := sizeRange(from)
		width := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
		fw := new(big.Int).Add(new(big.Int).Sub(fhi, flo), big1)
		if fw.Cmp(width) > 0 && lo.Sign() == 0 {
			// truncation
			return x.fitMod(st, i.L, to, func(s *State, l Lin) []Outcome { return f(s, VInt{l}) })
		}
		return x.fit(st, i.L, to, func(s *State, l Lin) []Outcome { return f(s, VInt{l}) })
	}
	fb, fstr := from.Underlying().(*types.Basic)
	_, tsl := to.Underlying().(*types.Slice)
	if fstr && fb.Info()&types.IsString != 0 && tsl {
		if s, ok := v.(VStr); ok {
			n := s.C.length()
			return f(st, st.newSlice("bytes", elemType(to), s.C, &n))
		}
	}
	if tb, ok := to.Underlying().(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		if s, ok := v.(VSlice); ok {
			return f(st, VStr{st.bytesOf(s)})
		}
		if s, ok := v.(VStr); ok {
			return f(st, s)
		}
		if i, ok := v.(VInt); ok {
			if k, ok := i.L.int(); ok && k < 128 && k >= 0 {
				return f(st, VStr{content(Seg{K: 'l', Str: string(rune(k))})})
			}
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		if _, ok := v.(VSym); ok {
			return f(st, symVal(mkTerm("conv:"+typeKey(to), v), to))
		}
		if p, ok := v.(VPtr); ok {
			return f(st, p)
		}
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return f(st, VSym{mkTerm("unsafe", v), to})
	}
	if vs, ok := v.(VSym); ok && types.Identical(from.Underlying(), to.Underlying()) {
		return f(st, VSym{vs.Tm, to})
	}
	return f(st, symVal(mkTerm("conv:"+typeKey(to), v), to))
}

// equal compares two values that are not both integers
func (x *Exec) equal(st *State, site ssa.Instruction, a, b Value, ty types.Type, f func(*State, *Cond) []Outcome) []Outcome {
	if isNilVal(a) {
		a, b = b, a
	}
	if isNilVal(b) {
		return f(st, nilCond(st, a))
	}
	if ba, ok := a.(VBool); ok {
		if bb, ok := b.(VBool); ok {
			return f(st, condOr(condAnd(ba.C, bb.C), condAnd(ba.C.not(), bb.C.not())))
		}
	}
	if sa, ok := a.(VStr); ok {
		if sb, ok := b.(VStr); ok {
			return f(st, x.contentEq(st, sa.C, sb.C))
		}
	}
	if st.eqVal(a, b) {
		return f(st, condTrue)
	}
	pa, oka := a.(VPtr)
	pb, okb := b.(VPtr)
	if oka && okb {
		if isAlloc(pa.Obj) && (isAlloc(pb.Obj) || st.isNil(pa) == -1) && pa.Obj != pb.Obj {
			return f(st, condFalse)
		}
		if isAlloc(pb.Obj) && pa.Obj != pb.Obj {
			return f(st, condFalse)
		}
	}
	if fa, ok := a.(VIface); ok {
		if fb, ok := b.(VIface); ok {
			if !types.Identical(fa.T, fb.T) {
				return f(st, condFalse)
			}
			if ia, ok := fa.V.(VInt); ok {
				if ib, ok := fb.V.(VInt); ok {
					return f(st, condEQ(ia.L.sub(ib.L)))
				}
			}
			return x.equal(st, site, fa.V, fb.V, fa.T, f)
		}
	}
	if _, ok := a.(VType); ok {
		if tb, ok := b.(VType); ok {
			return f(st, condBool(types.Identical(a.(VType).T, tb.T)))
		}
	}
	if sa, ok := a.(VStruct); ok {
		if sb, ok := b.(VStruct); ok && len(sa.F) == len(sb.F) {
			c := condTrue
			su, _ := ty.Underlying().(*types.Struct)
			var rec func(s *State, i int, c *Cond) []Outcome
			rec = func(s *State, i int, c *Cond) []Outcome {
				if i == len(sa.F) {
					return f(s, c)
				}
				var ft types.Type
				if su != nil {
					ft = su.Field(i).Type()
				}
				if va, ok := sa.F[i].(VInt); ok {
					return rec(s, i+1, condAnd(c, condEQ(va.L.sub(sb.F[i].(VInt).L))))
				}
				return x.equal(s, site, sa.F[i], sb.F[i], ft, func(s *State, d *Cond) []Outcome {
					return rec(s, i+1, condAnd(c, d))
				})
			}
			return rec(st, 0, c)
		}
	}
	if xa, ok := a.(VArr); ok {
		if xb, ok := b.(VArr); ok {
			return f(st, x.contentEq(st, xa.C, xb.C))
		}
	}
	ka, kb := a.vkey(), b.vkey()
	if ka > kb {
		a, b = b, a
	}
	return f(st, condOp(mkTerm("same", a, b)))
}

func isNilVal(v Value) bool {
	switch p := v.(type) {
	case VNil:
		return true
	case VSlice:
		return p.Obj == nil
	}
	return false
}

// contentEq is the condition that two strings are equal
func (x *Exec) contentEq(st *State, a, b *Content) *Cond {
	if st.eqContent(a, b) {
		return condTrue
	}
	la, lb := a.length(), b.length()
	if la.isInt(0) || lb.isInt(0) {
		return condEQ(la.sub(lb))
	}
	if st.decide(condEQ(la.sub(lb))) == -1 {
		return condFalse
	}
	if differ(a, b) {
		return condFalse
	}
	// cancel a common prefix and suffix
	i := 0
	for i < len(a.segs) && i < len(b.segs) && segKey(&a.segs[i]) == segKey(&b.segs[i]) {
		i++
	}
	j := 0
	for j < len(a.segs)-i && j < len(b.segs)-i && segKey(&a.segs[len(a.segs)-1-j]) == segKey(&b.segs[len(b.segs)-1-j]) {
		j++
	}
	a, b = content(a.segs[i:len(a.segs)-j]...), content(b.segs[i:len(b.segs)-j]...)
	if v, w, ok := firstInts(a, b); ok && st.decide(condEQ(v.sub(w))) == -1 {
		return condFalse
	}
	if v, w, ok := lastInts(a, b); ok && st.decide(condEQ(v.sub(w))) == -1 {
		return condFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return condOp(mkTerm("eqbytes", a, b))
}

func segInt(g *Seg) (Lin, bool) {
	switch g.K {
	case 'e':
		if v, ok := g.V.(VInt); ok {
			return v.L, true
		}
	case 'l':
		if len(g.Str) == 1 {
			return LC(int64(g.Str[0])), true
		}
	}
	return Lin{}, false
}

func firstInts(a, b *Content) (v, w Lin, ok bool) {
	if len(a.segs) == 0 || len(b.segs) == 0 {
		return
	}
	v, ok1 := segInt(&a.segs[0])
	w, ok2 := segInt(&b.segs[0])
	return v, w, ok1 && ok2
}

func lastInts(a, b *Content) (v, w Lin, ok bool) {
	if len(a.segs) == 0 || len(b.segs) == 0 {
		return
	}
	v, ok1 := segInt(&a.segs[len(a.segs)-1])
	w, ok2 := segInt(&b.segs[len(b.segs)-1])
	return v, w, ok1 && ok2
}

// bytesCompare follows how the order of two strings is decided
func (x *Exec) bytesCompare(st *State, a, b *Content, depth int, f func(st *State, sign int) []Outcome) []Outcome {
	i := 0
	for i < len(a.segs) && i < len(b.segs) && segKey(&a.segs[i]) == segKey(&b.segs[i]) {
		i++
	}
	a, b = content(a.segs[i:]...), content(b.segs[i:]...)
	var out []Outcome
	if len(a.segs) == 0 || len(b.segs) == 0 {
		t, o := st.branch(condEQ(a.length().sub(b.length())))
		for _, s := range t {
			out = append(out, f(s, 0)...)
		}
		for _, s := range o {
			if len(a.segs) == 0 {
				out = append(out, f(s, -1)...)
			} else {
				out = append(out, f(s, 1)...)
			}
		}
		return out
	}
	if v, w, ok := firstInts(a, b); ok && depth < 16 {
		t, o := st.branch(condEQ(v.sub(w)))
		for _, s := range t {
			out = append(out, x.bytesCompare(s, content(a.segs[1:]...), content(b.segs[1:]...), depth+1, f)...)
		}
		for _, s := range o {
			less, more := s.branch(condGE(w.sub(v)))
			for _, q := range less {
				out = append(out, f(q, -1)...)
			}
			for _, q := range more {
				out = append(out, f(q, 1)...)
			}
		}
		return out
	}
	t, o := st.branch(x.contentEq(st, a, b))
	for _, s := range t {
		out = append(out, f(s, 0)...)
	}
	for _, s := range o {
		var l *Cond
		if a.id <= b.id {
			l = condOp(mkTerm("bytesless", a, b))
		} else {
			l = condOp(mkTerm("bytesless", b, a)).not()
		}
		t, o := s.branch(l)
		for _, q := range t {
			out = append(out, f(q, -1)...)
		}
		for _, q := range o {
			out = append(out, f(q, 1)...)
		}
	}
	return out
}

// differ: two contents that differ at a literal position
func differ(a, b *Content) bool {
	flat := func(c *Content) ([]int, bool) {
		var r []int
		for i := range c.segs {
			g := &c.segs[i]
			switch g.K {
			case 'l':
				for k := 0; k < len(g.Str); k++ {
					r = append(r, int(g.Str[k]))
				}
			case 'e':
				v, ok := g.V.(VInt)
				if !ok {
					return r, false
				}
				n, ok := v.L.int()
				if !ok {
					n = -1
				}
				r = append(r, int(n))
			case 'z':
				n, ok := g.N.int()
				if !ok || n > 4096 {
					return r, false
				}
				for ; n > 0; n-- {
					r = append(r, 0)
				}
			default:
				return r, false
			}
		}
		return r, true
	}
	fa, ca := flat(a)
	fb, cb := flat(b)
	if ca && cb && len(fa) != len(fb) {
		return true
	}
	for i := range fa {
		if i < len(fb) && fa[i] >= 0 && fb[i] >= 0 && fa[i] != fb[i] {
			return true
		}
	}
	return false
}

func intOf(v Value) Lin {
	if i, ok := v.(VInt); ok {
		return i.L
	}
	panic("not an integer: " + valString(v))
}

// unlocated: the element q points to is in one of several parts of a content,
// and the condition does not tell on which side of this boundary
func (st *State) unlocated(q VPtr) *Cond {
	v, ty := st.get(q.Obj), objType[q.Obj]
	for i, p := range q.Path {
		if p.Idx == nil {
			s, ok := v.(VStruct)
			if !ok {
				return nil
			}
			v, ty = s.F[p.F], ty.Underlying().(*types.Struct).Field(p.F).Type()
			continue
		}
		a, ok := v.(VArr)
		if !ok || i != len(q.Path)-1 {
			return nil
		}
		if len(a.C.segs) < 2 || len(a.C.segs) > 8 {
			return nil
		}
		if _, _, ok := st.locate(a.C, *p.Idx); ok {
			return nil
		}
		off := LC(0)
		for _, g := range a.C.segs[:len(a.C.segs)-1] {
			off = off.add(g.length())
			d := p.Idx.sub(off)
			if !st.cons.entails(d) && !st.cons.entails(d.neg().addc(-1)) {
				return condGE(d)
			}
		}
	}
	return nil
}

func (x *Exec) indexAddr(st *State, v *ssa.IndexAddr) []Outcome {
	i := intOf(x.val(st, v.Index))
	switch a := x.val(st, v.X).(type) {
	case VSlice:
		if a.Obj == nil {
			return []Outcome{{st: st, panic: &Panic{"index", "index of nil slice", v}}}
		}
		return x.bounds(st, v, i, a.Len, func(s *State) []Outcome {
			l := a.Off.add(i)
			return x.set(s, v, VPtr{Obj: a.Obj, Path: append(append([]PE{}, a.Path...), PE{Idx: &l})})
		})
	case VPtr, VNil:
		return x.derefs(st, a, v, func(s *State, q VPtr) []Outcome {
			at := typeAt(q.Obj, q.Path).Underlying().(*types.Array)
			return x.bounds(s, v, i, LC(at.Len()), func(s *State) []Outcome {
				l := i
				return x.set(s, v, VPtr{Obj: q.Obj, Path: append(append([]PE{}, q.Path...), PE{Idx: &l})})
			})
		})
	}
	x.unsup(v, "index of %s", valString(x.val(st, v.X)))
	return nil
}

func (x *Exec) bounds(st *State, site ssa.Instruction, i, n Lin, f func(*State) []Outcome) []Outcome {
	msg := func() string { return fmt.Sprintf("index %s out of range, length %s", i, n) }
	ok, bad := x.check(st, site, "index", condGE(i), msg)
	return each(ok, bad, func(s *State) []Outcome {
		ok, bad := x.check(s, site, "index", condGE(n.sub(i).addc(-1)), msg)
		return each(ok, bad, f)
	})
}

func (x *Exec) index(st *State, v *ssa.Index) []Outcome {
	i := intOf(x.val(st, v.Index))
	switch a := x.val(st, v.X).(type) {
	case VArr:
		return x.bounds(st, v, i, a.C.length(), func(s *State) []Outcome {
			return x.set(s, v, s.at(a.C, i, v.Type()))
		})
	case VStr:
		return x.bounds(st, v, i, a.C.length(), func(s *State) []Outcome {
			return x.set(s, v, s.at(a.C, i, types.Typ[types.Uint8]))
		})
	}
	x.unsup(v, "index of %s", valString(x.val(st, v.X)))
	return nil
}

func (x *Exec) lookup(st *State, v *ssa.Lookup) []Outcome {
	if a, ok := x.val(st, v.X).(VStr); ok {
		i := intOf(x.val(st, v.Index))
		return x.bounds(st, v, i, a.C.length(), func(s *State) []Outcome {
			return x.set(s, v, s.at(a.C, i, types.Typ[types.Uint8]))
		})
	}
	if es, ok := mapLiteral(v.X); ok {
		return x.lookupLiteral(st, v, es)
	}
	m := x.val(st, v.X)
	k := x.val(st, v.Index)
	t := mkTerm("mapget", m, k, fmt.Sprint(st.nver))
	if v.CommaOk {
		et := v.Type().(*types.Tuple)
		return x.set(st, v, VTuple{[]Value{symVal(t, et.At(0).Type()), VBool{condOp(mkTerm("maphas", m, k, fmt.Sprint(st.nver)))}}})
	}
	return x.set(st, v, symVal(t, v.Type()))
}

func (x *Exec) slice(st *State, v *ssa.Slice) []Outcome {
	a := x.val(st, v.X)
	opt := func(e ssa.Value) (Lin, bool) {
		if e == nil {
			return Lin{}, false
		}
		return intOf(x.val(st, e)), true
	}
	lo, hasLo := opt(v.Low)
	hi, hasHi := opt(v.High)
	mx, hasMax := opt(v.Max)
	if !hasLo {
		lo = LC(0)
	}
	do := func(st *State, ln, cp Lin, f func(*State, Lin, Lin, Lin) []Outcome) []Outcome {
		h := ln
		if hasHi {
			h = hi
		}
		top := cp
		msg := func() string {
			return fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %s (length %s)", lo, h, cp, ln)
		}
		cur := []*State{st}
		var bad []Outcome
		need := func(c *Cond) {
			var n []*State
			for _, s := range cur {
				ok, b := x.check(s, v, "slice", c, msg)
				n = append(n, ok...)
				bad = append(bad, b...)
			}
			cur = n
		}
		if hasMax {
			need(condGE(cp.sub(mx)))
			top = mx
		}
		if hasHi {
			need(condGE(top.sub(h)))
		}
		need(condGE(h.sub(lo)))
		if hasLo {
			need(condGE(lo))
		}
		return each(cur, bad, func(s *State) []Outcome { return f(s, lo, h.sub(lo), top.sub(lo)) })
	}
	switch s := a.(type) {
	case VStr:
		return do(st, s.C.length(), s.C.length(), func(q *State, lo, n, _ Lin) []Outcome {
			return x.set(q, v, VStr{q.sub(s.C, lo, n)})
		})
	case VSlice:
		if s.Obj == nil {
			return do(st, LC(0), LC(0), func(q *State, lo, n, _ Lin) []Outcome { return x.set(q, v, nilSlice) })
		}
		return do(st, s.Len, s.Cap, func(q *State, lo, n, cp Lin) []Outcome {
			return x.set(q, v, VSlice{Obj: s.Obj, Path: s.Path, Off: s.Off.add(lo), Len: n, Cap: cp, Nil: s.Nil})
		})
	case VPtr, VNil:
		return x.derefs(st, a, v, func(q *State, p VPtr) []Outcome {
			n := LC(typeAt(p.Obj, p.Path).Underlying().(*types.Array).Len())
			return do(q, n, n, func(q *State, lo, n, cp Lin) []Outcome {
				return x.set(q, v, VSlice{Obj: p.Obj, Path: p.Path, Off: lo, Len: n, Cap: cp})
			})
		})
	}
	x.unsup(v, "slice of %s", valString(a))
	return nil
}

func (x *Exec) makeSlice(st *State, v *ssa.MakeSlice) []Outcome {
	n := intOf(x.val(st, v.Len))
	c := intOf(x.val(st, v.Cap))
	if x.muted == 0 {
		x.mkMax = append(x.mkMax, makeSite{v, c, st.clone()})
	}
	msg := func() string { return fmt.Sprintf("makeslice: length %s, capacity %s out of range", n, c) }
	ok, bad := x.check(st, v, "make", condGE(n), msg)
	return each(ok, bad, func(s *State) []Outcome {
		ok, bad := x.check(s, v, "make", condGE(LB(pow2(43)).sub(c)), msg)
		return each(ok, bad, func(s *State) []Outcome {
			ok, bad := x.check(s, v, "make", condGE(c.sub(n)), msg)
			return each(ok, bad, func(s *State) []Outcome {
				return x.set(s, v, s.newSlice("make", elemType(v.Type()), content(Seg{K: 'z', N: n}), &c))
			})
		})
	})
}

// ---------------------------------------------------------------- interfaces

func implements(t types.Type, i types.Type) bool {
	u, ok := i.Underlying().(*types.Interface)
	return ok && types.Implements(t, u)
}

// asPayload is the value an interface value tm holds when its dynamic type is T
func (x *Exec) payload(st *State, tm *Term, T types.Type) Value {
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		o := mkTerm("obj:"+typeKey(T), tm)
		if objType[o] == nil {
			objType[o] = u.Elem()
		}
		return VPtr{Obj: o, Nil: mkTerm("rv", tm)}
	case *types.Slice:
		// nil-ness of the held slice is that of the reflect value
		t := mkTerm("rv", tm)
		o := mkTerm("arr:"+typeKey(T), tm)
		objType[o] = types.NewArray(u.Elem(), -1)
		v := VSlice{Obj: o, Off: LC(0), Len: LT(lenTerm(t)), Cap: LT(capTerm(t)), Nil: t}
		if _, ok := st.heap[o]; !ok {
			src := mkTerm("arrsrc", o)
			objType[src] = objType[o]
			st.heap[o] = VArr{content(Seg{K: 'b', Src: src, Off: LC(0), N: v.Cap})}
		}
		return v
	}
	return symVal(mkTerm("as:"+typeKey(T), tm), T)
}

// holds is the condition that the interface value v has a dynamic type that
// is, or implements, T
func (x *Exec) holds(st *State, v Value, T types.Type) *Cond {
	switch a := v.(type) {
	case VNil:
		return condFalse
	case VIface:
		if types.IsInterface(T) {
			return condBool(implements(a.T, T))
		}
		return condBool(types.Identical(a.T, T))
	case VType, VRVal:
		return condTrue
	case VSym:
		if d, ok := st.dyn[a.Tm]; ok {
			if types.IsInterface(T) {
				return condBool(implements(d, T))
			}
			return condBool(types.Identical(d, T))
		}
		if types.IsInterface(T) {
			if types.IsInterface(a.T) && implements(a.T, T) {
				return condNil(a.Tm).not()
			}
			return condOp(mkTerm("implements", a.Tm, typeKey(T)))
		}
		return condType(a.Tm, T)
	}
	panic("holds: " + valString(v))
}

func (x *Exec) typeAssert(st *State, v *ssa.TypeAssert) []Outcome {
	a := x.val(st, v.X)
	T := v.AssertedType
	res := func(s *State) Value {
		switch b := a.(type) {
		case VIface:
			if types.IsInterface(T) {
				return b
			}
			return b.V
		case VSym:
			if types.IsInterface(T) {
				return VSym{b.Tm, T}
			}
			return x.payload(s, b.Tm, T)
		}
		return a
	}
	c := x.holds(st, a, T)
	if v.CommaOk {
		t, f := st.branch(c)
		r := each(t, nil, func(s *State) []Outcome {
			x.learnType(s, a, T)
			return x.set(s, v, VTuple{[]Value{res(s), VBool{condTrue}}})
		})
		return append(r, each(f, nil, func(s *State) []Outcome {
			return x.set(s, v, VTuple{[]Value{zeroVal(T), VBool{condFalse}}})
		})...)
	}
	ok, bad := x.check(st, v, "type", c, func() string {
		return fmt.Sprintf("type assertion of %s to %s fails", valString(a), typeKey(T))
	})
	return each(ok, bad, func(s *State) []Outcome {
		x.learnType(s, a, T)
		return x.set(s, v, res(s))
	})
}

func (x *Exec) learnType(st *State, a Value, T types.Type) {
	if b, ok := a.(VSym); ok {
		if _, ok := st.facts[condNil(b.Tm).k]; !ok {
			c := condNil(b.Tm)
			st.facts[c.k] = fact{c, false}
		}
		if !types.IsInterface(T) {
			x.established(st, b.Tm, T)
		}
	}
}

// established: tm is now known to hold a T; what is assumed of T's objects applies
func (x *Exec) established(st *State, tm *Term, T types.Type) {
	if f := x.inv[typeKey(T)]; f != nil {
		if p, ok := x.payload(st, tm, T).(VPtr); ok {
			if st.decide(condNil(p.Nil)) != 1 {
				f(x, st, p)
			}
		}
	}
}

// implementers of an interface among the repository's types
func (x *Exec) implementers(T types.Type) []types.Type {
	k := typeKey(T)
	if r, ok := x.impls[k]; ok {
		return r
	}
	var r []types.Type
	for _, pn := range []string{"collection", "util", "main"} {
		sc := x.r.tpkgs[pn].Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if implements(t, T) {
				r = append(r, t)
			} else if p := types.NewPointer(t); implements(p, T) {
				r = append(r, p)
			}
		}
	}
	x.impls[k] = r
	return r
}

// ---------------------------------------------------------------- calls

func (x *Exec) call(st *State, v *ssa.Call, f func(*State, Value) []Outcome) []Outcome {
	cc := v.Common()
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.val(st, a))
	}
	var recv Value
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(st, v, b.Name(), cc, args, f)
	}
	recv = x.val(st, cc.Value)
	outs := x.invokeOrCall(st, v, cc, recv, args)
	var r []Outcome
	for _, o := range outs {
		if o.panic != nil {
			r = append(r, o)
			continue
		}
		var rv Value
		switch len(o.rets) {
		case 0:
		case 1:
			rv = o.rets[0]
			if cc.Signature().Results().Len() > 1 {
				if _, ok := rv.(VTuple); !ok {
					rv = VTuple{o.rets}
				}
			}
		default:
			rv = VTuple{o.rets}
		}
		r = append(r, f(o.st, rv)...)
	}
	return r
}

func (x *Exec) invokeOrCall(st *State, site ssa.CallInstruction, cc *ssa.CallCommon, recv Value, args []Value) []Outcome {
	if cc.IsInvoke() {
		return x.invoke(st, site, cc, recv, args)
	}
	switch fv := recv.(type) {
	case VFunc:
		return x.callFn(st, fv.Fn, args, fv.Bind, site)
	case VNil:
		return []Outcome{{st: st, panic: &Panic{"nil", "call of nil function", site}}}
	case VSym:
		ok, bad := x.check(st, site, "nil", nilCond(st, fv).not(), func() string { return "call of nil function" })
		return each(ok, bad, func(s *State) []Outcome {
			return x.opaque(s, "apply", cc.Signature(), append([]Value{fv}, args...), site)
		})
	}
	x.unsup(site, "call of %s", valString(recv))
	return nil
}

func (x *Exec) invoke(st *State, site ssa.CallInstruction, cc *ssa.CallCommon, recv Value, args []Value) []Outcome {
	m := cc.Method
	all := append([]Value{recv}, args...)
	iname := ifaceName(cc.Value.Type()) + "." + m.Name()
	switch a := recv.(type) {
	case VNil:
		return []Outcome{{st: st, panic: &Panic{"nil", "method " + m.Name() + " of nil interface", site}}}
	case VType, VRVal:
		return x.reflectCall(st, m.Name(), all, cc.Signature(), site)
	case VIface:
		return x.dispatch(st, site, a.T, m, append([]Value{a.V}, args...))
	case VSym:
		// a value passed on as a wider interface is still what it was
		if n, ok := types.Unalias(a.T).(*types.Named); ok && n.Obj().Pkg() != nil && types.IsInterface(n) && !types.Identical(n, cc.Value.Type()) {
			if w, ok := cc.Value.Type().Underlying().(*types.Interface); ok && types.Implements(n, w) && !types.Implements(cc.Value.Type(), n.Underlying().(*types.Interface)) {
				iname = ifaceName(n) + "." + m.Name()
			}
		}
		ok, bad := x.check(st, site, "nil", condNil(a.Tm).not(), func() string {
			return "method " + m.Name() + " of nil interface " + valString(a)
		})
		return each(ok, bad, func(s *State) []Outcome {
			if T, ok := s.dyn[a.Tm]; ok {
				return x.dispatch(s, site, T, m, append([]Value{x.payload(s, a.Tm, T)}, args...))
			}
			if h := x.hooks[iname]; h != nil {
				if os := h(x, s, all, site); os != nil {
					return os
				}
			}
			if h := x.hooks["*."+m.Name()]; h != nil {
				if os := h(x, s, all, site); os != nil {
					return os
				}
			}
			if strings.HasPrefix(a.Tm.op, "typeof") || a.Tm.op == "valueof" {
				return x.reflectCall(s, m.Name(), all, cc.Signature(), site)
			}
			if x.split[ifaceName(cc.Value.Type())] {
				var out []Outcome
				for _, T := range x.implementers(cc.Value.Type()) {
					if f, ok := s.facts[condType(a.Tm, T).k]; ok && !f.val {
						continue
					}
					if x.excluded(s, a.Tm, T) {
						continue
					}
					n := s.clone()
					n.dyn[a.Tm] = T
					x.established(n, a.Tm, T)
					out = append(out, x.dispatch(n, site, T, m, append([]Value{x.payload(n, a.Tm, T)}, args...))...)
				}
				return out
			}
			return x.external(s, iname, cc.Signature(), all, site)
		})
	}
	x.unsup(site, "invoke %s on %s", m.Name(), valString(recv))
	return nil
}

// excluded: facts rule out the dynamic type T
func (x *Exec) excluded(st *State, tm *Term, T types.Type) bool {
	for _, f := range st.facts {
		if f.c.op == "op" && f.c.T.op == "implements" && f.c.T.args[0] == Arg(tm) {
			want := f.c.T.args[1].(string)
			for _, p := range x.r.tpkgs {
				sc := p.Scope()
				for _, n := range sc.Names() {
					if tn, ok := sc.Lookup(n).(*types.TypeName); ok && typeKey(tn.Type()) == want {
						if implements(T, tn.Type()) != f.val {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func ifaceName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return typeKey(t)
}

func (x *Exec) dispatch(st *State, site ssa.CallInstruction, T types.Type, m *types.Func, args []Value) []Outcome {
	ms := x.r.prog.MethodSets.MethodSet(T)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		x.unsup(site, "no method %s of %s", m.Name(), typeKey(T))
	}
	fn := x.r.prog.MethodValue(sel)
	if fn == nil {
		x.unsup(site, "no function for method %s of %s", m.Name(), typeKey(T))
	}
	return x.callFn(st, fn, args, nil, site)
}

// dedupe drops outcomes that describe the same result
func (x *Exec) dedupe(outs []Outcome) []Outcome { return outs }
