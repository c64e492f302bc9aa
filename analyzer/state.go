package main

// Abstract states.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fact struct {
	c   *Cond // nil, op or type atom
	val bool
}

type Event struct {
	kind string
	fn   string // callee
	args []Value
	rets []Value
	site ssa.Instruction
	in   *ssa.Function
	snap *State
	prev *Event
	n    int
	sub  [][]*Event // of a loop: what happens in an iteration
}

type State struct {
	cons  *conNode
	heap  map[*Term]Value
	facts map[string]fact
	dyn   map[*Term]types.Type
	env   map[ssa.Value]Value
	ev    *Event
	ghost map[string]Value // property specific

	callers []map[ssa.Value]Value
	dstack  [][]deferred
	defers  []deferred
	nf      int   // names made so far on this path
	nver    int   // version of maps
	largs   []Arg // iterations of the enclosing loops
	dirty   map[string]bool
	trace   *Trace
	sk      map[string]skTmpl // objects made in an iteration of a loop; never written
}

// Trace is the sequence of control decisions that led to a state
type Trace struct {
	b    *ssa.BasicBlock
	t    bool
	prev *Trace
}

func (st *State) mark(b *ssa.BasicBlock, t bool) { st.trace = &Trace{b, t, st.trace} }

// fresh names a new entity: the name is a function of the path and of the
// iterations of the enclosing loops
func (st *State) fresh(hint string) *Term {
	st.nf++
	return mkTerm(fmt.Sprintf("%s#%d", hint, st.nf), st.largs...)
}

func newState() *State {
	return &State{heap: map[*Term]Value{}, facts: map[string]fact{}, dyn: map[*Term]types.Type{}, env: map[ssa.Value]Value{}, ghost: map[string]Value{}}
}

func (st *State) clone() *State {
	n := &State{cons: st.cons, ev: st.ev, callers: st.callers, dstack: st.dstack, defers: st.defers, nf: st.nf, nver: st.nver,
		largs: st.largs, dirty: st.dirty, trace: st.trace, sk: st.sk}
	n.heap = make(map[*Term]Value, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.facts = make(map[string]fact, len(st.facts)+4)
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.dyn = make(map[*Term]types.Type, len(st.dyn))
	for k, v := range st.dyn {
		n.dyn[k] = v
	}
	n.env = make(map[ssa.Value]Value, len(st.env)+4)
	for k, v := range st.env {
		n.env[k] = v
	}
	n.ghost = make(map[string]Value, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	return n
}

func (st *State) event(e *Event) {
	e.prev = st.ev
	if st.ev != nil {
		e.n = st.ev.n + 1
	} else {
		e.n = 1
	}
	st.ev = e
}

// events since mark, oldest first
func (st *State) events(mark *Event) []*Event {
	var r []*Event
	for e := st.ev; e != nil && e != mark; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (st *State) push(e Lin, eq bool) {
	if e.isConst() {
		if !eq && e.k.Sign() >= 0 || eq && e.k.Sign() == 0 {
			return
		}
	}
	if !eq && st.cons.entails(e) {
		return
	}
	st.cons = st.cons.push(con{e, eq})
}

// ge: is l >= 0 certain
func (st *State) ge(l Lin) bool {
	return st.cons.entails(l) || st.sums(l) && st.cons.entails(l)
}
func (st *State) eqL(a, b Lin) bool {
	l := a.sub(b)
	return st.cons.entailsEq(l) || st.sums(l) && st.cons.entailsEq(l)
}

// sums adds how the partial sums in l, and those of the same bodies in the
// conditions, relate: they do not decrease, and grow by a whole body
func (st *State) sums(l Lin) bool {
	var ps []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.op == "psum" && !seen[t] {
			seen[t] = true
			ps = append(ps, t)
		}
	}
	for _, m := range l.ts {
		add(m.t)
	}
	if len(ps) == 0 {
		return false
	}
	bodies := map[*Content]bool{}
	for _, t := range ps {
		bodies[t.args[1].(*Content)] = true
	}
	n := 0
	for c := st.cons; c != nil && n < 400; c = c.prev {
		n++
		for _, m := range c.c.e.ts {
			if m.t.op == "psum" && bodies[m.t.args[1].(*Content)] {
				add(m.t)
			}
		}
	}
	if len(ps) > 8 {
		return false
	}
	old := st.cons
	for _, a := range ps {
		// each body has some least length
		body, x := a.args[1].(*Content), a.args[0].(Lin)
		if lo, _ := body.length().interval(); lo != nil && lo.Sign() > 0 && st.cons.entails(x) {
			st.push(psumLin(body, x).sub(x.mul(lo)), false)
		}
	}
	for _, a := range ps {
		for _, b := range ps {
			if a == b || a.args[1] != b.args[1] {
				continue
			}
			body := a.args[1].(*Content)
			x, y := a.args[0].(Lin), b.args[0].(Lin)
			d := y.sub(x)
			if st.cons.entails(d.addc(-1)) {
				st.push(psumLin(body, y).sub(psumLin(body, x)).sub(instBody(body, x).length()), false)
			} else if st.cons.entails(d) {
				st.push(psumLin(body, y).sub(psumLin(body, x)), false)
			}
		}
	}
	return st.cons != old
}

// infeasible: no concrete state is described
func (st *State) infeasible() bool {
	return st.cons.infeasible()
}

func (st *State) decideL(c *Cond) int {
	if c.op == "ge" {
		if st.cons.entails(c.L) {
			return 1
		}
		if st.cons.entails(c.L.neg().addc(-1)) {
			return -1
		}
		return 0
	}
	if st.cons.entailsEq(c.L) {
		return 1
	}
	if st.cons.entails(c.L.addc(-1)) || st.cons.entails(c.L.neg().addc(-1)) {
		return -1
	}
	return 0
}

// neverNil: arrays whose elements are given to be not nil
var neverNil = map[*Term]bool{}

// decide: 1 true, -1 false, 0 unknown
func (st *State) decide(c *Cond) int {
	switch c.op {
	case "true":
		return 1
	case "ge", "eq":
		if d := st.decideL(c); d != 0 {
			return d
		}
		if st.sums(c.L) {
			return st.decideL(c)
		}
	case "nil":
		if c.T.op == "elem" && (strings.HasPrefix(c.T.args[0].(*Term).op, "fill:") || neverNil[c.T.args[0].(*Term)]) {
			return -1
		}
		if f, ok := st.facts[c.k]; ok {
			if f.val {
				return 1
			}
			return -1
		}
		if _, ok := st.dyn[c.T]; ok {
			return -1
		}
		if l := termTab["len("+argKey(c.T)]; l != nil && st.cons.entails(LT(l).addc(-1)) {
			return -1
		}
	case "op":
		if f, ok := st.facts[c.k]; ok {
			if f.val {
				return 1
			}
			return -1
		}
	case "type":
		if t, ok := st.dyn[c.T]; ok {
			if types.Identical(t, c.Ty) {
				return 1
			}
			return -1
		}
		if f, ok := st.facts[c.k]; ok {
			if f.val {
				return 1
			}
			return -1
		}
		if st.decide(condNil(c.T)) == 1 {
			return -1
		}
	case "not":
		return -st.decide(c.A)
	case "and":
		a, b := st.decide(c.A), st.decide(c.B)
		if a == -1 || b == -1 {
			return -1
		}
		if a == 1 && b == 1 {
			return 1
		}
	}
	return 0
}

// assume restricts the state; it may be split, or become empty
func (st *State) assume(c *Cond, val bool) []*State {
	d := st.decide(c)
	if d == 1 && val || d == -1 && !val {
		return []*State{st}
	}
	if d != 0 {
		return nil
	}
	switch c.op {
	case "ge":
		l := c.L
		if !val {
			l = l.neg().addc(-1)
		}
		st.cons = st.cons.push(con{l, false})
		return []*State{st}
	case "eq":
		if val {
			st.cons = st.cons.push(con{c.L, true})
			if st.infeasibleOf(c.L) {
				return nil
			}
			return []*State{st}
		}
		if st.cons.entails(c.L) {
			st.cons = st.cons.push(con{c.L.addc(-1), false})
			return []*State{st}
		}
		if st.cons.entails(c.L.neg()) {
			st.cons = st.cons.push(con{c.L.neg().addc(-1), false})
			return []*State{st}
		}
		o := st.clone()
		st.cons = st.cons.push(con{c.L.addc(-1), false})
		o.cons = o.cons.push(con{c.L.neg().addc(-1), false})
		return []*State{st, o}
	case "nil":
		st.facts[c.k] = fact{c, val}
		if val {
			if l := termTab["len("+argKey(c.T)]; l != nil {
				st.cons = st.cons.push(con{LT(l), true})
				st.cons = st.cons.push(con{LT(capTerm(c.T)), true})
			}
		}
		return []*State{st}
	case "op":
		st.facts[c.k] = fact{c, val}
		return []*State{st}
	case "type":
		if val {
			st.dyn[c.T] = c.Ty
			st.facts[condNil(c.T).k] = fact{condNil(c.T), false}
		} else {
			st.facts[c.k] = fact{c, false}
		}
		return []*State{st}
	case "not":
		return st.assume(c.A, !val)
	case "and":
		if val {
			var out []*State
			for _, s := range st.assume(c.A, true) {
				out = append(out, s.assume(c.B, true)...)
			}
			return out
		}
		o := st.clone()
		out := st.assume(c.A, false)
		for _, s := range o.assume(c.A, true) {
			out = append(out, s.assume(c.B, false)...)
		}
		return out
	}
	return []*State{st}
}

func (st *State) infeasibleOf(l Lin) bool {
	return empty(relevant(st.cons, l))
}

// branch splits on a condition
func (st *State) branch(c *Cond) (t, f []*State) {
	switch st.decide(c) {
	case 1:
		return []*State{st}, nil
	case -1:
		return nil, []*State{st}
	}
	o := st.clone()
	t = st.assume(c, true)
	f = o.assume(c, false)
	return
}

// ---------------------------------------------------------------- heap

var allocN int

func (st *State) newObj(hint string, t types.Type) *Term {
	o := st.fresh("new:" + hint + ":" + typeKey(t))
	objType[o] = t
	return o
}

func isAlloc(o *Term) bool {
	return strings.HasPrefix(o.op, "new:") || strings.HasPrefix(o.op, "sk:new:")
}

// get is the current value of an object
func (st *State) get(o *Term) Value {
	if v, ok := st.heap[o]; ok {
		return v
	}
	v := st.initOf(o)
	st.heap[o] = v
	return v
}

// initOf is the value of an object this state has not touched
func (st *State) initOf(o *Term) Value {
	if len(st.dirty) > 0 && !isAlloc(o) && st.dirty[typeKey(objType[o])] {
		return initVal2(o, mkTerm("dirty", o))
	}
	return st.initVal(o)
}

func initVal2(o, as *Term) Value {
	ty := objType[o]
	if a, ok := ty.Underlying().(*types.Array); ok {
		objType[as] = ty
		if a.Len() < 0 {
			if o.op == "arr" {
				return VArr{content(Seg{K: 'b', Src: as, Off: LC(0), N: LT(capTerm(o.args[0].(*Term)))})}
			}
			return VArr{content(Seg{K: 'b', Src: as, Off: LC(0), N: LT(lenTerm(o))})}
		}
		return VArr{content(Seg{K: 'b', Src: as, Off: LC(0), N: LC(a.Len())})}
	}
	return symVal(as, ty)
}

type skTmpl struct {
	v   Value
	arg *Term
	ty  types.Type
	obj *Term
}

// initVal is the value an object had before anything was written to it
func (st *State) initVal(o *Term) Value {
	if v, ok := constInit[o]; ok {
		return v
	}
	if isAlloc(o) {
		// an object made in an iteration of a loop that was left
		for i := len(o.args) - 2; i >= 0; i -= 2 {
			mk, ok := o.args[i].(string)
			if !ok {
				break
			}
			t, ok := st.sk[o.op+"|"+mk]
			if !ok {
				continue
			}
			s := newSubst()
			for j := 1; j < len(o.args) && j < len(t.obj.args); j += 2 {
				a, ok1 := o.args[j].(Lin)
				b, ok2 := t.obj.args[j].(Lin)
				if ok1 && ok2 && len(b.ts) == 1 && !a.eq(b) {
					s.lin[b.ts[0].t] = a
				}
			}
			return s.V(t.v)
		}
	}
	ty := objType[o]
	if ty == nil {
		panic("object without type: " + o.String())
	}
	if a, ok := ty.Underlying().(*types.Array); ok && a.Len() < 0 {
		if o.op == "arr" {
			t := o.args[0].(*Term)
			return VArr{content(Seg{K: 'b', Src: o, Off: LC(0), N: LT(capTerm(t))})}
		}
		l := lenTerm(o)
		return VArr{content(Seg{K: 'b', Src: o, Off: LC(0), N: LT(l)})}
	}
	if a, ok := ty.Underlying().(*types.Array); ok {
		return VArr{content(Seg{K: 'b', Src: o, Off: LC(0), N: LC(a.Len())})}
	}
	return symVal(mkTerm("init", o), ty)
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

func (st *State) readPath(v Value, ty types.Type, path []PE) Value {
	for _, p := range path {
		if p.Idx == nil {
			s, ok := v.(VStruct)
			if !ok {
				return nil
			}
			v = s.F[p.F]
			ty = ty.Underlying().(*types.Struct).Field(p.F).Type()
		} else {
			a, ok := v.(VArr)
			if !ok {
				return nil
			}
			ty = elemType(ty)
			v = st.at(a.C, *p.Idx, ty)
		}
	}
	return v
}

func (st *State) writePath(v Value, ty types.Type, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.Idx == nil {
		s, ok := v.(VStruct)
		if !ok {
			panic("writePath: not a struct: " + valString(v))
		}
		f := append([]Value{}, s.F...)
		f[p.F] = st.writePath(f[p.F], ty.Underlying().(*types.Struct).Field(p.F).Type(), path[1:], nv)
		return VStruct{f}
	}
	a := v.(VArr)
	et := elemType(ty)
	if len(path) > 1 {
		old := st.at(a.C, *p.Idx, et)
		nv = st.writePath(old, et, path[1:], nv)
	}
	return VArr{st.put(a.C, *p.Idx, nv)}
}

func (st *State) load(p VPtr) Value {
	return st.readPath(st.get(p.Obj), objType[p.Obj], p.Path)
}

func (st *State) store(p VPtr, v Value) {
	st.heap[p.Obj] = st.writePath(st.get(p.Obj), objType[p.Obj], p.Path, v)
}

// typeAt is the type of the location
func typeAt(o *Term, path []PE) types.Type {
	ty := objType[o]
	for _, p := range path {
		if p.Idx == nil {
			ty = ty.Underlying().(*types.Struct).Field(p.F).Type()
		} else {
			ty = elemType(ty)
		}
	}
	return ty
}

// arr is the content of the array a slice is a view of
func (st *State) arr(s VSlice) *Content {
	v := st.readPath(st.get(s.Obj), objType[s.Obj], s.Path)
	if a, ok := v.(VArr); ok {
		return a.C
	}
	panic("slice of no array: " + s.Obj.String())
}

// bytesOf is the content a slice shows
func (st *State) bytesOf(s VSlice) *Content {
	if s.Obj == nil {
		return content()
	}
	return st.sub(st.arr(s), s.Off, s.Len)
}

func (st *State) setArr(s VSlice, c *Content) {
	st.heap[s.Obj] = st.writePath(st.get(s.Obj), objType[s.Obj], s.Path, VArr{c})
}

// newSlice makes a slice with a new array holding c
func (st *State) newSlice(hint string, elem types.Type, c *Content, cp *Lin) VSlice {
	o := st.newObj(hint, types.NewArray(elem, -1))
	n := c.length()
	l := n
	if cp == nil {
		ct := setRange(st.fresh("cap"), big0, pow2(41))
		st.push(LT(ct).sub(n), false)
		l = LT(ct)
		c = content(append(append([]Seg{}, c.segs...), Seg{K: 'z', N: l.sub(n)})...)
	} else {
		l = *cp
		if !l.eq(n) {
			c = content(append(append([]Seg{}, c.segs...), Seg{K: 'z', N: l.sub(n)})...)
		}
	}
	st.heap[o] = VArr{c}
	return VSlice{Obj: o, Off: LC(0), Len: n, Cap: l}
}

// field reads a struct field by name
func (st *State) field(p VPtr, name string) Value {
	i := fieldIndex(typeAt(p.Obj, p.Path), name)
	if i < 0 {
		return nil
	}
	return st.load(VPtr{Obj: p.Obj, Path: append(append([]PE{}, p.Path...), PE{F: i})})
}

func (st *State) setField(p VPtr, name string, v Value) bool {
	i := fieldIndex(typeAt(p.Obj, p.Path), name)
	if i < 0 {
		return false
	}
	st.store(VPtr{Obj: p.Obj, Path: append(append([]PE{}, p.Path...), PE{F: i})}, v)
	return true
}

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return renamed(t, s, name)
}

// renamed finds a field that no longer has the name it had: among the fields
// of its type, what is new in the struct stands in order for what is gone.
func renamed(t types.Type, s *types.Struct, name string) int {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return -1
	}
	was := map[string]string{}
	var order []string
	for _, f := range strings.Split(layouts[n.Obj().Pkg().Name()+"."+n.Obj().Name()], "; ") {
		if nm, typ, ok := strings.Cut(f, " "); ok {
			was[nm] = typ
			order = append(order, nm)
		}
	}
	typ, ok := was[name]
	if !ok {
		return -1
	}
	now := map[string]bool{}
	var cand []int
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		now[f.Name()] = true
		if _, old := was[f.Name()]; old {
			continue
		}
		if types.TypeString(f.Type(), func(p *types.Package) string {
			if p == n.Obj().Pkg() {
				return ""
			}
			return p.Name()
		}) == typ {
			cand = append(cand, i)
		}
	}
	at, gone := -1, 0
	for _, o := range order {
		if now[o] || was[o] != typ {
			continue
		}
		if o == name {
			at = gone
		}
		gone++
	}
	if at < 0 || gone != len(cand) {
		return -1
	}
	return cand[at]
}

// ---------------------------------------------------------------- substitution in states

func (st *State) subst(s *Subst) {
	touched := false
	for p := st.cons; p != nil; p = p.prev {
		for _, m := range p.c.e.ts {
			if s.touches(m.t.deps) {
				touched = true
			}
		}
	}
	if touched {
		var cs []con
		for p := st.cons; p != nil; p = p.prev {
			cs = append(cs, p.c)
		}
		var n *conNode
		for i := len(cs) - 1; i >= 0; i-- {
			e := s.L(cs[i].e)
			if e.isConst() && (e.k.Sign() == 0 || !cs[i].eq && e.k.Sign() > 0) {
				continue
			}
			n = n.push(con{e, cs[i].eq})
		}
		st.cons = n
	}
	for k, v := range st.env {
		if v != nil {
			st.env[k] = s.V(v)
		}
	}
	for i, e := range st.callers {
		hit := false
		for _, v := range e {
			if v != nil && valTouches(s, v) {
				hit = true
				break
			}
		}
		if hit {
			ne := make(map[ssa.Value]Value, len(e))
			for k, v := range e {
				if v != nil {
					ne[k] = s.V(v)
				}
			}
			nc := append([]map[ssa.Value]Value{}, st.callers...)
			nc[i] = ne
			st.callers = nc
		}
	}
	nh := make(map[*Term]Value, len(st.heap))
	var os []*Term
	for o := range st.heap {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	for _, o := range os {
		nh[s.T(o)] = s.V(st.heap[o])
	}
	st.heap = nh
	nf := make(map[string]fact, len(st.facts))
	for _, f := range st.facts {
		c := s.cond(f.c)
		nf[c.k] = fact{c, f.val}
	}
	st.facts = nf
	nd := make(map[*Term]types.Type, len(st.dyn))
	for t, ty := range st.dyn {
		nd[s.T(t)] = ty
	}
	st.dyn = nd
	for k, v := range st.ghost {
		st.ghost[k] = s.V(v)
	}
	if len(st.sk) > 0 {
		nk := make(map[string]skTmpl, len(st.sk))
		for k, t := range st.sk {
			bound := false
			for x := range s.lin {
				if t.obj.dep(x) {
					bound = true
				}
			}
			if !bound {
				t.v = s.V(t.v)
			}
			nk[k] = t
		}
		st.sk = nk
	}
	if len(st.largs) > 0 {
		na := make([]Arg, len(st.largs))
		for i, a := range st.largs {
			na[i] = s.arg(a)
		}
		st.largs = na
	}
}

func valTouches(s *Subst, v Value) bool {
	hit := false
	walkValue(v, func(a Arg) {
		if hit {
			return
		}
		d := map[int]bool{}
		addDeps(d, a)
		hit = s.touches(d)
	})
	return hit
}

// ---------------------------------------------------------------- equality under a state

func (st *State) eqPath(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i].Idx == nil) != (b[i].Idx == nil) {
			return false
		}
		if a[i].Idx == nil {
			if a[i].F != b[i].F {
				return false
			}
		} else if !st.eqL(*a[i].Idx, *b[i].Idx) {
			return false
		}
	}
	return true
}

func (st *State) isNil(v Value) int {
	switch x := v.(type) {
	case VNil:
		return 1
	case VPtr:
		if x.Obj == nil {
			return 1
		}
		if x.Nil == nil {
			return -1
		}
		return st.decide(condNil(x.Nil))
	case VSlice:
		if x.Obj == nil {
			return 1
		}
		if x.Nil == nil {
			return -1
		}
		if st.ge(x.Len.addc(-1)) {
			return -1
		}
		return st.decide(condNil(x.Nil))
	case VIface, VFunc:
		return -1
	case VSym:
		return st.decide(condNil(x.Tm))
	}
	return 0
}

// eqVal: certainly the same value (identity of references)
func (st *State) eqVal(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.vkey() == b.vkey() {
		return true
	}
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && st.eqL(x.L, y.L)
	case VBool:
		y, ok := b.(VBool)
		if !ok {
			return false
		}
		d, e := st.decide(x.C), st.decide(y.C)
		return d != 0 && d == e
	case VPtr, VNil:
		if st.isNil(a) == 1 && st.isNil(b) == 1 {
			return true
		}
		xp, ok1 := a.(VPtr)
		yp, ok2 := b.(VPtr)
		if ok1 && ok2 && xp.Obj == yp.Obj && st.eqPath(xp.Path, yp.Path) {
			return xp.Nil == yp.Nil || st.isNil(xp) == -1 && st.isNil(yp) == -1
		}
		return false
	case VSlice:
		y, ok := b.(VSlice)
		if !ok {
			return false
		}
		if st.isNil(x) == 1 || st.isNil(y) == 1 {
			return st.isNil(x) == st.isNil(y)
		}
		return x.Obj == y.Obj && st.eqPath(x.Path, y.Path) && st.eqL(x.Off, y.Off) && st.eqL(x.Len, y.Len)
	case VStr:
		y, ok := b.(VStr)
		return ok && st.eqContent(x.C, y.C)
	case VIface:
		y, ok := b.(VIface)
		return ok && types.Identical(x.T, y.T) && st.eqVal(x.V, y.V)
	case VSym:
		y, ok := b.(VSym)
		if ok && x.Tm == y.Tm {
			return true
		}
		return st.isNil(a) == 1 && st.isNil(b) == 1
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !st.eqVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x.Vs) != len(y.Vs) {
			return false
		}
		for i := range x.Vs {
			if !st.eqVal(x.Vs[i], y.Vs[i]) {
				return false
			}
		}
		return true
	case VArr:
		y, ok := b.(VArr)
		return ok && st.eqContent(x.C, y.C)
	}
	return false
}

// norm drops empty segments and opens snapshots that can be located
// runOf: a repetition that takes the elements of a source one by one is a
// run of the source
func runOf(g *Seg) (Seg, bool) {
	if g.K != 'r' || len(g.Body.segs) != 1 || g.Body.segs[0].K != 'e' {
		return Seg{}, false
	}
	v := bodyVar[g.Body]
	var t *Term
	switch e := g.Body.segs[0].V.(type) {
	case VInt:
		if len(e.L.ts) == 1 && e.L.k.Sign() == 0 && e.L.ts[0].c.Cmp(big1) == 0 {
			t = e.L.ts[0].t
		}
	case VSym:
		t = e.Tm
	}
	if v == nil || t == nil || t.op != "elem" || len(t.args) != 2 {
		return Seg{}, false
	}
	src, ok1 := t.args[0].(*Term)
	idx, ok2 := t.args[1].(Lin)
	if !ok1 || !ok2 || src.dep(v) {
		return Seg{}, false
	}
	c := idx.sub(LT(v))
	if c.dep(v) {
		return Seg{}, false
	}
	return Seg{K: 'b', Src: src, Off: g.Lo.add(c), N: g.Hi.sub(g.Lo)}, true
}

func (st *State) norm(c *Content) *Content {
	var out []Seg
	for _, g := range c.segs {
		n := g.length()
		if !n.isConst() && st.cons.entailsEq(n) {
			continue
		}
		if g.K == 'r' && st.cons.entailsEq(g.Hi.sub(g.Lo).addc(-1)) {
			out = append(out, st.norm(instBody(g.Body, g.Lo)).segs...)
			continue
		}
		if b, ok := runOf(&g); ok && st.ge(b.N) {
			g = b
		}
		if g.K == 'b' && g.Src.op == "snap" {
			if sc, ok := g.Src.args[0].(*Content); ok {
				r := st.sub(sc, g.Off, g.N)
				if len(r.segs) != 1 || r.segs[0].K != 'b' || r.segs[0].Src != g.Src {
					out = append(out, st.norm(r).segs...)
					continue
				}
			}
		}
		out = append(out, g)
	}
	return content(out...)
}

func (st *State) eqContent(a, b *Content) bool {
	if a == b {
		return true
	}
	a, b = st.norm(a), st.norm(b)
	if a == b {
		return true
	}
	i, j := 0, 0
	as, bs := append([]Seg{}, a.segs...), append([]Seg{}, b.segs...)
	for i < len(as) && j < len(bs) {
		x, y := as[i], bs[j]
		if segKey(&x) == segKey(&y) {
			i++
			j++
			continue
		}
		if x.K != y.K {
			if x.K == 'l' && y.K == 'e' || x.K == 'e' && y.K == 'l' {
				// literal against single elements
				split := func(s Seg) []Seg {
					var r []Seg
					for k := 0; k < len(s.Str); k++ {
						r = append(r, Seg{K: 'e', V: VInt{LC(int64(s.Str[k]))}})
					}
					return r
				}
				if x.K == 'l' {
					as = append(append(as[:i:i], split(x)...), as[i+1:]...)
				} else {
					bs = append(append(bs[:j:j], split(y)...), bs[j+1:]...)
				}
				continue
			}
			if x.K == 'b' && y.K == 'e' || x.K == 'e' && y.K == 'b' {
				// one element of a source against an element
				bl, el := x, y
				if x.K == 'e' {
					bl, el = y, x
				}
				ev, ok := el.V.(VInt)
				if !ok {
					return false
				}
				first := LT(setRange(mkTerm("elem", bl.Src, bl.Off), big0, big.NewInt(255)))
				if !st.eqL(first, ev.L) || !st.ge(bl.N.addc(-1)) {
					return false
				}
				rest := Seg{K: 'b', Src: bl.Src, Off: bl.Off.addc(1), N: bl.N.addc(-1)}
				if x.K == 'b' {
					j++
					if rest.N.isInt(0) || st.cons.entailsEq(rest.N) {
						i++
					} else {
						as[i] = rest
					}
				} else {
					i++
					if rest.N.isInt(0) || st.cons.entailsEq(rest.N) {
						j++
					} else {
						bs[j] = rest
					}
				}
				continue
			}
			if (x.K == 'z' || y.K == 'z') && (x.K == 'e' || y.K == 'e') {
				zl, el := x, y
				if x.K == 'e' {
					zl, el = y, x
				}
				if !st.isZero(el.V) || !st.ge(zl.N.addc(-1)) {
					return false
				}
				rest := Seg{K: 'z', N: zl.N.addc(-1)}
				done := rest.N.isInt(0) || st.cons.entailsEq(rest.N)
				if x.K == 'z' {
					j++
					if done {
						i++
					} else {
						as[i] = rest
					}
				} else {
					i++
					if done {
						j++
					} else {
						bs[j] = rest
					}
				}
				continue
			}
			return false
		}
		ok := false
		switch x.K {
		case 'e':
			ok = st.eqVal(x.V, y.V)
		case 'b':
			if x.Src == y.Src && st.eqL(x.Off, y.Off) {
				if st.eqL(x.N, y.N) {
					ok = true
				} else if st.ge(y.N.sub(x.N)) {
					bs[j] = Seg{K: 'b', Src: y.Src, Off: y.Off.add(x.N), N: y.N.sub(x.N)}
					i++
					continue
				} else if st.ge(x.N.sub(y.N)) {
					as[i] = Seg{K: 'b', Src: x.Src, Off: x.Off.add(y.N), N: x.N.sub(y.N)}
					j++
					continue
				}
			} else if x.Src.op == "snap" && y.Src.op == "snap" && st.eqL(x.Off, y.Off) && st.eqL(x.N, y.N) {
				xc, ok1 := x.Src.args[0].(*Content)
				yc, ok2 := y.Src.args[0].(*Content)
				ok = ok1 && ok2 && st.eqContent(xc, yc)
			}
		case 'z':
			ok = st.eqL(x.N, y.N)
			if !ok && st.ge(y.N.sub(x.N)) {
				bs[j] = Seg{K: 'z', N: y.N.sub(x.N)}
				i++
				continue
			}
			if !ok && st.ge(x.N.sub(y.N)) {
				as[i] = Seg{K: 'z', N: x.N.sub(y.N)}
				j++
				continue
			}
		case 'u', 's':
			ok = st.eqL(x.X, y.X)
		case 'r':
			if x.Body == y.Body || st.eqBody(x.Body, y.Body) {
				ok = st.eqL(x.Lo, y.Lo) && st.eqL(x.Hi, y.Hi)
				if n, isc := y.Hi.sub(x.Hi).int(); !ok && isc && n != 0 && n >= -2 && n <= 2 && st.eqL(x.Lo, y.Lo) {
					// the last repetitions of one are written out in the other
					tail := func(s Seg, from Lin) []Seg {
						var r []Seg
						for m := int64(0); m < n || m < -n; m++ {
							r = append(r, instBody(s.Body, from.addc(m)).segs...)
						}
						return r
					}
					if n > 0 {
						bs = append(append(bs[:j+1:j+1], tail(y, x.Hi)...), bs[j+1:]...)
					} else {
						as = append(append(as[:i+1:i+1], tail(x, y.Hi)...), as[i+1:]...)
					}
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
		i++
		j++
	}
	return i == len(as) && j == len(bs)
}

func (st *State) eqBody(a, b *Content) bool {
	v, w := bodyVar[a], bodyVar[b]
	if v == nil || w == nil {
		return false
	}
	f := LT(setRange(freshTerm("ek"), big0, pow2(40)))
	return st.eqContent(instBody(a, f), instBody(b, f))
}

func (st *State) isZero(v Value) bool {
	switch x := v.(type) {
	case VInt:
		return st.cons.entailsEq(x.L)
	case VBool:
		return st.decide(x.C) == -1
	case VNil:
		return true
	case VPtr, VSlice, VSym:
		return st.isNil(v) == 1
	case VStr:
		return st.cons.entailsEq(x.C.length())
	case VStruct:
		for _, f := range x.F {
			if !st.isZero(f) {
				return false
			}
		}
		return true
	}
	return false
}

func (st *State) dump() string {
	var sb strings.Builder
	var cs []string
	for p := st.cons; p != nil; p = p.prev {
		cs = append(cs, p.c.String())
	}
	sort.Strings(cs)
	fmt.Fprintf(&sb, "cons:\n  %s\n", strings.Join(cs, "\n  "))
	var fs []string
	for _, f := range st.facts {
		fs = append(fs, fmt.Sprintf("%v=%v", f.c, f.val))
	}
	for t, ty := range st.dyn {
		fs = append(fs, t.String()+" : "+typeKey(ty))
	}
	sort.Strings(fs)
	fmt.Fprintf(&sb, "facts:\n  %s\n", strings.Join(fs, "\n  "))
	var hs []string
	for o, v := range st.heap {
		hs = append(hs, o.String()+" = "+valString(v))
	}
	sort.Strings(hs)
	fmt.Fprintf(&sb, "heap:\n  %s\n", strings.Join(hs, "\n  "))
	return sb.String()
}
