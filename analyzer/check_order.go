package main

// O02, O04, O05: comparing, equality and hashing of slices, by cases of the
// longest common prefix.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// seqPair is two slices, and how they compare
type seqPair struct {
	name string
	st   *State
	a, b Value
	cmp  int
	same bool // the common prefix is of identical elements
}

// elements of interface type: what is known of them
type elemKinds struct {
	kind map[*Term]string // nil, typed (nil pointer), val
	cmp  int              // of x to y
	x, y *Term
}

func prefixIdx(t *Term) (Lin, bool) {
	if t != nil && t.op == "elem" {
		if s, ok := t.args[0].(*Term); ok && strings.HasPrefix(s.op, "fill:P") {
			i, ok := t.args[1].(Lin)
			return i, ok
		}
	}
	return Lin{}, false
}

// compareElems: -2 unknown
func (k *elemKinds) compare(st *State, a, b Value) int {
	s, t := valTerm(a), valTerm(b)
	if s == nil || t == nil {
		return -2
	}
	if s == t {
		return 0
	}
	i, ok1 := prefixIdx(s)
	j, ok2 := prefixIdx(t)
	if ok1 && ok2 && st.eqL(i, j) {
		return 0
	}
	if s == k.x && t == k.y {
		return k.cmp
	}
	if s == k.y && t == k.x {
		return -k.cmp
	}
	return -2
}

func (k *elemKinds) isNil(t *Term) *Cond {
	if d, ok := k.kind[t]; ok {
		if d == "val" {
			return condFalse
		}
		return condTrue
	}
	if t.op == "elem" {
		if s, ok := t.args[0].(*Term); ok && strings.HasPrefix(s.op, "fill:Pv") {
			return condFalse
		}
	}
	return condOp(mkTerm("isnil", t))
}

// hookElems gives the opaque elements their meaning
func (c *Check) hookElems(x *Exec, k *elemKinds) {
	x.hooks["collection.IsNil"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		v, ok := args[0].(VSym)
		if !ok {
			return nil
		}
		if st.isNil(v) == 1 {
			return ret(st, VBool{condTrue})
		}
		return ret(st, VBool{k.isNil(v.Tm)})
	}
	for _, i := range []string{"IComparable", "IHashable"} {
		n := "collection." + i
		x.hooks[n+".Compare"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
			r := k.compare(st, args[0], args[1])
			if r == -2 {
				return nil
			}
			if r == 0 {
				return ret(st, VInt{LC(0)})
			}
			v := LT(setRange(mkTerm("cmp", termOf(args[0]), termOf(args[1])), new(big.Int).Neg(pow2(63)), pow2(63)))
			s := v
			if r < 0 {
				s = v.neg()
			}
			st.push(s.addc(-1), false)
			return ret(st, VInt{v})
		}
		x.hooks[n+".Equal"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
			r := k.compare(st, args[0], args[1])
			if r == -2 {
				return nil
			}
			if r == 0 {
				return ret(st, VBool{condTrue})
			}
			return ret(st, VBool{condFalse})
		}
	}
	x.hooks["collection.IHashable.HashUint32"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		t := valTerm(args[0])
		if t == nil {
			return nil
		}
		// equal elements hash alike
		var key Arg = t
		if i, ok := prefixIdx(t); ok {
			key = mkTerm("elem", mkTerm("fill:P"), i)
		}
		h := setRange(mkTerm("hash", key), big0, new(big.Int).Sub(pow2(32), big1))
		return ret(st, VInt{LT(h)})
	}
}

// seqPairs: every pair of slices of T falls in one of the cases
func (c *Check) seqPairs(T types.Type, k *elemKinds) []seqPair {
	var r []seqPair
	_, iface := T.Underlying().(*types.Interface)
	src := func(n string) *Term {
		if !iface {
			n += ":" + typeKey(T)
		}
		t := mkTerm("fill:" + n)
		objType[t] = types.NewArray(T, -1)
		return t
	}
	cnt := func(n string) Lin { return LT(setRange(mkTerm("in:len"+n), big0, pow2(40))) }
	part := func(s *Term, n string) Seg { return Seg{K: 'b', Src: s, Off: LC(0), N: cnt(n)} }
	mk := func(st *State, n string, segs ...Seg) Value { return st.newSlice(n, T, content(segs...), nil) }
	null := zeroVal(types.NewSlice(T))
	// nil
	st := newState()
	r = append(r, seqPair{"nil, nil", st, null, null, 0, true})
	st = newState()
	r = append(r, seqPair{"nil, some", st, null, mk(st, "b", part(src("B"), "B")), -1, true})
	st = newState()
	r = append(r, seqPair{"some, nil", st, mk(st, "a", part(src("A"), "A")), null, 1, true})
	type pre struct {
		name string
		a, b *Term
	}
	pres := []pre{{"", src("P"), src("P")}}
	if iface {
		pres = append(pres, pre{" (distinct elements)", src("Pv1"), src("Pv2")})
	}
	for _, p := range pres {
		p := p
		add := func(name string, cmp int, f func(st *State) (a, b []Seg)) {
			st := newState()
			as, bs := f(st)
			as = append([]Seg{part(p.a, "P")}, as...)
			bs = append([]Seg{part(p.b, "P")}, bs...)
			q := seqPair{name: name + p.name, st: st, cmp: cmp, same: p.a == p.b}
			q.a = mk(st, "a", as...)
			q.b = mk(st, "b", bs...)
			r = append(r, q)
		}
		add("equal", 0, func(st *State) (a, b []Seg) { return })
		add("prefix", -1, func(st *State) (a, b []Seg) {
			st.push(cnt("B").addc(-1), false)
			return nil, []Seg{part(src("B"), "B")}
		})
		add("extension", 1, func(st *State) (a, b []Seg) {
			st.push(cnt("A").addc(-1), false)
			return []Seg{part(src("A"), "A")}, nil
		})
		diff := func(st *State, x, y Value) (a, b []Seg) {
			return []Seg{{K: 'e', V: x}, part(src("A"), "A")}, []Seg{{K: 'e', V: y}, part(src("B"), "B")}
		}
		if !iface {
			for _, cmp := range []int{-1, 1} {
				add(fmt.Sprintf("differ by %d", cmp), cmp, func(st *State) (a, b []Seg) {
					x, y := c.sym("x:"+typeKey(T), T), c.sym("y:"+typeKey(T), T)
					d := intOf(x).sub(intOf(y)).mulc(int64(cmp))
					st.push(d.addc(-1), false)
					return diff(st, x, y)
				})
			}
			continue
		}
		for _, z := range []struct {
			x, y string
			cmp  int
		}{{"val", "val", -1}, {"val", "val", 1}, {"nil", "val", -1}, {"val", "nil", 1}, {"typed", "val", -1}, {"val", "typed", 1}} {
			z := z
			add(fmt.Sprintf("differ by %d, %s and %s", z.cmp, z.x, z.y), z.cmp, func(st *State) (a, b []Seg) {
				val := func(n, kind string) Value {
					if kind == "nil" {
						return zeroVal(T)
					}
					v := c.sym(n+"."+kind, T).(VSym)
					cd := condNil(v.Tm)
					st.facts[cd.k] = fact{cd, false}
					k.kind[v.Tm] = kind
					return v
				}
				x, y := val("x", z.x), val("y", z.y)
				if z.x == "val" && z.y == "val" {
					st.ghost["cmp"] = VInt{LC(int64(z.cmp))}
					k.x, k.y = valTerm(x), valTerm(y)
				}
				return diff(st, x, y)
			})
		}
	}
	return r
}

func (c *Check) each(x *Exec, k *elemKinds, ps []seqPair, f func(p seqPair)) {
	for _, p := range ps {
		k.cmp = 0
		if v, ok := p.st.ghost["cmp"].(VInt); ok {
			n, _ := v.L.int()
			k.cmp = int(n)
		}
		f(p)
	}
}

func (c *Check) signIs(st *State, v Value, cmp int) bool {
	i, ok := v.(VInt)
	if !ok {
		return false
	}
	switch cmp {
	case 0:
		return st.eqL(i.L, LC(0))
	case 1:
		return st.ge(i.L.addc(-1))
	}
	return st.ge(i.L.neg().addc(-1))
}

// sliceFuncs are the functions of two slices of one type with the prefix
func (c *Check) sliceFuncs(prefix string, res types.BasicKind) map[*ssa.Function]types.Type {
	r := map[*ssa.Function]types.Type{}
	for _, m := range c.r.pkgs["collection"].Members {
		fn, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(fn.Name(), prefix) || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 1 {
			continue
		}
		a, ok1 := fn.Signature.Params().At(0).Type().(*types.Slice)
		b, ok2 := fn.Signature.Params().At(1).Type().(*types.Slice)
		t, ok3 := fn.Signature.Results().At(0).Type().(*types.Basic)
		if ok1 && ok2 && ok3 && types.Identical(a, b) && t.Kind() == res {
			r[fn] = a.Elem()
		}
	}
	return r
}

func sortedFns(m map[*ssa.Function]types.Type) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return fname(r[i]) < fname(r[j]) })
	return r
}

// sliceTypes are the types of the collection package that stand for a slice
// and have the method; with the type of the elements
func (c *Check) sliceTypes(method string) (names []string, elem map[string]types.Type) {
	elem = map[string]types.Type{}
	sc := c.r.pkgs["collection"].Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || s.NumFields() != 1 {
			continue
		}
		sl, ok := s.Field(0).Type().(*types.Slice)
		if !ok || c.r.fn("collection."+n+"."+method) == nil || c.r.fn("collection.New"+n) == nil {
			continue
		}
		names = append(names, n)
		elem[n] = sl.Elem()
	}
	return
}

// objects makes the two objects that stand for the slices of p
func (c *Check) objects(x *Exec, n string, p seqPair) (*State, Value, Value) {
	st := p.st.clone()
	var vs []Value
	for _, s := range []Value{p.a, p.b} {
		os := c.call(x, st, "collection.New"+n, s)
		if len(os) != 1 {
			panic(undecided{"collection.New" + n + " makes no object"})
		}
		st = os[0].st
		vs = append(vs, os[0].rets[0])
	}
	return st, vs[0], vs[1]
}

// nilObjects checks a method on nil objects: pairs of (nil, nil), (nil,
// some), (some, nil), where nil is a nil pointer or a nil interface
func (c *Check) nilObjects(x *Exec, n, method string, obj func(st *State) (*State, Value), good func(st *State, v Value, cmp int) bool) {
	T := types.NewPointer(c.r.typ("collection." + n))
	fn := "collection." + n + "." + method
	for _, k := range []struct {
		a, b string
		cmp  int
	}{{"nil", "nil", 0}, {"nil", "typed", 0}, {"nil", "some", -1}, {"some", "nil", 1}, {"some", "typed", 1}} {
		st := newState()
		var a, b Value = VNil{}, VNil{}
		if k.b == "typed" {
			b = VIface{T, VNil{}}
		}
		if k.a == "some" {
			st, a = obj(st)
		}
		if k.b == "some" {
			st, b = obj(st)
			b = VIface{T, b}
		}
		for _, o := range c.call(x, st, fn, a, b) {
			c.oblige("nil-objects", fn, good(o.st, o.rets[0], k.cmp), func() string {
				return fmt.Sprintf("%s for %s and %s\n", valString(o.rets[0]), k.a, k.b) + c.path(o.st)
			})
		}
	}
}

func (c *Check) checkIsNil(x *Exec) {
	T := types.NewPointer(c.r.typ("collection.ComparableSlice"))
	p := c.symObj(newState(), "some", "collection.ComparableSlice")
	sl := types.NewSlice(types.Typ[types.Int32])
	for _, k := range []struct {
		name string
		v    func(st *State) Value
		want bool
	}{
		{"nil", func(*State) Value { return VNil{} }, true},
		{"nil pointer", func(*State) Value { return VIface{T, VNil{}} }, true},
		{"pointer", func(st *State) Value {
			cd := condNil(p.Obj)
			st.facts[cd.k] = fact{cd, false}
			return VIface{T, p}
		}, false},
		{"nil slice", func(*State) Value { return VIface{sl, zeroVal(sl)} }, true},
		{"slice", func(st *State) Value {
			return VIface{sl, st.newSlice("s", types.Typ[types.Int32], content(), nil)}
		}, false},
		{"number", func(st *State) Value { return VIface{types.Typ[types.Int], VInt{LC(0)}} }, false},
	} {
		st := newState()
		v := k.v(st)
		for _, o := range c.call(x, st, "collection.IsNil", v) {
			c.oblige("is-nil", "collection.IsNil", c.isTrue(o.st, o.rets[0], k.want), func() string {
				return k.name + ": " + valString(o.rets[0]) + "\n" + c.path(o.st)
			})
		}
	}
}

func init() {
	register("O02", "abstract interpretation of each slice comparison and equality on two slices in every case of nil and of how their longest common prefix ends, for every length and content of the parts; the loops by inferred invariants", func(c *Check) {
		x := newExec(c.r)
		x.splitIdx = true
		k := &elemKinds{kind: map[*Term]string{}}
		c.checkIsNil(x)
		c.hookElems(x, k)
		cmps, eqs := c.sliceFuncs("Compare", types.Int), c.sliceFuncs("Equal", types.Bool)
		for _, fn := range sortedFns(cmps) {
			fn := fn
			c.guard("lexicographic", fname(fn), func() {
				c.each(x, k, c.seqPairs(cmps[fn], k), func(p seqPair) {
					for _, o := range c.call(x, p.st.clone(), fname(fn), p.a, p.b) {
						c.oblige("lexicographic", fname(fn), c.signIs(o.st, o.rets[0], p.cmp), func() string {
							return p.name + ": " + valString(o.rets[0]) + "\n" + c.path(o.st)
						})
					}
				})
			})
		}
		for _, fn := range sortedFns(eqs) {
			fn := fn
			c.guard("equal", fname(fn), func() {
				c.each(x, k, c.seqPairs(eqs[fn], k), func(p seqPair) {
					for _, o := range c.call(x, p.st.clone(), fname(fn), p.a, p.b) {
						c.oblige("equal", fname(fn), c.isTrue(o.st, o.rets[0], p.cmp == 0), func() string {
							return p.name + ": " + valString(o.rets[0]) + "\n" + c.path(o.st)
						})
					}
				})
			})
		}
		names, elem := c.sliceTypes("Compare")
		for _, n := range names {
			n := n
			T := types.NewPointer(c.r.typ("collection." + n))
			pre := "collection." + n + "."
			c.guard("lexicographic", pre+"Compare", func() {
				ps := c.seqPairs(elem[n], k)
				c.each(x, k, ps, func(p seqPair) {
					st, a, b := c.objects(x, n, p)
					for _, o := range c.call(x, st.clone(), pre+"Compare", a, VIface{T, b}) {
						c.oblige("lexicographic", pre+"Compare", c.signIs(o.st, o.rets[0], p.cmp), func() string {
							return p.name + ": " + valString(o.rets[0]) + "\n" + c.path(o.st)
						})
					}
					for _, o := range c.call(x, st, pre+"Equal", a, VIface{T, b}) {
						c.oblige("equal", pre+"Equal", c.isTrue(o.st, o.rets[0], p.cmp == 0), func() string {
							return p.name + ": " + valString(o.rets[0]) + "\n" + c.path(o.st)
						})
					}
				})
				obj := func(st *State) (*State, Value) {
					os := c.call(x, st, "collection.New"+n, st.newSlice("s", elem[n], content(), nil))
					return os[0].st, os[0].rets[0]
				}
				c.nilObjects(x, n, "Compare", obj, func(st *State, v Value, cmp int) bool { return c.signIs(st, v, cmp) })
				c.nilObjects(x, n, "Equal", obj, func(st *State, v Value, cmp int) bool { return c.isTrue(st, v, cmp == 0) })
			})
		}
		c.min["lexicographic"] = 18
		c.min["equal"] = 18
		c.min["nil-objects"] = 18
		c.min["is-nil"] = 1
		c.absorb(x)
	})
}
