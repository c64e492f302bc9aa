package main

// O03: keys, by cases of their representations and of how their longest
// common prefix ends.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

var keyTypes = []string{"EmptyKey", "Key", "MappedKey"}

// keyWith makes a key of the named type that has the sub keys
func (c *Check) keyWith(st *State, name, typ string, keys Value) VPtr {
	p := c.symObj(st, name, "util."+typ)
	s := c.r.typ("util." + typ).Underlying().(*types.Struct)
	want := types.NewSlice(types.NewSlice(types.Typ[types.Byte]))
	found := 0
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case types.Identical(f.Type(), want):
			st.setField(p, f.Name(), keys)
			found++
		case typ == "MappedKey" && types.Identical(f.Type(), types.Typ[types.Bool]):
			st.setField(p, f.Name(), VBool{condTrue})
		}
	}
	if found != 1 && typ != "EmptyKey" {
		panic(undecided{"util." + typ + " does not hold a list of sub keys"})
	}
	return p
}

type keyPair struct {
	name   string
	ta, tb string
	st     *State
	a, b   VPtr
	cmp    int
}

func (c *Check) keyPairs(f func(p keyPair, x, y *Term)) {
	bs := types.NewSlice(types.Typ[types.Byte])
	src := func(n string) *Term {
		t := mkTerm("in:" + n)
		objType[t] = types.NewArray(bs, -1)
		return t
	}
	cnt := func(n string) Lin { return LT(setRange(mkTerm("in:len"+n), big0, pow2(40))) }
	part := func(n string) Seg { return Seg{K: 'b', Src: src(n), Off: LC(0), N: cnt(n)} }
	for _, ta := range keyTypes {
		for _, tb := range keyTypes {
			for _, end := range []string{"both nil", "nil, empty", "empty, nil", "equal", "prefix", "extension", "less", "greater"} {
				st := newState()
				var as, bs2 []Seg
				as, bs2 = []Seg{part("P")}, []Seg{part("P")}
				var xo, yo *Term
				cmp := 0
				anil, bnil := false, false
				noP := ta == "EmptyKey" || tb == "EmptyKey"
				switch end {
				case "both nil", "nil, empty", "empty, nil":
					anil, bnil = end != "empty, nil", end != "nil, empty"
					noP = true
				case "prefix":
					st.push(cnt("B").addc(-1), false)
					bs2 = append(bs2, part("B"))
					cmp = -1
				case "extension":
					st.push(cnt("A").addc(-1), false)
					as = append(as, part("A"))
					cmp = 1
				case "less", "greater":
					cmp = -1
					if end == "greater" {
						cmp = 1
					}
					x, y := c.symBytes("x"), c.symBytes("y")
					xo, yo = x.Obj, y.Obj
					as = append(as, Seg{K: 'e', V: x}, part("A"))
					bs2 = append(bs2, Seg{K: 'e', V: y}, part("B"))
				}
				if ta == "EmptyKey" && (anil || len(as) > 1) || tb == "EmptyKey" && (bnil || len(bs2) > 1) {
					continue
				}
				if noP {
					st.push(cnt("P"), true)
				}
				mk := func(n string, null bool, segs []Seg) Value {
					if null {
						return zeroVal(types.NewSlice(bs))
					}
					return st.newSlice(n, bs, content(segs...), nil)
				}
				p := keyPair{name: ta + " and " + tb + ", " + end, ta: ta, tb: tb, cmp: cmp}
				p.a = c.keyWith(st, "a", ta, mk("as", anil, as))
				p.b = c.keyWith(st, "b", tb, mk("bs", bnil, bs2))
				p.st = st
				f(p, xo, yo)
			}
		}
	}
}

func init() {
	register("O03", "abstract interpretation of comparison, equality and hashing of keys for every pair of representations, in every case of how the longest common prefix of their sub keys ends", func(c *Check) {
		c.keyPairs(func(p keyPair, xo, yo *Term) {
			x := newExec(c.r)
			x.splitIdx = true
			rel := func(st *State, a, b Value) int {
				s, ok1 := a.(VSlice)
				t, ok2 := b.(VSlice)
				if !ok1 || !ok2 || s.Obj == nil || t.Obj == nil {
					return -2
				}
				if s.Obj == t.Obj && st.eqL(s.Off, t.Off) && st.eqL(s.Len, t.Len) {
					return 0
				}
				if s.Obj == xo && t.Obj == yo {
					return p.cmp
				}
				if s.Obj == yo && t.Obj == xo {
					return -p.cmp
				}
				return -2
			}
			compare := func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
				r := rel(st, args[0], args[1])
				if r == -2 {
					return nil
				}
				if r == 0 {
					return ret(st, VInt{LC(0)})
				}
				v := LT(setRange(mkTerm("cmp", termOf(args[0]), termOf(args[1])), new(big.Int).Neg(pow2(63)), pow2(63)))
				s := v
				if r < 0 {
					s = v.neg()
				}
				st.push(s.addc(-1), false)
				return ret(st, VInt{v})
			}
			equal := func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
				r := rel(st, args[0], args[1])
				if r == -2 {
					return nil
				}
				return ret(st, VBool{condBool(r == 0)})
			}
			x.hooks["collection.CompareByteSlice"] = compare
			x.hooks["bytes.Compare"] = compare
			x.hooks["collection.EqualByteSlice"] = equal
			x.hooks["bytes.Equal"] = equal
			f := c.hashFunc(x)
			c.isFunc(p.st, f)
			pa, pb := "util."+p.ta+".", "util."+p.tb+"."
			Tb := types.NewPointer(c.r.typ("util." + p.tb))
			c.guard("compare", pa+"Compare", func() {
				for _, o := range c.call(x, p.st.clone(), pa+"Compare", p.a, VIface{Tb, p.b}) {
					c.oblige("compare", pa+"Compare", c.signIs(o.st, o.rets[0], p.cmp), func() string {
						return p.name + ": " + valString(o.rets[0]) + "\n" + c.path(o.st)
					})
				}
			})
			c.guard("equal", pa+"Equal", func() {
				for _, o := range c.call(x, p.st.clone(), pa+"Equal", p.a, VIface{Tb, p.b}) {
					c.oblige("equal", pa+"Equal", c.isTrue(o.st, o.rets[0], p.cmp == 0), func() string {
						return p.name + ": " + valString(o.rets[0]) + "\n" + c.path(o.st)
					})
				}
			})
			c.guard("same-hash", pa+"HashUint32", func() {
				for _, h := range c.call(x, p.st.clone(), pa+"HashUint32", p.a, f) {
					for _, g := range c.call(x, h.st, pb+"HashUint32", p.b, f) {
						if p.cmp != 0 {
							c.ok("no-crash", pb+"HashUint32")
							continue
						}
						c.oblige("same-hash", pa+"HashUint32", g.st.eqL(g.st.started(intOf(h.rets[0])), g.st.started(intOf(g.rets[0]))), func() string {
							return p.name + ": " + valString(h.rets[0]) + " and " + valString(g.rets[0]) + "\n" + c.path(g.st)
						})
					}
				}
			})
			c.absorb(x)
		})
		// nil
		for _, t := range keyTypes {
			x := newExec(c.r)
			for _, k := range []string{"nil", "EmptyKey", "Key", "MappedKey"} {
				st := newState()
				a := c.keyWith(st, "a", t, st.newSlice("as", types.NewSlice(types.Typ[types.Byte]), content(), nil))
				var b Value = VNil{}
				if k != "nil" {
					b = VIface{types.NewPointer(c.r.typ("util." + k)), VNil{}}
				}
				for _, m := range []string{"Compare", "Equal"} {
					fn := "util." + t + "." + m
					c.guard("nil", fn, func() {
						for _, o := range c.call(x, st.clone(), fn, a, b) {
							good := m == "Compare" && c.signIs(o.st, o.rets[0], 1) || m == "Equal" && c.isTrue(o.st, o.rets[0], false)
							c.oblige("nil", fn, good, func() string {
								return fmt.Sprintf("%s with nil %s: ", t, k) + valString(o.rets[0]) + "\n" + c.path(o.st)
							})
						}
					})
				}
			}
			c.absorb(x)
		}
		c.min["compare"] = 3
		c.min["equal"] = 3
		c.min["same-hash"] = 3
		c.min["nil"] = 6
	})
}

// started resolves recurrences of which no step was made
func (st *State) started(l Lin) Lin {
	for _, m := range l.ts {
		if m.t.op == "rec" && st.eqL(m.t.args[1].(Lin), LC(0)) {
			l = l.sub(LT(m.t).mul(m.c)).add(m.t.args[0].(Lin).mul(m.c))
			return st.started(l)
		}
	}
	return l
}
