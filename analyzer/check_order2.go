package main

// O04, O05

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("O04", "abstract interpretation of each minimum and maximum function on two arbitrary arguments, in the exact domain of linear constraints", func(c *Check) {
		x := newExec(c.r)
		n := 0
		fns := map[*ssa.Function]types.Type{}
		for _, m := range c.r.pkgs["collection"].Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(fn.Name(), "Min") && !strings.HasPrefix(fn.Name(), "Max") {
				continue
			}
			s := fn.Signature
			if s.Params().Len() != 2 || s.Results().Len() != 1 || !types.Identical(s.Params().At(0).Type(), s.Params().At(1).Type()) {
				continue
			}
			if b, ok := s.Params().At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				fns[fn] = s.Params().At(0).Type()
			}
		}
		for _, fn := range sortedFns(fns) {
			n++
			a, b := c.sym(fn.Name()+".a", fns[fn]), c.sym(fn.Name()+".b", fns[fn])
			sign := int64(1)
			if strings.HasPrefix(fn.Name(), "Max") {
				sign = -1
			}
			outs := c.call(x, newState(), fname(fn), a, b)
			c.oblige("answers", fname(fn), len(outs) > 0, nil)
			for _, o := range outs {
				r := intOf(o.rets[0])
				show := func() string { return valString(o.rets[0]) + "\n" + c.path(o.st) }
				for _, v := range []Value{a, b} {
					c.oblige("extreme", fname(fn), o.st.ge(intOf(v).sub(r).mulc(sign)), show)
				}
				c.oblige("one-of-both", fname(fn), o.st.eqL(r, intOf(a)) || o.st.eqL(r, intOf(b)), show)
			}
		}
		c.min["extreme"] = 20
		c.absorb(x)
	})

	register("O05", "abstract interpretation of equality and hashing of each hashable slice type on two slices in every case of nil and of how their longest common prefix ends; what reaches the hash function must be the same for equal slices and must determine each element", func(c *Check) {
		x := newExec(c.r)
		x.splitIdx = true
		k := &elemKinds{kind: map[*Term]string{}}
		c.hookElems(x, k)
		names, elem := c.sliceTypes("HashUint32")
		for _, n := range names {
			n := n
			T := types.NewPointer(c.r.typ("collection." + n))
			pre := "collection." + n + "."
			f := c.hashFunc(x)
			c.guard("equal", pre+"Equal", func() {
				c.each(x, k, c.seqPairs(elem[n], k), func(p seqPair) {
					st, a, b := c.objects(x, n, p)
					c.isFunc(st, f)
					for _, o := range c.call(x, st.clone(), pre+"Equal", a, VIface{T, b}) {
						// nil and empty may or may not be equal
						eq, free := p.cmp == 0, false
						if p.name == "nil, some" || p.name == "some, nil" {
							free = true
						}
						is := func(v bool) bool { return c.isTrue(o.st, o.rets[0], v) }
						if free {
							// a nil slice equals at most an empty one
							l := sliceLen(p.a.(VSlice)).add(sliceLen(p.b.(VSlice)))
							c.oblige("equal", pre+"Equal", is(false) || is(true) && o.st.eqL(l, LC(0)), func() string { return p.name + ": " + valString(o.rets[0]) + "\n" + c.path(o.st) })
							eq = is(true)
						} else {
							c.oblige("equal", pre+"Equal", is(eq), func() string { return p.name + ": " + valString(o.rets[0]) + "\n" + c.path(o.st) })
						}
						if !eq {
							continue
						}
						for _, h := range c.call(x, o.st, pre+"HashUint32", a, f) {
							for _, g := range c.call(x, h.st, pre+"HashUint32", b, f) {
								c.oblige("same-hash", pre+"HashUint32", g.st.eqVal(h.rets[0], g.rets[0]), func() string {
									return p.name + ": " + valString(h.rets[0]) + " and " + valString(g.rets[0]) + "\n" + c.path(g.st)
								})
							}
						}
					}
				})
				obj := func(st *State) (*State, Value) {
					os := c.call(x, st, "collection.New"+n, st.newSlice("s", elem[n], content(), nil))
					return os[0].st, os[0].rets[0]
				}
				c.nilObjects(x, n, "Equal", obj, func(st *State, v Value, cmp int) bool { return c.isTrue(st, v, cmp == 0) })
			})
			c.guard("takes-part", pre+"HashUint32", func() {
				src := mkTerm("fill:P")
				if isInt(elem[n]) {
					src = mkTerm("fill:P" + n)
				}
				objType[src] = types.NewArray(elem[n], -1)
				ln := LT(setRange(mkTerm("in:lenP"), big0, pow2(40)))
				i := LT(setRange(mkTerm("in:i"), big0, pow2(40)))
				st := newState()
				c.isFunc(st, f)
				st.push(ln.sub(i).addc(-1), false)
				sl := st.newSlice("s", elem[n], content(Seg{K: 'b', Src: src, Off: LC(0), N: ln}), nil)
				for _, o := range c.call(x, st, "collection.New"+n, sl) {
					for _, h := range c.call(x, o.st, pre+"HashUint32", o.rets[0], f) {
						c.oblige("takes-part", pre+"HashUint32", c.takesPart(h.st, h.rets[0], src, elem[n], i, ln), func() string { return valString(h.rets[0]) + "\n" + c.path(h.st) })
					}
				}
			})
		}
		c.min["equal"] = 8
		c.min["same-hash"] = 8
		c.min["takes-part"] = 8
		c.absorb(x)
	})
}

// hashFunc is an arbitrary hash function: the same bytes have the same hash
func (c *Check) hashFunc(x *Exec) Value {
	sig := c.need("collection.HashableByteSlice.HashUint32")
	return c.sym("f", sig.Signature.Params().At(0).Type())
}

// isFunc: f is not nil
func (c *Check) isFunc(st *State, f Value) {
	cd := condNil(f.(VSym).Tm)
	st.facts[cd.k] = fact{cd, false}
}

// takesPart: the hash is of bytes from which element i can be recovered, or
// a combination of the hashes of all elements
func (c *Check) takesPart(st *State, h Value, src *Term, T types.Type, i, n Lin) bool {
	v, ok := h.(VInt)
	if !ok || len(v.L.ts) != 1 || v.L.k.Sign() != 0 {
		return false
	}
	t := v.L.ts[0].t
	el := elemVal(src, i, T)
	if t.op == "rec" {
		at := mkTerm("elem", src, LT(mkTerm("%rk")))
		return st.eqL(t.args[1].(Lin), n) && accumulates(t.args[2].(Lin), at)
	}
	if !strings.HasPrefix(t.op, "apply") {
		return false
	}
	b, ok := t.args[1].(*Content)
	if !ok {
		return false
	}
	lo, hi, ok := sizeRange(T)
	if !ok {
		return false
	}
	size := int64(1)
	for new(big.Int).Sub(hi, lo).Cmp(pow2(int(8*size))) >= 0 {
		size *= 2
	}
	at := func(j int64) (Lin, bool) {
		v, ok := st.at(b, i.mulc(size).addc(j), types.Typ[types.Uint8]).(VInt)
		return v.L, ok
	}
	le, be := LC(0), LC(0)
	for j := int64(0); j < size; j++ {
		x, ok1 := at(j)
		y, ok2 := at(size - 1 - j)
		if !ok1 || !ok2 {
			return false
		}
		m := pow2(int(8 * j))
		le, be = le.add(x.mul(m)), be.add(y.mul(m))
	}
	want := intOf(el)
	if lo.Sign() < 0 {
		// two's complement
		for _, neg := range []bool{false, true} {
			s := st.clone()
			w := want
			if neg {
				s.push(want.neg().addc(-1), false)
				w = want.add(LB(pow2(int(8 * size))))
			} else {
				s.push(want, false)
			}
			if !s.infeasible() && !s.eqL(le, w) && !s.eqL(be, w) {
				return false
			}
		}
		return true
	}
	return st.eqL(le, want) || st.eqL(be, want)
}

// accumulates: what was accumulated stays part of every next value, and so
// does the element, unless it is nil
func accumulates(step Lin, at *Term) bool {
	for _, m := range step.ts {
		if m.t.op == "ite" {
			c, _ := m.t.args[1].(*Term)
			null := c == at || c != nil && len(c.args) > 0 && c.args[0] == at
			yes, no := m.t.args[2].(Lin), m.t.args[3].(Lin)
			rest := step.sub(LT(m.t).mul(m.c))
			if null && usesTerm(rest.add(yes.mul(m.c)), isAcc) {
				yes = LT(at).add(LT(mkTerm("%acc:")))
			}
			return accumulates(rest.add(yes.mul(m.c)), at) && accumulates(rest.add(no.mul(m.c)), at)
		}
	}
	return usesTerm(step, isAcc) && usesTerm(step, func(t *Term) bool { return t == at })
}

func isAcc(t *Term) bool { return strings.HasPrefix(t.op, "%acc:") }

func usesTerm(a Arg, is func(*Term) bool) bool {
	found := false
	seen := map[*Term]bool{}
	var visit func(a Arg)
	visit = func(a Arg) {
		switch y := a.(type) {
		case Lin:
			for _, m := range y.ts {
				visit(m.t)
			}
		case *Content:
			for _, s := range y.segs {
				visit(s.Off)
				visit(s.Src)
				if s.K == 'e' {
					walkValue(s.V, visit)
				}
				if s.K == 'r' {
					visit(s.Body)
				}
			}
		case *Term:
			if y == nil || seen[y] {
				return
			}
			seen[y] = true
			if is(y) {
				found = true
			}
			for _, z := range y.args {
				visit(z)
			}
		}
	}
	visit(a)
	return found
}
