package main

// W10: a hash table reads back from its encoding.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
	"math/big"
)

func init() {
	register("W10", "abstract interpretation of the table encoder on an arbitrary table of either kind; the bytes it returns, followed by arbitrary bytes, are given to the loader; keys are opaque, and each must be decoded from where its encoding was written", func(c *Check) {
		x := newExec(c.r)
		keyT := c.r.typ("util.IKey")
		if keyT == nil {
			panic(undecided{"util.IKey not found"})
		}
		c.usesEncoded(x, "IKey")
		c.readsBack(x, "util.NewMappedKey")
		// a key that holds an encoding is known by it
		plain := x.hooks["util.NewMappedKey"]
		x.hooks["util.NewMappedKey"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
			outs := plain(x, st, args, site)
			for _, o := range outs {
				p, ok := o.rets[0].(VPtr)
				if !ok {
					continue
				}
				b, ok := o.st.field(p, "buf").(VSlice)
				if !ok || b.Obj == nil {
					continue
				}
				segs := o.st.norm(o.st.bytesOf(b)).segs
				if len(segs) == 1 && segs[0].K == 'b' && segs[0].Off.isInt(0) {
					if t := componentOf(segs[0]); t != nil {
						q := mkTerm("decodedkey", t)
						objType[q] = objType[p.Obj]
						o.rets[0] = VPtr{Obj: q}
					}
				}
			}
			return outs
		}
		const enc, dec = "util.MPHTable.Encode", "util.NewMPHTable"
		for _, byKey := range []bool{true, false} {
			st := newState()
			p := c.symObj(st, "table", "util.MPHTable")
			sl := func(st *State, p VPtr, f string) VSlice {
				s, ok := st.field(p, f).(VSlice)
				if !ok {
					if st.isNil(st.field(p, f)) == 1 {
						return nilSlice
					}
					panic(undecided{"MPHTable has no slice " + f})
				}
				return s
			}
			// as many as an index of 32 bits can tell apart
			bound := func(l Lin) Lin {
				for _, m := range l.ts {
					setRange(m.t, big0, big.NewInt(1<<31))
				}
				return l
			}
			// the masks are those of a built or loaded table
			for _, f := range []string{"level0", "level1"} {
				m := st.field(p, f+"Mask")
				l := sl(st, p, f)
				l.Len = bound(intOf(m)).addc(1)
				l.Cap = l.Len
				if !st.setField(p, f, l) {
					panic(undecided{"MPHTable has no slice " + f})
				}
			}
			vk, vh := sl(st, p, "verifyKey"), sl(st, p, "verifyHash")
			bound(vk.Len)
			bound(vh.Len)
			neverNil[vk.Obj] = true
			kind, cd := "by key", nilCond(st, vk).not()
			if !byKey {
				kind, cd = "by hash", nilCond(st, vk)
			}
			conds := []*Cond{cd}
			if !byKey {
				conds = append(conds, nilCond(st, vh).not())
			}
			for _, g := range given(st, conds...) {
				for _, o := range c.call(x, g, enc, p) {
					if o.st.isNil(o.rets[1]) == -1 {
						c.oblige("only-a-key-fails", enc, byKey, func() string { return valStrings(o.rets) + "\n" + c.path(o.st) })
						continue
					}
					buf, ok := c.followed(o.st, o.rets[0])
					if !ok {
						c.fail("reads-back", enc, "encoded to %s", valString(o.rets[0]))
						continue
					}
					w := o.rets[0].(VSlice)
					outs := c.call(x, o.st, dec, buf)
					c.oblige("loads", dec+" "+kind, len(outs) > 0, nil)
					for _, d := range outs {
						s := d.st
						bad := func() string { return valStrings(d.rets) + "\n" + c.path(s) }
						if !c.oblige("no-error", dec+" "+kind, s.isNil(d.rets[2]) == 1, bad) {
							continue
						}
						c.oblige("consumes-what-was-written", dec+" "+kind, s.eqL(intOf(d.rets[1]), sliceLen(w)), bad)
						q, ok := d.rets[0].(VPtr)
						if !c.oblige("gives-a-table", dec+" "+kind, ok && s.isNil(d.rets[0]) == -1, bad) {
							continue
						}
						for _, f := range []string{"level0Mask", "level1Mask", "verifySeed"} {
							if f == "verifySeed" && byKey {
								continue
							}
							a, b := s.field(q, f), s.field(p, f)
							c.oblige("reads-back", kind+" "+f, s.eqVal(a, b), func() string { return valString(a) + " for " + valString(b) + "\n" + c.path(s) })
						}
						for _, f := range []string{"level0", "level1", "verifyKey", "verifyHash"} {
							a, b := sl(s, q, f), sl(s, p, f)
							why := func() string { return valString(a) + " for " + valString(b) + "\n" + c.path(s) }
							if f == "verifyKey" && !byKey || f == "verifyHash" && byKey {
								c.oblige("kept-kind", kind+" "+f, f == "verifyHash" || s.isNil(s.field(q, f)) == 1, why)
								continue
							}
							c.oblige("kept-kind", kind+" "+f, s.isNil(s.field(q, f)) == -1, why)
							if !c.oblige("reads-back", kind+" length of "+f, s.eqL(sliceLen(a), b.Len), why) {
								continue
							}
							h := s.clone()
							i := LT(mkTerm("any:i"))
							h.push(i, false)
							h.push(b.Len.sub(i).addc(-1), false)
							if h.infeasible() {
								continue
							}
							if f == "verifyKey" {
								e := elemAt(h, b, i, keyT)
								kb := c.method(x, h, "util.IKey", "Buf", e)[0]
								g := elemAt(h, a, i, keyT)
								good := false
								if v, ok := g.(VIface); ok {
									q, ok1 := v.V.(VPtr)
									w, ok2 := kb.(VSlice)
									good = ok1 && ok2 && q.Obj.op == "decodedkey" && q.Obj.args[0] == Arg(w.Obj.args[0])
								}
								c.oblige("reads-back", kind+" "+f, good, func() string { return valString(g) + " for " + valString(kb) + "\n" + c.path(h) })
								continue
							}
							u := types.Typ[types.Uint32]
							v, w := elemAt(h, a, i, u), elemAt(h, b, i, u)
							c.oblige("reads-back", kind+" "+f, h.eqVal(v, w), func() string { return valString(v) + " for " + valString(w) + "\n" + c.path(h) })
						}
					}
				}
			}
		}
		c.min["reads-back"] = 13
		c.min["no-error"] = 2
		c.min["encoded-before-use"] = 1
		c.min["starts-at-an-encoding"] = 1
		c.absorb(x)
	})
}
