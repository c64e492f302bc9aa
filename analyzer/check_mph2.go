package main

// M07: looking a key up in a perfect hash table, and building one, agree on
// where a key belongs, and a lookup verifies what it finds.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M07", "abstract interpretation of lookups in an arbitrary table and of building a table of arbitrary keys, with uninterpreted hashes", checkMPH)
}

// mphExec: hashing a key is an unknown function of the key and of what the
// hash function given makes of unknown bytes
func mphExec(c *Check) *Exec {
	x := newExec(c.r)
	randomContract(x, "util.RandUint64Range")
	max32 := new(big.Int).Sub(pow2(32), big1)
	u32 := func(t *Term) Value { return VInt{LT(setRange(t, big0, max32))} }
	x.hooks["collection.MurmurSeed.Hash"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		return ret(st, u32(mkTerm("murmur", intOf(args[0]), termOf(args[1]))))
	}
	bytes := symVal(mkTerm("in:keybytes"), byteSlice)
	x.hooks["*.HashUint32"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		k := valTerm(args[0])
		f, ok := args[1].(VFunc)
		if k == nil || !ok {
			return nil
		}
		var r []Outcome
		for _, o := range x.callFn(st, f.Fn, []Value{bytes}, f.Bind, site) {
			if o.panic == nil {
				o.rets = []Value{u32(mkTerm("hashed", k, intOf(o.rets[0])))}
			}
			r = append(r, o)
		}
		return r
	}
	x.hooks["*.Equal"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		a, b := valTerm(args[0]), valTerm(args[1])
		if a == nil || b == nil {
			return nil
		}
		return ret(st, VBool{sameKeys(a, b)})
	}
	return x
}

func sameKeys(a, b *Term) *Cond {
	if a.id > b.id {
		a, b = b, a
	}
	return condOp(mkTerm("samekey", a, b))
}

func oneTerm(l Lin) *Term {
	if len(l.ts) == 1 && l.k.Sign() == 0 && l.ts[0].c.Cmp(big1) == 0 {
		return l.ts[0].t
	}
	return nil
}

// slotOf: l is the hash of a key under a seed, masked for a table of n slots
func slotOf(st *State, l, n Lin) (key *Term, seed Lin, ok bool) {
	t := oneTerm(l)
	if t == nil || t.op != "op&" && t.op != "op%" {
		return
	}
	a, ok1 := t.args[0].(Lin)
	b, ok2 := t.args[1].(Lin)
	if !ok1 || !ok2 {
		return
	}
	by := n
	if t.op == "op&" {
		by = n.addc(-1)
		if h := oneTerm(b); h != nil && h.op == "hashed" {
			a, b = b, a
		}
	}
	h := oneTerm(a)
	if h == nil || h.op != "hashed" || !st.eqL(b, by) {
		return
	}
	return hashOf(h)
}

// hashOf: the key and the seed it was hashed with
func hashOf(h *Term) (key *Term, seed Lin, ok bool) {
	key, ok = h.args[0].(*Term)
	f, ok2 := h.args[1].(Lin)
	if !ok || !ok2 {
		return nil, Lin{}, false
	}
	m := oneTerm(f)
	if m == nil || m.op != "murmur" || m.args[1] != termOf(symVal(mkTerm("in:keybytes"), byteSlice)) {
		return nil, Lin{}, false
	}
	return key, m.args[0].(Lin), true
}

func elemAt(st *State, s VSlice, i Lin, T types.Type) Value {
	return st.at(st.arr(s), s.Off.add(i), T)
}

func checkMPH(c *Check) {
	u32 := types.Typ[types.Uint32]
	keyT := c.r.typ("util.IKey")
	if keyT == nil {
		panic(undecided{"util.IKey not found"})
	}
	var first []Lin // seeds of the first hash
	c.guard("decided", "util.MPHTable.Lookup", func() {
		const name = "util.MPHTable.Lookup"
		for _, byKey := range []bool{true, false} {
			x := mphExec(c)
			st := newState()
			p := c.symObj(st, "table", "util.MPHTable")
			key := symNonNil(st, mkTerm("in:key"), keyT)
			sl := func(f string) VSlice {
				s, ok := st.field(p, f).(VSlice)
				if !ok {
					panic(undecided{"MPHTable has no slice " + f})
				}
				return s
			}
			l0, l1, vk, vh := sl("level0"), sl("level1"), sl("verifyKey"), sl("verifyHash")
			neverNil[vk.Obj] = true
			st.push(l0.Len.addc(-1), false)
			st.push(l1.Len.addc(-1), false)
			// an index is 32 bits wide
			st.push(LC(1<<32-1).sub(vk.Len), false)
			st.push(LC(1<<32-1).sub(vh.Len), false)
			if !st.setField(p, "level0Mask", VInt{l0.Len.addc(-1)}) || !st.setField(p, "level1Mask", VInt{l1.Len.addc(-1)}) {
				panic(undecided{"MPHTable has no masks"})
			}
			vs := intOf(st.field(p, "verifySeed"))
			cd := nilCond(st, vk)
			if byKey {
				cd = cd.not()
			}
			for _, g := range given(st, cd) {
				for _, o := range c.call(x, g, name, p, key) {
					s := o.st
					n := intOf(o.rets[0])
					bad := ""
					// the slots
					t := oneTerm(n)
					var i1, i0 Lin
					if i, ok := elemOf(s, t, l1, u32); !ok {
						bad = "the index returned is " + n.String() + ", not an entry of the second level"
					} else {
						i1 = i
					}
					if bad == "" {
						k, seed, ok := slotOf(s, i1, l1.Len)
						if !ok || k != valTerm(key) {
							bad = "the slot of the second level is " + i1.String() + ", not that of the key's hash"
						} else if i, ok := elemOf(s, oneTerm(seed), l0, u32); !ok {
							bad = "the seed of the second hash is " + seed.String() + ", not an entry of the first level"
						} else {
							i0 = i
						}
					}
					if bad == "" {
						k, seed, ok := slotOf(s, i0, l0.Len)
						if !ok || k != valTerm(key) {
							bad = "the slot of the first level is " + i0.String() + ", not that of the key's hash"
						} else {
							first = append(first, seed)
						}
					}
					c.oblige("slots", name, bad == "", func() string { return bad + "\n" + c.path(s) })
					if bad != "" {
						continue
					}
					// the answer
					arr := vk
					if !byKey {
						arr = vh
					}
					in, out := s.clone().branch(condGE(arr.Len.sub(n).addc(-1)))
					for _, q := range out {
						if !q.infeasible() {
							c.oblige("verified", name, c.isTrue(q, o.rets[1], false), func() string { return "an index without a stored key is reported as found\n" + c.path(q) })
						}
					}
					for _, q := range in {
						if q.infeasible() {
							continue
						}
						var same *Cond
						if byKey {
							same = sameKeys(valTerm(key), valTerm(elemAt(q, vk, n, keyT)))
						} else {
							h := mkTerm("hashed", valTerm(key), LT(mkTerm("murmur", vs, termOf(symVal(mkTerm("in:keybytes"), byteSlice)))))
							same = condEQ(LT(h).sub(intOf(elemAt(q, vh, n, u32))))
						}
						yes, no := q.clone().branch(same)
						for _, w := range yes {
							c.oblige("verified", name, w.infeasible() || c.isTrue(w, o.rets[1], true), func() string {
								return "a key that is what is stored at its index is not reported as found\n" + c.path(w)
							})
						}
						for _, w := range no {
							c.oblige("verified", name, w.infeasible() || c.isTrue(w, o.rets[1], false), func() string {
								return "a key that is not what is stored at the index is reported as found\n" + c.path(w)
							})
						}
					}
				}
			}
			c.absorb(x)
		}
	})
	c.guard("decided", "util.MPHBuild", func() { c.mphBuild(first) })
	c.min["slots"] = 2
	c.min["verified"] = 1
	c.min["table"] = 1
}

// elemOf: t is an element of a slice, at which index
func elemOf(st *State, t *Term, s VSlice, T types.Type) (Lin, bool) {
	if t == nil || t.op != "elem" {
		return Lin{}, false
	}
	i, ok := t.args[1].(Lin)
	if !ok {
		return Lin{}, false
	}
	v := elemAt(st, s, i, T)
	if n, isI := v.(VInt); isI {
		return i, st.eqL(n.L, LT(t))
	}
	return i, valTerm(v) == t
}

func (c *Check) mphBuild(first []Lin) {
	const name = "util.MPHBuild"
	keyT := c.r.typ("util.IKey")
	fn := c.need(name)
	if fn == nil {
		return
	}
	x := mphExec(c)
	x.noteStore = func(p VPtr) bool { return len(p.Path) > 0 && p.Path[len(p.Path)-1].Idx != nil }
	keys := c.sym("keys", types.NewSlice(keyT)).(VSlice)
	neverNil[keys.Obj] = true
	byKey := c.sym("verify_by_key", types.Typ[types.Bool])
	st := newState()
	st.push(LC(1<<31).sub(keys.Len), false)
	// which keys are known where depends on what a sorted list of lists
	// holds; that the indices found in it are in range is not decided here
	for _, o := range x.callFn(st, fn, []Value{keys, byKey}, nil, nil) {
		if o.panic != nil {
			continue
		}
		s := o.st
		p, ok := o.rets[0].(VPtr)
		if !ok {
			c.fail("table", name, "no table is built")
			continue
		}
		sl := func(f string) VSlice {
			v, ok := s.field(p, f).(VSlice)
			if !ok {
				panic(undecided{"MPHTable has no slice " + f})
			}
			return v
		}
		l0, l1 := sl("level0"), sl("level1")
		// what is returned
		bad := ""
		if !s.eqL(intOf(s.field(p, "level0Mask")), l0.Len.addc(-1)) || !s.eqL(intOf(s.field(p, "level1Mask")), l1.Len.addc(-1)) {
			bad = "a mask is not that of its level"
		}
		same := func(a VSlice, want func(i Lin) Value, T types.Type) bool {
			if a.Obj == nil || !s.eqL(a.Len, keys.Len) {
				return false
			}
			i := LT(setRange(s.fresh("index"), big0, maxLen))
			for _, g := range given(s.clone(), condGE(keys.Len.sub(i).addc(-1))) {
				if !g.eqVal(elemAt(g, a, i, T), want(i)) {
					return false
				}
			}
			return true
		}
		switch {
		case bad != "":
		case c.isTrue(s, byKey, true):
			if !same(sl("verifyKey"), func(i Lin) Value { return elemAt(s, keys, i, keyT) }, keyT) {
				bad = "the keys stored are not the keys given, in their order"
			}
		case c.isTrue(s, byKey, false):
			vs := intOf(s.field(p, "verifySeed"))
			if s.isNil(sl("verifyKey")) != 1 {
				bad = "a table that verifies by hash holds keys"
			} else if !same(sl("verifyHash"), func(i Lin) Value {
				m := mkTerm("murmur", vs, termOf(symVal(mkTerm("in:keybytes"), byteSlice)))
				return VInt{LT(mkTerm("hashed", valTerm(elemAt(s, keys, i, keyT)), LT(m)))}
			}, types.Typ[types.Uint32]) {
				bad = "the hashes stored are not those of the keys given under the seed stored, in their order"
			}
		default:
			bad = "the kind of table does not depend on the kind asked for"
		}
		c.oblige("table", name, bad == "", func() string { return bad + "\n" + c.path(s) })
		// how keys get to their slots
		var seeds []Lin
		var bucket string
		evs := flatten(s.events(nil))
		for _, e := range evs {
			if e.kind != "store" {
				continue
			}
			q := e.args[0].(VPtr)
			if q.Obj != l1.Obj {
				continue
			}
			i, v := q.Path[len(q.Path)-1].Idx, intOf(e.rets[0])
			g := e.snap
			k, seed, ok := slotOf(g, *i, l1.Len)
			bad := ""
			if !ok {
				bad = "a key is put at " + i.String() + ", which is not the slot of a key's hash"
			} else if j, ok := elemOf(g, k, keys, keyT); !ok {
				bad = "the key hashed is " + k.String() + ", not one of the keys given"
			} else if !g.eqL(j, v) {
				bad = "what is put at the slot of a key is " + v.String() + ", the index of the key is " + j.String()
			} else {
				seeds = append(seeds, seed)
				bucket = of(j.String(), "f.vals(")
			}
			c.oblige("slots", name, bad == "", func() string { return bad + "\n" + c.path(g) })
		}
		n := 0
		for _, e := range evs {
			if e.kind != "store" {
				continue
			}
			q := e.args[0].(VPtr)
			i, g := q.Path[len(q.Path)-1].Idx, e.snap
			bad := ""
			switch {
			case q.Obj == l1.Obj:
				continue
			case q.Obj == l0.Obj:
				v := intOf(e.rets[0])
				good := false
				for _, sd := range seeds {
					good = good || g.eqL(sd, v)
				}
				if !good {
					bad = "the seed stored is " + v.String() + ", which is not the seed the keys were put in their slots with"
				} else if b := of(i.String(), "f.n("); b != "" && bucket != "" && b != bucket {
					bad = "the seed is stored at the slot of another bucket than the one whose keys were put in their slots"
				}
				n++
			default:
				// sorting keys by their first slot
				k, seed, ok := slotOf(g, *i, l0.Len)
				if !ok {
					if t := oneTerm(*i); t != nil && t.op == "op&" {
						if _, sd, ok := slotOf(g, *i, l1.Len); ok {
							for _, f := range first {
								if g.eqL(f, sd) && !g.eqL(l0.Len, l1.Len) {
									bad = "a key's slot of the first level is derived with the mask of the second"
								}
							}
						} else {
							for _, a := range t.args {
								if l, ok := a.(Lin); ok && oneTerm(l) != nil && oneTerm(l).op == "hashed" {
									bad = "a key's slot is " + i.String() + ", a lookup derives another"
								}
							}
						}
					}
					if bad == "" {
						continue
					}
				} else {
					good := false
					for _, f := range first {
						good = good || g.eqL(f, seed)
					}
					for _, sd := range seeds {
						good = good || g.eqL(sd, seed)
					}
					if !good {
						bad = "a key's slot of the first level is derived with the seed " + seed.String() + ", a lookup uses another"
					} else if v, ok := e.rets[0].(VSlice); ok && v.Obj != nil {
						// the index kept there is that of the key
						j, ok := elemOf(g, k, keys, keyT)
						last := elemAt(g, v, v.Len.addc(-1), types.Typ[types.Int])
						if l, isI := last.(VInt); ok && isI && !g.eqL(l.L, j) {
							bad = "what is kept for the slot of a key is " + l.L.String() + ", the index of the key is " + j.String()
						}
					}
				}
			}
			c.oblige("slots", name, bad == "", func() string { return bad + "\n" + c.path(g) })
		}
		c.oblige("slots", name, n > 0 && len(seeds) > 0, func() string { return "keys are not put in slots" })
		// whatever bucket the keys of were put in their slots, its seed is stored
		into := func(e *Event, l VSlice) bool {
			return e.kind == "store" && e.args[0].(VPtr).Obj == l.Obj
		}
		var alternatives func(es []*Event)
		alternatives = func(es []*Event) {
			for _, e := range es {
				if e.kind != "loop" {
					continue
				}
				some := false
				stores := make([]bool, len(e.sub))
				for i, p := range e.sub {
					for _, d := range p {
						stores[i] = stores[i] || into(d, l0)
					}
					some = some || stores[i]
				}
				for i, p := range e.sub {
					if some && !stores[i] {
						for _, d := range flatten(p) {
							c.oblige("slots", name, !into(d, l1), func() string {
								return "keys of a bucket are put in their slots, and on some path the seed they were put there with is not stored\n" + c.path(d.snap)
							})
						}
					}
					alternatives(p)
				}
			}
		}
		alternatives(s.events(nil))
		// a bucket is the keys of one slot
		for _, e := range evs {
			if e.kind != "store" {
				continue
			}
			b, ok := e.rets[0].(VStruct)
			if !ok {
				continue
			}
			var num *Lin
			var list VSlice
			for _, f := range b.F {
				switch v := f.(type) {
				case VInt:
					num = &v.L
				case VSlice:
					list = v
				}
			}
			if num == nil || list.Obj == nil || list.Obj.op != "arr" {
				continue
			}
			t, ok := list.Obj.args[0].(*Term)
			if !ok || t.op != "elem" {
				continue
			}
			if i, ok := t.args[1].(Lin); ok {
				c.oblige("slots", name, e.snap.eqL(i, *num), func() string {
					return fmt.Sprintf("the keys of slot %s are taken for those of slot %s", i, num)
				})
			}
		}
	}
	c.absorb(x)
}

// of is the object a field is read of, in what a value is made of
func of(s, field string) string {
	i := strings.Index(s, field)
	if i < 0 {
		return ""
	}
	d := 0
	for j := i + len(field) - 1; j < len(s); j++ {
		switch s[j] {
		case '(':
			d++
		case ')':
			if d--; d == 0 {
				return s[i+len(field) : j]
			}
		}
	}
	return ""
}
