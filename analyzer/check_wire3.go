package main

// W04, W05, O01: schemes and consensus times.

import (
	"fmt"
	"go/types"
)

// sameBytesOrAbsent: a byte string is absent (nil) exactly when the other
// one is, and otherwise holds the same bytes
func (c *Check) sameOptional(st *State, got, want Value) bool {
	switch st.isNil(want) {
	case 1:
		return st.isNil(got) == 1
	case -1:
		a, ok1 := got.(VSlice)
		b, ok2 := want.(VSlice)
		if !ok1 || !ok2 || st.isNil(got) != -1 {
			return false
		}
		la, lb := sliceLen(a), sliceLen(b)
		if !st.eqL(la, lb) {
			return false
		}
		g := st.clone()
		g.push(lb.addc(-1), false)
		return g.infeasible() || g.eqContent(g.bytesOf(a), g.bytesOf(b))
	}
	return false
}

func init() {
	register("W04", "abstract interpretation of the scheme encoder on an arbitrary scheme, for every combination of absent parts; the bytes it leaves, followed by arbitrary bytes, are given to the scheme decoder", func(c *Check) {
		x := newExec(c.r)
		st := newState()
		p := c.symObj(st, "scheme", "util.Scheme")
		dom, tab, bks := st.field(p, "domain"), st.field(p, "tablet"), st.field(p, "buckets")
		sts := []*State{st}
		for _, v := range []Value{dom, tab, bks} {
			var n []*State
			for _, s := range sts {
				n = append(n, given(s.clone(), nilCond(s, v))...)
				n = append(n, given(s.clone(), nilCond(s, v).not())...)
			}
			sts = n
		}
		c.oblige("cases", "util.Scheme", len(sts) == 8, nil)
		for _, g := range sts {
			for _, o := range c.call(x, g, "util.Scheme.Encode", p, VNil{}) {
				if o.st.isNil(o.rets[0]) == -1 {
					c.ok("error-result", "util.Scheme.Encode")
					continue
				}
				for _, b := range c.call(x, o.st, "util.Scheme.Buf", p) {
					buf, ok := c.followed(b.st, b.rets[0])
					if !ok {
						c.fail("reads-back", "util.Scheme.Encode", "encoded to %s", valString(b.rets[0]))
						continue
					}
					w := b.rets[0].(VSlice)
					for _, m := range c.call(x, b.st, "util.NewMappedSchemd", buf) {
						for _, d := range c.call(x, m.st, "util.MappedScheme.Decode", m.rets[0], VNil{}) {
							s := d.st
							dec := "util.MappedScheme.Decode"
							bad := func() string { return valStrings(d.rets) + " for " + s.bytesOf(w).String() + "\n" + c.path(s) }
							if !c.oblige("no-error", dec, s.isNil(d.rets[1]) == 1, bad) {
								continue
							}
							c.oblige("consumes-what-was-written", dec, s.eqL(intOf(d.rets[0]), sliceLen(w)), bad)
							for _, a := range []struct {
								m string
								v Value
							}{{"Domain", dom}, {"Tablet", tab}, {"Buckets", bks}} {
								n := "util.MappedScheme." + a.m
								for _, r := range c.call(x, s.clone(), n, m.rets[0]) {
									good := false
									if a.m == "Buckets" {
										good = r.st.isNil(a.v) == 1 && r.st.isNil(r.rets[0]) == 1 ||
											r.st.isNil(a.v) == -1 && r.st.isNil(r.rets[0]) == -1 && c.sameList(r.st, r.rets[0], a.v)
									} else {
										good = c.sameOptional(r.st, r.rets[0], a.v)
									}
									c.oblige("reads-back", n, good, func() string {
										return valString(r.rets[0]) + " for " + valString(a.v) + "\n" + c.path(r.st)
									})
								}
							}
						}
					}
				}
			}
		}
		c.min["reads-back"] = 3
		c.min["no-error"] = 1
		c.absorb(x)
	})
}

var consensusTimes = []struct {
	typ    string
	ctor   string
	fields int
}{
	{"util.LedgerTime", "util.NewLedgerTime", 1}, // epoch
	{"util.RaftTime", "util.NewRaftTime", 3},     // term, milliseconds, count
}

// consTime makes a consensus time of arbitrary fields
func (c *Check) consTime(x *Exec, st *State, name, ctor string, n int) (VPtr, []Lin, *State) {
	var args []Value
	var ls []Lin
	for i := 0; i < n; i++ {
		v := c.sym(fmt.Sprintf("%s.%d", name, i), types.Typ[types.Uint32])
		args = append(args, v)
		ls = append(ls, intOf(v))
	}
	for _, o := range c.call(x, st, ctor, args...) {
		if p, ok := o.rets[0].(VPtr); ok {
			return p, ls, o.st
		}
	}
	panic(undecided{ctor + " makes no object"})
}

func init() {
	register("W05", "abstract interpretation of the byte form of each consensus time with arbitrary fields, followed by arbitrary bytes, read back by the reader of consensus times", func(c *Check) {
		x := newExec(c.r)
		for _, k := range consensusTimes {
			p, _, st := c.consTime(x, newState(), "time", k.ctor, k.fields)
			T := c.r.typ(k.typ)
			for _, o := range c.call(x, st, k.typ+".Buf", p) {
				buf, ok := c.followed(o.st, o.rets[0])
				if !ok {
					c.fail("reads-back", k.typ, "written as %s", valString(o.rets[0]))
					continue
				}
				for _, d := range c.call(x, o.st, "util.NewConsensusTime", buf) {
					s := d.st
					bad := func() string { return valStrings(d.rets) + "\n" + c.path(s) }
					if !c.oblige("no-error", k.typ, s.isNil(d.rets[1]) == 1, bad) {
						continue
					}
					f, ok := d.rets[0].(VIface)
					if !c.oblige("same-kind", k.typ, ok && types.Identical(f.T, types.NewPointer(T)), bad) {
						continue
					}
					c.oblige("reads-back", k.typ, s.eqVal(s.load(f.V.(VPtr)), s.load(p)), bad)
				}
			}
		}
		c.min["reads-back"] = 2
		c.absorb(x)
	})

	register("O01", "abstract interpretation of the six comparisons of each kind of consensus time, on two times with arbitrary fields, in every case of how their fields are ordered; and on a time and anything that is not of its kind", func(c *Check) {
		x := newExec(c.r)
		for _, k := range consensusTimes {
			T := types.NewPointer(c.r.typ(k.typ))
			a, as, st := c.consTime(x, newState(), "a", k.ctor, k.fields)
			b, bs, st := c.consTime(x, st, "b", k.ctor, k.fields)
			type cas struct {
				st  *State
				cmp int
			}
			cases := []cas{{st, 0}}
			for f := range as {
				var n []cas
				for _, s := range cases {
					d := as[f].sub(bs[f])
					for _, v := range []struct {
						c   *Cond
						cmp int
					}{{condGE(d.addc(-1)), 1}, {condGE(d.neg().addc(-1)), -1}, {condEQ(d), 0}} {
						for _, g := range given(s.st.clone(), v.c) {
							cmp := s.cmp
							if cmp == 0 {
								cmp = v.cmp
							}
							n = append(n, cas{g, cmp})
						}
					}
				}
				cases = n
			}
			for _, m := range []struct {
				name string
				want [3]bool // less, equal, greater
			}{
				{"GT", [3]bool{false, false, true}}, {"GE", [3]bool{false, true, true}}, {"EQ", [3]bool{false, true, false}},
				{"NE", [3]bool{true, false, true}}, {"LT", [3]bool{true, false, false}}, {"LE", [3]bool{true, true, false}},
			} {
				fn := k.typ + "." + m.name
				for _, s := range cases {
					outs := c.call(x, s.st.clone(), fn, a, VIface{T: T, V: b})
					for _, o := range outs {
						c.oblige("agrees-with-order", fn, o.st.isNil(o.rets[1]) == 1 && c.isTrue(o.st, o.rets[0], m.want[s.cmp+1]), func() string {
							return valStrings(o.rets) + fmt.Sprintf(" where the comparison is %d\n", s.cmp) + c.path(o.st)
						})
					}
					c.oblige("answers", fn, len(outs) > 0, nil)
				}
				// anything else
				iface := c.sym("other", c.r.typ("util.IConsensusTime"))
				for _, g := range given(newState(), condType(iface.(VSym).Tm, T).not()) {
					for _, o := range c.call(x, g, fn, a, iface) {
						c.oblige("other-kind-is-an-error", fn, o.st.isNil(o.rets[1]) == -1, func() string { return valStrings(o.rets) + "\n" + c.path(o.st) })
					}
				}
			}
		}
		c.min["agrees-with-order"] = 12
		c.min["other-kind-is-an-error"] = 12
		c.absorb(x)
	})
}
