package main

// W03: records.

import (
	"fmt"
)

// component sets one part of a record under construction
type component struct {
	name   string // accessor
	setter string
	iface  string
	absent string // method that tells whether the component counts as absent
	typ    string // what it is read back as
}

var recordParts = []component{
	{"Key", "SetKey", "util.IKey", "IsEmpty", "util.MappedKey"},
	{"Value", "SetValue", "util.IValue", "IsNil", "util.StandardMappedValue"},
	{"Scheme", "SetScheme", "util.IValue", "IsNil", "util.StandardMappedValue"},
}

// recordCase is a record under construction, and what it was given
type recordCase struct {
	st   *State
	p    VPtr
	name string
	part []Value // nil: absent or empty
	time *VPtr
	r, s *VPtr
}

// recordCases makes records with every combination of absent and empty parts
func (c *Check) recordCases(x *Exec) []recordCase {
	var cases []recordCase
	for _, o := range c.call(x, newState(), "util.NewRecord") {
		if p, ok := o.rets[0].(VPtr); ok {
			cases = append(cases, recordCase{st: o.st, p: p, part: make([]Value, len(recordParts))})
		}
	}
	for i, k := range recordParts {
		var n []recordCase
		v := c.sym(k.name, c.r.typ(k.iface)).(VSym)
		for _, b := range cases {
			n = append(n, b)
			for _, o := range c.call(x, func() *State {
				s := b.st.clone()
				cd := condNil(v.Tm)
				s.facts[cd.k] = fact{cd, false}
				return s
			}(), "util.Record."+k.setter, b.p, v) {
				rs := c.method(x, o.st, k.iface, k.absent, v)
				cd, ok := rs[0].(VBool)
				if !ok {
					panic(undecided{k.iface + "." + k.absent})
				}
				for _, empty := range []bool{false, true} {
					cc := cd.C
					if !empty {
						cc = cc.not()
					}
					for _, g := range given(o.st.clone(), cc) {
						m := b
						m.st = g
						m.part = append([]Value{}, b.part...)
						m.name += " " + k.name
						if !empty {
							m.part[i] = v
						} else {
							m.name += "(empty)"
						}
						n = append(n, m)
					}
				}
			}
		}
		cases = n
	}
	// timestamp
	var n []recordCase
	for _, b := range cases {
		n = append(n, b)
		g := b.st.clone()
		t := c.symObj(g, "time", "time.Time")
		for _, o := range c.call(x, g, "util.Record.SetTimestamp", b.p, t) {
			m := b
			m.st, m.time = o.st, &t
			m.name += " time"
			n = append(n, m)
		}
	}
	cases, n = n, nil
	for _, b := range cases {
		n = append(n, b)
		for _, half := range []bool{false, true} {
			g := b.st.clone()
			var ps []VPtr
			for _, nm := range []string{"R", "S"} {
				p := c.symObj(g, nm, "big.Int")
				v := LT(mkTerm("in:number" + nm))
				g.heap[p.Obj] = VInt{v}
				g.push(v, false)
				g.push(LB(pow2(256)).sub(v).addc(-1), false)
				ps = append(ps, p)
			}
			args := []Value{b.p, ps[0], ps[1]}
			m := b
			m.name += " signature"
			if half {
				args[2] = VNil{}
				m.name += "(half)"
			} else {
				m.r, m.s = &ps[0], &ps[1]
			}
			for _, o := range c.call(x, g, "util.Record.SetSignature", args...) {
				mm := m
				mm.st = o.st
				n = append(n, mm)
			}
		}
	}
	return n
}

func init() {
	register("W03", "abstract interpretation of the record encoder on records with every combination of absent, empty and present parts, each part opaque; the bytes it leaves, followed by arbitrary bytes, are given to the record decoder, and each part must be decoded from where its encoding was written", func(c *Check) {
		x := newExec(c.r)
		cases := c.recordCases(x)
		c.oblige("cases", "util.Record", len(cases) >= 27*2*3, func() string { return fmt.Sprint(len(cases), " cases") })
		for _, k := range cases {
			for n := range x.hooks {
				delete(x.hooks, n)
			}
			c.usesEncoded(x, "IKey", "IValue")
			c.encodedOn(x, k.st, "util.Record", k.p, func(st *State, buf, w VSlice) {
				for n := range x.hooks {
					delete(x.hooks, n)
				}
				c.readsBack(x, "util.NewMappedKey")
				c.readsBack(x, "util.NewStandardMappedValue")
				dec := "util.NewMappedRecord"
				for _, d := range c.call(x, st, dec, buf) {
					s := d.st
					bad := func() string {
						return k.name + ": " + valStrings(d.rets) + " for " + s.bytesOf(w).String() + "\n" + c.path(s)
					}
					if !c.oblige("no-error", dec, s.isNil(d.rets[2]) == 1, bad) {
						continue
					}
					// without a time there is no signature
					c.oblige("consumes-what-was-written", dec, s.eqL(intOf(d.rets[1]), sliceLen(w)), bad)
					for i, q := range recordParts {
						acc := "util.MappedRecord." + q.name
						for _, r := range c.call(x, s.clone(), acc, d.rets[0]) {
							good := false
							if k.part[i] == nil {
								good = r.st.isNil(r.rets[0]) == 1
							} else {
								b := c.method(x, r.st, q.iface, "Buf", k.part[i])[0]
								good = c.holds(r.st, r.rets[0], q.typ, b)
							}
							c.oblige("reads-back", acc, good, func() string { return k.name + ": " + valString(r.rets[0]) + "\n" + c.path(r.st) })
						}
					}
					for _, r := range c.call(x, s.clone(), "util.MappedRecord.Timestamp", d.rets[0]) {
						good := false
						if k.time == nil {
							good = r.st.isNil(r.rets[0]) == 1
						} else if p, ok := r.rets[0].(VPtr); ok && r.st.isNil(p) == -1 {
							a, ok1 := x.unixNano(r.st, p)
							b, ok2 := x.unixNano(r.st, *k.time)
							good = ok1 && ok2 && r.st.eqL(a, b)
						}
						c.oblige("reads-back", "util.MappedRecord.Timestamp", good, func() string { return k.name + ": " + valString(r.rets[0]) + "\n" + c.path(r.st) })
					}
					for _, r := range c.call(x, s.clone(), "util.MappedRecord.Signature", d.rets[0]) {
						good := false
						if k.time == nil || k.r == nil {
							good = r.st.isNil(r.rets[0]) == 1 && r.st.isNil(r.rets[1]) == 1
						} else if r.st.isNil(r.rets[0]) == -1 && r.st.isNil(r.rets[1]) == -1 {
							good = r.st.eqL(x.bigInt(r.st, r.rets[0], nil), x.bigInt(r.st, *k.r, nil)) &&
								r.st.eqL(x.bigInt(r.st, r.rets[1], nil), x.bigInt(r.st, *k.s, nil))
						}
						c.oblige("reads-back", "util.MappedRecord.Signature", good, func() string { return k.name + ": " + valStrings(r.rets) + "\n" + c.path(r.st) })
					}
				}
			})
		}
		c.min["reads-back"] = 5
		c.min["encoded-before-use"] = 2
		c.min["starts-at-an-encoding"] = 2
		c.absorb(x)
	})
}
