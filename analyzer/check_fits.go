package main

// E06: encoding fails only if something does not fit.

import (
	"fmt"
)

// encodeFailed: the path has a component that could not be encoded
func encodeFailed(st *State) bool {
	for _, e := range calls(st) {
		if n := e.fn; len(n) > 7 && n[len(n)-7:] == ".Encode" && e.failed(st) {
			return true
		}
	}
	return false
}

func init() {
	register("E06", "abstract interpretation of every encoder on objects of up to three parts of any length: on each path that ends with an error a component could not be encoded, or that everything is within the documented maxima is refuted", func(c *Check) {
		// each is a total with its maximum; needless means all of them hold
		needless := func(rule, name string, st *State, bounds ...Lin) {
			c.oblige(rule, name, encodeFailed(st) || func() bool {
				g := st.clone()
				for _, b := range bounds {
					g.push(b, false)
					if g.infeasibleOf(b) {
						return true
					}
				}
				return g.infeasible()
			}(), func() string { return "an error although everything fits\n" + c.path(st) })
		}
		varchar := func(b VSlice) Lin {
			return content(Seg{K: 'u', X: sliceLen(b)}).length().add(sliceLen(b))
		}
		limit := func(max int64, ls ...Lin) Lin {
			t := LC(max)
			for _, l := range ls {
				t = t.sub(l)
			}
			return t
		}
		count := func(n int) Lin { return content(Seg{K: 'u', X: LC(int64(n))}).length() }
		max := 3
		encoded := func(x *Exec, st *State, typ, name string, p VPtr, bounds ...Lin) {
			good := 0
			for _, o := range c.call(x, st, typ+".Encode", p, VNil{}) {
				if o.st.isNil(o.rets[0]) == 1 {
					good++
					continue
				}
				needless("fits", name, o.st, bounds...)
			}
			c.oblige("can-succeed", name, good > 0, nil)
		}
		// keys
		for n := 0; n <= max; n++ {
			x := newExec(c.r)
			x.explore = max + 3
			name := fmt.Sprintf("util.Key of %d sub keys", n)
			for _, o := range c.call(x, newState(), "util.NewKey") {
				p, ok := o.rets[0].(VPtr)
				if !ok {
					continue
				}
				states := []*State{o.st}
				sizes := []Lin{count(n)}
				for i := 0; i < n; i++ {
					b := c.symBytes(fmt.Sprintf("sub%d", i))
					for _, st := range states {
						st.push(sliceLen(b).addc(-1), false) // an empty sub key is no sub key
					}
					sizes = append(sizes, varchar(b))
					var next []*State
					for _, st := range states {
						for _, a := range c.call(x, st, "util.Key.Add", p, b) {
							next = append(next, a.st)
						}
					}
					states = next
				}
				for _, st := range states {
					encoded(x, st, "util.Key", name, p, limit(4*1024, sizes...))
				}
			}
			c.absorb(x)
		}
		// schemes
		for n := -1; n < max; n++ {
			for w := 0; w < 4; w++ {
				x := newExec(c.r)
				x.explore = max + 3
				name := fmt.Sprintf("util.Scheme of %d buckets", n)
				for _, o := range c.call(x, newState(), "util.NewScheme") {
					p, ok := o.rets[0].(VPtr)
					if !ok {
						continue
					}
					st := o.st
					sizes := []Lin{LC(1)}
					for i, f := range []string{"domain", "tablet"} {
						if w&(1<<uint(i)) == 0 {
							continue
						}
						b := c.symBytes(f)
						cd := nilCond(st, b)
						st.facts[cd.k] = fact{cd, false}
						st.setField(p, f, b)
						sizes = append(sizes, varchar(b))
						name += " with " + f
					}
					if n >= 0 {
						sizes = append(sizes, count(n))
						var segs []Seg
						for i := 0; i < n; i++ {
							b := c.symBytes(fmt.Sprintf("bucket%d", i))
							sizes = append(sizes, varchar(b))
							segs = append(segs, Seg{K: 'e', V: b})
						}
						l := LC(int64(n))
						st.setField(p, "buckets", st.newSlice("buckets", byteSlice, content(segs...), &l))
					}
					encoded(x, st, "util.Scheme", name, p, limit(1024, sizes...))
				}
				c.absorb(x)
			}
		}
		// values
		x := newExec(c.r)
		x.explore = max + 3
		data := c.symBytes("data")
		for _, o := range c.call(x, newState(), "util.NewPrimitive", data) {
			if p, ok := o.rets[0].(VPtr); ok {
				encoded(x, o.st, "util.Primitive", "util.Primitive", p, limit(65535, sliceLen(data)))
			}
		}
		c.absorb(x)
		for _, k := range []struct{ typ, ctor, iface string }{
			{"util.ValueArray", "util.NewValueArray", "util.IValue"},
			{"util.RecordList", "util.NewRecordList", "util.IRecord"},
		} {
			for n := 0; n <= max; n++ {
				x := newExec(c.r)
				x.explore = max + 3
				name := fmt.Sprintf("%s of %d", k.typ, n)
				for _, o := range c.call(x, newState(), k.ctor) {
					p, ok := o.rets[0].(VPtr)
					if !ok {
						continue
					}
					states := []*State{o.st}
					var es []VSym
					for i := 0; i < n; i++ {
						v := c.sym(fmt.Sprintf("element%d", i), c.r.typ(k.iface)).(VSym)
						es = append(es, v)
						var next []*State
						for _, st := range states {
							cd := condNil(v.Tm)
							st.facts[cd.k] = fact{cd, false}
							for _, a := range c.call(x, st, k.typ+".Append", p, v) {
								next = append(next, a.st)
							}
						}
						states = next
					}
					for _, st := range states {
						var sizes []Lin
						for _, v := range es {
							b, ok := c.method(x, st, k.iface, "Buf", v)[0].(VSlice)
							if ok {
								sizes = append(sizes, sliceLen(b))
							}
						}
						encoded(x, st, k.typ, name, p, limit(65535, sizes...))
					}
				}
				c.absorb(x)
			}
		}
		// records
		x = newExec(c.r)
		x.explore = max + 3
		limits := map[string]int64{"Key": 4 * 1024, "Value": 56 * 1024, "Scheme": 1024}
		good := 0
		for _, rc := range c.recordCases(x) {
			for _, o := range c.call(x, rc.st.clone(), "util.Record.Encode", rc.p, VNil{}) {
				if o.st.isNil(o.rets[0]) == 1 {
					good++
					continue
				}
				var bounds []Lin
				for i, k := range recordParts {
					if rc.part[i] == nil {
						continue
					}
					if b, ok := c.method(x, o.st, k.iface, "Buf", rc.part[i])[0].(VSlice); ok {
						bounds = append(bounds, limit(limits[k.name], sliceLen(b)))
					}
				}
				needless("fits", "util.Record", o.st, bounds...)
			}
		}
		c.oblige("can-succeed", "util.Record", good > 0, nil)
		c.absorb(x)
		c.min["fits"] = 15
		c.min["can-succeed"] = 20
	})
}
